#!/usr/bin/env python3
"""makes seeded/<id>/ from tools/seed/bugs/<id>.txt and checks it: builds, passes the tests, the
demonstration passes without and fails with the change.  mkseeded.py [id..]"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "tools", "seed")
REPO = os.environ.get("VERIF_REPO", "/repo")


def parse(path):
    head, *rest = re.split(r"^--- ", open(path).read(), flags=re.M)
    meta = {}
    for line in head.strip().split("\n"):
        if re.match(r"^(property|needs|breaks|race): ", line):
            k, v = line.split(": ", 1)
            meta[k] = v
        else:
            meta[k] += " " + line.strip()
    edits, demo, plain = [], None, False
    for part in rest:
        name, body = part.split("\n", 1)
        if name in ("demo", "plain"):
            demo, plain = body, name == "plain"
        else:
            for m in re.finditer(r"^<<<<\n(.*?)^====\n(.*?)^>>>>\n", body, flags=re.M | re.S):
                edits.append((name, m.group(1), m.group(2)))
    return meta, edits, demo, plain


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", **kw)


def make(bid):
    meta, edits, demo, plain = parse(os.path.join(SEED, "bugs", bid + ".txt"))
    out = os.path.join(ROOT, "seeded", bid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        sh(f"git clone -q {REPO} {w}", "/")
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(a) == 1, (bid, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        assert not sh("gofmt -l . ", w).stdout.strip(), (bid, "gofmt", sh("gofmt -d .", w).stdout[:800])
        d = sh("git diff", w).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        open(os.path.join(out, "demo_test.go"), "w").write(demo)
        if not plain:
            shutil.copy(os.path.join(SEED, "net_test.go"), out)
        d = open(os.path.join(SEED, "demo.sh")).read()
        if "race" in meta:
            d = d.replace("go test -c", "CGO_ENABLED=1 go test -race -c")
        open(os.path.join(out, "demo.sh"), "w").write(d)
        json.dump(dict(property=meta["property"], needs=meta["needs"], what_it_breaks=meta["breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        res = []
        r = sh("go build ./... && go vet . && GOFLAGS=-mod=mod GOWORK=off go test ./... 2>&1 | grep -v 'no test files' | tail -5", w)
        res.append("tests " + ("ok" if r.returncode == 0 and "FAIL" not in r.stdout else "FAIL " + r.stdout[-600:] + r.stderr[-600:]))
        r = sh(f"bash {out}/demo.sh", w)
        res.append(f"with: {r.returncode} {r.stdout.strip()[-200:]!r}")
        sh("git checkout -- .", w)
        r0 = sh(f"bash {out}/demo.sh", w)
        res.append(f"without: {r0.returncode} {r0.stdout.strip()[-(100 if r0.returncode == 0 else 1500):]}")
        good = res[0] == "tests ok" and r.returncode and not r0.returncode and "[build failed]" not in r.stdout
        print("GOOD" if good else "BAD ", bid, " | ".join(res), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for b in sys.argv[1:] or sorted(f[:-4] for f in os.listdir(os.path.join(SEED, "bugs")) if f.endswith(".txt")):
    make(b)
