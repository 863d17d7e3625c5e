"""writes MANIFEST.json from the registered checks"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    if p not in checks.CHECKS:
        continue
    c = checks.CHECKS[p]
    out.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                    evidence_file=f"evidence/{p}.json", technique=c.technique, level="model_checking", level_note=c.note))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="verif", enable="go test -c -tags verif (lib/core.py build)", source_commits=hook),
         checks=out,
         not_applicable=[dict(property=p, reason="the check is not built yet") for p in props if p not in checks.CHECKS],
         notes="TLA+ with TLC; see DESIGN.md. python3 check.py replay <file> runs a reported scenario again.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
