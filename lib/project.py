"""Projection of recorded events to what the trace specifications read.

Nothing is judged here: events are selected, renamed and scaled (time unit
100 microseconds)."""


def tm(e):
    return e["t"] // 100


def ended(run):
    """channels whose end was announced"""
    return {e["ch"] for e in run.events if e["e"] == "rerr" and e["ch"]}


def first_level(run):
    """per receiving channel the level at which its messages are counted: its own
    reader if it has one"""
    lv = {}
    for o in run.sc["ops"]:
        if o["op"] == "connect" and o.get("reader", "none") != "none":
            lv[o["ch"]] = "c"
    return lv


def stream(run, need_fin=True):
    """calls and hand-overs, numbered per sending channel in the order of the calls"""
    lv = first_level(run)
    ev, rank, cnt, pend = [], {}, {}, {}
    s, r = [], []
    gone = ended(run)
    src_of = {}

    def see(lst, x):
        if x not in lst:
            lst.append(x)

    for e in run.events:
        k = e["e"]
        if k == "call" and e["c"] == "write":
            ch = e["ch"]
            see(s, ch)
            cnt[ch] = cnt.get(ch, 0) + 1
            rank[ch, e["m"]] = cnt[ch]
            p = pend.setdefault(ch, [])
            ev.append(dict(e="W", ch=ch, m=cnt[ch], len=e["len"], pend=list(p)))
            p.append(cnt[ch])
        elif k == "ret" and e["c"] == "write":
            ch = e["ch"]
            m = rank[ch, e["m"]]
            pend[ch].remove(m)
            ev.append(dict(e="R", ch=ch, m=m, id=e["id"], ok=e["err"] == ""))
        elif k == "msg" and e["lvl"] == lv.get(e["ch"], "g"):
            see(r, e["ch"])
            if e["src"]:
                src_of.setdefault(e["src"], e["ch"])
            c = [[x, rank[x, m]] for x, m in e["alt"] if (x, m) in rank] if e.get("alt") else [[e["src"] or "?", rank.get((e["src"], e["m"]), 0)]]
            ev.append(dict(e="M", r=e["ch"], c=c, ok=e["ok"], id=e["id"], len=e["len"]))
        elif k == "mark" and e["text"].startswith("fin:"):
            ch = e["text"][4:]
            if ch in s and not gone and not pend.get(ch):
                ev.append(dict(e="F", ch=ch))
        elif k == "kept":
            ev.append(dict(e="K", n=e["altered"]))
        elif k == "bulk":
            ev.append(dict(e="B", n=e["n"], errs=e["errs"], got=e["got"], bad=e["bad"], miss=run.sc.get("miss", -1), at=e["refused"]))
    return dict(id=run.sc["id"], cf=dict(s=s, r=r), ev=ev)


def channels(run):
    """(endpoint, peer, channel, client?) in the order of appearance"""
    out = []
    for e in run.events:
        if e["e"] == "conncb" and e["ch"]:
            out.append((e["ep"], e["peer"], e["ch"], False, e["t"]))
        elif e["e"] == "ret" and e["c"] == "connect" and e["err"] == "":
            out.append((e["ep"], e["to"], e["ch"], True, e["t"]))
    return out


def conn(run, rtt=0, figures=False):
    """packets of every direction of every connection (one connection per pair of endpoints)"""
    d, rev, s_of, r_of = {}, [], {}, {}
    for ep, peer, ch, cl, t in channels(run):
        for a, b in ((ep, peer), (peer, ep)):
            if (a, b) not in d:
                d[a, b] = len(d) + 1
        s_of.setdefault(ch, d[ep, peer])
        r_of.setdefault(ch, d[peer, ep])
    rev = [0] * len(d)
    for (a, b), i in d.items():
        rev[i - 1] = d[b, a]
    lv = first_level(run)
    # how calls returned, and the number of their last packet
    ret = {}
    ends = {}
    plen = {}
    for e in run.events:
        if e["e"] == "ret" and e["c"] == "write":
            ret[e["ch"], e["m"]] = (e["err"] == "", e["id"])
        elif e["e"] == "out":
            plen[e["n"]] = e["len"]
            if e["k"] == "D" and e["s"] == 0 and (e["ep"], e["to"]) in d:
                ends.setdefault(d[e["ep"], e["to"]], set()).add(e["id"])
    ends = {k: sorted(v) for k, v in ends.items()}

    def lid(dd, first):
        for x in ends.get(dd, []):
            if x >= first:
                return x
        return -1

    ev, seen, gone = [], set(), set()
    open_ = {}
    up = set()
    cfree = any(o["op"] == "connect" for o in run.sc["ops"])
    for e in (run.events if not figures else with_figures(run)):
        k = e["e"]
        t = tm(e)
        if k == "conncb" and e["ch"] in s_of or k == "ret" and e["c"] == "connect" and e["err"] == "":
            ch = e["ch"]
            if ch not in up:
                up.add(ch)
                open_.setdefault(e["ep"], set()).add(ch)
                ev.append(dict(e="H", d=s_of[ch], t=t))
        elif k == "call" and e["c"] == "write":
            dd = s_of.get(e["ch"])
            if dd:
                ok, i = ret.get((e["ch"], e["m"]), (True, -1))
                ev.append(dict(e="W", d=dd, m=e["m"], ok=ok, lid=lid(dd, i) if ok and i >= 0 else -1, cb=e["cb"],
                               tmo=(e["tmo"] or 5000) * 10, t=t))
        elif k == "ret" and e["c"] == "write":
            dd = s_of.get(e["ch"])
            if dd:
                ev.append(dict(e="R", d=dd, m=e["m"], ok=e["err"] == "", t=t))
        elif k == "dlv":
            dd = s_of.get(e["ch"])
            if dd:
                ev.append(dict(e="DL", d=dd, m=e["m"], ok=e["err"] == "", t=t))
        elif k == "out":
            a, b = e["ep"], e["to"]
            if e["k"] == "D" and (a, b) in d:
                i = d[a, b]
                ev.append(dict(e="O", d=i, id=e["id"], s=e["s"], len=e["len"], h=e.get("h", ""), lk=e.get("leak", False),
                               first=(i, e["id"]) not in seen, t=t))
                seen.add((i, e["id"]))
            elif e["k"] == "A" and (b, a) in d:
                ev.append(dict(e="AO", d=d[b, a], id=e["id"], t=t))
            if e["k"] != "D" and e.get("leak"):
                ev.append(dict(e="P", lk=True, t=t))
        elif k == "in":
            a, b = e["from"], e["ep"]
            if (a, b) not in d:
                continue
            if e["k"] == "D":
                ev.append(dict(e="I", d=d[a, b], id=e["id"], s=e["s"], x=e["x"] not in ("", "rep"),
                               big=plen.get(e["n"], 0) - 4 > 64, t=t))
            elif e["k"] == "A":
                ev.append(dict(e="AI", d=d[b, a], id=e["id"], t=t))
            elif e["k"] == "X":
                ev.append(dict(e="K", d=d[b, a], t=t))
            elif e["k"] in ("PI", "PO"):
                ev.append(dict(e="H", d=d[b, a], t=t))
        elif k == "msg" and e["ch"] in r_of and e["lvl"] == lv.get(e["ch"], "g"):
            ev.append(dict(e="M", d=r_of[e["ch"]], ok=e["ok"], t=t))
        elif k == "call" and e["c"] == "close" and e["ch"] in s_of:
            ev.append(dict(e="K", d=s_of[e["ch"]], t=t))
        elif k == "call" and e["c"] == "closeep":
            for (a, b), i in d.items():
                if a == e["ep"]:
                    ev.append(dict(e="K", d=i, t=t))
        elif k == "rerr" and e["ch"] in s_of and e["ch"] not in gone:
            gone.add(e["ch"])
            for s in open_.values():
                s.discard(e["ch"])
            ev.append(dict(e="E", d=s_of[e["ch"]], t=t))
            ev.append(dict(e="X", d=r_of[e["ch"]], t=t))
        elif k == "stat" and (e["ep"], e["peer"]) in d:
            ev.append(dict(e="S", d=d[e["ep"], e["peer"]], send=e["send"], rsnd=e["rsnd"], ack=e["ack"], ackd=e["ackd"],
                           recv=e["recv"], drop=e["drop"], sq=e["sq"], rq=e["rq"], tt=e["tt"] // 100, rta=e["rta"], ssec=e["ssec"], rsec=e["rsec"], t=t))
        elif k == "statn" and not e["cb"]:
            ev.append(dict(e="SN", n=e["n"], open=len(open_.get(e["ep"], ())), t=t))
        elif k == "mark" and e["text"].startswith("fin:"):
            ch = e["text"][4:]
            if ch in s_of and not gone:
                ev.append(dict(e="F", d=s_of[ch], t=t))
        elif k == "bulk":
            ev.append(dict(e="B", n=e["n"], got=e["got"], bad=e["bad"], alike=e["alike"], t=t))
        elif k == "end":
            ev.append(dict(e="Z", t=t))
    return dict(id=run.sc["id"], cf=dict(n=len(d), rev=rev, rtt=rtt), ev=ev)


COLS = ("send", "ssec", "rsnd", "ack", "ackd", "recv", "rsec", "drop", "sq", "rq", "rta")


def with_figures(run):
    """the rows of printed frames as statistic, where nothing else happened at the endpoint at that time"""
    made = {e["ep"]: e["t"] for e in run.events if e["e"] == "new"}
    at = []
    for e in run.events:
        if e["e"] != "frame" or e["ep"] not in made:
            continue
        t = made[e["ep"]] + e["run"]
        if not 0 <= e["t"] - t <= 10000 or any(abs(x["t"] - t) <= 1000 for x in run.events if x["e"] not in ("frame", "printing", "scn", "ret", "call", "mark")
                                               or x["e"] in ("ret", "call") and x["c"] in ("write", "close", "closeep", "connect")):
            continue
        for r in e["rows"]:
            v = dict(zip(COLS, r["v"]))
            at.append(dict(e="stat", ep=e["ep"], peer=r["peer"], tt=r["tt"], t=t, **v))
    out = []
    for e in run.events:
        while at and at[0]["t"] < e["t"]:
            out.append(at.pop(0))
        out.append(e)
    return out


def screen(run):
    """the printed statistic: when frames were printed and what was in them"""
    eps = [e["ep"] for e in run.events if e["e"] == "new" and e["err"] == ""]
    num = {x: i + 1 for i, x in enumerate(eps)}
    rank = {a: i for i, a in enumerate(sorted({r["addr"] for e in run.events if e["e"] == "frame" for r in e["rows"]}))}
    slow = max([o["us"] for o in run.sc["ops"] if o["op"] == "slowaddr"] + [0]) // 100
    ev, late = [], []
    cnt, where = {}, {}

    def change(ch, ep, peer, n, t):
        if n > 0 and ch in where or n < 0 and ch not in where:
            return
        if n > 0:
            where[ch] = (ep, peer)
        else:
            where.pop(ch)
        cnt[ep, peer] = cnt.get((ep, peer), 0) + n
        ev.append(dict(e="CH", e_=num[ep], p=num[peer], n=cnt[ep, peer], t=t))
        ev.append(dict(e="LG", e_=num[ep], new=n > 0, p=num[peer], t=t))

    for e in run.events:
        k, t = e["e"], tm(e)
        while late and late[0]["t"] < t:
            ev.append(late.pop(0))
        if k == "new" and e["err"] == "":
            ev.append(dict(e="NEW", e_=num[e["ep"]], t=t))
            if e["stat"]:
                ev.append(dict(e="ON", e_=num[e["ep"]], t=t))
        elif k == "call" and e["c"] == "print":
            ev.append(dict(e="ON", e_=num[e["ep"]], t=t))
        elif k == "call" and e["c"] in ("noprint", "closeep"):
            ev.append(dict(e="OFFC", e_=num[e["ep"]], t=t))
        elif k == "ret" and e["c"] in ("noprint", "closeep"):
            ev.append(dict(e="OFF", e_=num[e["ep"]], t=t))
        elif k == "printing":
            ev.append(dict(e="RUN", e_=num[e["ep"]], v=e["v"], t=t))
        elif k == "minilog":
            ev.append(dict(e="ML", e_=num[e["ep"]], v=e["v"], t=t))
        elif k == "conncb":
            change(e["ch"], e["ep"], e["peer"], 1, t)
        elif k == "ret" and e["c"] == "connect" and e["err"] == "":
            change(e["ch"], e["ep"], e["to"], 1, t)
        elif k == "rerr" and e["ch"] in where:
            change(e["ch"], *where[e["ch"]], -1, t)
        elif k == "frame":
            i = num.get(e["ep"], 0)
            ev.append(dict(e="FT", e_=i, t=t))
            late.append(dict(e="FR", e_=i, f=t, t=t + 150, run=e["run"] // 100, odd=e["odd"] + (i == 0), tot=e["tot"],
                             rows=[dict(k=rank[r["addr"]], p=num.get(r["peer"], 0), v=r["v"]) for r in e["rows"]],
                             msgs=[[m[0] // 100, m[1], num.get(m[2], 0)] for m in e["msgs"]]))
        elif k == "newbad":
            ev.append(dict(e="NB", ok=e["ok"], t=t))
        elif k == "end":
            ev += [dict(x, t=t) for x in late]
            ev.append(dict(e="Z", t=t))
    for x in ev:
        if "e_" in x:
            x["ep"] = x.pop("e_")
    return dict(id=run.sc["id"], cf=dict(ep=eps, slow=slow), ev=ev)


SOON = 4000  # 400 ms


def prompt(run, att):
    """attempts nothing is in the way of: whatever is sent for them arrives, soon, nothing of other
    attempts between the two arrives meanwhile, both endpoints are open and not kept busy"""
    evs = run.events
    busy = any(o["op"] in ("sleep", "connect", "closeep", "await") for b in run.sc.get("on", []) for o in b["do"])
    eps = {}
    for e in evs:
        if e["e"] == "call" and e["c"] == "closeep":
            eps.setdefault(e["ep"], tm(e))
    names = {o["ep"] for o in run.sc["ops"] if o["op"] == "new"}
    ret = {e["ch"]: tm(e) for e in evs if e["e"] == "ret" and e["c"] == "connect"}
    HS = ("C1", "C2", "C3", "C4")
    ins = {}
    for e in evs:
        if e["e"] == "in" and e["k"] in HS and e["x"] in ("", "dup"):
            ins.setdefault(e["n"], tm(e))
    out = []
    for i, a in enumerate(att):
        pair = {a["own"], a["peer"]}
        end = ret.get(a["ch"])
        ok = not busy and end is not None and a["own"] != a["peer"] and pair <= names
        ok = ok and all(eps.get(x, 1 << 60) > end for x in pair)
        for j, b in enumerate(att):
            if j != i and {b["own"], b["peer"]} == pair and b["t"] <= end and ret.get(b["ch"], 1 << 60) >= a["t"]:
                ok = False
        if ok:
            for e in evs:
                if e["k" if "k" in e else "e"] not in HS or not a["t"] <= tm(e) <= end:
                    continue
                if e["e"] == "out" and e["uu"] == a["uu"] and {e["ep"], e["to"]} == pair:
                    ok = ok and ins.get(e["n"], 1 << 60) <= tm(e) + SOON
                elif e["e"] == "in" and e["ep"] in pair and (e["uu"] != a["uu"] and e["from"] in pair or e["x"] not in ("", "dup")):
                    ok = False
        out.append(bool(ok))
    return out


def life(run, loss=True):
    """beginnings and ends of connections: calls, callbacks, handshake and other packets"""
    evs = run.events
    # attempts: a call and the first connect packet after it
    att, aidx, pend, name_u = [], {}, [], {}
    for e in evs:
        if e["e"] == "call" and e["c"] == "connect":
            pend.append(e)
        elif e["e"] == "out" and e["k"] == "C1" and e["uu"]:
            m = [x for x in pend if x["ep"] == e["ep"] and x["to"] == e["to"]]
            if m:
                pend.remove(m[0])
                att.append(dict(own=e["ep"], peer=e["to"], ch=m[0]["ch"], uu=e["uu"], t=tm(e)))
                aidx.setdefault(e["uu"], len(att))
                name_u[m[0]["ch"]] = len(att)
    smooth = prompt(run, att)
    # channels
    chs, cidx = [], {}
    greader = {o["ep"] for o in run.sc["ops"] if o["op"] == "new" and o.get("reader", "true") != "none"}
    creader = {o["ch"] for o in all_ops(run.sc) if o["op"] == "connect" and o.get("reader", "none") != "none"}
    lastc3 = {}

    def addch(name, ep, peer, u, cl):
        if name not in cidx:
            chs.append(dict(ep=ep, peer=peer, u=u, cl=cl, c=cl and name in creader, g=ep in greader))
            cidx[name] = len(chs)

    for e in evs:
        if e["e"] == "in" and e["k"] == "C3":
            lastc3[e["ep"], e["from"]] = e["uu"]
        elif e["e"] == "conncb":
            addch(e["ch"], e["ep"], e["peer"], aidx.get(lastc3.get((e["ep"], e["peer"]), 0), 0), False)
        elif e["e"] == "ret" and e["c"] == "connect" and e["err"] == "" and e["ch"] in name_u:
            addch(e["ch"], e["ep"], e["to"], name_u[e["ch"]], True)
    # results of calls, to be placed where the call began
    res, wres = {}, {}
    for e in evs:
        if "q" in e and e["e"] != "call":
            res[e["q"]] = e
        if e["e"] == "ret" and e["c"] == "write":
            wres[e["ch"], e["m"]] = e["err"] or "ok"
    lv = first_level(run)
    lv.update({c: "c" for c in creader})
    ev = []
    up = set()

    def see(name, t):
        if name in cidx and name not in up:
            up.add(name)
            ev.append(dict(e="UP", c=cidx[name], t=t))

    alive = ("D", "A", "PI", "PO")
    for e in evs:
        k, t = e["e"], tm(e)
        if k == "call":
            c = e["c"]
            if c == "connect" and e["ch"] in name_u:
                ev.append(dict(e="CALL", u=name_u[e["ch"]], t=t))
            elif c == "write" and e["ch"] in cidx:
                ev.append(dict(e="W", c=cidx[e["ch"]], r=wres.get((e["ch"], e["m"]), "none"), t=t))
            elif c == "close" and e["ch"] in cidx:
                ev.append(dict(e="CL", c=cidx[e["ch"]], t=t))
            elif c == "closeep":
                ev.append(dict(e="CE", ep=e["ep"], t=t))
            elif c == "destroyed" and e["ch"] in cidx and e["q"] in res:
                ev.append(dict(e="DS", c=cidx[e["ch"]], v=res[e["q"]]["v"], t=t))
            elif c == "chans" and e["q"] in res:
                l = res[e["q"]]["chs"]
                ev.append(dict(e="LS", ep=e["ep"], n=len(l), l=[cidx.get(x, 0) for x in l], t=t))
            elif c == "stat" and e["q"] in res:
                ev.append(dict(e="ST", ep=e["ep"], n=res[e["q"]]["n"], p=res[e["q"]]["peers"], t=t))
        elif k == "ret" and e["c"] == "connect" and e["ch"] in name_u:
            if e["err"] == "":
                see(e["ch"], t)
            ev.append(dict(e="RET", u=name_u[e["ch"]], ok=e["err"] == "", c=cidx.get(e["ch"], 0) if e["err"] == "" else 0, must=smooth[name_u[e["ch"]] - 1], t=t))
        elif k == "conncb":
            see(e["ch"], t)
            ev.append(dict(e="CB", c=cidx[e["ch"]], u=chs[cidx[e["ch"]] - 1]["u"], ok=e["err"] == "", t=t))
        elif k == "in" and e["x"] not in ("inj",):
            if e["k"] in ("C1", "C2", "C3", "C4"):
                u = aidx.get(e["uu"], 0)
                if e["k"] == "C4" and u and att[u - 1]["own"] == e["ep"]:
                    see(att[u - 1]["ch"], t)  # if the attempt is going to succeed
                ev.append(dict(e="H", k=int(e["k"][1]), u=aidx.get(e["uu"], 0), ep=e["ep"], p=e["from"], t=t))
            else:
                ev.append(dict(e="I", k=e["k"], ep=e["ep"], p=e["from"], live=e["k"] in alive and e["x"] in ("", "rep"), t=t))
        elif k == "in":
            ev.append(dict(e="I", k="junk", ep=e["ep"], p=e["from"], live=False, t=t))
        elif k == "out" and e["k"] in ("D", "A", "PI", "PO", "X"):
            ev.append(dict(e="O", k=e["k"], ep=e["ep"], p=e["to"], n=e["c"] if e["k"] == "D" else 0, t=t))
        elif k == "rerr":
            if e["err"] == "closed":
                ev.append(dict(e="GE", ep=e["ep"], lvl=e["lvl"], t=t))
            elif e["ch"] in cidx:
                see(e["ch"], t)
                ev.append(dict(e="E", c=cidx[e["ch"]], lvl=e["lvl"], ok=e["err"] == "destroyed", t=t))
            else:
                ev.append(dict(e="U", t=t))
        elif k == "msg":
            if e["ch"] in cidx:
                see(e["ch"], t)
                if e["lvl"] == lv.get(e["ch"], "g"):
                    ev.append(dict(e="M", c=cidx[e["ch"]], s=sorted({cidx.get(x, 0) for x, _ in e["alt"]} if e.get("alt") else {cidx.get(e["src"], 0)}), ok=e["ok"], t=t))
            else:
                ev.append(dict(e="U", t=t))
        elif k == "mark" and e["text"].startswith("fin:"):
            if e["text"][4:] in cidx:
                ev.append(dict(e="F", c=cidx[e["text"][4:]], t=t))
        elif k == "end":
            ev.append(dict(e="Z", t=t))
    # a server channel is there from the moment the callback runs: opposite ends
    opp = [0] * len(chs)
    for i, a in enumerate(chs):
        for j, b in enumerate(chs):
            if a["u"] and a["u"] == b["u"] and a["cl"] != b["cl"]:
                opp[i] = j + 1
    eps = [o["ep"] for o in run.sc["ops"] if o["op"] == "new"]
    return dict(id=run.sc["id"], cf=dict(ch=[dict(c, opp=opp[i]) for i, c in enumerate(chs)], att=att, ep=eps, g=sorted(greader), loss=loss), ev=ev)


def all_ops(sc):
    for o in sc["ops"]:
        yield o
    for b in sc.get("on", []):
        for o in b["do"]:
            yield o


def app(run):
    """what the application's callbacks are told and what it calls"""
    evs = run.events
    chs, cidx = [], {}
    greader = {o["ep"] for o in run.sc["ops"] if o["op"] == "new" and o.get("reader", "true") != "none"}
    creader = {o["ch"] for o in all_ops(run.sc) if o["op"] == "connect" and o.get("reader", "none") != "none"}
    failed = {e["ch"] for e in evs if e["e"] == "ret" and e["c"] == "connect" and e["err"] != ""}

    def addch(name, ep, peer, cl):
        if name and name not in cidx:
            chs.append(dict(ep=ep, peer=peer, cl=cl, c=cl and name in creader, g=ep in greader))
            cidx[name] = len(chs)

    for e in evs:  # every connecting call is a channel, so that early messages have one
        if e["e"] == "conncb":
            addch(e["ch"], e["ep"], e["peer"], False)
        elif e["e"] == "call" and e["c"] == "connect" and e["ch"] not in failed:
            addch(e["ch"], e["ep"], e["to"], True)
    opp = [0] * len(chs)
    for i, a in enumerate(chs):  # one connection per pair of endpoints
        for j, b in enumerate(chs):
            if a["ep"] == b["peer"] and a["peer"] == b["ep"] and a["cl"] != b["cl"]:
                opp[i] = j + 1
    rank, ev = {}, []
    okw = {(e["ch"], e["m"]): e["err"] == "" for e in evs if e["e"] == "ret" and e["c"] == "write"}
    cnt = {}
    for e in evs:
        k, t = e["e"], tm(e)
        if k == "call" and "q" in e:
            ev.append(dict(e="B", q=e["q"], t=t))
            if e["c"] == "write" and e["ch"] in cidx:
                if okw.get((e["ch"], e["m"]), True):
                    cnt[e["ch"]] = cnt.get(e["ch"], 0) + 1
                    rank[e["ch"], e["m"]] = cnt[e["ch"]]
                if okw.get((e["ch"], e["m"])):
                    ev.append(dict(e="W", c=cidx[e["ch"]], t=t))
            elif e["c"] == "close" and e["ch"] in cidx:
                i = cidx[e["ch"]]
                ev += [dict(e="K", c=x, t=t) for x in (i, opp[i - 1]) if x]
            elif e["c"] == "closeep":
                for i, c in enumerate(chs):
                    if e["ep"] in (c["ep"], c["peer"]):
                        ev.append(dict(e="K", c=i + 1, t=t))
        elif "q" in e and k in ("ret", "destroyed", "chans", "statn"):
            ev.append(dict(e="R", q=e["q"], t=t))
        elif k == "msg" and e["ch"] in cidx:
            ev.append(dict(e="M", c=cidx[e["ch"]], lvl=e["lvl"], ans=e["ans"], id=e["id"], len=e["len"], src=cidx.get(e["src"], 0) if e["ok"] else 0,
                           n=rank.get((e["src"], e["m"]), 0), t=t))
        elif k == "msg":
            ev.append(dict(e="?", t=t))
        elif k == "rerr" and e["ch"] in cidx:
            ev.append(dict(e="E", c=cidx[e["ch"]], t=t))
        elif k == "mark" and e["text"].startswith("why:") and e["text"][4:] in cidx:
            i = cidx[e["text"][4:]]
            ev += [dict(e="K", c=x, t=t) for x in (i, opp[i - 1]) if x]
        elif k == "mark" and e["text"].startswith("fin:") and e["text"][4:] in cidx:
            ev.append(dict(e="F", c=cidx[e["text"][4:]], t=t))
        elif k == "end":
            ev.append(dict(e="Z", t=t))
    return dict(id=run.sc["id"], cf=dict(ch=[dict(ep=c["ep"], c=c["c"], g=c["g"], opp=opp[i]) for i, c in enumerate(chs)]), ev=ev)


def iso(run):
    """connections, and what arrives that belongs to none"""
    evs = run.events
    dirty = set(run.sc.get("dirty", []))
    creader = {o["ch"] for o in all_ops(run.sc) if o["op"] == "connect" and o.get("reader", "none") != "none"}
    greader = {o["ep"] for o in run.sc["ops"] if o["op"] == "new" and o.get("reader", "true") != "none"}
    failed = {e["ch"] for e in evs if e["e"] == "ret" and e["c"] == "connect" and e["err"] != ""}
    chs, cidx, asked, seen = [], {}, {}, {}
    for e in evs:
        if e["e"] == "call" and e["c"] == "connect":
            asked[e["to"], e["ep"]] = asked.get((e["to"], e["ep"]), 0) + 1
            if e["ch"] not in failed:
                cidx[e["ch"]] = len(chs) + 1
                chs.append(dict(ep=e["ep"], peer=e["to"], cl=True, clean=e["ch"] not in dirty, legit=True, r=e["ch"] in creader or e["ep"] in greader))
        elif e["e"] == "conncb" and e["ch"] not in cidx:
            p = (e["ep"], e["peer"])
            seen[p] = seen.get(p, 0) + 1
            cidx[e["ch"]] = len(chs) + 1
            chs.append(dict(ep=e["ep"], peer=e["peer"], cl=False, clean=e["ch"] not in dirty, legit=seen[p] <= asked.get(p, 0), r=e["ep"] in greader))
    opp = [0] * len(chs)
    for i, a in enumerate(chs):
        for j, b in enumerate(chs):
            if a["ep"] == b["peer"] and a["peer"] == b["ep"] and a["cl"] != b["cl"] and not opp[i]:
                opp[i] = j + 1
    okw = {(e["ch"], e["m"]): e["err"] == "" for e in evs if e["e"] == "ret" and e["c"] == "write"}
    rank, cnt, ev = {}, {}, []
    for o in run.sc["ops"]:
        if o["op"] == "new" and o.get("nopun"):
            ev.append(dict(e="PS", ep=o["ep"], w=0, t=0))
    for e in evs:
        k, t = e["e"], tm(e)
        if k == "conncb":
            ev.append(dict(e="N", c=cidx[e["ch"]], t=t))
        elif k == "call" and e["c"] == "write" and e["ch"] in cidx and okw.get((e["ch"], e["m"]), True):
            cnt[e["ch"]] = cnt.get(e["ch"], 0) + 1
            rank[e["ch"], e["m"]] = cnt[e["ch"]]
            ev.append(dict(e="W", c=cidx[e["ch"]], t=t))
        elif k == "call" and e["c"] in ("close", "closeep"):
            for n, i in cidx.items():
                c = chs[i - 1]
                if e["c"] == "closeep" and e["ep"] in (c["ep"], c["peer"]):
                    ev.append(dict(e="K", c=i, t=t))
                elif e["c"] == "close" and e["ch"] == n:
                    ev += [dict(e="K", c=x, t=t) for x in (i, opp[i - 1]) if x]
        elif k == "msg":
            i = cidx.get(e["ch"], 0)
            if not i or e["lvl"] == ("c" if e["ch"] in creader else "g"):
                ev.append(dict(e="M", c=i, src=cidx.get(e["src"], 0) if e["ok"] else 0, n=rank.get((e["src"], e["m"]), 0), t=t))
        elif k == "rerr" and e["ch"] in cidx:
            ev.append(dict(e="E", c=cidx[e["ch"]], t=t))
        elif k == "in" and e["k"] == "PU":
            ev.append(dict(e="PI", ep=e["ep"], p=e["from"], h=e["h"], t=t))
        elif k == "in" and e["x"] in ("inj", "tam"):
            ev.append(dict(e="J", ep=e["ep"], p=e["from"], t=t))
        elif k == "punch":
            ev.append(dict(e="PB", ep=e["ep"], p=e["from"], h=e["h"], w=e["w"], t=t))
        elif k == "setpunch":
            ev.append(dict(e="PS", ep=e["ep"], w=e["w"], t=t))
        elif k == "mark" and e["text"].startswith("fin:") and e["text"][4:] in cidx:
            ev.append(dict(e="F", c=cidx[e["text"][4:]], t=t))
        elif k == "end":
            ev.append(dict(e="Z", t=t))
    eps = [o["ep"] for o in run.sc["ops"] if o["op"] == "new"]
    return dict(id=run.sc["id"], cf=dict(ch=[dict(ep=c["ep"], peer=c["peer"], opp=opp[i], clean=c["clean"], legit=c["legit"], r=c["r"]) for i, c in enumerate(chs)],
                                         ep=eps, fast=bool(run.sc.get("fast")), multi=bool(run.sc.get("multi"))), ev=ev)


def stream_conns(run):
    """stream connections and listeners: calls, results, and when a peer is heard of"""
    evs = run.events
    lis = {e["l"]: e["ep"] for e in evs if e["e"] == "ret" and e["c"] == "listen" and e["err"] == ""}
    lidx = {n: i + 1 for i, n in enumerate(lis)}
    byep = {ep: n for n, ep in lis.items()}
    # ends of connections: dialled or connected ones, and the ones a listener gets
    ends, eidx = [], {}
    won = {(e["c"], e.get("conn") or e.get("ch")) for e in evs if e["e"] == "ret" and e["c"] in ("dial", "connect") and e["err"] == ""}

    def add(name, ep, peer, raw, l):
        eidx[name] = len(ends) + 1
        ends.append(dict(name=name, ep=ep, p=peer, raw=raw, l=l, opp=0))
        return eidx[name]

    att, pend, uu = {}, [], {}
    for e in evs:
        if e["e"] == "call" and e["c"] in ("dial", "connect"):
            pend.append(e)
        elif e["e"] == "out" and e["k"] == "C1" and e["uu"] and e["uu"] not in uu:
            m = [x for x in pend if x["ep"] == e["ep"] and x["to"] == e["to"]]
            if m:
                pend.remove(m[0])
                uu[e["uu"]] = m[0]
                n = m[0].get("conn") or m[0].get("ch")
                att[e["uu"]] = add(n, e["ep"], e["to"], m[0]["c"] == "connect", 0)
        elif e["e"] == "conncb":
            add(e["ch"], e["ep"], e["peer"], True, 0)
    nacc, est = {}, {}
    for e in evs:
        if e["e"] == "out" and e["k"] == "C4" and e["uu"] in att and e["uu"] not in est:
            i = att[e["uu"]]
            if e["ep"] in byep:
                l = byep[e["ep"]]
                k = (l, e["to"])
                nacc[k] = nacc.get(k, 0) + 1
                j = add(f"{l}<{e['to']}#{nacc[k]}", e["ep"], e["to"], False, lidx[l])
            else:
                j = next((j for n, j in eidx.items() if ends[j - 1]["ep"] == e["ep"] and ends[j - 1]["p"] == e["to"] and ends[j - 1]["raw"]
                          and not ends[j - 1]["opp"] and "<" in n), 0)
            if j:
                ends[i - 1]["opp"], ends[j - 1]["opp"] = j, i
            est[e["uu"]] = j
    cur = {}   # (ep, peer) -> ends in use, latest last
    called = {e["q"]: e for e in evs if e["e"] == "call" and "q" in e}
    rets = {e["q"]: e for e in evs if e["e"] == "ret" and e["c"] == "nread"}
    ev = []
    rank = {}
    for e in evs:
        k, t = e["e"], tm(e)
        if k == "out" and e["k"] == "C4" and e["uu"] in est:
            j = est.pop(e["uu"])
            if j:
                cur.setdefault((e["ep"], e["to"]), []).append(j)
                ev.append(dict(e="EST", c=j, t=t))
        elif k == "in":
            if e["k"] == "C4" and e["uu"] in att:
                cur.setdefault((e["ep"], e["from"]), []).append(att[e["uu"]])
                ev.append(dict(e="EST", c=att[e["uu"]], t=t))
            elif e["k"] == "C2" and e["uu"] in att:
                ev += [dict(e="XR", c=c, t=t) for c in cur.get((e["ep"], e["from"]), [])]  # replaced
            elif e["k"] == "C3" and e["uu"] in att:
                ev += [dict(e="XR", c=c, t=t) for c in cur.get((e["ep"], e["from"]), [])]
            l = cur.get((e["ep"], e["from"]), [])
            if l:
                ev.append(dict(e="X" if e["k"] == "X" else "H", c=l[-1], t=t))
        elif k == "call" and e["c"] == "accept" and e["l"] in lidx:
            ev.append(dict(e="AC", q=e["q"], l=lidx[e["l"]], t=t))
        elif k == "ret" and e["c"] == "accept" and e["l"] in lidx:
            ev.append(dict(e="AR", q=e["q"], l=lidx[e["l"]], ok=e["err"] == "" and not e["nil"], c=eidx.get(e["conn"], 0),
                           adr=e["local"] == lis[e["l"]], t=t))
        elif k == "ret" and e["c"] == "dial":
            ev.append(dict(e="DR", c=eidx.get(e["conn"], 0), l=lidx.get(byep.get(e["to"]), 0), el=lidx.get(byep.get(e["ep"]), 0), ok=e["err"] == "" and not e["nil"], adr=e["peer"] == e["to"] and e["local"] == e["ep"], t=t))
        elif k == "call" and e["c"] in ("nwrite", "write"):
            n = e.get("conn") or e.get("ch")
            if n in eidx:
                ev.append(dict(e="W", q=e["q"], c=eidx[n], len=e["len"], t=t))
        elif k == "ret" and e["c"] in ("nwrite", "write"):
            n = e.get("conn") or e.get("ch")
            if n in eidx:
                full = called[e["q"]]["len"]
                ev.append(dict(e="WR", q=e["q"], c=eidx[n], ok=e["err"] == "", n=e["n"] if e["c"] == "nwrite" else full, t=t))
        elif k == "call" and e["c"] == "nread" and e["conn"] in eidx:
            x = rets.get(e["q"])   # what the read is going to return, for the reads whose order is not known
            res = dict(done=x is not None, n=x["n"], err=x["err"], ok=x["ok"], at=x["at"]) if x else dict(done=False, n=0, err="", ok=True, at=[])
            ev.append(dict(e="R", q=e["q"], c=eidx[e["conn"]], buf=e["buf"], res=res, t=t))
        elif k == "ret" and e["c"] == "nread" and e["conn"] in eidx:
            ev.append(dict(e="RR", q=e["q"], c=eidx[e["conn"]], t=t))
        elif k == "call" and e["c"] in ("nclose", "close"):
            n = e.get("conn") or e.get("ch")
            if n in eidx:
                ev.append(dict(e="CL", q=e["q"], c=eidx[n], t=t))
        elif k == "ret" and e["c"] in ("nclose", "close"):
            n = e.get("conn") or e.get("ch")
            if n in eidx:
                ev.append(dict(e="CR", q=e["q"], c=eidx[n], raw=e["c"] == "close", ok=e["err"] == "", t=t))
        elif k == "call" and e["c"] == "lclose" and e["l"] in lidx:
            ev.append(dict(e="LC", q=e["q"], l=lidx[e["l"]], t=t))
        elif k == "ret" and e["c"] == "lclose" and e["l"] in lidx:
            ev.append(dict(e="LR", q=e["q"], l=lidx[e["l"]], t=t))
        elif k == "laddr" and e["l"] in lidx:
            ev.append(dict(e="LA", ok=e["ep"] == lis[e["l"]], t=t))
        elif k == "mark" and e["text"].startswith("lost:"):
            for n in e["text"][5:].split(","):
                if n in eidx:
                    ev.append(dict(e="NL", c=eidx[n], t=t))
        elif k == "msg" and e["ch"] in eidx:
            ev.append(dict(e="M", c=eidx[e["ch"]], s=[[eidx.get(x, 0), m] for x, m in (e.get("alt") or [[e["src"], e["m"]]])], ok=e["ok"], t=t))
        elif k == "mark" and e["text"].startswith("fin:") and e["text"][4:] in eidx:
            ev.append(dict(e="F", c=eidx[e["text"][4:]], t=t))
        elif k == "end":
            ev.append(dict(e="Z", t=t))
    return dict(id=run.sc["id"], cf=dict(ends=[dict(raw=x["raw"], l=x["l"], el=lidx.get(byep.get(x["ep"]), 0), opp=x["opp"]) for x in ends], nl=len(lis), fast=bool(run.sc.get("fast")), multi=bool(run.sc.get("multi"))), ev=ev)


# ---------------------------------------------------------------- CallTrace


def calls(run, dflt=60000):
    """concurrent calls and what they reported, in the order of real time"""
    evs = run.events
    eps, readers, len0, sizes = [], [], [], [0]
    for e in evs:
        if e["e"] == "new" and e["err"] == "":
            eps.append(e["ep"])
            readers.append(e["reader"] not in ("", "none"))
            if e["maxlen"] not in sizes:
                sizes.append(e["maxlen"])
            len0.append(sizes.index(e["maxlen"]) + 1)
    raw = []  # (rt, what, record)
    opened = {}
    conns, cn = [], {}

    def conn(name, ep, opp=None):
        if name not in cn:
            conns.append(dict(ep=eps.index(ep) + 1, opp=0))
            cn[name] = len(conns)
        return cn[name]

    def pair(ep, to, ch):
        a = conn(ch, ep)
        b = 0
        if to in eps:
            b = conn(f"{to}<{ep}#1", to)
            conns[a - 1]["opp"], conns[b - 1]["opp"] = b, a
        return a, b

    recs = []  # (t0, t1, c, dict)
    stats = {}
    for i, e in enumerate(evs):
        k = e["e"]
        if k == "call":
            opened[e["q"]] = e
            if e["c"] == "connect":
                pair(e["ep"], e["to"], e["ch"])
        elif k in ("ret", "chans", "statn", "destroyed") and e.get("q") in opened:
            c = opened.pop(e["q"])
            d = dict(c)
            d.update({x: e[x] for x in e if x not in ("e", "t", "rt", "c")})
            recs.append((c["rt"], e["rt"], c["c"], d))
        elif k == "setpunch":
            recs.append((e["rt"], e["rt"], "setpunch", dict(ep=e["ep"], n=e["w"])))
        elif k == "storm":
            for x in e["calls"]:
                if x["c"] == "connect":
                    pair(x["ep"], x["to"], x["ch"])
                if x["c"] == "maxlen" and x["n"] not in sizes:
                    sizes.append(x["n"])
                recs.append((x["t0"], x["t1"], x["c"], x))
    by = {}
    for n, c in cn.items():
        ep = eps[conns[c - 1]["ep"] - 1]
        o = conns[c - 1]["opp"]
        if o:
            by[ep, eps[conns[o - 1]["ep"] - 1]] = c
    ops, line, writes, puns = [], [], {}, {}

    def add(t0, t1, **o):
        ops.append(o)
        q = len(ops)
        line.append((t0, 0, dict(e="I", q=q)))
        if t1 is not None:
            line.append((t1, 2, dict(e="R", q=q)))
        return q

    def ks(n):
        return [1 if s <= 0 or n <= s else -(-n // s) for s in sizes]

    for t0, t1, c, x in sorted(recs, key=lambda r: r[0]):
        if c == "write" and x["ch"] in cn:
            q = add(t0, t1, k="w", c=cn[x["ch"]], id=x["id"] if x["err"] == "" else -1, ok=x["err"] == "", ks=ks(x["len"]), cb=bool(x.get("cb")))
            writes[x["ch"], x["m"]] = (q, x["id"] if x["err"] == "" else -1)
            if x["err"] not in ("", "destroyed"):
                ops[-1]["ok"], ops[-1]["id"] = True, -2  # nothing allows it
        elif c == "destroyed" and x["ch"] in cn:
            add(t0, t1, k="d", c=cn[x["ch"]], v=x["v"])
        elif c == "close" and x["ch"] in cn:
            add(t0, t1, k="cl", c=cn[x["ch"]])
        elif c == "chans":
            add(t0, t1, k="ls", ep=eps.index(x["ep"]) + 1, cs=[cn.get(n, 0) for n in x["chs"]])
        elif c == "stat":
            rows = x.get("rows")
            if rows is None:
                continue
            add(t0, t1, k="st", ep=eps.index(x["ep"]) + 1, rows=[[by.get((x["ep"], p), 0), n] for p, n in rows])
        elif c == "closeep":
            add(t0, t1, k="ce", ep=eps.index(x["ep"]) + 1)
        elif c == "connect":
            a, b = pair(x["ep"], x["to"], x["ch"])
            add(t0, t1, k="cn", ep=eps.index(x["ep"]) + 1, to=eps.index(x["to"]) + 1, c=a, sc=b, ok=x["err"] == "")
        elif c == "maxlen":
            add(t0, t1, k="sm", ep=eps.index(x["ep"]) + 1, n=sizes.index(x["n"]) + 1)
        elif c == "setpunch":
            add(t0, t1, k="sp", ep=eps.index(x["ep"]) + 1, n=x["n"])
        elif c == "punchto":
            puns.setdefault((x["ep"], x["to"], x.get("id")), []).append(t0)
        elif c in ("print", "noprint"):
            add(t0, t1, k="pp" if c == "print" else "ps", ep=eps.index(x["ep"]) + 1)
        elif c == "printing":
            add(t0, t1, k="pr", ep=eps.index(x["ep"]) + 1, v=x["v"])
        elif c == "minilog":
            add(t0, t1, k="ml", ep=eps.index(x["ep"]) + 1, v=x["v"])
    for e in evs:
        k = e["e"]
        if k == "msg" and e["lvl"] == "g" and e["ch"] in cn:
            w = writes.get((e["src"], e["m"]), (0, -1))
            line.append((e["rt"], 1, dict(e="M", c=cn[e["ch"]], id=e["id"], wid=w[1] if e["ok"] else -1)))
        elif k == "rerr" and e["lvl"] == "g" and e["ch"] in cn:
            line.append((e["rt"], 1, dict(e="X", c=cn[e["ch"]])))
        elif k == "rerr" and e["lvl"] == "g" and e["err"] == "closed" and e["ep"] in eps:
            line.append((e["rt"], 1, dict(e="E", ep=eps.index(e["ep"]) + 1)))
        elif k == "conncb" and e["ch"] in cn:
            line.append((e["rt"], 1, dict(e="CB", c=cn[e["ch"]])))
        elif k == "dlv" and (e["ch"], e["m"]) in writes:
            line.append((e["rt"], 1, dict(e="V", q=writes[e["ch"], e["m"]][0])))
        elif k == "punch":
            t = puns.get((e["from"], e["ep"], e["h"]))
            if t:
                q = add(t.pop(0), None, k="pu", to=eps.index(e["ep"]) + 1, n=e["w"])
                line.append((e["rt"], 2, dict(e="R", q=q)))
        elif k == "q":
            line.append((e["rt"], 3, dict(e="S")))
        elif k == "mark" and e["text"] == "fin":
            line.append((e["rt"], 3, dict(e="F")))
    line.sort(key=lambda x: (x[0], x[1]))
    return dict(id=run.sc["id"], cf=dict(ne=len(eps), conns=conns, readers=readers, len0=len0, ops=ops), ev=[x[2] for x in line])
