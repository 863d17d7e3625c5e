"""Scenario building blocks.  A scenario is a script for the driver (harness/)."""
import random


def new(ep, reader="true", **k):
    return dict(op="new", ep=ep, reader=reader, **k)


def connect(ep, to, ch, reader="none", **k):
    return dict(op="connect", ep=ep, to=to, ch=ch, reader=reader, **k)


def write(ch, len=None, lens=None, **k):
    d = dict(op="write", ch=ch, **k)
    if lens is not None:
        d["lens"] = lens
    else:
        d["len"] = len if len is not None else 20
    return d


def sleep(ms=0, us=0):
    return dict(op="sleep", ms=int(ms), us=int(us))


def net(*rules, add=False):
    return dict(op="net", rules=list(rules), add=add)


def rule(act="pass", **k):
    d = dict(act=act)
    if "frm" in k:
        d["from"] = k.pop("frm")
    d.update(k)
    return d


def op(name, **k):
    if "frm" in k:
        k["from"] = k.pop("frm")
    return dict(op=name, **k)


Q = dict(op="q")
JOIN = dict(op="join")


def fin(*chs):
    """everything accepted on these channels must have been handed over"""
    return [dict(op="q")] + [dict(op="mark", text="fin:" + c) for c in chs]


def srv(ep, peer, n=1):
    return f"{ep}<{peer}#{n}"


def lat(lo, hi):
    return rule("pass", lat=[lo, hi])


HANDSHAKE = ["C1", "C2", "C3", "C4"]


def msglens(r, n, maxlen=0, big=True):
    """lengths around every boundary that means something"""
    base = [0, 1, 2, 7, 12, 15, 16, 17, 31, 35, 36, 37, 63, 64, 65, 66, 92, 93, 100, 200]
    if maxlen:
        base += [maxlen - 1, maxlen, maxlen + 1, 2 * maxlen - 1, 2 * maxlen, 2 * maxlen + 1, 3 * maxlen + 5] * 2
    out = []
    for _ in range(n):
        x = r.choice(base) if r.random() < 0.7 else r.randrange(0, 300 if not maxlen else 4 * maxlen)
        out.append(max(0, x))
    return out


def scenario(id, prop, seed, ops, on=(), **k):
    d = dict(id=id, prop=prop, seed=seed, ops=flat(ops), on=list(on))
    d.update(k)
    return d


def flat(ops):
    out = []
    for o in ops:
        if isinstance(o, (list, tuple)):
            out.extend(flat(o))
        else:
            out.append(o)
    return out


def noisy(r, loss=None, lo=1000, hi=None, dup=None, kinds=("D", "A")):
    """rules of a network that loses, repeats, delays and reorders"""
    loss = r.choice([0.05, 0.15, 0.3, 0.45]) if loss is None else loss
    hi = r.choice([2000, 20000, 80000, 250000]) if hi is None else hi
    dup = r.choice([0, 0, 1, 2]) if dup is None else dup
    rs = []
    if loss:
        which = r.choice([["D"], ["A"], ["D", "A"], ["D", "A"], ["D", "A", "PI", "PO"]])
        rs.append(rule("drop", k=list(which), p=loss))
    rs.append(rule("pass", k=list(kinds), lat=[lo, hi], dupn=dup))
    rs.append(rule("pass", lat=[lo, min(hi, 20000)]))
    return rs
