"""The checks, one class per property."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import core, project
from checkbase import Check
from gen import *

CHECKS = {}


def register(c):
    CHECKS[c.prop] = c
    return c


MSL = "network assumption: no copy of a packet is delivered after half a number range of later packets"


# ---------------------------------------------------------------- C01


def base(reader="true", a="A", b="B", ch="a", cr="none", **k):
    """two endpoints, connected"""
    return [new(a, reader, **k), new(b, reader, **k), net(lat(1000, 1000)), connect(a, b, ch, cr)]


def streams(r, prop, num, cb=False, stat=False):
    """behaviours of the design Stream: each packet and each acknowledgement arrives when and as
    often as the model says"""
    out = []
    for i, h in enumerate(core.behaviours("StreamGen", "StreamGen", num, 120, r.randrange(1 << 30))):
        b = srv("B", "A")
        snd, frm, to = r.choice([("a", "A", "B"), (b, "B", "A")])
        ml = r.choice([30, 70, 100])
        slow = r.random() < 0.5
        ops = base(cr=r.choice(["none", "true"]), maxlen=ml) + [net(rule("drop", frm=frm, to=to, k=["D"]), rule("drop", frm=to, to=frm, k=["A"]), lat(300, 300))]
        for e in h:
            if e["op"] == "send":
                l = e["n"] * ml - r.randrange(0, ml) if e["n"] > 1 else r.choice([0, 1, ml // 2, ml])
                ops.append(write(snd, lens=[l], **(dict(cb=r.random() < 0.8, tmo=r.choice([0, 60, 199, 250, 450, 1000, 3000])) if cb else {})))
            elif e["op"] == "again":
                ops.append(sleep(r.choice([35, 110, 230])) if slow else sleep(us=40))
            else:
                d = dict(frm=frm, to=to, k="D") if e["op"] == "data" else dict(frm=to, to=frm, k="A")
                ops += [op("replay", id=e["n"], nth=0, n=1, **d), sleep(us=r.choice([1, 40, 400]))]
            if r.random() < 0.05:
                ops.append(write(b if snd == "a" else "a", lens=[r.choice([3, 80])]))
            if stat and r.random() < 0.12:
                ops += [Q, op("stat", ep="A"), op("stat", ep="B")]
        ops += [net(lat(1000, 2000)), sleep(6500)] + fin("a", b) + ([op("stat", ep="A"), op("stat", ep="B")] if stat else [])
        out.append(scenario(f"{prop}/StreamGen{i}", prop, r.randrange(1 << 30), ops))
    return out


@register
class C01(Check):
    prop = "C01"
    models = [("MCStream", "Stream")]
    assumptions = [MSL, "the packet connection is simulated; time is virtual (testing/synctest)"]

    def traces(self, run):
        return [("StreamTrace", "StreamTrace_" + self.prop, project.stream(run))]

    def scenarios(self):
        r = self.rng
        out = []
        n = 60 if not self.thorough else 700
        for i in range(n):
            out.append(self.random_net(r, i))
        for i in range(20 if not self.thorough else 200):
            out.append(self.permuted(r, i))
        return out + streams(r, self.prop, n // 2)

    def random_net(self, r, i):
        ml = r.choice([0, 0, 40, 100])
        cr = r.choice(["none", "true"])
        ops = base(cr=cr, maxlen=ml) if ml else base(cr=cr)
        b = srv("B", "A")
        chs = ["a", b]
        others = []
        if r.random() < 0.4:  # further connections
            ops += [new("C", "true"), connect("C", "B", "c")]
            others.append(("c", srv("B", "C")))
            if r.random() < 0.5:
                ops += [connect("A", "C", "ac")]
                others.append(("ac", srv("C", "A")))
        for x in others:
            chs += x
        ops.append(net(*noisy(r)))
        for _ in range(r.choice([1, 2, 4, 8])):
            for c in r.sample(chs, r.randrange(1, len(chs) + 1)):
                k = r.choice([1, 3, 10, 25])
                ops.append(write(c, lens=msglens(r, k, ml), gap=r.choice([0, 0, 50, 5000]), **{"async": r.random() < 0.5}))
                if r.random() < 0.3:
                    ops.append(write(c, lens=msglens(r, k, ml), gap=r.choice([0, 100]), **{"async": True}))
            if r.random() < 0.6:
                ops.append(sleep(r.choice([1, 20, 150, 600])))
            if r.random() < 0.3:
                ops.append(op("replay", frm=r.choice(["A", "B"]), k=r.choice(["D", "A"]), id=-1, nth=r.randrange(40), n=r.choice([1, 3])))
        ops += [JOIN, net(lat(1000, 3000)), sleep(5000), fin(*chs)]
        return scenario(f"C01/net{i}", "C01", r.randrange(1 << 30), ops)

    def permuted(self, r, i):
        """the packets arrive in a chosen order, some of them again later"""
        n = r.choice([3, 5, 9])
        b = srv("B", "A")
        snd, frm, to = r.choice([("a", "A", "B"), (b, "B", "A")])
        ops = base()
        ops.append(net(rule("hold", frm=frm, to=to, k=["D"], chi=1), rule("drop", frm=frm, to=to, k=["D"]), lat(1000, 1000)))
        ops += [write(snd, lens=msglens(r, n)), sleep(5)]
        order = list(range(n))
        r.shuffle(order)
        for j in order:
            keep = r.random() < 0.4
            ops.append(op("deliver", frm=frm, to=to, k="D", id=j, keep=keep))
            if r.random() < 0.5:
                ops.append(sleep(r.choice([1, 5])))
            if r.random() < 0.3:
                x = r.choice(order)
                ops.append(op("replay", frm=frm, to=to, k="D", id=x, nth=0))
        ops += [sleep(5), net(lat(1000, 1000)), write(snd, lens=[5, 6]), op("release"), sleep(5000), fin("a", b)]
        return scenario(f"C01/perm{i}", "C01", r.randrange(1 << 30), ops)


# ---------------------------------------------------------------- C03


class ConnCheck(Check):
    assumptions = [MSL, "the packet connection is simulated; time is virtual (testing/synctest)"]

    def traces(self, run):
        t = project.conn(run, run.sc.get("rtt", 0))
        if t["cf"]["n"] == 0:
            return []
        return [("ConnTrace", "ConnTrace_" + self.prop, t)]


@register
class C03(ConnCheck):
    prop = "C03"
    models = [("MCStream", "Stream"), ("MCStream", "StreamLive")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(24 * k):
            out.append(self.lossy(r, i))
        for i in range(8 * k):
            out.append(self.targeted(r, i))
        for i in range(6 * k):
            out.append(self.blackout(r, i))
        for i in range(2 * k):
            out.append(self.giveup(r, i))
        for i in range(6 * k):
            out.append(self.ackloss(r, i))
        for i in range(6 * k):
            out.append(self.behind(r, i))
        return out + streams(r, self.prop, 10 * k)

    def behind(self, r, i):
        """thousands of messages wait behind a few lost ones"""
        b = srv("B", "A")
        snd, frm, to, oth = [("a", "A", "B", b), (b, "B", "A", "a")][i % 2]
        n = r.choice([600, 2500, 6000])
        rs = [rule("drop", frm=frm, to=to, k=["D"], lo=x, hi=x + r.choice([0, 3]), chi=r.choice([1, 2, 3])) for x in [r.choice([0, 1, n // 2]) for _ in range(r.choice([1, 2]))]]
        if r.random() < 0.3:
            rs.append(rule("drop", k=["A"], p=0.3))
        ops = base() + [net(*rs, lat(1000, r.choice([1000, 30000]))), op("bulk", ch=snd, l=oth, n=n, nth=r.choice([16, 64]), us=10, ms=15000), sleep(100)]
        return scenario(f"C03/behind{i}", "C03", r.randrange(1 << 30), ops)

    def traffic(self, r, chs, n, ml=0):
        o = []
        for _ in range(n):
            c = r.choice(chs)
            o.append(write(c, lens=msglens(r, r.choice([1, 2, 5, 15]), ml), gap=r.choice([0, 50, 3000]), **{"async": r.random() < 0.5}))
            if r.random() < 0.7:
                o.append(sleep(r.choice([1, 30, 120, 700])))
        return o

    def lossy(self, r, i):
        ml = r.choice([0, 0, 50])
        ops = base(cr=r.choice(["none", "true"]), **({"maxlen": ml} if ml else {}))
        ops.append(net(*noisy(r)))
        ops += self.traffic(r, ["a", srv("B", "A")], r.choice([2, 4, 8]), ml)
        ops += [JOIN, net(lat(1000, 3000)), sleep(6000), fin("a", srv("B", "A"))]
        return scenario(f"C03/lossy{i}", "C03", r.randrange(1 << 30), ops)

    def targeted(self, r, i):
        """chosen packets are lost a chosen number of times"""
        b = srv("B", "A")
        snd, frm, to = r.choice([("a", "A", "B"), (b, "B", "A")])
        n = r.choice([3, 6, 12])
        rs = []
        worst = 0
        for _ in range(r.choice([1, 2, 3])):
            x = r.randrange(n)
            c = r.choice([1, 2, 3, 5, 9])
            worst = max(worst, c)
            rs.append(rule("drop", frm=frm, to=to, k=["D"], lo=x, hi=x, chi=c))
        if r.random() < 0.5:
            rs.append(rule("drop", frm=to, to=frm, k=["A"], lo=0, hi=n, chi=r.choice([1, 2])))
        ops = base() + [net(*rs, lat(500, r.choice([600, 30000])))]
        ops += [write(snd, lens=msglens(r, n), gap=r.choice([0, 1000, 200000])), sleep(1000 + worst * 3400), fin("a", b)]
        return scenario(f"C03/targeted{i}", "C03", r.randrange(1 << 30), ops)

    def blackout(self, r, i):
        b = srv("B", "A")
        ops = base()
        ops += self.traffic(r, ["a", b], 2)
        for _ in range(r.choice([1, 2])):
            frm = r.choice([None, "A", "B"])
            ops += [JOIN, net(rule("drop", **({"frm": frm} if frm else {})), lat(1000, 1000))]
            ops += self.traffic(r, ["a", b], 3)
            ops += [sleep(r.choice([300, 2000, 4200])), net(lat(1000, 40000)), sleep(r.choice([100, 3500]))]
        ops += [JOIN, net(lat(1000, 3000)), sleep(6000), fin("a", b)]
        return scenario(f"C03/blackout{i}", "C03", r.randrange(1 << 30), ops)

    def giveup(self, r, i):
        """one packet never gets through while everything else does: a hundred repeats; or
        the hundredth repeat gets through"""
        b = srv("B", "A")
        snd, frm, to = [("a", "A", "B"), (b, "B", "A")][i % 2]
        last = r.random() < 0.5
        ops = base() + [net(rule("drop", frm=frm, to=to, k=["D"], lo=1, hi=1, **({"chi": 100} if last else {})), lat(1000, 2000))]
        ops += [write(snd, lens=[10, 20, 30]), sleep(280000), write(snd, lens=[40]), sleep(30000), fin("a", b), sleep(4000)]
        return scenario(f"C03/giveup{i}", "C03", r.randrange(1 << 30), ops)

    def ackloss(self, r, i):
        b = srv("B", "A")
        snd, frm, to = r.choice([("a", "A", "B"), (b, "B", "A")])
        n = r.choice([1, 5, 20, 60])
        ops = base() + [net(rule("drop", frm=to, to=frm, k=["A"], p=r.choice([0, 0.5])), lat(1000, 2000))]
        ops += [write(snd, lens=msglens(r, n)), sleep(r.choice([500, 2500, 9000])), net(lat(1000, 2000)), sleep(6000)]
        for _ in range(3):
            ops += [op("replay", frm=frm, to=to, k="D", id=r.randrange(n), nth=0, n=r.choice([1, 2])), sleep(5)]
        ops += [fin("a", b)]
        return scenario(f"C03/ackloss{i}", "C03", r.randrange(1 << 30), ops)


# ---------------------------------------------------------------- C04


@register
class C04(ConnCheck):
    prop = "C04"
    models = [("Delivery", "Delivery")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(40 * k):
            out.append(self.mixed(r, i))
        for i in range(24 * k):
            out.append(self.boundary(r, i))
        for i in range(16 * k):
            out.append(self.ends(r, i))
        return out + streams(r, self.prop, 16 * k, cb=True)

    TMO = [0, 20, 60, 100, 199, 200, 250, 300, 450, 1000, 3000]

    def mixed(self, r, i):
        b = srv("B", "A")
        ml = r.choice([0, 0, 60])
        ops = base(**({"maxlen": ml} if ml else {})) + [net(*noisy(r))]
        on = []
        if r.random() < 0.3:
            on.append(dict(where="dlv", max=4, do=[write(r.choice(["a", b]), lens=[r.choice([10, 100])], cb=True, tmo=r.choice(self.TMO))]))
        if r.random() < 0.3:
            on.append(dict(where="g", ev="msg", max=3, do=[write("@", lens=[r.choice([10, 100])], cb=True, tmo=r.choice(self.TMO))]))
        for _ in range(r.choice([3, 6, 10])):
            ops.append(write(r.choice(["a", b]), lens=msglens(r, r.choice([1, 2, 4]), ml), cb=r.random() < 0.9, tmo=r.choice(self.TMO),
                             gap=r.choice([0, 100, 5000]), kind="badparam" if r.random() < 0.08 else "", **{"async": r.random() < 0.6}))
            if r.random() < 0.6:
                ops.append(sleep(r.choice([1, 50, 220, 500])))
        ops += [JOIN, net(lat(1000, 3000)), sleep(6500), Q]
        return scenario(f"C04/mixed{i}", "C04", r.randrange(1 << 30), ops, on)

    def boundary(self, r, i):
        """the acknowledgement arrives a little before, after or far from the timeout"""
        b = srv("B", "A")
        snd, frm, to = r.choice([("a", "A", "B"), (b, "B", "A")])
        tmo = r.choice([30, 90, 150, 210, 400, 700])
        d = r.choice([-20000, -2000, -500, 500, 2000, 20000])
        ln = r.choice([0, 10, 100, 250])
        ops = base(maxlen=100) + [net(rule("pass", frm=frm, to=to, k=["D"], lat=[1000]),
                                      rule("pass", frm=to, to=frm, k=["A"], lat=[tmo * 1000 - 1000 + d]), lat(1000, 1000))]
        ops += [write(snd, lens=[ln] * r.choice([1, 2]), cb=True, tmo=tmo), sleep(3000)]
        if r.random() < 0.5:
            ops += [op("replay", frm=to, to=frm, k="A", id=-1, nth=0, n=2), sleep(6000)]
        ops += [sleep(4000), Q]
        return scenario(f"C04/boundary{i}", "C04", r.randrange(1 << 30), ops)

    def ends(self, r, i):
        """the connection ends with callbacks pending"""
        b = srv("B", "A")
        snd, oth, frm, to = r.choice([("a", b, "A", "B"), (b, "a", "B", "A")])
        how = r.choice(["local", "peer", "ep", "peerep", "silence", "ack-then-close"])
        drop = r.choice([rule("drop", frm=frm, to=to, k=["D"]), rule("drop", frm=to, to=frm, k=["A"]), rule("pass", k=["A"], lat=[150000])])
        ops = base(maxlen=100) + [net(drop, lat(1000, 2000))]
        ops += [write(snd, lens=[10, 100, 350], cb=True, tmo=r.choice([0, 100, 400, 7000])), sleep(r.choice([0, 2, 50, 149, 160]))]
        if how == "local":
            ops.append(op("close", ch=snd))
        elif how == "peer":
            ops.append(op("close", ch=oth))
        elif how == "ep":
            ops.append(op("closeep", ep=frm))
        elif how == "peerep":
            ops.append(op("closeep", ep=to))
        elif how == "silence":
            ops.append(net(rule("drop")))
        else:
            ops += [sleep(100), op("close", ch=snd)]
        ops += [write(snd, lens=[5, 200], cb=True, tmo=50), sleep(3000), write(snd, lens=[5], cb=True), sleep(8000), Q]
        return scenario(f"C04/ends{i}", "C04", r.randrange(1 << 30), ops)


# ---------------------------------------------------------------- C12


@register
class C12(ConnCheck):
    prop = "C12"
    models = [("Counters", "Counters")]
    models_thorough = [("Counters", "CountersBig")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(40 * k):
            out.append(self.history(r, i))
        for i in range(10 * k):
            out.append(self.steady(r, i))
        for i in range(8 * k):
            out.append(self.rate(r, i))
        return out + streams(r, self.prop, 16 * k, stat=True)

    def rate(self, r, i):
        """messages at some rate, then none: the speeds follow"""
        b = srv("B", "A")
        ops = base() + [net(rule("drop", k=["D"], p=r.choice([0, 0, 0.1])), lat(1000, r.choice([1000, 50000]))), sleep(r.choice([0, 30, 77]))]
        for _ in range(r.choice([2, 3])):
            for c in ("a", b):
                ops.append(write(c, lens=[10] * r.choice([3, 30, 90]), gap=r.choice([0, 2000, 11000, 40000]), **{"async": True}))
            for _ in range(r.choice([3, 6])):
                ops += [sleep(r.choice([40, 100, 230, 600, 1150])), Q, op("stat", ep="A"), op("stat", ep="B")]
            ops.append(JOIN)
        ops += [sleep(6000), Q, op("stat", ep="A"), op("stat", ep="B")]
        return scenario(f"C12/rate{i}", "C12", r.randrange(1 << 30), ops)

    def history(self, r, i):
        peers = ["B", "C", "D", "E"][:r.choice([1, 1, 2, 3, 4])]
        ml = r.choice([0, 0, 50])
        kw = {"maxlen": ml} if ml else {}
        ops = [new(x, "true", **kw) for x in ["A"] + peers] + [net(lat(1000, 1000))]
        chs = []
        for p in peers:
            c = p.lower()
            if r.random() < 0.5:
                ops.append(connect("A", p, c))
                chs += [c, srv(p, "A")]
            else:
                ops.append(connect(p, "A", c))
                chs += [c, srv("A", p)]
        ops.append(net(*noisy(r)))
        stat = [Q, op("stat", ep="A")] + [op("stat", ep=p) for p in peers]
        for _ in range(r.choice([2, 4, 7])):
            for c in r.sample(chs, r.randrange(1, len(chs) + 1)):
                ops.append(write(c, lens=msglens(r, r.choice([1, 3, 8]), ml), gap=r.choice([0, 50, 3000]), **{"async": r.random() < 0.5}))
            if r.random() < 0.3:
                ops.append(op("replay", k=r.choice(["D", "A"]), id=-1, nth=r.randrange(60), n=r.choice([1, 3])))
            ops += [JOIN, sleep(r.choice([0, 3, 60, 350, 1500]))] + stat
        if r.random() < 0.3:
            ops += [op("close", ch=r.choice(chs)), sleep(20)] + stat
        ops += [JOIN, net(lat(1000, 3000)), sleep(6000)] + stat
        return scenario(f"C12/history{i}", "C12", r.randrange(1 << 30), ops)

    def steady(self, r, i):
        """constant delay, nothing repeated: the trip time is the round trip time"""
        d1, d2 = r.choice([500, 2000, 8000, 24000]), r.choice([500, 3000, 9000])
        b = srv("B", "A")
        ops = base() + [net(rule("pass", frm="A", lat=[d1]), rule("pass", frm="B", lat=[d2]))]
        for _ in range(3):
            ops += [write("a", lens=msglens(r, 5), gap=r.choice([0, 1000])), write(b, lens=msglens(r, 3)), sleep(150), Q, op("stat", ep="A"), op("stat", ep="B")]
        return scenario(f"C12/steady{i}", "C12", r.randrange(1 << 30), ops, rtt=(d1 + d2) // 100)


# ---------------------------------------------------------------- C14


@register
class C14(ConnCheck):
    prop = "C14"
    models = [("Secrecy", "Secrecy")]
    models_thorough = [("Secrecy", "SecrecyBig")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(30 * k):
            out.append(self.secrecy(r, i))
        for i in range(30 * k):
            out.append(self.tampered(r, i))
        for i in range(1 if not self.thorough else 3):
            out.append(self.stream(r, i))
        return out

    def stream(self, r, i):
        """equal messages, more than there are small numbers"""
        b = srv("B", "A")
        snd, oth = [("a", b), (b, "a")][(i + self.seed) % 2]
        n = 140000 if not self.thorough else 1048000
        ops = base() + [net(lat(1000, 1000)), op("bulk", ch=snd, l=oth, n=n, nth=64, us=10, ms=3000, kind="same"), sleep(100)]
        return scenario(f"C14/stream{i}", "C14", r.randrange(1 << 30), ops)

    def secrecy(self, r, i):
        ml = r.choice([0, 0, 40, 64, 65, 200])
        kw = {"maxlen": ml} if ml else {}
        ops = [new(x, "true", **kw) for x in "ABC"] + [net(lat(1000, 1000)), connect("A", "B", "ab"), connect("C", "B", "cb")]
        chs = ["ab", "cb", srv("B", "A"), srv("B", "C")]
        if r.random() < 0.5:
            ops.append(connect("A", "C", "ac"))
            chs += ["ac", srv("C", "A")]
        ops.append(net(*noisy(r)))
        for _ in range(r.choice([3, 6])):
            for c in r.sample(chs, r.randrange(1, len(chs) + 1)):
                lens = r.choice([[8, 16, 20], [64, 63, 64], [65, 66, 65], [100, 300, 100], [12, 64, 65, 500]])
                ops.append(write(c, lens=lens, kind=r.choice(["", "same", "same", "zero"])))
            ops.append(sleep(r.choice([1, 200, 800])))
        ops += [JOIN, net(lat(1000, 3000)), sleep(5000), fin(*chs)]
        return scenario(f"C14/secrecy{i}", "C14", r.randrange(1 << 30), ops, leak=True)

    def tampered(self, r, i):
        b = srv("B", "A")
        ml = r.choice([0, 0, 100, 200])
        kw = {"maxlen": ml} if ml else {}
        ops = base(**kw)
        rs = []
        for _ in range(r.choice([1, 2, 4])):
            rs.append(rule("tamper", k=["D"], frm=r.choice(["A", "B"]), p=r.choice([0.2, 0.5, 0.9]), chi=r.choice([1, 2]),
                           byte=r.choice([0, 1, 5, 11, 12, 13, 30, 64, 70, -1, -2, -16, -17]), also=r.random() < 0.3, lat=[1000, 3000]))
        ops.append(net(*rs, lat(1000, 5000)))
        lens = [65, 66, 93, 100, 101, 200, 300, 1000] if not ml else [ml, 2 * ml, ml + 70, 3 * ml]
        for _ in range(r.choice([2, 4])):
            ops.append(write("a", lens=[r.choice(lens) for _ in range(r.choice([1, 4]))]))
            ops.append(write(b, lens=[r.choice(lens) for _ in range(r.choice([1, 4]))]))
            ops.append(sleep(r.choice([10, 400])))
        ops += [JOIN, sleep(500), net(lat(1000, 3000)), sleep(5000), fin("a", b)]
        return scenario(f"C14/tampered{i}", "C14", r.randrange(1 << 30), ops)


# ---------------------------------------------------------------- C02


@register
class C02(Check):
    prop = "C02"
    models = [("MCStream", "Stream")]
    assumptions = [MSL, "the packet connection is simulated; time is virtual (testing/synctest)"]
    DEF = 65535 - 20 - 8 - 4 - 28

    def traces(self, run):
        return [("StreamTrace", "StreamTrace_" + self.prop, project.stream(run))]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 12
        for i in range(24 * k):
            out.append(self.lengths(r, i))
        for i in range(4 * k):
            out.append(self.huge(r, i))
        for i in range(24 * k):
            out.append(self.concurrent(r, i))
        return out + streams(r, self.prop, 16 * k)

    def size(self, r):
        """how the packet size is configured: (parameters of new, size in effect)"""
        ml = r.choice([1, 2, 7, 11, 12, 16, 17, 20, 28, 32, 36, 40, 63, 64, 65, 66, 92, 93, 100, 255, 256, 1000, 1024])
        x = r.random()
        if x < 0.5:
            return dict(maxlen=ml), ml
        if x < 0.8:
            return dict(maxpar=ml), ml
        if x < 0.9:
            return dict(maxpar=ml), ml
        return {}, 0

    def lengths(self, r, i):
        ka, ml = self.size(r)
        kb, mb = self.size(r) if r.random() < 0.5 else (ka, ml)
        b = srv("B", "A")
        ops = [new("A", "true", **ka), new("B", "true", **kb), net(lat(1000, 1000)), connect("A", "B", "a", r.choice(["none", "true"]))]
        ops.append(net(*noisy(r, loss=r.choice([0, 0.1, 0.3]))))
        for c, m in (("a", ml), (b, mb)):
            cut = [16, 17, 20, 21, 32, 33, 64, 65, 0, 1]
            m_ = m or 300
            for x in r.sample([1, 2, 3, 4, 7, 16], 4):
                cut += [x * m_ - 1, x * m_, x * m_ + 1]
            r.shuffle(cut)
            cut = [x for x in cut if 0 <= x <= 40 * m_][:14] * r.choice([1, 1, 3])
            ops.append(write(c, lens=cut, gap=r.choice([0, 0, 200]), kind=r.choice(["", "", "zero", "same"]), **{"async": True}))
        ops += [JOIN, sleep(r.choice([10, 1000])), net(lat(1000, 3000)), sleep(6000), fin("a", b)]
        return scenario(f"C02/len{i}", "C02", r.randrange(1 << 30), ops)

    def huge(self, r, i):
        """packets of the default size, also when a larger one was asked for"""
        b = srv("B", "A")
        kw = r.choice([{}, {}, dict(maxpar=70000), dict(maxlen=70000), dict(maxpar=-1)])
        ops = [new("A", "true", **kw), new("B", "true", **kw), net(lat(1000, 1000)), connect("A", "B", "a")]
        d = self.DEF
        ops.append(net(*noisy(r, loss=r.choice([0, 0.2]), dup=0)))
        for c in ("a", b):
            ops.append(write(c, lens=[r.choice([d - 1, d, d + 1, 2 * d, 2 * d + 1, 200000, 70000, d - 28, d - 29]) for _ in range(3)] + [3], **{"async": True}))
        ops += [JOIN, sleep(500), net(lat(1000, 3000)), sleep(6000), fin("a", b)]
        return scenario(f"C02/huge{i}", "C02", r.randrange(1 << 30), ops)

    def concurrent(self, r, i):
        """several goroutines send on one connection at once"""
        ka, ml = self.size(r)
        b = srv("B", "A")
        m_ = ml or 100
        ops = base(**ka)
        ops.append(net(*noisy(r, loss=r.choice([0, 0.1, 0.3]), hi=r.choice([1000, 20000]))))
        for _ in range(r.choice([1, 2, 3])):
            for c in ("a", b):
                for _ in range(r.choice([2, 3, 6])):
                    ops.append(write(c, lens=[r.choice([0, 1, m_, m_ + 1, 2 * m_ + 1, 5 * m_, 12 * m_]) for _ in range(r.choice([1, 3]))],
                                     gap=r.choice([0, 10, 15, 100]), **{"async": True}))
            ops.append(sleep(us=r.choice([0, 10, 20, 1000, 50000])))
        ops += [JOIN, sleep(500), net(lat(1000, 3000)), sleep(6000), fin("a", b)]
        return scenario(f"C02/conc{i}", "C02", r.randrange(1 << 30), ops)


# ---------------------------------------------------------------- C13


@register
class C13(Check):
    prop = "C13"
    models = [("MCStream", "Stream"), ("MCStream", "StreamLive")]
    assumptions = [MSL, "the packet connection is simulated; time is virtual (testing/synctest)"]
    batch = 1
    hang = "60s"
    N = 1048576

    def env(self):
        return dict(GOGC="off", GOMEMLIMIT="1500MiB")

    def traces(self, run):
        return [("StreamTrace", "StreamTrace_" + self.prop, project.stream(run))]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 4
        for i in range(k):
            out.append(self.window(r, 2 * i, self.N - r.choice([5, 300])))
        for i in range(5 * k):
            out.append(self.wrap(r, i))
        for i in range(2 * k):
            out.append(self.window(r, i))
        for i in range(20 * k):
            out.append(self.short(r, i))
        return out

    def short(self, r, i):
        """far overtaking within the range: thousands of packets ahead of a missing one"""
        b = srv("B", "A")
        snd, frm, to, oth = r.choice([("a", "A", "B", b), (b, "B", "A", "a")])
        ops = base()
        ops.append(net(rule("drop", frm=frm, to=to, k=["D"], lo=0, hi=r.choice([0, 3]), max=r.choice([1, 5, 9])), lat(1000, r.choice([1000, 30000]))))
        ops.append(op("bulk", ch=snd, l=oth, n=r.choice([300, 3000]), nth=r.choice([16, 64]), us=10, ms=8000))
        ops += [write(snd, lens=[5, 200, 3]), write(oth, lens=[5, 200, 3]), sleep(5000), fin("a", b)]
        return scenario(f"C13/short{i}", "C13", r.randrange(1 << 30), ops)

    def wrap(self, r, i):
        """numbers wrap around in the middle of recorded traffic with losses, repeats and overtaking"""
        b = srv("B", "A")
        snd, oth = ("a", b) if i % 3 == 2 else (b, "a")
        ml = r.choice([0, 30])
        ops = base(**({"maxlen": ml} if ml else {}))
        # noise in the first numbers: what is left behind meets the same numbers later
        ops.append(net(*noisy(r, loss=0.3, hi=r.choice([20000, 80000]))))
        left = self.N - r.choice([20, 60, 150])
        ops.append(op("bulk", ch=snd, l=oth, n=200, nth=8, us=10, ms=6000))
        ops += [net(lat(1000, 1000)), sleep(6000)]
        ops.append(op("bulk", ch=snd, l=oth, n=left - 200, nth=64, us=10, ms=2000))
        ops.append(net(*noisy(r, loss=r.choice([0.15, 0.3]), hi=r.choice([20000, 80000]))))
        for _ in range(r.choice([3, 5])):
            ops += [write(snd, lens=[r.choice([3, 12, 100, 65]) for _ in range(r.choice([20, 50]))], gap=r.choice([0, 20]), **{"async": r.random() < 0.3}),
                    write(oth, lens=[4, 100]), sleep(r.choice([1, 30, 200]))]
        ops += [JOIN, net(lat(1000, 2000)), sleep(6000), fin("a", b)]
        ops.append(net(*noisy(r, loss=0.2, hi=20000)))
        ops.append(op("bulk", ch=snd, l=oth, n=r.choice([700, 2000]), nth=8, us=10, ms=6000))
        ops += [net(lat(1000, 1000)), write(snd, lens=[5, 6, 100]), sleep(5000), fin("a", b)]
        return scenario(f"C13/wrap{i}", "C13", r.randrange(1 << 30), ops)

    def window(self, r, i, start=0):
        """one packet is missing while the sender goes on: half of the range is the end of it"""
        b = srv("B", "A")
        miss = (start + r.choice([0, 0, 7])) % self.N
        ops = base()
        if start:
            ops.append(op("bulk", ch=b, l="a", n=start, nth=64, us=10, ms=2000))
        ops.append(net(rule("drop", frm="B", to="A", k=["D"], lo=miss, hi=miss), lat(1000, 1000)))
        n = self.N // 2 + r.choice([2000, 5000]) if i % 2 == 0 else self.N // 2 - 200
        # the missing one is let through before the driver counts
        ops.append(dict(op("bulk", ch=b, l="a", n=n, nth=64, us=10, ms=8000), rules=[lat(1000, 1000)]))
        ops += [sleep(200), op("bulk", ch=b, l="a", n=3000, nth=16, us=10, ms=5000), write(b, lens=[5, 100]), sleep(5000), fin(b)]
        return scenario(f"C13/window{'w' if start else ''}{i}", "C13", r.randrange(1 << 30), ops, miss=miss if i % 2 == 0 else -1)


# ---------------------------------------------------------------- C05 .. C08


class LifeCheck(Check):
    assumptions = ["the packet connection is simulated; time is virtual (testing/synctest)",
                   "packets of an ended connection are not delayed into the next one between the same addresses (see DESIGN.md, finding)"]

    def traces(self, run):
        t = project.life(run, run.sc.get("loss", True))
        return [("LifeTrace", "LifeTrace_" + self.prop, t)]


HS = lambda r, lo=1000, hi=1000, **k: rule("pass", k=HANDSHAKE, lat=[lo, hi], **k)
REST = lat(1000, 1000)


@register
class C05(LifeCheck):
    prop = "C05"
    models = [("MCHandshake", "HandshakeAA"), ("MCHandshake", "HandshakeAB")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(40 * k):
            out.append(self.repeated(r, i))
        for i in range(40 * k):
            out.append(self.crossing(r, i))
        for i in range(12 * k):
            out.append(self.many(r, i))
        for i in range(12 * k):
            out.append(self.closed(r, i))
        return out + self.designed(r, 30 * k) + self.designed(r, 15 * k, "HandshakeGenA")

    def designed(self, r, n, cfg="HandshakeGen"):
        """behaviours of the design: each handshake packet arrives when and as often as the model says"""
        own = dict(HandshakeGen="ABAAB", HandshakeGenA="AAA")[cfg]
        out = []
        for i, h in enumerate(core.behaviours("HandshakeGen", cfg, n, 110, r.randrange(1 << 30))):
            order, names, cnt = {}, [], dict(A=0, B=0)
            ops = [new("A"), new("B"), net(rule("drop", k=HANDSHAKE), REST)]
            quiet = 0
            for e in h:
                quiet = quiet + 1 if e["op"] == "tick" else 0
                if e["op"] == "call":
                    o = own[e["u"] - 1]
                    cnt[o] += 1
                    order[e["u"]] = len(order) + 1
                    names.append(f"{o.lower()}{cnt[o]}")
                    ops += [connect(o, "B" if o == "A" else "A", names[-1], r.choice(["true", "false"]), **{"async": True}), sleep(us=300)]
                elif e["op"] == "recv":
                    ops += [op("replay", k=e["k"], id=-1, uu=order[e["u"]], nth=0, n=1), sleep(us=300)]
                elif quiet < 30:
                    ops.append(sleep(500))
                if names and r.random() < 0.15:
                    ops += [write(r.choice(names + [srv("B", "A"), srv("A", "B"), srv("B", "A", 2)]), lens=[r.choice([5, 90])]), sleep(40)]
            out.append(scenario(f"{self.prop}/{cfg}{i}", self.prop, r.randrange(1 << 30), ops + self.finish(r)))
        return out

    def hsrules(self, r, slow=True, c4=1200000):
        rs = []
        p = r.choice([0, 0, 0.1, 0.3, 0.5])
        for k in HANDSHAKE:
            x = r.random()
            if p and r.random() < 0.6:
                rs.append(rule("drop", k=[k], p=p))
            hi = r.choice([1000, 5000, 300000, 1500000]) if not slow else r.choice([1000, 5000, 300000, 1500000, 4900000, 5100000, 7000000])
            if k == "C4":
                hi = min(hi, c4)
            rs.append(rule("pass", k=[k], lat=[1000, hi], **({"dup": [r.choice([1000, hi // 2 + 1000, hi + 3000, 6000000]) for _ in range(r.choice([1, 2]))]} if x < 0.4 else {})))
        return rs

    def talk(self, r, n=2):
        o = []
        for c in ["a1", "a2", "a3", "b1"] + [srv("B", "A", j) for j in (1, 2, 3)] + [srv("A", "B", 1)]:
            o.append(write(c, lens=msglens(r, n)))
        return o

    def finish(self, r):
        names = ["a1", "a2", "a3", "b1", "b2"] + [srv("B", "A", j) for j in (1, 2, 3)] + [srv("A", "B", j) for j in (1, 2)]
        o = [JOIN, net(REST), sleep(300)] + [write(c, lens=[10, 100, 0]) for c in names] + [sleep(r.choice([100, 9000])), op("chans", ep="A"), op("chans", ep="B")]
        o += [write(c, lens=[20, 70]) for c in names]
        return o + [sleep(9000), fin(*names), op("chans", ep="A"), op("chans", ep="B"), sleep(100)]

    def repeated(self, r, i):
        """attempts from one address, one after another or overlapping, over a network that mistreats
        the handshake"""
        n = r.choice([1, 1, 2, 3])
        over = r.random() < 0.5
        on = []
        if r.random() < 0.5:
            on.append(dict(where="conn", ep="B", do=[write("@", lens=[r.choice([5, 90, 300])])]))
        ops = [new("A"), new("B"), net(*self.hsrules(r, c4=7000000 if not over and r.random() < 0.5 else 1200000), REST)]
        for j in range(n):
            ops.append(connect("A", "B", f"a{j+1}", r.choice(["true", "false"]), **({"async": True} if over else {})))
            if not over:
                ops.append(write(f"a{j+1}", lens=[7, 80]))
                ops.append(sleep(r.choice([0, 1, 3000])))
            else:
                ops.append(sleep(us=r.choice([1, 1500, 3500, 700000, 4999000, 5003000])))
            if r.random() < 0.3:
                ops.append(net(*self.hsrules(r), REST))
        return scenario(f"C05/rep{i}", "C05", r.randrange(1 << 30), ops + self.finish(r), on)

    def crossing(self, r, i):
        """both ends connect to each other; further attempts follow"""
        on = []
        if r.random() < 0.4:
            on.append(dict(where="conn", do=[write("@", lens=[r.choice([5, 90, 300])])]))
        big = r.choice([1000, 4000, 200000, 1200000])
        ops = [new("A"), new("B")]
        rs = [rule("pass", k=[k], frm=e, lat=[1000, r.choice([1000, 2500, big])], **({"dup": [r.choice([1500, 9000, 2000000])]} if r.random() < 0.3 else {}))
              for k in HANDSHAKE for e in "AB"]
        if r.random() < 0.3:
            rs = [rule("drop", k=[r.choice(HANDSHAKE)], frm=r.choice("AB"), max=1)] + rs
        ops.append(net(*rs, REST))
        f = [connect("A", "B", "a1", "true", **{"async": True}), sleep(us=r.choice([1, 500, 1000, 1500, 2000, 3000, 4000, 100000, 900000])),
             connect("B", "A", "b1", "true", **{"async": True})]
        if r.random() < 0.3:
            f += [sleep(us=r.choice([1, 1000, 2500, 400000, 5100000])), connect(*r.choice([("A", "B", "a2"), ("B", "A", "b2")]), "true", **{"async": True})]
        ops += f + [JOIN]
        if r.random() < 0.3:
            ops += [sleep(9000), connect("A", "B", "a3", "true")]
        return scenario(f"C05/cross{i}", "C05", r.randrange(1 << 30), ops + self.finish(r), on)

    def many(self, r, i):
        """several endpoints connect to one, and it to others"""
        eps = ["C", "D", "E", "G"]
        ops = [new("B")] + [new(e) for e in eps] + [net(*self.hsrules(r, slow=False), REST)]
        chs = []
        for e in eps:
            if r.random() < 0.75:
                ops.append(connect(e, "B", e.lower(), "true", **{"async": True}))
                chs += [e.lower(), srv("B", e)]
            else:
                ops.append(connect("B", e, e.lower(), "true", **{"async": True}))
                chs += [e.lower(), srv(e, "B")]
            ops.append(sleep(us=r.choice([1, 1000, 300000])))
        ops += [JOIN, net(REST)]
        ops += [write(c, lens=[9, 100, 30]) for c in chs] + [sleep(9000), fin(*chs)] + [op("chans", ep=e) for e in eps + ["B"]] + [sleep(100)]
        return scenario(f"C05/many{i}", "C05", r.randrange(1 << 30), ops)

    def closed(self, r, i):
        """nobody there, or one of the endpoints is closed meanwhile"""
        how = r.choice(["none", "peer", "own", "peerlater", "ownlater"])
        ops = [new("A"), new("B"), net(HS(r, 1000, r.choice([1000, 200000])), REST)]
        if how == "none":
            ops += [connect("A", "Z", "a1", "true", **{"async": True}), sleep(us=1), connect("A", "B", "a2", "true")]
        elif how == "peer":
            ops += [op("closeep", ep="B"), connect("A", "B", "a1", "true")]
        elif how == "own":
            ops += [op("closeep", ep="A"), connect("A", "B", "a1", "true")]
        else:
            ops += [connect("A", "B", "a1", "true", **{"async": True}), sleep(us=r.choice([1, 1500, 2500, 3500, 4500, 300000])),
                    op("closeep", ep="A" if how == "ownlater" else "B")]
        ops += [JOIN]
        if how in ("none",):
            return scenario(f"C05/closed{i}", "C05", r.randrange(1 << 30), ops + self.finish(r))
        ops += [sleep(9000), op("chans", ep="A"), op("chans", ep="B"), sleep(100)]
        return scenario(f"C05/closed{i}", "C05", r.randrange(1 << 30), ops)


@register
class C06(LifeCheck):
    prop = "C06"
    models = [("MCHandshake", "HandshakeAA"), ("MCHandshake", "HandshakeAB")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(50 * k):
            out.append(self.late(r, i))
        for i in range(40 * k):
            out.append(self.again(r, i))
        for i in range(10 * k):
            out.append(self.dups(r, i))
        for i in range(8 * k):
            out.append(self.waiting(r, i))
        return out + self.designed(r, 20 * k) + self.designed(r, 30 * k, "HandshakeGenA")

    designed, finish = C05.designed, C05.finish

    def replays(self, r, n, uu=0, gaps=(0, 1, 3, 500, 2000, 4900)):
        o = []
        for _ in range(n):
            k = r.choice(HANDSHAKE)
            o.append(op("replay", k=k, id=-1, uu=uu, nth=r.choice([0, 0, -1, 1]), n=r.choice([1, 1, 2, 5]), lat=r.choice([0, 0, 1000, 300000])))
            if r.random() < 0.8:
                o.append(sleep(r.choice(gaps)))
        return o

    def late(self, r, i):
        cr = r.choice(["true", "false", "none"])
        a, b = r.choice([("A", "B"), ("B", "A")])
        s = srv(b, a)
        ops = [new("A"), new("B"), net(rule("pass", k=HANDSHAKE, lat=[1000, 3000], dup=r.choice([[], [], [2000], [1000, 5000, 400000]])), REST), connect(a, b, "a", cr)]
        ops += [net(rule("pass", k=HANDSHAKE, lat=[1000, 3000], dup=r.choice([[], [4000]])), REST)]
        for _ in range(r.choice([1, 2, 4])):
            ops += self.replays(r, r.choice([1, 2, 5]))
            for c in ("a", s):
                if r.random() < 0.6:
                    ops.append(write(c, lens=msglens(r, r.choice([1, 3]))))
            ops.append(sleep(r.choice([0, 10, 1000, 4000])))
        if r.random() < 0.3:
            ops += [sleep(r.choice([10000, 130000]))] + self.replays(r, 4)
        ops += [write("a", lens=[5, 100]), write(s, lens=[5, 100]), op("chans", ep="A"), op("chans", ep="B"), sleep(9000), fin("a", s), sleep(100)]
        return scenario(f"C06/late{i}", "C06", r.randrange(1 << 30), ops)

    def dups(self, r, i):
        """every handshake packet is repeated at once, a little later, much later"""
        rs = [rule("pass", k=[k], lat=[1000, r.choice([1000, 300000])], dup=[r.choice([0, 1000, 1001, 2000, 3000, 4000, 50000, 900000, 4000000, 8000000]) for _ in range(r.choice([1, 2, 4]))])
              for k in HANDSHAKE]
        ops = [new("A"), new("B"), net(*rs, REST), connect("A", "B", "a", r.choice(["true", "none"]))]
        for _ in range(4):
            ops += [write("a", lens=[5, 100]), write(srv("B", "A"), lens=[7, 90]), sleep(r.choice([1, 100, 4500]))]
        ops += [sleep(9000), fin("a", srv("B", "A")), op("chans", ep="A"), op("chans", ep="B"), sleep(100)]
        return scenario(f"C06/dups{i}", "C06", r.randrange(1 << 30), ops)

    def waiting(self, r, i):
        """packets of the old connection wait behind a slow socket, or its messages behind a slow
        reader, when the new one begins; the packet being written meanwhile is lost"""
        n = r.choice([3, 8])
        b1, b2 = srv("B", "A", 1), srv("B", "A", 2)
        side = r.choice("AB")
        old, new_, oth = ("a1", "a2", b2) if side == "A" else (b1, b2, "a2")
        what = "DARD"[i % 4]
        on = []
        ops = [new("A"), new("B"), net(REST), connect("A", "B", "a1", "none"), sleep(r.choice([3, 300]))]
        if what == "R":  # messages wait behind the reader of the other side
            on = [dict(where="g", ep="B" if side == "A" else "A", ev="msg", max=1, do=[sleep(150)])]
            ops += [write(old, n=n, len=r.choice([10, 80])), sleep(10)]
        else:
            k = dict(D=["D"], A=["A"])[what]
            slow, w = (side, old) if what == "D" else ("B" if side == "A" else "A", old)
            ops += [net(rule("drop", k=k, frm=slow, max=1), REST), op("slow", ep=slow, us=150000, n=1, k=k[0]),
                    write(w, n=n, len=10, **{"async": what == "D"}), sleep(10)]
        ops += [connect("A", "B", "a2", r.choice(["true", "none"]))]
        if what == "A":  # the new connection's packets are lost at first
            ops += [net(rule("drop", k=["D"]), rule("drop", k=["A"], frm=slow, max=1), REST), write(new_, n=n + 1, len=11), sleep(300), net(REST)]
        else:
            ops += [sleep(r.choice([0, 300]))]
        ops += [write(x, n=n + 1, len=12) for x in (new_, oth)] + [JOIN, sleep(9000), fin("a2", b2), op("chans", ep="A"), op("chans", ep="B"), sleep(100)]
        return scenario(f"C06/waiting{i}", "C06", r.randrange(1 << 30), ops, on)

    def again(self, r, i):
        """a new attempt from the same address while the old connection is open, idle, ended"""
        a, b = r.choice([("A", "B"), ("A", "B"), ("B", "A")])
        s = [srv("B", "A", j) for j in (1, 2, 3)] + [srv("A", "B", j) for j in (1, 2, 3)]
        ops = [new("A"), new("B"), net(rule("pass", k=HANDSHAKE, lat=[1000, 2000]), REST), connect("A", "B", "a1", r.choice(["true", "false"]))]
        ops += [write("a1", lens=[5, 100]), write(s[0], lens=[6, 90]), sleep(r.choice([3, 700]))]
        names = ["a1"]
        for j in range(r.choice([1, 1, 2])):
            if r.random() < 0.3:
                ops += [op("close", ch=r.choice(names + s[:1])), sleep(r.choice([3, 10]))]
            if r.random() < 0.2:  # a handshake that fails half way
                ops += [net(rule("drop", k=[r.choice(["C2", "C3", "C4"])]), rule("pass", k=HANDSHAKE, lat=[1000, 2000]), REST)]
            else:
                ops += [net(rule("pass", k=HANDSHAKE, lat=[1000, 2000], dup=r.choice([[], [1500], [30000]])), REST)]
            if r.random() < 0.3:  # traffic up to the moment of the replacement
                ops += [write("a1", n=200, gap=100, **{"async": True}), write(s[0], n=200, gap=100, **{"async": True})]
            n = f"a{j+2}"
            ops += [connect(a, b, n, r.choice(["true", "false"])), write(n, lens=[8, 100])]
            ops += [net(rule("pass", k=HANDSHAKE, lat=[1000, 2000]), REST)]
            names.append(n)
            if r.random() < 0.5:
                ops += self.replays(r, 3, uu=r.choice([1, 1, 2]), gaps=(0, 1, 3, 300))
            # whatever happens to the old one
            for _ in range(r.choice([0, 2, 4])):
                ops += [r.choice([op("close", ch="a1"), write("a1", lens=[9, 100]), write(s[0], lens=[9]), op("close", ch=s[0]), op("destroyed", ch="a1")]), sleep(r.choice([0, 1, 400]))]
                if (a, b) == ("B", "A"):
                    ops.pop(-2)
            ops += [write(x, lens=[11, 77]) for x in names[1:] + s]
            ops.append(sleep(r.choice([2, 700])))
        ops += [sleep(300), JOIN] + [write(x, lens=[12, 70]) for x in names + s] + [op("chans", ep="A"), op("chans", ep="B"), sleep(9000), fin(*(names + s)), sleep(100)]
        return scenario(f"C06/again{i}", "C06", r.randrange(1 << 30), ops)


@register
class C07(LifeCheck):
    prop = "C07"
    models = [("Pipeline", "PipelineOne")]
    models_thorough = [("Pipeline", "Pipeline")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(70 * k):
            out.append(self.ends(r, i))
        for i in range(30 * k):
            out.append(self.closeall(r, i))
        for i in range(2 * k):
            out.append(self.giveup(r, i))
        for i in range(10 * k):
            out.append(self.slow(r, i))
        for i in range(30 * k):
            out.append(self.busy(r, i))
        for i in range(6 * k):
            out.append(self.once(r, i))
        return out

    def once(self, r, i):
        """closed by many at the very same moment"""
        n = 4
        eps = "BCDEGHIJ"
        ops = [new("A")] + [new(e) for e in eps] + [net(REST)] + [connect("A", e, e.lower(), "true") for e in eps]
        ops += [op("slow", ep="A", us=1000, n=n * len(eps), k="X", nth=n)]
        for e in eps:
            ops += [op("close", ch=e.lower(), **{"async": True}) for _ in range(n)] + [sleep(5)]
        return scenario(f"C07/once{i}", "C07", r.randrange(1 << 30), ops + [JOIN, sleep(9000)])

    def busy(self, r, i):
        """packets wait behind a slow socket when the connection ends"""
        b = srv("B", "A")
        cr = r.choice(["true", "none"])
        w = r.choice(["a", b])
        e = "A" if w == "a" else "B"
        ops = base(cr=cr) + [r.choice([op("slow", ep=e, us=r.choice([800, 3000, 5000]), n=r.choice([3, 9]), k=r.choice(["D", "D", "A", ""])), sleep(0)])]
        ops += [write(w, n=r.choice([1, 3, 8]), len=10, **{"async": r.random() < 0.8}), write("a" if w == b else b, n=r.choice([0, 2, 6]), len=10, **{"async": True}),
                sleep(us=r.choice([0, 500, 1500, 3000, 4500, 9000]))]
        if r.random() < 0.4:
            ops.append(op("slow", ep=e, us=r.choice([1000, 5000]), n=2, k="X"))
        n = r.choice([1, 1, 2])
        ops += [op("close", ch=w, **{"async": r.random() < 0.6})] if n == 1 else [op("close", ch=w, **{"async": True}), sleep(us=r.choice([0, 1, 1000])), op("close", ch=w, **{"async": True})]
        if r.random() < 0.3:
            ops += [op("closeep", ep=e, **{"async": True})]
        elif r.random() < 0.3:
            ops += [op("close", ch="a" if w == b else b)]
        ops += [sleep(us=r.choice([0, 500, 4000, 300000]))] + self.after(r, ["a", b]) + [JOIN, sleep(9000)] + self.after(r, ["a", b])
        return scenario(f"C07/busy{i}", "C07", r.randrange(1 << 30), ops)

    def after(self, r, chs, eps="AB"):
        """everything one may try with an ended connection"""
        o = []
        for _ in range(r.choice([2, 5, 8])):
            c = r.choice(chs)
            o.append(r.choice([write(c, lens=[5]), write(c, lens=[100], cb=True, tmo=50), op("close", ch=c), op("destroyed", ch=c), op("chans", ep=r.choice(eps)),
                               op("stat", ep=r.choice(eps)), write(c, lens=[3000, 1], **{"async": True})]))
            if r.random() < 0.6:
                o.append(sleep(r.choice([0, 1, 50, 300])))
        return o

    def ends(self, r, i):
        cr = r.choice(["true", "false", "none"])
        b = srv("B", "A")
        snd, oth, e, f = r.choice([("a", b, "A", "B"), (b, "a", "B", "A")])
        ops = base(cr=cr, maxlen=r.choice([0, 0, 100]))
        on = []
        x = r.random()
        if x < 0.25:  # from the reader
            on.append(dict(where="g" if cr != "true" else r.choice("cg"), ev="msg", max=r.choice([1, 2]), do=[op("close", ch="@"), op("destroyed", ch="@")] + self.after(r, ["@"])[:3]))
        elif x < 0.5:  # from the end notification
            on.append(dict(where="g", ev="err", max=4, do=[op("destroyed", ch="@"), op("chans", ep="A"), op("chans", ep="B"), write("@", lens=[4]), op("close", ch="@")]))
        elif x < 0.6:
            on.append(dict(where="dlv", max=1, do=[op("close", ch="@"), op("destroyed", ch="@")]))
        elif x < 0.65:
            on.append(dict(where="conn", max=1, do=[op("close", ch="@"), op("destroyed", ch="@")]))
        on = [dict(o, do=[y for y in o["do"] if y["op"] != "sleep" and not y.get("async")]) for o in on]
        ops.append(net(*r.choice([[REST], [rule("drop", k=["A"]), REST], [rule("drop", k=["D"], p=0.5), REST], [rule("pass", k=["X"], lat=[1000], dup=[1000, 1500, 3000]), REST],
                                  [rule("drop", k=["X"]), REST]])))
        ops += [write("a", lens=msglens(r, r.choice([1, 5])), cb=r.random() < 0.5, **{"async": r.random() < 0.5}), write(b, lens=msglens(r, r.choice([1, 5])), cb=r.random() < 0.5)]
        ops.append(sleep(r.choice([0, 1, 2, 100, 150, 600])))
        how = r.choice(["local", "local", "both", "twice", "silence", "x", "ep", "again"])
        if how == "local":
            ops.append(op("close", ch=snd))
        elif how == "twice":
            ops += [op("close", ch=snd, **{"async": True}), op("close", ch=snd, **{"async": True})]
        elif how == "both":
            ops += [op("close", ch=snd), sleep(us=r.choice([0, 500, 1000, 1500])), op("close", ch=oth)]
        elif how == "silence":
            ops += [net(rule("drop", **r.choice([{}, {"frm": "A"}, {"frm": "B"}])), REST), sleep(r.choice([5000, 7500, 14000]))]
        elif how == "x":
            ops += [op("close", ch=oth), sleep(2), op("replay", k="X", id=-1, nth=0, n=2)]
        elif how == "ep":
            ops += [op("closeep", ep=e)]
        elif how == "again":
            ops += [connect("A", "B", "a2", cr)]
        ops += self.after(r, [snd, oth, snd])
        if r.random() < 0.5:
            ops += [op("replay", k=r.choice(["D", "A", "X"]), id=-1, nth=r.randrange(4), n=1) for _ in range(2)]
        ops += [JOIN, net(REST), sleep(r.choice([100, 9000])), op("replay", k="X", id=-1, nth=0, n=1)] + self.after(r, [snd, oth])
        ops += [sleep(9000)] + self.after(r, [snd, oth]) + [sleep(9000)]
        if how == "again":  # old packets are not brought into the next connection
            ops = [o for o in ops if o["op"] != "replay"]
        return scenario(f"C07/{how}{i}", "C07", r.randrange(1 << 30), ops, on)

    def closeall(self, r, i):
        """closing an endpoint with several connections, also from callbacks, and again"""
        n = r.choice([1, 2, 4])
        ps = "CDEG"[:n]
        ops = [new("B")] + [new(p) for p in ps] + [net(REST)]
        chs = []
        for p in ps:
            if r.random() < 0.5:
                ops.append(connect(p, "B", p.lower(), r.choice(["true", "none"])))
                chs += [(p.lower(), srv("B", p))]
            else:
                ops.append(connect("B", p, p.lower(), r.choice(["true", "none"])))
                chs += [(srv(p, "B"), p.lower())]
        flat_ = [c for x in chs for c in x]
        ops += [write(c, lens=msglens(r, 2)) for c in flat_] + [sleep(r.choice([0, 1, 300]))]
        on = []
        x = r.random()
        if x < 0.3:
            on.append(dict(where="g", ep="B", ev="err", max=r.choice([1, 9]), do=[op("closeep", ep="B"), op("chans", ep="B")]))
        elif x < 0.5:
            on.append(dict(where="g", ep="B", ev="msg", max=1, do=[op("closeep", ep="B")]))
            ops.append(write(r.choice(chs)[0], lens=[5]))
        elif x < 0.6:
            on.append(dict(where="g", ep="B", ev="err", max=2, do=[op("close", ch=r.choice(chs)[1])]))
        if r.random() < 0.3:
            ops += [op("close", ch=r.choice(flat_)), sleep(r.choice([0, 3]))]
        ops += [op("closeep", ep="B", **{"async": r.random() < 0.4})]
        if r.random() < 0.3:
            ops += [op("closeep", ep="B", **{"async": r.random() < 0.4})]
        ops += self.after(r, flat_, "B" + ps) + [sleep(100), op("closeep", ep="B")] + self.after(r, flat_, "B" + ps)
        ops += [JOIN, sleep(9000)] + [op("chans", ep=e) for e in "B" + ps] + [op("destroyed", ch=c) for c in flat_]
        if r.random() < 0.5:
            ops += [op("closeep", ep=ps[0]), op("closeep", ep="B"), sleep(100)]
        return scenario(f"C07/closeall{i}", "C07", r.randrange(1 << 30), ops, on)

    def giveup(self, r, i):
        b = srv("B", "A")
        snd, frm, to = [("a", "A", "B"), (b, "B", "A")][i % 2]
        ops = base(cr=r.choice(["true", "none"])) + [net(rule("drop", frm=frm, to=to, k=["D"]), REST), write(snd, lens=[10, 20]), sleep(320000)] + self.after(r, ["a", b]) + [sleep(9000)]
        return scenario(f"C07/giveup{i}", "C07", r.randrange(1 << 30), ops)

    def slow(self, r, i):
        """messages wait behind a slow reader when the connection ends"""
        b = srv("B", "A")
        cr = r.choice(["true", "none"])
        on = [dict(where="g", ep="B", ev="msg", max=3, do=[sleep(r.choice([100, 1500]))])]
        ops = base(cr=cr) + [write("a", n=r.choice([3, 8]), len=10), write(b, lens=[5, 5]), sleep(r.choice([20, 160]))]
        ops += [r.choice([op("close", ch="a"), op("close", ch=b), op("closeep", ep="A"), op("closeep", ep="B"), connect("A", "B", "a2", cr), connect("A", "B", "a2", cr)])]
        ops += [sleep(r.choice([10, 6000]))] + self.after(r, ["a", b]) + [JOIN, sleep(9000)]
        return scenario(f"C07/slow{i}", "C07", r.randrange(1 << 30), ops, on)


@register
class C08(LifeCheck):
    prop = "C08"
    models = [("Idle", "Idle"), ("Idle", "IdleLive"), ("Idle", "IdleLost")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(30 * k):
            out.append(self.idle(r, i))
        for i in range(50 * k):
            out.append(self.dead(r, i))
        for i in range(20 * k):
            out.append(self.spotty(r, i))
        return out + self.designed(r, 30 * k)

    def designed(self, r, n):
        """behaviours of the design: when the network works, who talks, which packets are lost"""
        kinds = dict(ping=["PI"], pong=["PO"], data=["D"], ack=["A"])
        out = []
        for i, h in enumerate(core.behaviours("IdleGen", "IdleGen", n, 400, r.randrange(1 << 30))):
            a, b = r.choice([("a", srv("B", "A")), ("b", srv("A", "B"))])
            ops = [new("A"), new("B"), net(REST), connect("A" if a == "a" else "B", "B" if a == "a" else "A", a, r.choice(["true", "none"]))]
            pa, pb = ("A", "B") if a == "a" else ("B", "A")
            slow = r.choice([1000, 1000, 100000, 400000])
            off = []
            rules = lambda *x: net(*x, *[rule("drop", to=t) for t in off], lat(1000, slow))
            ops += [rules(), sleep(us=r.choice([0, 100000, 300000, 450000]))]
            good = True
            n = 0
            for e in h:
                if e["op"] == "tick":
                    n += 1
                    continue
                if n:
                    ops.append(sleep(500 * n))
                    n = 0
                if e["op"] == "works":
                    good = False
                    off = ([] if e["a"] else [pa]) + ([] if e["b"] else [pb])
                    ops.append(rules())
                elif e["op"] == "talk":
                    ops += [write(a if e["e"] == "A" else b, lens=[r.choice([5, 90])])]
                else:
                    good = False
                    ops.append(rules(rule("drop", k=kinds[e["k"]], to=pa if e["to"] == "A" else pb, max=1)))
            ops += [sleep(500 * n + 10000)]
            out.append(scenario(f"C08/Idle{i}", "C08", r.randrange(1 << 30), ops, loss=not good))
        return out

    def idle(self, r, i):
        """nothing is sent, or rarely, or only one way"""
        n = r.choice([1, 1, 3])
        ps = "CDE"[:n]
        d = r.choice([1000, 20000, 300000, 600000])
        ops = [new("B")] + [new(p) for p in ps] + [net(lat(1000, 1000))]
        chs = []
        for p in ps:
            if r.random() < 0.5:
                ops.append(connect(p, "B", p.lower(), r.choice(["true", "none"])))
                chs += [p.lower(), srv("B", p)]
            else:
                ops.append(connect("B", p, p.lower(), r.choice(["true", "none"])))
                chs += [p.lower(), srv(p, "B")]
        ops.append(net(lat(d, r.choice([d, d + 50000]))))
        for _ in range(r.choice([1, 3, 6])):
            ops.append(sleep(r.choice([3900, 4300, 5900, 6100, 30000, 120000])))
            if r.random() < 0.5:
                ops.append(write(r.choice(chs), lens=[10]))
        ops += [sleep(r.choice([10000, 600000]))]
        return scenario(f"C08/idle{i}", "C08", r.randrange(1 << 30), ops, loss=False)

    def dead(self, r, i):
        """the peer falls silent at some moment of the probing"""
        b = srv("B", "A")
        ops = base(cr=r.choice(["true", "none"])) + [net(lat(1000, r.choice([1000, 200000])))]
        for _ in range(r.choice([0, 1, 2])):
            ops += [write(r.choice(["a", b]), lens=[10]), sleep(r.choice([100, 1000, 4200, 5500, 9000]))]
        ops.append(sleep(us=r.choice([0, 250000, 499000, 777000, 3900000, 4400000])))
        ops.append(net(rule("drop", **r.choice([{}, {"frm": "A"}, {"frm": "B"}])), lat(1000, 1000)))
        if r.random() < 0.7:  # sending does not help
            for _ in range(r.choice([1, 10])):
                ops += [write(r.choice(["a", b]), lens=[10, 100]), sleep(r.choice([100, 600, 900]))]
        ops.append(sleep(r.choice([2000, 5000, 5900, 9000])))
        if r.random() < 0.3:
            ops += [net(lat(1000, 1000)), sleep(9000)]
        ops += [sleep(16000)]
        return scenario(f"C08/dead{i}", "C08", r.randrange(1 << 30), ops)

    def spotty(self, r, i):
        """some packets get through"""
        b = srv("B", "A")
        ops = base(cr=r.choice(["true", "none"])) + [net(rule("drop", k=r.choice([["PI"], ["PO"], ["PI", "PO"], ["A"], ["D"]]), p=r.choice([0.3, 0.6, 0.8])), lat(1000, r.choice([1000, 100000])))]
        for _ in range(r.choice([2, 6])):
            ops += [write(r.choice(["a", b]), lens=[10, 100])] if r.random() < 0.5 else []
            ops.append(sleep(r.choice([1000, 4500, 7000, 20000])))
        ops += [sleep(60000)]
        return scenario(f"C08/spotty{i}", "C08", r.randrange(1 << 30), ops)


# ---------------------------------------------------------------- C15, C16


class AppCheck(Check):
    assumptions = ["the packet connection is simulated; time is virtual (testing/synctest)"]

    def traces(self, run):
        return [("AppTrace", "AppTrace_" + self.prop, project.app(run))]


def uniq(r, n):
    """lengths of messages whose contents are all different"""
    return [r.choice([8, 9, 12, 17, 33, 63, 64, 65, 66, 100, 101, 250]) for _ in range(n)]


@register
class C15(AppCheck):
    prop = "C15"
    models = [("Pipeline", "PipelineOne")]
    models_thorough = [("Pipeline", "PipelineTwo")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 12
        for i in range(70 * k):
            out.append(self.who(r, i))
        for i in range(30 * k):
            out.append(self.early(r, i))
        return out

    READERS = ["none", "true", "false", "mix", "mix"]

    def who(self, r, i):
        """every combination of readers and answers, several connections, a bad network"""
        ml = r.choice([0, 0, 40])
        kw = {"maxlen": ml} if ml else {}
        eps = "ABC"[:r.choice([2, 2, 3])]
        ops = [new(e, r.choice(self.READERS), **kw) for e in eps] + [net(lat(1000, 1000))]
        chs, on = [], []
        for x, y in [("A", "B")] + ([("C", "B"), ("A", "C")] if len(eps) == 3 else []):
            if r.random() < 0.4:
                x, y = y, x
            c = (x + y).lower()
            ops.append(connect(x, y, c, r.choice(self.READERS)))
            chs += [c, srv(y, x)]
        ops.append(net(*noisy(r)))
        x = r.random()
        if x < 0.15:
            on.append(dict(where="c", ev="msg", nth=[r.choice([1, 3])], do=[op("close", ch="@")]))
        elif x < 0.3:
            on.append(dict(where=r.choice("cg"), ev="msg", max=3, do=[sleep(r.choice([1, 40, 300]))]))
        for _ in range(r.choice([1, 3, 5])):
            for c in r.sample(chs, r.randrange(1, len(chs) + 1)):
                ops.append(write(c, lens=uniq(r, r.choice([1, 3, 10, 25])), gap=r.choice([0, 0, 50, 5000]), **{"async": r.random() < 0.5}))
            ops += [JOIN, sleep(r.choice([0, 1, 60, 400]))]
        if r.random() < 0.15:
            ops += [op("close", ch=r.choice(chs)), sleep(5)]
        ops += [JOIN, net(lat(1000, 3000)), sleep(7000), fin(*chs)]
        return scenario(f"C15/who{i}", "C15", r.randrange(1 << 30), ops, on)

    def early(self, r, i):
        """the accepting side sends at once: messages arrive before the attempt returns"""
        ops = [new("A", r.choice(self.READERS)), new("B", r.choice(["none", "true"]))]
        c4 = r.choice([1000, 1000, 999, 1001, 2000])
        ops.append(net(rule("pass", k=["C4"], lat=[c4]), lat(1000, r.choice([1000, 1000, 1002]))))
        on = [dict(where="conn", ep="B", do=[write("@", lens=uniq(r, r.choice([1, 2, 10])), gap=r.choice([0, 0, 1]))])]
        rd = r.choice(self.READERS[1:])
        ops += [connect("A", "B", "a", rd), write("a", lens=uniq(r, 2)), write(srv("B", "A"), lens=uniq(r, 3)), sleep(6000), fin("a", srv("B", "A"))]
        return scenario(f"C15/early{i}", "C15", r.randrange(1 << 30), ops, on)


@register
class C16(AppCheck):
    prop = "C16"
    models = [("Pipeline", "PipelineOne")]
    models_thorough = [("Pipeline", "Pipeline"), ("Pipeline", "PipelineTwo"), ("Pipeline", "PipelineThree")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(24 * k):
            out.append(self.backlog(r, i))
        for i in range(50 * k):
            out.append(self.nested(r, i))
        for i in range(4 * k):
            out.append(self.over(r, i))
        return out

    def over(self, r, i):
        """the end of a connection given up or fallen silent is told while others go on"""
        ops, chs, eps = self.setup(r, 2)
        on = [dict(where=w, ev="err", max=9, do=self.calls(r, chs, r.choice([2, 5]))) for w in "gc"]
        c = r.choice(chs)
        e = c.split("<")[0] if "<" in c else next(o["ep"] for o in ops if o["op"] == "connect" and o["ch"] == c)
        other = next(o for o in ops if o["op"] == "connect" and (o["ch"] == c or srv(o["to"], o["ep"]) == c))
        f = other["to"] if e == other["ep"] else other["ep"]
        if i % 2:
            ops += [net(rule("drop", frm=e, to=f, k=["D"]), lat(1000, 1000)), op("mark", text="why:" + c), write(c, lens=[10, 20]), sleep(320000)]
        else:
            ops += [net(rule("drop", frm=e, to=f), rule("drop", frm=f, to=e), lat(1000, 1000)), op("mark", text="why:" + c), write(c, lens=[10, 20]), sleep(8000)]
        ops += [net(lat(1000, 1000))]
        return scenario(f"C16/over{i}", "C16", r.randrange(1 << 30), self.tail(r, ops, chs, eps), on)

    def tail(self, r, ops, chs, eps):
        """everything still works"""
        ops += [JOIN, sleep(9000)]
        ops += [write(c, lens=[11, 100]) for c in chs]
        ops += [new("Z"), connect("Z", "B", "z", "true"), write("z", lens=[10]), write(srv("B", "Z"), lens=[70]), sleep(3000), fin(*chs, "z", srv("B", "Z"))]
        ops += [op("chans", ep=e) for e in eps] + [op("stat", ep=e) for e in eps] + [sleep(31000)]
        return ops

    def calls(self, r, chs, n, close=True):
        o = []
        for _ in range(n):
            x = r.random()
            if x < 0.45:
                o.append(write(r.choice(["@", "@"] + chs), lens=[r.choice([5, 20, 100])] * r.choice([1, 1, 3, 30]), cb=r.random() < 0.4, tmo=r.choice([0, 50, 400])))
            elif x < 0.6 and close:
                o.append(op("close", ch=r.choice(["@", "@"] + chs)))
            elif x < 0.75:
                o.append(op("chans", ep=r.choice("AB"), kind=r.choice(["", "", "write", "stat"] + (["close"] if close else []))))
            elif x < 0.9:
                o.append(op("stat", ep=r.choice("AB")))
            else:
                o.append(op("destroyed", ch=r.choice(["@"] + chs)))
        return o

    def setup(self, r, n):
        ps = "ACDE"[:n]
        ops = [new("B", r.choice(["true", "false", "mix"]))] + [new(p, r.choice(["true", "false"])) for p in ps] + [net(lat(1000, 1000))]
        chs = []
        for p in ps:
            c = p.lower()
            if r.random() < 0.6:
                ops.append(connect(p, "B", c, r.choice(["true", "false", "none"])))
                chs += [c, srv("B", p)]
            else:
                ops.append(connect("B", p, c, r.choice(["true", "false", "none"])))
                chs += [c, srv(p, "B")]
        return ops, chs, "B" + ps

    def backlog(self, r, i):
        """far more arrives than the queues hold while the callbacks are busy with the endpoint"""
        ops, chs, eps = self.setup(r, r.choice([1, 2, 3]))
        m = r.choice([60, 200])
        on = [dict(where=r.choice(["g", "c", "g"]), ep="B", ev="msg", max=300, do=self.calls(r, [], r.choice([1, 2]), False) + r.choice([[], [sleep(us=r.choice([10, 500, 4000]))]]))]
        if r.random() < 0.6:
            on.append(dict(where="dlv", max=100, do=self.calls(r, chs, r.choice([1, 2]), False)))
        for o in on:
            for x in o["do"]:
                if x["op"] == "write":
                    x["lens"] = x["lens"][:3]
                    if x["ch"] == "@" and o["where"] == "dlv":
                        x["cb"] = False
        for c in chs:
            ops.append(write(c, lens=[r.choice([8, 20, 70])] * m, gap=r.choice([0, 0, 10]), cb=r.random() < 0.3, **{"async": True}))
        return scenario(f"C16/backlog{i}", "C16", r.randrange(1 << 30), self.tail(r, ops, chs, eps), on)

    def nested(self, r, i):
        """callbacks of every kind send, close, list and read the statistic"""
        ops, chs, eps = self.setup(r, r.choice([1, 2, 4]))
        on = []
        for _ in range(r.choice([1, 2, 4])):
            w, ev = r.choice([("g", "msg"), ("c", "msg"), ("g", "err"), ("c", "err"), ("dlv", ""), ("conn", "")])
            o = dict(where=w, max=r.choice([1, 2, 20]), do=self.calls(r, chs, r.choice([1, 3, 5])))
            if ev:
                o["ev"] = ev
            if r.random() < 0.6:
                o["ep"] = r.choice(eps) if w != "dlv" else ""
            on.append(o)
        if r.random() < 0.3:
            ops.append(net(*noisy(r, loss=0.2, dup=0)))
        for _ in range(r.choice([1, 2])):
            for c in r.sample(chs, r.randrange(1, len(chs) + 1)):
                ops.append(write(c, lens=uniq(r, r.choice([1, 5, 40])), cb=r.random() < 0.6, tmo=r.choice([0, 100, 1000]), **{"async": r.random() < 0.7}))
            x = r.random()
            if x < 0.25:
                ops.append(op("close", ch=r.choice(chs), **{"async": True}))
            elif x < 0.4:
                ops.append(op("chans", ep="B", kind=r.choice(["close", "write"]), **{"async": True}))
            ops.append(sleep(r.choice([0, 1, 100, 600])))
        ops += [JOIN, net(lat(1000, 1000))]
        return scenario(f"C16/nested{i}", "C16", r.randrange(1 << 30), self.tail(r, ops, chs, eps), on)


# ---------------------------------------------------------------- C09, C10
import junk


class IsoCheck(Check):
    assumptions = ["the packet connection is simulated; time is virtual (testing/synctest)"]

    def traces(self, run):
        return [("IsoTrace", "IsoTrace_" + self.prop, project.iso(run))]


@register
class C09(IsoCheck):
    prop = "C09"
    models = [("Endpoint", "Endpoint")]
    hang = "15s"

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 12
        for i in range(50 * k):
            out.append(self.strangers(r, i))
        for i in range(20 * k):
            out.append(self.elsewhere(r, i))
        for i in range(12 * k):
            out.append(self.dirty(r, i))
        for i in range(8 * k):
            out.append(self.flood(r, i))
        return out

    def inj(self, r, b, frm, to, **k):
        return op("inject", frm=frm, to=to, hex=b.hex(), **k)

    def talk(self, r, chs, ml=0):
        return [write(c, lens=uniq(r, r.choice([1, 3])), gap=r.choice([0, 50]), **{"async": True}) for c in r.sample(chs, r.randrange(1, len(chs) + 1))]

    def rest(self, chs, r):
        return [JOIN, net(lat(1000, 2000))] + [write(c, lens=uniq(r, 3)) for c in chs] + [sleep(6500)] + [write(c, lens=uniq(r, 2)) for c in chs] + [sleep(3000), fin(*chs)]

    def strangers(self, r, i):
        """anything from unknown addresses, ignorable datagrams from everywhere"""
        ops = [new("A", r.choice(["true", "mix"])), new("B", "true")]
        fast = r.random() < 0.6
        during = r.random() < 0.4
        calm = [lat(1000, 1000)]
        ops.append(net(*calm))
        js = [op("punchto", ep="B", to="X", len=3)] if r.random() < 0.1 else []
        for _ in range(r.choice([3, 8, 20])):
            x = r.random()
            to = r.choice("AB")
            b = junk.ignorable(r) if x < 0.4 else junk.forged(r)
            frm = r.choice(["X", "Y"]) if x >= 0.4 or r.random() < 0.5 else {"A": "B", "B": "A"}[to]
            js.append(self.inj(r, b, frm, to, lat=r.choice([0, 1, 1000, 2500, 20000]), n=r.choice([1, 1, 1, 3])))
        cn = connect("A", "B", "a", r.choice(["true", "false", "none"]), **{"async": during})
        if during:
            ops += [cn] + js[::2] + [JOIN]
        else:
            ops += [cn]
        chs = ["a", srv("B", "A")]
        if not fast:
            ops.append(net(*noisy(r, loss=0.2, hi=20000)))
        for j in js:
            ops.append(j)
            if r.random() < 0.4:
                ops += self.talk(r, chs) + [sleep(r.choice([0, 1, 3, 30])), JOIN]
        return scenario(f"C09/strangers{i}", "C09", r.randrange(1 << 30), ops + self.rest(chs, r), fast=fast)

    def elsewhere(self, r, i):
        """copies of genuine packets arrive from other addresses, at both ends"""
        ops = [new("A", "true"), new("B", "true"), new("C", "true"), net(lat(1000, 1000)), connect("C", "B", "c", "true")]
        chs = ["a", srv("B", "A")]
        hs = r.random() < 0.5
        if hs:  # connect packets overheard and sent again from elsewhere, the originals arrive first
            ops.append(connect("A", "B", "a", "true", **{"async": True}))
            for j in range(6):
                ops += [sleep(us=r.choice([500, 900, 1000, 1100])), op("replay", k=r.choice(HANDSHAKE), id=-1, uu=2, nth=-1, ep=r.choice(["X", "Y"]), n=1)]
            ops.append(JOIN)
        else:
            ops.append(connect("A", "B", "a", "true"))
        for _ in range(r.choice([4, 10])):
            ops += self.talk(r, chs) + [sleep(r.choice([1, 3, 10])), JOIN]
            for _ in range(3):
                ops.append(op("replay", k=r.choice(["C1", "C2", "C3", "C4", "D", "D", "A", "X", "PI"]), id=-1, nth=r.choice([0, -1, 1, 5]), n=r.choice([1, 2]),
                              ep=r.choice(["X", "Y", "C"]), frm=r.choice(["A", "B"]), l=r.choice(["A", "B"])))
        return scenario(f"C09/elsewhere{i}", "C09", r.randrange(1 << 30), ops + self.rest(chs, r), dirty=["c", srv("B", "C")], fast=True)

    def dirty(self, r, i):
        """a connected peer (or somebody with its address) sends anything; the others do not notice"""
        ops = [new("A", "true"), new("B", "true"), new("C", "true"), net(lat(1000, 1000)), connect("A", "B", "a", "true")]
        ops.append(connect(*r.choice([("C", "B", "c"), ("B", "C", "c")]), "true"))
        chs = ["a", srv("B", "A")]
        for _ in range(r.choice([10, 30])):
            b = junk.forged(r) if r.random() < 0.7 else junk.ignorable(r)
            x = r.random()
            if x < 0.5:
                ops.append(self.inj(r, b, "C", "B", lat=r.choice([0, 1, 1000])))
            elif x < 0.75:
                ops.append(op("replay", frm=r.choice(["B", "C"]), k=r.choice(["D", "A", "X", "C1", "C2", "C3", "C4"]), id=-1, nth=r.choice([0, -1, 2]), ep="C", l="B",
                              **r.choice([dict(), dict(flip=r.randrange(1, 90)), dict(cut=r.choice([-1, 1, 4, 5, 20, 60]))])))
            else:
                ops.append(write(r.choice(["c", srv("B", "C"), srv("C", "B")]), lens=uniq(r, 2), **{"async": True}))
            if r.random() < 0.5:
                ops += self.talk(r, chs) + [sleep(r.choice([0, 1, 3, 30])), JOIN]
        return scenario(f"C09/dirty{i}", "C09", r.randrange(1 << 30), ops + self.rest(chs, r), dirty=["c", srv("B", "C"), srv("C", "B")], fast=True)

    def flood(self, r, i):
        """very many datagrams while messages flow"""
        ops = [new("A", "true"), new("B", "true"), net(lat(1000, 1000)), connect("A", "B", "a", "true")]
        chs = ["a", srv("B", "A")]
        for _ in range(6):
            b = junk.ignorable(r) if r.random() < 0.5 else junk.forged(r)
            while len(b) > 3000:
                b = junk.forged(r)
            ops.append(self.inj(r, b, r.choice(["X", "Y"]), r.choice("AB"), n=r.choice([50, 400]), lat=r.choice([0, 1000])))
            ops += self.talk(r, chs) + [sleep(r.choice([0, 2])), JOIN]
        return scenario(f"C09/flood{i}", "C09", r.randrange(1 << 30), ops + self.rest(chs, r), fast=True)


@register
class C10(IsoCheck):
    prop = "C10"
    models = [("Endpoint", "Endpoint")]

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 12
        for i in range(70 * k):
            out.append(self.punches(r, i))
        return out

    def punches(self, r, i):
        ml = r.choice([0, 0, 50])
        eps = "ABC"
        ops = [new(e, r.choice(["true", "mix"]), nopun=r.random() < 0.1, **({"maxlen": ml} if ml else {})) for e in eps] + [net(lat(1000, 1000))]
        chs, on = [], []
        for x, y in [("A", "B"), ("C", "B")]:
            if r.random() < 0.6:
                ops.append(connect(x, y, x.lower(), r.choice(["true", "none"]), **{"async": r.random() < 0.3}))
                chs += [x.lower(), srv(y, x)]
        if r.random() < 0.5:
            ops.append(JOIN)
        noise = r.random() < 0.5
        if noise and r.random() < 0.7:
            ops += [JOIN, net(*noisy(r, loss=0.3, hi=20000, dup=2, kinds=["D", "A", "PU"]))]
        if r.random() < 0.4:  # hole punching: the callback answers
            on.append(dict(where="punch", max=5, do=[op("punchto", ep=r.choice(eps), to=r.choice(eps), len=12)]))
        if r.random() < 0.3:  # and writes
            on.append(dict(where="punch", max=3, do=[op("chans", ep="B"), op("stat", ep="B")]))
        pl = [0, 1, 3, 4, 16, 17, 36, 37, 64, 65, 100, 1000, 30000, 65503]
        for _ in range(r.choice([4, 10])):
            e = r.choice(eps)
            for _ in range(r.choice([1, 1, 4])):
                ops.append(op("punchto", ep=e, to=r.choice([x for x in eps if x != e] + [e]), len=r.choice(pl), kind=r.choice(["", "", "str", "zero", "same"])))
            x = r.random()
            if x < 0.3:  # of any content, from anywhere
                ops.append(op("inject", frm=r.choice("XYABC"), to=r.choice(eps), n=r.choice([1, 2]), lat=r.choice([0, 1000]),
                              hex=junk.dg(9, r.choice([0, 5, 0xfffff, 0xffffff]), r.choice([junk.rb(r, r.choice(pl)), junk.connectpkt(r), junk.forged(r)])).hex()))
            elif x < 0.4:
                ops.append(op("setpunch", ep=r.choice(eps), n=r.choice([0, 2, 3])))
                ops.append(sleep(5))
            if chs and r.random() < 0.5:
                ops += [write(c, lens=uniq(r, 2)) for c in r.sample(chs, 1)]
            ops.append(sleep(r.choice([0, 0, 1, 3, 30])))
        ops += [JOIN, net(lat(1000, 2000))] + [write(c, lens=uniq(r, 3)) for c in chs] + [sleep(6500), fin(*chs)]
        return scenario(f"C10/punch{i}", "C10", r.randrange(1 << 30), ops, on)


# ---------------------------------------------------------------- C11


def listen(l, ep=None):
    return op("listen", l=l, ep=ep or l)


def accept(l):
    return op("accept", l=l, **{"async": True})


def dial(ep, to, ch, **k):
    return op("dial", ep=ep, to=to, ch=ch, **k)


def nread(ch, src, n=-1, buf=None, bufs=None, gap=0):
    return op("nread", ch=ch, l=src, n=n, gap=gap, **({"lens": bufs} if bufs else {"len": buf if buf is not None else 4096}), **{"async": True})


def nwrite(ch, len=None, lens=None, **k):
    return op("nwrite", ch=ch, **({"lens": lens} if lens else {"len": len or 0}), **k)


@register
class C11(Check):
    prop = "C11"
    models = [("MCNetConn", "NetConn"), ("MCNetConn", "NetConnTwo"), ("MCNetConn", "NetConnMany"), ("MCNetConn", "NetConnLive")]
    assumptions = ["the packet connection is simulated; time is virtual (testing/synctest)",
                   "one dialled connection per process and remote address at a time (a second one replaces the first)"]
    batch = 1
    FASTNET = lat(1000, 2000)

    def traces(self, run):
        return [("NetTrace", "NetTrace", project.stream_conns(run))]

    def scenarios(self):
        r = self.rng
        k = 1 if not self.thorough else 8
        out = self.from_spec(40 * k)
        for i in range(16 * k):
            out.append(self.talk(r, i))
        for i in range(10 * k):
            out.append(self.sizes(r, i))
        for i in range(10 * k):
            out.append(self.idle_others(r, i))
        for i in range(10 * k):
            out.append(self.ends(r, i))
        for i in range(8 * k):
            out.append(self.listeners(r, i))
        for i in range(8 * k):
            out.append(self.early(r, i))
        for i in range(4 * k):
            out.append(self.waiters(r, i))
        for i in range(4 * k):
            out.append(self.anew(r, i))
        for i in range(6 * k):
            out.append(self.shared(r, i))
        for i in range(3 * k):
            out.append(self.pile(r, i))
        return out

    def pile(self, r, i):
        """many messages, of one packet and of several, arrive before the first is read"""
        lens = [250] * 40 if i % 3 == 0 else [r.choice([5, 100, 101, 200, 250, 900]) for _ in range(r.choice([40, 80]))]
        if r.random() < 0.5:   # a listener's connection, a dialled one
            ops = [listen("L"), new("R", "true", maxlen=100), net(self.FASTNET), connect("R", "L", "d"), accept("L"), sleep(5)]
            w, rd = "d", "L<R#1"
        else:
            ops = [listen("D"), new("R", "true", maxlen=100), net(self.FASTNET), dial("D", "R", "d"), sleep(5)]
            w, rd = "R<D#1", "d"
        ops += [write(w, lens=lens[:30]), sleep(r.choice([0, 100])), write(w, lens=lens[30:]), sleep(300),
                nread(rd, w, -1, buf=r.choice([70, 250, 1000])), sleep(3000), fin(w), JOIN]
        return scenario(f"C11/pile{i}", "C11", r.randrange(1 << 30), ops, fast=True)

    def shared(self, r, i):
        """several goroutines read from one connection"""
        ops, d, a, st = self.pair(r)
        w, rd, s = (d, a, st) if (r.random() < 0.6 or not st) else (a, d, True)
        if r.random() < 0.5:
            ops.append(self.w(s, w, msglens(r, 2, big=False)))
        if r.random() < 0.5:   # reads that are all waiting when a message comes
            ops += [nread(rd, w, 1, buf=r.choice([8, 20])) for _ in range(3)]
            ops += [sleep(5), self.w(s, w, [r.choice([8, 20, 21, 50])]), sleep(2500)]
        for j in range(r.choice([2, 2, 3])):
            ops.append(nread(rd, w, r.choice([-1, -1, 3]) if j else -1, bufs=[r.choice([8, 12, 20, 70, 300]) for _ in range(2)], gap=r.choice([0, 0, 700])))
        for _ in range(4):
            ops.append(self.w(s, w, [r.choice([0, 8, 9, 20, 64, 65, 90, 150]) for _ in range(r.choice([1, 2, 4]))], gap=r.choice([0, 300])))
            ops.append(sleep(r.choice([0, 3, 30])))
        ops += [sleep(2000), fin(w), op("nclose", ch=rd) if r.random() < 0.5 else op("nclose", ch=w) if s else op("close", ch=w), sleep(8000), JOIN]
        return scenario(f"C11/shared{i}", "C11", r.randrange(1 << 30), ops, fast=True, multi=True)

    def early(self, r, i):
        """the first messages are written at once, by the accepting or the dialling end"""
        n = lambda: [r.choice([0, 1, 30, 64, 65, 300]) for _ in range(r.choice([1, 3]))]
        near = r.choice([lat(0, 0), lat(1, 300), lat(500, 500), self.FASTNET])
        on = []
        if r.random() < 0.5:   # a dialled connection whose peer writes when it is told
            ops = [listen("D"), new("R", "true"), net(near)]
            on = [dict(where="conn", ep="R", max=1, do=[write("@", lens=n())])]
            ops += [dial("D", "R", "d"), nread("d", "R<D#1", -1, buf=r.choice([3, 100])), sleep(3000), fin("R<D#1")]
        else:                  # an accepted connection whose peer writes when connected
            ops = [listen("L"), new("R", "true"), net(near)]
            if r.random() < 0.5:
                ops.append(accept("L"))
            ops += [connect("R", "L", "d"), write("d", lens=n()), accept("L"), sleep(5),
                    nread("L<R#1", "d", -1, buf=r.choice([3, 100])), sleep(3000), fin("d")]
        return scenario(f"C11/early{i}", "C11", r.randrange(1 << 30), ops + [JOIN], on, fast=True)

    def waiters(self, r, i):
        """several goroutines wait on one connection or listener"""
        ops, d, a, st = self.pair(r)
        for x, y, s in ((d, a, st), (a, d, True)):
            if s:
                ops += [nread(x, y, 1, buf=10) for _ in range(r.choice([1, 2, 4]))]
        ops += [accept("L") for _ in range(r.choice([1, 2, 3]))] + [sleep(r.choice([1, 100]))]
        for x in r.sample(["a", "d", "l"], r.choice([1, 2])):
            ops.append(op("nclose", ch=a) if x == "a" else op("lclose", l="L") if x == "l" else op("nclose", ch=d) if st else op("close", ch=d))
            ops.append(sleep(r.choice([0, 100])))
        ops += [sleep(8000), op("lclose", l="L"), sleep(100), JOIN]
        return scenario(f"C11/wait{i}", "C11", r.randrange(1 << 30), ops, fast=True)

    def anew(self, r, i):
        """the endpoint dialled connections use is itself a listener, and is closed"""
        ops = [listen("D"), listen("L"), net(self.FASTNET), accept("L"), accept("D"), dial("D", "L", "d"), sleep(5), nwrite("d", 5),
               nread("L<D#1", "d", -1, buf=100)]
        if r.random() < 0.5:
            ops += [nread("d", "L<D#1", -1, buf=9)]
        ops += [sleep(20), op("lclose", l="D"), sleep(20)]
        if r.random() < 0.5:
            ops += [op("lclose", l="D")]
        x = "E"
        if r.random() < 0.4:
            ops += [listen("E"), op("laddr", l="E")]
        ops += [accept("L"), dial(x, "L", "e"), sleep(5), nwrite("e", lens=[7, 200]), nread(f"L<{x}#1", "e", -1, buf=r.choice([6, 300])),
                nwrite(f"L<{x}#1", lens=[0, 80]), nread("e", f"L<{x}#1", -1, buf=30), sleep(1000), fin("e", f"L<{x}#1"), op("lclose", l="L"), sleep(8000), JOIN]
        return scenario(f"C11/anew{i}", "C11", r.randrange(1 << 30), ops, fast=True)

    # behaviours of the specification
    def from_spec(self, n):
        r = self.rng
        out = []
        for i, h in enumerate(core.behaviours("NetConnGen", "NetConnGen", n, 140, r.randrange(1 << 30))):
            lens = {0: 0, 1: r.choice([1, 1, 5, 64, 65]), 3: r.choice([3, 100, 1000, 3000, 70000])}
            bufs = {0: 0, 1: r.choice([1, 1, 7, 64]), 2: r.choice([2, 17, 100]), 5: r.choice([5, 4096, 100000])}
            src = {}
            real = {2: r.random() < 0.5, 3: False}
            ops = [listen("D"), listen("L"), listen("L2")]
            loc = {}
            for j in (1, 2, 3):
                if j == 1:
                    loc[j] = ("D", "L", True)
                elif j == 2 and real[2]:
                    loc[j] = ("D", "L2", True)
                else:
                    loc[j] = (f"R{j}", "L", False)
                    ops.append(new(f"R{j}", "true"))
            nm = {}
            for j, (ep, l, st) in loc.items():
                nm[j, "d"] = f"d{j}"
                nm[j, "a"] = f"{l}<{ep}#1"
            ops.append(net(self.FASTNET))
            for a in h:
                o, j = a["op"], a.get("i")
                if o == ".":
                    ops.append(sleep(r.choice([5, 5, 20])))
                elif o == "dial":
                    ep, l, st = loc[j]
                    ops.append(dial(ep, l, nm[j, "d"]) if st else connect(ep, l, nm[j, "d"]))
                elif o == "accept":
                    ops.append(accept("L"))
                    if real[2]:
                        ops.append(accept("L2"))
                elif o == "lclose":
                    ops.append(op("lclose", l="L"))
                elif o == "lost":
                    ep, l, st = loc[j]
                    ops += [op("mark", text="lost:%s,%s" % (nm[j, "d"], nm[j, "a"])),
                            net(rule("drop", frm=ep, to=l), rule("drop", frm=l, to=ep), add=True)]
                else:
                    e = nm[j, a["s"]]
                    rawend = a["s"] == "d" and not loc[j][2]
                    if o == "write":
                        n = lens[a["n"]]
                        ops.append(write(e, len=n) if rawend else nwrite(e, n))
                    elif o == "read" and not rawend:
                        ops.append(nread(e, nm[j, "a" if a["s"] == "d" else "d"], 1, bufs[a["n"]]))
                    elif o == "close":
                        ops.append(op("close", ch=e) if rawend else op("nclose", ch=e))
            ops += [sleep(8000), JOIN]
            out.append(scenario(f"C11/spec{i}", "C11", r.randrange(1 << 30), ops, fast=True))
        return out

    def pair(self, r, kind=None, l="L", ep="D"):
        """-> ops, dialling end, accepting end, whether the dialling end is a stream"""
        kind = kind or r.choice(["dial", "dial", "raw"])
        if kind == "dial":
            return [listen("D"), listen(l), net(self.FASTNET), dial("D", l, "d"), accept(l), sleep(5)], "d", f"{l}<D#1", True
        return [listen(l), new("R", "true"), net(self.FASTNET), accept(l), connect("R", l, "d"), sleep(5)], "d", f"{l}<R#1", False

    def w(self, stream, ch, lens, **k):
        return nwrite(ch, lens=lens, **k) if stream else write(ch, lens=lens, **k)

    def talk(self, r, i):
        """both ends write and read in a network with or without losses"""
        ops, d, a, st = self.pair(r)
        fast = r.random() < 0.5
        bufs = [r.choice([1, 3, 16, 63, 64, 65, 100, 512, 4096, 70000]) for _ in range(r.choice([1, 2, 5]))]
        ops.append(nread(a, d, -1, bufs=bufs, gap=r.choice([0, 0, 100])))
        if st:
            ops.append(nread(d, a, -1, bufs=[r.choice([7, 100, 3000])]))
        if not fast:
            ops.append(net(*noisy(r)))
        for _ in range(r.choice([2, 5])):
            for x, s in ((d, st), (a, True)):
                if r.random() < 0.8:
                    ops.append(self.w(s, x, msglens(r, r.choice([1, 4, 10])), gap=r.choice([0, 50, 3000])))
            ops.append(sleep(r.choice([0, 10, 200])))
        ops += [JOIN, net(self.FASTNET), sleep(8000 if not fast else 2000), fin(d, a)]
        return scenario(f"C11/talk{i}", "C11", r.randrange(1 << 30), ops, fast=fast)

    def sizes(self, r, i):
        """message lengths and buffer sizes around each other"""
        ops, d, a, st = self.pair(r)
        lens, bufs = [], []
        b = r.choice([1, 2, 16, 64, 100, 1000])
        for _ in range(12):
            lens.append(max(0, r.choice([0, b - 1, b, b + 1, 2 * b, 2 * b + 1, 3 * b - 1])))
        bufs = [b] if r.random() < 0.6 else [b, 0, b + 1, 1]
        if r.random() < 0.3:
            lens += [65475, 65476, 65477, 131000]
            bufs = [r.choice([32768, 65475, 65476, 100000])]
        x, s, y = (d, st, a) if (r.random() < 0.5 or not st) else (a, True, d)
        late = r.random() < 0.5
        if not late:
            ops.append(nread(y, x, -1, bufs=bufs))
        ops.append(self.w(s, x, lens, gap=r.choice([0, 200])))
        ops.append(sleep(100))
        if late:
            ops.append(nread(y, x, -1, bufs=bufs))
        ops += [JOIN, sleep(3000), fin(x)]
        return scenario(f"C11/sizes{i}", "C11", r.randrange(1 << 30), ops, fast=True)

    def idle_others(self, r, i):
        """connections nobody accepts or reads while others are used"""
        n = r.choice([2, 3, 5])
        ops = [listen("D"), listen("L")] + [new(f"R{j}", "true") for j in range(n)] + [net(self.FASTNET)]
        ls = []
        if r.random() < 0.5:
            ops += [listen("M"), dial("D", "M", "m"), accept("M"), sleep(5)]
            ls.append(("m", "M<D#1", True))
        ops += [dial("D", "L", "d"), accept("L"), sleep(5)]
        unread = []
        for j in range(n):
            ops += [connect(f"R{j}", "L", f"r{j}"), sleep(5)]
            if r.random() < 0.5:
                ops.append(accept("L"))
            unread.append(f"r{j}")
        ops.append(nread("L<D#1", "d", -1, buf=r.choice([5, 300])))
        ops.append(nread("d", "L<D#1", -1, buf=r.choice([5, 300])))
        for c in unread:
            ops.append(write(c, lens=[r.choice([1, 20, 100])] * r.choice([40, 150, 400]), **{"async": True}))
        if ls:
            ops.append(nwrite("M<D#1", lens=[30] * 200, **{"async": True}))  # arrives at the dialling endpoint, unread
            ops.append(sleep(r.choice([1, 30])))
        for _ in range(4):
            ops += [nwrite("d", lens=msglens(r, 5)), nwrite("L<D#1", lens=msglens(r, 5)), sleep(r.choice([10, 300]))]
        ops += [JOIN, sleep(3000), fin("d", "L<D#1")]
        return scenario(f"C11/others{i}", "C11", r.randrange(1 << 30), ops, fast=True)

    def ends(self, r, i):
        """every way a connection ends, with reads waiting and data unread"""
        ops, d, a, st = self.pair(r)
        for x, y, s in ((d, a, st), (a, d, True)):
            if r.random() < 0.6:
                ops.append(self.w(s, x, msglens(r, r.choice([1, 3]))))
        for x, y, s in ((d, a, st), (a, d, True)):
            if s:
                k = r.choice(["loop", "loop", "one", "none", "many"])
                if k == "loop":
                    ops.append(nread(x, y, -1, buf=r.choice([2, 100])))
                elif k == "one":
                    ops += [nread(x, y, 1, buf=r.choice([0, 2, 100])), sleep(5), nread(x, y, 1, buf=2)]
                elif k == "many":
                    ops.append(nread(x, y, 20, buf=1000))
        ops.append(sleep(r.choice([0, 1, 5, 100])))
        if r.random() < 0.3:
            ops.append(self.w(st, d, [r.choice([0, 5, 3000])]))
        how = r.choice(["close", "close", "peer", "lost", "listener", "both"])
        cl = lambda x, s: op("nclose", ch=x) if s else op("close", ch=x)
        if how in ("close", "both"):
            ops.append(cl(a, True))
        if how in ("peer", "both"):
            ops.append(cl(d, st))
        if how == "listener":
            ops.append(op("lclose", l="L"))
        if how == "lost":
            ops += [op("mark", text=f"lost:{d},{a}"), net(rule("drop")), sleep(r.choice([5000, 6500, 9000]))]
        ops.append(sleep(r.choice([0, 1, 5, 100])))
        for _ in range(r.choice([1, 3])):
            for x, y, s in ((d, a, st), (a, d, True)):
                if not s:
                    continue
                for c in r.sample(["w", "r", "c", "c"], 2):
                    ops.append(nwrite(x, r.choice([0, 3, 100])) if c == "w" else nread(x, y, 1, buf=10) if c == "r" else op("nclose", ch=x))
            ops.append(sleep(r.choice([0, 5, 100])))
        ops += [sleep(9000)]
        for x, s in ((d, st), (a, True)):
            ops += [self.w(s, x, [3]), cl(x, s)]
            if s:
                ops.append(nread(x, d if x == a else a, 1, buf=10))
        ops += [sleep(100), JOIN]
        return scenario(f"C11/ends{i}", "C11", r.randrange(1 << 30), ops, fast=True)

    def listeners(self, r, i):
        """several accepts, several listeners, closing them, dialling anew"""
        ops = [listen("D"), listen("L"), listen("M"), new("R1", "true"), new("R2", "true"), net(self.FASTNET)]
        ops += [op("laddr", l=x) for x in ("D", "L", "M")]
        todo = [accept("L"), accept("L"), accept("L"), accept("M"), dial("D", "L", "d1"), dial("D", "M", "d2"),
                connect("R1", "L", "r1"), connect("R2", "M", "r2"), connect("R2", "L", "r3"), sleep(5), sleep(50)]
        r.shuffle(todo)
        ops += todo + [sleep(10)]
        if r.random() < 0.5:
            ops += [nwrite("d1", 5), nread("L<D#1", "d1", -1, buf=3), nread("d1", "L<D#1", 1, buf=3)]
        if r.random() < 0.4:  # the same two again: the next connection replaces the first
            ops += [accept("L"), dial("D", "L", "d3"), sleep(5), nwrite("d3", 70), nread("L<D#2", "d3", -1, buf=30), nwrite("L<D#2", 7), nread("d3", "L<D#2", -1, buf=30), sleep(20)]
        for _ in range(r.choice([1, 2])):
            ops += [op("lclose", l=r.choice(["L", "M"]), **{"async": r.random() < 0.3}), sleep(r.choice([0, 5]))]
        ops += [accept("L"), accept("M"), sleep(5), op("lclose", l="L"), op("lclose", l="L"), accept("L"), accept("L"), sleep(20)]
        if r.random() < 0.6:
            ops += [listen("N"), op("laddr", l="N"), accept("N"), dial("D", "N", "d4"), sleep(5), nwrite("d4", 9), nread("N<D#1", "d4", -1, buf=4), sleep(50), fin("d4")]
        ops += [sleep(8000), JOIN]
        return scenario(f"C11/lis{i}", "C11", r.randrange(1 << 30), ops, fast=True)


# ---------------------------------------------------------------- C17


@register
class C17(Check):
    prop = "C17"
    models = [("MCTeolog", "Teolog")]
    pkg, binname = "./logdrv", "logdrv"
    assumptions = ["level numbers from 0 to 8", "of several goroutines at once: a sample of the schedules of the machine, with the race detector on"]
    batch = 40

    def drive(self, binary, scs):
        """what several goroutines do at once runs with the race detector: the specification takes every call as one step"""
        one = [s for s in scs if not s.get("conc")]
        many = [s for s in scs if s.get("conc")]
        runs = super().drive(binary, one)
        if many:
            try:
                race = core.build(self.pkg, self.binname + "_race", True)
            except core.CheckError:  # no race detector here: the schedules alone
                race = binary
            runs += core.drive(race, many, hang=self.hang, batch=5, runpat=self.runpat, env=dict(GORACE="halt_on_error=1 exitcode=66"))
        return runs

    def conc(self, r, i):
        ops = []
        base = [0] + r.sample(range(1, 9), 3)
        for j in range(3):
            ops.append(dict(op="lvl", o=1, kind="int", n=r.choice([0, 3, 5, 8])))
            f0 = r.choice([[], [], ["zqa"], ["no", "zqa"]])
            ops.append(dict(op="flt", o=1, kind="slice" if f0 else "clear", parts=f0))
            tasks = []
            x = r.random()
            if x < 0.4:
                tasks += [dict(op="sw", times=r.choice([100, 301, 1000])) for _ in range(r.choice([1, 2, 3]))]
            if x > 0.3:
                tasks += [dict(op="lvl", times=r.choice([50, 500]), ns=r.choice([[3, 8], [8, 5], [1, 2], [4], [8, 8, 6]])) for _ in range(r.choice([1, 2]))]
            if r.random() < 0.8:
                tasks += [dict(op="flt", times=r.choice([50, 500]), fs=r.choice([[["zqa"], []], [["zqa", "x"], ["y", "zqa"]], [["no"], ["nor"]], [[], ["m"], ["a", "b", "end"]], [["no"], []]]))
                          for _ in range(r.choice([1, 2]))]
            for k in r.sample(range(1, 9), r.choice([2, 4])):
                tasks.append(dict(op="log", times=r.choice([50, 300]), n=k, text=f"m{j}-{k} zqa end"))
            if r.random() < 0.7:
                tasks.append(dict(op="look", times=300))
            r.shuffle(tasks)
            ops.append(dict(op="conc", o=1, tasks=tasks))
            # what is in force now is what is said to be
            for k in range(1, 9):
                ops.append(self.cook(dict(op="log", o=1, n=k, text=f"after {j} zqa {r.randrange(10 ** 6)} end")))
        return dict(self.sc(f"conc{i}", ops, 1), conc=True)
    NAMES = ["None", "Error", "User", "Info", "Connect", "Debug", "DebugV", "DebugVV", "DebugVVV"]

    def traces(self, run):
        evs = []
        for e in run.events:
            k = e["e"]
            if k == "lvl":
                evs.append(dict(e=k, o=e["o"], kind=e["kind"], n=e["n"], name=e["name"].strip().lower(), now=e["now"], out=e["out"]))
            elif k == "flt":
                evs.append(dict(e=k, o=e["o"], parts=[] if e["kind"] == "clear" else e["parts"] if e["kind"] == "slice" else [x.strip() for x in e["parts"]], out=e["out"]))
            elif k == "conc":
                evs.append(dict(e=k, o=e["o"], now=e["now"], flt=e["flt"].split(" || ") if e["flt"] else [],
                                tasks=[dict(op=t["op"], times=t["times"], ns=t["ns"] or [], fs=t["fs"] or [], n=t["n"], text=t["text"], count=t["count"]) for t in e["tasks"]]))
            elif k in ("sw", "flags", "log"):
                evs.append({x: y for x, y in e.items() if x != "str"})
            elif k == "end":
                evs.append(dict(e="Z"))
        return [("TeologTrace", "TeologTrace", dict(id=run.sc["id"], cf=dict(objs=run.sc["objs"]), ev=evs))]

    def case(self, s):
        r = self.rng
        return r.choice([s, s.upper(), s.lower(), s.title(), "".join(r.choice([c.upper(), c.lower()]) for c in s)])

    def sc(self, name, ops, objs):
        return dict(id=f"C17/{name}", objs=objs, ops=ops)

    def cook(self, a):
        """what a behaviour of the specification leaves open"""
        r = self.rng
        o = dict(a)
        if o["op"] == "lvl":
            o["cases"] = r.choice([0, 1, 2, 3])
            o["name"] = self.case(o["name"])
            if r.random() < 0.2:
                o["name"] = r.choice(["", " ", "\t"]) + o["name"] + r.choice(["\n", " ", "\r\n"])
        elif o["op"] == "flt":
            p = o["parts"]
            o["kind"] = r.choice(["slice", "string", "spaced", "parsed"]) if p else r.choice(["clear", "clear", "slice"])
        elif o["op"] == "log":
            o["kind"] = r.choice(["println", "printf", "print", "output"])
        return o

    def scenarios(self):
        r = self.rng
        n = 60 if not self.thorough else 600
        out = []
        for i, h in enumerate(core.behaviours("MCTeolog", "TeologGen", n, 70, r.randrange(1 << 30), limit=400)):
            ops = []
            for a in h:
                ops.append(self.cook(a))
                if r.random() < 0.08:
                    ops.append(dict(op="flags", o=a["o"], n=r.choice([0, 1, 3, 16, 19])))
            out.append(self.sc(f"spec{i}", ops, 2))
        # every level in every way, then every logger
        for i in range(4 if not self.thorough else 30):
            ops = []
            ways = [dict(kind=k, n=n, cases=c) for n in range(9) for k, c in (("int", 0), ("type", 0), ("printed", 0), ("printed", 1), ("printed", 2), ("printed", 3))]
            ways += [dict(kind="name", name=self.case(x)) for x in self.NAMES + ["all"]]
            ways += [dict(kind="name", name=x) for x in ["", "  ", "verbose", "debug v", "error!", "nobody", "inf", "infos", "debugvvvv", "deb", "erro", "[info]", "none none"]]
            r.shuffle(ways)
            for w in ways[:30]:
                ops.append(dict(op="lvl", o=1, **w))
                for k in r.sample(range(1, 9), 8):
                    ops.append(self.cook(dict(op="log", o=1, n=k, text=f"msg {r.randrange(10 ** 6)} end")))
            out.append(self.sc(f"ways{i}", ops, 1))
        # round all the levels
        for i in range(2 if not self.thorough else 10):
            ops = []
            for _ in range(r.choice([20, 30])):
                if r.random() < 0.1:
                    ops.append(dict(op="lvl", o=1, kind="int", n=r.randrange(9)))
                ops.append(dict(op="sw", o=1))
                for k in r.sample(range(1, 9), 4):
                    ops.append(self.cook(dict(op="log", o=1, n=k, text=f"msg {r.randrange(10 ** 6)} end")))
            out.append(self.sc(f"switch{i}", ops, 1))
        for i in range(12 if not self.thorough else 120):
            out.append(self.conc(r, i))
        # filters of any parts, messages around them
        al = "zqZ|[] *.w"
        for i in range(20 if not self.thorough else 300):
            ops = [dict(op="flags", o=1, n=0), dict(op="lvl", o=1, kind="int", n=8)]
            for _ in range(12):
                parts = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    p = "zq" + "".join(r.choice(al) for _ in range(r.randrange(4)))
                    p = p.replace("||", "|").strip().strip("|")
                    parts.append(p)
                if r.random() < 0.1:
                    parts.append("")
                ops.append(self.cook(dict(op="flt", o=1, parts=parts if r.random() < 0.9 else [])))
                for _ in range(4):
                    p = r.choice(parts)
                    t = r.choice([p, "a" + p, p + "b", "a" + p + "b", p[:-1] or "zx", p[1:] or "y", p.upper(), p + p, "z" + p, "other", "multi\n" + p])
                    t = t.strip() or "zy"
                    ops.append(self.cook(dict(op="log", o=1, n=r.randrange(1, 9), text="{" + t + "}")))
                if r.random() < 0.3:
                    ops.append(dict(op="lvl", o=1, kind="int", n=r.choice([8, 8, 3])))
            out.append(self.sc(f"filter{i}", ops, 1))
        return out


# ---------------------------------------------------------------- C18


@register
class C18(Check):
    prop = "C18"
    models = [("Hotkey", "Hotkey"), ("HotkeyLoop", "HotkeyLoop")]
    pkg, binname = "./keydrv", "keydrv"
    assumptions = ["a key is pressed when the menu waits for one (keys typed ahead are taken together, see known-findings.txt)",
                   "keys whose code the terminal delivers as it is, of up to three bytes", "the terminal is a pseudo terminal"]
    batch = 1
    KEYS = ["61", "62", "41", "1b5b44", "1b5b43", "d0b6", "e282ac", "03", "7f", "20", "1b", "30", "0c", "04"]

    def traces(self, run):
        evs = []
        for e in run.events:
            if e["e"] == "end":
                evs.append(dict(e="Z"))
            elif e["e"] != "scn":
                evs.append(e)
        return [("HotkeyTrace", "HotkeyTrace", dict(id=run.sc["id"], cf=dict(x=0), ev=evs))]

    def key(self, run, what):
        return "typed-ahead" if "/ahead" in run.sc["id"] else None

    def eff(self, c, fresh, key):
        """what a function of this kind does"""
        r = self.rng
        if c == "stop":
            return [dict(op="stop")] + ([dict(op="stop")] if r.random() < 0.1 else [])
        if c == "stoprun":
            return [dict(op="stop")] + ([dict(op="sleep", n=2)] if r.random() < 0.3 else []) + [dict(op="run")] + ([dict(op="sleep", n=2)] if r.random() < 0.3 else [])
        if c == "next":
            return [dict(op="next", id=fresh)]
        if c == "add":
            return [dict(op="add", keys=[key], kind="string", id=fresh)]
        if c == "unk":
            return [dict(op="unknown", id=fresh)]
        return [dict(op="help")] if r.random() < 0.1 else []

    def cook(self, h, busy=False):
        """the functions of a behaviour get their effects; what a function makes gets a number of its own"""
        r = self.rng
        ops = []
        n = 1000
        for a in h:
            o = dict(a)
            if o["op"] in ("add", "unknown", "next"):
                n += 1
                o["eff"] = self.eff(o.pop("c"), n, r.choice(self.KEYS[:8]))
            if o["op"] == "add":
                o["kind"] = r.choice(["bytes", "string", "code", "strings", "codes"]) if len(o["keys"]) == 1 else r.choice(["strings", "codes"])
            if o["op"] == "press" and busy and r.random() < 0.5:
                ops.append(dict(op="busy", n=3000))
            ops.append(o)
            if busy and r.random() < 0.3:
                ops.append(dict(op="join"))
        return ops + [dict(op="join")]

    def scenarios(self):
        r = self.rng
        k = 1 if not self.thorough else 10
        out = []
        hs = core.behaviours("Hotkey", "HotkeyGen", 60 * k, 70, r.randrange(1 << 30), limit=400)
        for i, h in enumerate(hs):
            out.append(dict(id=f"C18/spec{i}", ops=self.cook(h, busy=i % 6 == 0)))
        for i in range(10 * k):
            out.append(dict(id=f"C18/again{i}", ops=self.again()))
        out.append(dict(id="C18/ahead", ops=[dict(op="add", kind="string", keys=["61"], id=1), dict(op="add", kind="string", keys=["62"], id=2),
                                             dict(op="run"), dict(op="press", keys=["6162"], live=True)]))
        return out

    def again(self):
        """run and stopped again and again, also run when it is running"""
        r = self.rng
        ops = [dict(op="add", kind="string", keys=["71"], id=1, eff=[dict(op="stop")]), dict(op="add", kind="string", keys=["61"], id=2),
               dict(op="unknown", id=3), dict(op="setstop", id=1)]
        if r.random() < 0.5:
            ops.append(dict(op="setstop", id=2))
        press = lambda k, live: dict(op="press", keys=[k], live=live)
        for _ in range(4):
            ops += [dict(op="run")] * r.choice([1, 1, 2, 3])
            for _ in range(r.choice([0, 1, 3])):
                ops.append(press(r.choice(["61", "62"]), True))
                if r.random() < 0.2:
                    ops.append(dict(op="run"))
            ops.append(press("71", True))
            for _ in range(r.choice([0, 1, 2, 3])):
                ops.append(press(r.choice(["61", "62", "71"]), False))
        return ops


# ---------------------------------------------------------------- C19


@register
class C19(Check):
    prop = "C19"
    batch = 1  # what an earlier scenario left running would print on
    models = [("StatPrint", "StatPrint")]
    assumptions = [MSL, "the packet connection is simulated; time is virtual (testing/synctest)", "the standard input is no terminal (the whole log is shown)"]

    def traces(self, run):
        out = [("PrintTrace", "PrintTrace", project.screen(run))]
        if run.sc.get("figures"):
            out.append(("ConnTrace", "ConnTrace_C19", project.conn(run, figures=True)))
        return out

    def scenarios(self):
        r = self.rng
        out = []
        k = 1 if not self.thorough else 10
        for i in range(24 * k):
            out.append(self.show(r, i))
        for i in range(24 * k):
            out.append(self.switch(r, i))
        for i in range(4 * k):
            out.append(self.bad(r, i))
        for i in range(1 * k):
            out.append(self.many(r, i))
        return out + self.designed(r, 24 * k)

    def designed(self, r, n):
        """behaviours of the design: starts and stops between the steps of the frames"""
        out = []
        for i, h in enumerate(core.behaviours("StatPrintGen", "StatPrintGen", n, 150, r.randrange(1 << 30))):
            slow = r.choice([60, 200, 450, 900])
            ops = [new("A"), new("B"), net(lat(1000, 1000)), connect("A", "B", "a"), op("slowaddr", ep="A", us=slow * 1000)]
            now, due, on, gone, g = 0, {}, False, False, 0
            for e in h:
                if e["op"] in ("fire", "ready"):
                    # the frame with this number is made when its time has come, and ready some time later
                    t = due.get(e["g"], now) + 20
                    due[e["g"]] = (due.get(e["g"], now) + slow) if e["op"] == "fire" else now + 500
                    if t > now:
                        ops.append(sleep(t - now))
                        now = t
                    if e["op"] == "ready":
                        due[e["g"]] = now + 480
                elif not gone:
                    if e["op"] == "start" and not on:
                        on = True
                        g += 1
                        due[g] = now + 500
                    elif e["op"] != "start":
                        on = False
                    ops.append(op({"start": "print", "stop": "noprint", "close": "closeep"}[e["op"]], ep="A"))
                    gone = e["op"] == "close"
                    if r.random() < 0.6:
                        ops.append(op("printing", ep="A"))
            out.append(scenario(f"C19/spec{i}", "C19", r.randrange(1 << 30), ops + [sleep(2200), op("printing", ep="A")], print=True))
        return out

    def show(self, r, i):
        """connections come and go, messages are sent; the table and the log show it"""
        peers = ["B", "C", "D", "E"][:r.choice([1, 2, 3, 4])]
        figures = r.random() < 0.6
        ops = [new(x, "true", stat=x == "A" and r.random() < 0.5) for x in ["A"] + peers] + [net(lat(1000, 1000)), sleep(us=r.choice([0, 1300, 77000, 250000]))]
        if r.random() < 0.5:
            ops.append(op("minilog", ep="A"))
        if not ops[0]["stat"]:
            ops.append(op("print", ep="A"))
        both = r.random() < 0.3
        if both:
            ops.append(op("print", ep=peers[0]))
        order = peers[:]
        r.shuffle(order)
        chs, own = [], {}
        for p in order:
            c = p.lower()
            if r.random() < 0.5:
                ops.append(connect("A", p, c, r.choice(["none", "true"])))
                own[p] = [c, srv(p, "A")]
            else:
                ops.append(connect(p, "A", c, r.choice(["none", "true"])))
                own[p] = [c, srv("A", p)]
            chs += own[p]
            ops.append(sleep(r.choice([0, 20, 700, 1100])))
        ops.append(net(*noisy(r)))
        again = 0
        for _ in range(r.choice([2, 4, 6])):
            x = r.random()
            if x < 0.6 or figures:
                for c in r.sample(chs, r.randrange(1, len(chs) + 1)):
                    ops.append(write(c, lens=msglens(r, r.choice([1, 3, 8])), gap=r.choice([0, 50, 3000, 40000]), **{"async": True}))
            elif x < 0.8 and own:
                p = r.choice(sorted(own))
                ops.append(op("close", ch=r.choice(own.pop(p))))
            else:
                again += 1
                p = r.choice(peers)
                c = f"{p.lower()}{again}"
                ops.append(connect(p, "A", c, "true"))
                own[p] = [c]
            if r.random() < 0.3:
                ops.append(op("minilog", ep=r.choice(["A", peers[0]])))
            ops.append(sleep(r.choice([300, 1000, 1234, 2100])))
            if r.random() < 0.3:
                ops.append(op("printing", ep=r.choice(["A"] + peers)))
        ops += [JOIN, sleep(1500)]
        if r.random() < 0.5:
            ops += [op("noprint", ep="A"), op("printing", ep="A"), sleep(1500)]
        if r.random() < 0.3:
            ops += [op("closeep", ep="A"), sleep(1500)]
        return scenario(f"C19/show{i}", "C19", r.randrange(1 << 30), ops, print=True, figures=figures)

    def switch(self, r, i):
        """started and stopped at any time, also while a frame is made"""
        slow = r.choice([0, 0, 40, 200, 700])
        ops = [new("A", "true", stat=r.random() < 0.3), new("B"), net(lat(1000, 1000)), connect("A", "B", "a"), op("slowaddr", ep="A", us=slow * 1000)]
        for _ in range(r.choice([4, 8, 12])):
            x = r.choice(["print", "print", "noprint", "noprint", "printing", "minilog"])
            ops.append(op(x, ep="A"))
            if r.random() < 0.6:
                ops.append(op("printing", ep="A"))
            # the next frame is made 500 ms later: stop before, while, after
            ops.append(sleep(r.choice([0, 1, 100, 499, 500 + slow // 2, 501 + slow, 500 + slow + 30, 1100 + slow, 2300]), r.choice([0, 0, 500])))
        ops += [op(r.choice(["print", "noprint"]), ep="A"), sleep(r.choice([490, 500 + slow // 2, 520 + slow]))]
        ops += [op(r.choice(["closeep", "closeep", "noprint"]), ep="A"), op("printing", ep="A"), sleep(2500)]
        return scenario(f"C19/switch{i}", "C19", r.randrange(1 << 30), ops, print=True)

    def bad(self, r, i):
        """nothing is printed for what was not made"""
        ops = [op("newbad", ep="A", stat=r.random() < 0.8), sleep(r.choice([400, 1300])), new("A", stat=r.random() < 0.5), sleep(r.choice([900, 1300])), op("printing", ep="A"), sleep(800)]
        return scenario(f"C19/bad{i}", "C19", r.randrange(1 << 30), ops, print=True)

    def many(self, r, i):
        """more messages than the log holds"""
        ops = [new("A", stat=True), new("B"), net(lat(1000, 1000)), op("minilog", ep="A")]
        for j in range(r.choice([127, 128, 129, 140])):
            ops += [connect("B", "A", f"b{j}"), sleep(r.choice([10, 20])), op("close", ch=f"b{j}"), sleep(20)]
        # the log goes on: an odd and an even number of messages
        for j in range(3):
            ops += [sleep(520), connect("B", "A", f"c{j}"), sleep(520), op("close", ch=f"c{j}")]
        ops += [sleep(1100)]
        return scenario(f"C19/many{i}", "C19", r.randrange(1 << 30), ops, print=True)


# ---------------------------------------------------------------- C20


@register
class C20(Check):
    prop = "C20"
    models = [("Menu", "Menu")]
    pkg, binname = "./menudrv", "menudrv"
    assumptions = ["a key is pressed when the menu waits for one", "the terminal is a pseudo terminal; the endpoints use the loopback network",
                   "a level the application sets while a screen is shown may be replaced by the level the screen found"]
    CODE = {"h": "68", "?": "3f", "L": "4c", "u": "75", "U": "55", "l": "6c", "^L": "0c", "f": "66", "^C": "03", "q": "71", "enter": "0a", "z": "7a",
            "left": "1b5b44", "A": "41", "x": "78", "e": "c3a9"}
    NAMES = ["none", "error", "user", "info", "connect", "debug", "debugv", "debugvv", "debugvvv"]
    HELP = {"h": "show this help screen", "u": "show/hide tru statistic", "U": "show/hide tru statistic minilog", "l": "switch logger level",
            "L": "print current logger level", "^L": "set new logger level", "f": "set logger filter", "^C": "stop this hotkey menu", "q": "quit from application"}

    def drive(self, binary, scs):
        """one process per scenario: the menu may end it"""
        def one(a):
            i, sc = a
            fin, fout = (os.path.join(core.work(), f"menu{i}.{x}") for x in ("in", "out"))
            json.dump([sc], open(fin, "w"))
            e = dict(os.environ, DRV_IN=fin, DRV_OUT=fout, GOTRACEBACK="all")
            err = os.path.join(core.work(), f"menu{i}.err")
            with open(err, "wb") as ef:
                try:
                    rc = subprocess.run([binary, "-test.run", "^TestDrive$", "-test.timeout", "0"], env=e, cwd=core.work(), stdin=subprocess.DEVNULL,
                                        stdout=subprocess.DEVNULL, stderr=ef, timeout=100).returncode
                except subprocess.TimeoutExpired:
                    rc = 4
            stderr = open(err, errors="replace").read()
            evs = []
            if os.path.exists(fout):
                for line in open(fout, errors="replace"):
                    try:
                        evs.append(json.loads(line))
                    except ValueError:
                        pass
            for f in (fin, fout, err):
                if os.path.exists(f):
                    os.remove(f)
            crash = None
            if rc not in (0, 1) or "panic:" in stderr:
                kind = core._classify(rc, stderr)
                if kind is None:
                    raise core.CheckError(f"driver ended with {rc} in scenario {sc['id']}:\n{stderr[-4000:]}")
                crash = dict(kind=kind, stderr=stderr[:12000])
            if not (evs and evs[-1]["e"] == "end"):
                evs.append(dict(e="exit", rc=rc))
            return core.Run(sc, evs, crash)
        with ThreadPoolExecutor(core.CPUS) as ex:
            return list(ex.map(one, enumerate(scs)))

    def shows(self, text, own, filt):
        t = re.sub(r"\x1b\[[0-9;?]*[A-Za-z]", "", text)
        out = set()
        if self.HELP["^C"] in t or self.HELP["q"] in t or self.HELP["h"] in t:
            full = all(d in t for k, d in self.HELP.items() if k not in own) and ("own key" in t) == bool(own)
            out.add("help" if full else "help, not all of it")
        out |= {"unknown " + x for x in re.findall(r"unknown key (\[[\d ]*\])", t)}
        out |= set(re.findall(r"statistic (started|stopped)", t))
        out |= set(re.findall(r"minilog (show|hide)", t))
        out |= {"level " + x.lower() for x in re.findall(r"level: +(\w+)", t)}
        if "levels:" in t:
            out.add("levels" if all(re.search(rf"^ *{n}\b", t, re.I | re.M) for n in self.NAMES) else "levels, not all of them")
        for x in re.findall(r"filter: ?(.*)", t):
            out.add("filter" if x.strip() == filt.strip() else "filter, another one")
        return sorted(out)

    def traces(self, run):
        evs, own, filt = [], set(), " || ".join(run.sc["filter"])
        for e in run.events:
            k = e["e"]
            if k == "key":
                evs.append(dict(e=k, key=e["key"], code=e["code"], live=e["live"], ready=e["ready"],
                                typed=dict(name=e["text"].strip().lower(), parts=[x.strip() for x in e["text"].split("||")] if e["text"].strip() else [])))
            elif k == "obs":
                evs.append(dict(e=k, level=e["level"], stat=e["stat"], printed=e["printed"], probe=e["probe"],
                                filter=self.parts(e["filter"]), shows=self.shows(e["out"], own, filt)))
                filt = e["filter"]
            elif k == "told":
                evs.append(dict(e=k, ch=e["ch"], closed=e["err"] == "tru listner closed"))
            elif k == "add":
                own.add(e["key"])
                evs.append(e)
            elif k in ("own", "level", "print", "run", "minilog", "exit"):
                evs.append(e)
            elif k == "filter":
                evs.append(dict(e=k, parts=e["parts"] or []))
            elif k == "end":
                evs.append(dict(e="Z"))
        cf = dict(level=self.NAMES.index(run.sc["level"].lower()), filter=run.sc["filter"], stat=run.sc["stat"])
        return [("MenuTrace", "MenuTrace", dict(id=run.sc["id"], cf=cf, ev=evs))]

    def parts(self, s):
        return s.split(" || ") if s else []

    def press(self, k, live, text=""):
        return dict(op="key", key=self.CODE[k], name=k, live=live, ask=k in ("^L", "f"), text=text)

    def cook(self, h):
        r = self.rng
        ops = []
        own = set()
        for a in h:
            if a["op"] == "key":
                live, k = a["live"], a["key"]
                text = ""
                if k == "^L":
                    t = a["typed"]["name"]
                    text = r.choice(["", " "]) + r.choice([t, t.upper(), t.title()]) + r.choice(["", " "])
                elif k == "f":
                    text = r.choice([" || ", "||"]).join(a["typed"]["parts"]) or "probe"
                o = self.press(k, live, text)
                o["ask"] = o["ask"] and live and k not in own
                ops.append(o)
            else:
                ops.append(a)
            if r.random() < 0.05:
                ops.append(dict(op="minilog"))
            if r.random() < 0.03:
                ops.append(dict(op="sleep", n=r.choice([200, 600])))
            if r.random() < 0.02:
                k = r.choice(["z", "left", "l", "A", "f"])
                own.add(k)
                ops.append(dict(op="add", key=self.CODE[k], name=k))
        return ops

    def scenarios(self):
        r = self.rng
        n = 60 if not self.thorough else 600
        out = []
        for i, h in enumerate(core.behaviours("Menu", "MenuGen", n, 70, r.randrange(1 << 30), limit=400)):
            out.append(dict(id=f"C20/spec{i}", level="Info", filter=[], stat=False, ops=self.cook(h)))
        # every key first, and after every screen
        for i in range(20 if not self.thorough else 200):
            ops = []
            on = True
            lev = r.choice(self.NAMES[1:])
            for _ in range(r.choice([3, 8, 25])):
                if not on:
                    ops.append(r.choice([dict(op="run"), self.press(r.choice(["l", "u", "h", "^L", "q"]), False)]))
                    ops[-1]["ask"] = False
                    on = ops[-1]["op"] == "run"
                    continue
                k = r.choice(["h", "?", "L", "^L", "f", "l", "u", "U", "enter", "z", "x", "left", "e", "A"] + ["^C"] * (r.random() < 0.3))
                text = dict(f=r.choice(["zqa", "zqa-3. || zqa-4.", "nothing", "", "probe||x", "a || ", "|| b"])).get(k, r.choice(self.NAMES + ["verbose", "", "ALL", " Debug "]))
                ops.append(self.press(k, True, text))
                if r.random() < 0.15:
                    ops.append(dict(op="level", n=r.randrange(9)))
                on = k != "^C"
            if on and r.random() < 0.5:
                ops.append(self.press("q", True))
            out.append(dict(id=f"C20/keys{i}", level=lev, filter=r.choice([[], [], ["zqa"], ["no", "zqa-2."]]), stat=r.random() < 0.4, ops=ops))
        return out


# ---------------------------------------------------------------- C21


@register
class C21(Check):
    prop = "C21"
    models = [("MCCalls", "CallsA"), ("MCCalls", "CallsC")]
    models_thorough = [("MCCalls", "CallsB"), ("MCCalls", "CallsD")]
    assumptions = ["schedules: a sample of those of the machine, several goroutines released at the same moment",
                   "accesses of memory are watched by the race detector in these and in scenarios of the other properties"]
    OTHERS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C15", "C16"]
    ALONE = ["C11", "C19"]
    FASTNET = lat(1000, 2000)

    def traces(self, run):
        if not run.sc.get("real"):
            return []
        return [("CallTrace", "CallTrace", project.calls(run))]

    def direct(self, run):
        if run.sc.get("real"):
            return super().direct(run)
        # connections dialled at the same time share the one endpoint and work
        bad = [e for e in run.events if e["e"] == "sdial" and e["err"]]
        return [f"dialled from {e['ep']} to {e['to']} while others dial: {e['err']}" for e in bad[:1]]

    def drive(self, binary, scs):
        try:
            race = core.build(self.pkg, self.binname + "_race", True, perturb=True)
        except core.CheckError:  # no race detector here: the schedules alone
            race = binary
        env = dict(GORACE="halt_on_error=1 exitcode=66")
        one = [s for s in scs if s["prop"] in self.ALONE or s.get("alone")]
        rest = [s for s in scs if s not in one]
        runs = core.drive(race, rest, hang="60s", batch=8, runpat=self.runpat, env=env)
        return runs + core.drive(race, one, hang="60s", batch=1, runpat=self.runpat, env=env)

    def scenarios(self):
        r = self.rng
        k = 1 if not self.thorough else 10
        out = []
        for i in range(70 * k):
            out.append(self.storm(r, i))
        for i in range(20 * k):
            out.append(self.rush(r, i))
        for i in range(16 * k):
            out.append(self.duel(r, i))
        for i in range(60 * k):
            out.append(self.shut(r, i))
        for i in range(14 * k):
            out.append(self.streams(r, i))
        for p in self.OTHERS + self.ALONE:
            s = CHECKS[p](self.tier, self.seed).scenarios()
            s = [x for x in s if not any(o["op"] == "bulk" for o in x["ops"])]
            out += r.sample(s, min(len(s), (5 if p in self.OTHERS else 8) * k))
        return out

    def star(self, r, n, **kw):
        """endpoints and connections between them, one per pair"""
        eps = "ABCDE"[:n]
        ops = [new(e, r.choice(["true", "true", "mix", "false"]), **kw) for e in eps] + [net(lat(0, 0))]
        pairs = [(x, y) for i, x in enumerate(eps) for y in eps[i + 1:]]
        r.shuffle(pairs)
        pairs = [p if r.random() < 0.5 else p[::-1] for p in pairs]
        return eps, ops, pairs

    def calls(self, r, eps, chs, n, heavy=False):
        out = []
        for _ in range(n):
            x = r.random()
            e = r.choice(eps)
            if chs and x < 0.42:
                c = r.choice(chs)
                out.append(write(c, len=r.choice([5, 20, 64, 65, 130, 300, 700]), cb=r.random() < 0.3))
            elif chs and x < 0.52:
                out.append(op("destroyed", ch=r.choice(chs)))
            elif x < 0.62:
                out.append(op("chans", ep=e))
            elif x < 0.72:
                out.append(op("stat", ep=e))
            elif chs and x < 0.75:
                out.append(op("info", ch=r.choice(chs)))
            elif x < 0.79:
                out.append(op("setpunch", ep=e, n=r.randrange(2, 6)))
            elif x < 0.83:
                f = r.choice([q for q in eps if q != e])
                out.append(op("punchto", ep=e, to=f, len=r.choice([8, 20, 300])))
            elif x < 0.87:
                out.append(op("maxlen", ep=e, n=r.choice([40, 100, 300])))
            elif x < 0.90:
                out.append(op("delay", ep=e, n=r.choice([1, 15, 200])))
            elif x < 0.92:
                out.append(op("epinfo", ep=e))
            elif x < 0.96:
                out.append(op("minilog", ep=e))
            else:
                out.append(op(r.choice(["print", "noprint", "printing", "printing"]), ep=e))
        return out

    def storm(self, r, i):
        """every kind of call at once; connections begin and end meanwhile"""
        ml = r.choice([0, 0, 50, 100])
        eps, ops, pairs = self.star(r, r.choice([2, 2, 3, 4]), **({"maxlen": ml} if ml else {}))
        old = pairs[:max(1, len(pairs) * 2 // 3)]
        fresh = pairs[len(old):]
        chs = []
        for x, y in old:
            ops.append(connect(x, y, (x + y).lower()))
            chs += [(x + y).lower(), srv(y, x)]
        on = []
        if r.random() < 0.4:
            on.append(dict(where=r.choice(["g", "dlv", "conn"]), ev=r.choice(["msg", ""]), max=r.choice([2, 5]),
                           do=[r.choice([write("@", len=30), op("chans", ep=r.choice(eps)), op("close", ch="@"), op("destroyed", ch="@")])]))
        closed = False
        for j in range(r.choice([1, 2, 3])):
            go = [self.calls(r, eps, chs, r.choice([2, 3, 5])) for _ in range(r.choice([2, 3, 4, 5]))]
            x = r.random()
            if x < 0.5 and chs:  # ends, from several sides
                c = r.choice(chs)
                for _ in range(r.choice([1, 2, 3])):
                    g = r.choice(go)
                    g.insert(r.randrange(len(g) + 1), op("close", ch=c if r.random() < 0.7 else r.choice(chs)))
            elif x < 0.65 and not closed:
                closed = True
                e = r.choice(eps)
                for _ in range(r.choice([1, 2])):
                    g = r.choice(go)
                    g.insert(r.randrange(len(g) + 1), op("closeep", ep=e))
                fresh = [p for p in fresh if e not in p] or fresh[:1]
            if fresh and r.random() < 0.7:
                a, b = fresh.pop()
                c = (a + b).lower()
                g = r.choice(go)
                g.insert(0, connect(a, b, c))
                g += [write(c, len=r.choice([20, 150])), op("destroyed", ch=c)]
                chs += [c, srv(b, a)]
            ops += [op("storm", go=go), Q]
        ops += [op("storm", go=[[op("noprint", ep=e)] for e in eps]), sleep(6500), Q, op("mark", text="fin")]
        return scenario(f"C21/storm{i}", "C21", r.randrange(1 << 30), ops, on, real=True)

    def rush(self, r, i):
        """many goroutines at one connection: numbers, ends"""
        ml = r.choice([40, 100])
        eps, ops, pairs = self.star(r, 2, maxlen=ml)
        x, y = pairs[0]
        c, s = (x + y).lower(), srv(y, x)
        ops.append(connect(x, y, c))
        go = []
        for _ in range(r.choice([4, 6])):
            go.append([write(r.choice([c, s, s]), len=r.choice([10, ml, ml + 1, 3 * ml, 5 * ml]), cb=r.random() < 0.5) for _ in range(r.choice([2, 4]))])
        if i % 2:
            for g in r.sample(go, 2):
                g.insert(r.randrange(1, len(g) + 1), op("close", ch=r.choice([c, s])))
                g.append(op("destroyed", ch=r.choice([c, s])))
        ops += [op("storm", go=go), Q, sleep(6500), Q, op("mark", text="fin")]
        return scenario(f"C21/rush{i}", "C21", r.randrange(1 << 30), ops, real=True)

    def duel(self, r, i):
        """the same end at the same moment from several sides, again and again"""
        eps, ops, pairs = self.star(r, r.choice([4, 5]))
        r.shuffle(pairs)
        chs = []
        for x, y in pairs:
            ops.append(connect(x, y, (x + y).lower()))
            chs.append(((x + y).lower(), srv(y, x), x, y))
        for c, d, x, y in chs:
            one = r.random() < 0.6
            go = [[op("close", ch=c if one or r.random() < 0.6 else d)] for _ in range(r.choice([3, 4]))]
            for _ in range(r.choice([0, 1, 1])):
                go.append([r.choice([write(r.choice([c, d]), len=40, cb=True), op("destroyed", ch=r.choice([c, d])), op("chans", ep=x), op("stat", ep=y)])
                           for _ in range(2)])
            ops += [op("storm", go=go), Q, sleep(5), Q]
        ops += [sleep(6500), Q, op("mark", text="fin")]
        return scenario(f"C21/duel{i}", "C21", r.randrange(1 << 30), ops, real=True)

    def shut(self, r, i):
        """an endpoint is closed, by several at once, while connections come up"""
        us = 1000
        eps, ops, pairs = self.star(r, r.choice([4, 5, 5]))
        up = r.sample(eps[1:], r.choice([0, 0, 1, 2]))
        late = [e for e in eps[1:] if e not in up]
        chs = {}
        hub = eps[0]
        for e in up:
            x, y = r.choice([(hub, e), (e, hub)])
            ops.append(connect(x, y, (x + y).lower()))
            chs[e] = ((x + y).lower(), srv(y, x))
        far = r.random() < 0.7
        if far:
            ops.append(net(lat(us, us)))
        ce = [op("sleep", us=us * r.choice([0, 1, 2, 3, 3, 3, 4]))] if far else []
        ce.append(op("nap", us=r.choice([0, 100, 500] + [r.randrange(10000) for _ in range(6)])))
        go = [ce + [op("closeep", ep=hub)] + r.choice([[op("chans", ep=hub)], []]) for _ in range(r.choice([1, 2, 3, 4]))]
        for e in late:
            x, y = r.choice([(hub, e), (e, hub), (e, hub), (e, hub)])
            c = (x + y).lower()
            go.append([connect(x, y, c), write(c, len=20), op("destroyed", ch=c)])
        for e in up[:2]:
            go.append(ce + [write(chs[e][0], len=30), op("destroyed", ch=chs[e][0])])
        ops += [op("storm", go=go), Q, sleep(50), op("storm", go=[[op("chans", ep=hub), op("stat", ep=hub)]])]
        ops += [sleep(6500), Q, op("mark", text="fin")]
        return scenario(f"C21/shut{i}", "C21", r.randrange(1 << 30), ops, real=True)

    def streams(self, r, i):
        """stream connections and listeners used by several goroutines (what they return: C11)"""
        if i % 3 == 0:   # the first connections, dialled all at once
            n = r.choice([2, 3, 5])
            ops = [new(f"R{j}", "true", maxlen=100) for j in range(n)] + [net(self.FASTNET)]
            ops += [op("storm", go=[[op("dial", ep="D", to=f"R{j}", ch=f"d{j}", len=r.choice([5, 150]))] for j in range(n)]), Q, sleep(300)]
            ops += [op("nclose", ch=f"d{j}") for j in range(n)] + [sleep(100)]
            return scenario(f"C21/streams{i}", "C21", r.randrange(1 << 30), ops, alone=True)
        ops = [listen("D"), new("R", "true", maxlen=100), net(self.FASTNET), dial("D", "R", "d"), sleep(5)]
        both = i % 2 == 0
        if both:
            ops += [listen("L"), accept("L"), connect("R", "L", "e"), sleep(5)]
        a, raw = "L<R#1", ["R<D#1"] + (["e"] if both else [])
        st = ["d"] + ([a] if both else [])
        ops += [nread("d", "R<D#1", -1, buf=r.choice([10, 1000])) for _ in range(r.choice([1, 2]))]
        if both:
            ops.append(nread(a, "e", -1, buf=r.choice([10, 1000])))
        go = []
        for _ in range(r.choice([3, 5])):
            g = []
            for _ in range(r.choice([2, 4])):
                g.append(r.choice([op("nwrite", ch=r.choice(st), len=r.choice([1, 50, 300])), op("nwrite", ch=r.choice(st), len=r.choice([1, 50])),
                                   write(r.choice(raw), len=r.choice([5, 150])), op("ninfo", ch=r.choice(st)), op("laddr", l="L" if both else "D")]))
            go.append(g)
        if i % 4 < 2:
            for _ in range(2):
                e = r.choice(st + raw)
                r.choice(go).append(op("close" if e in raw else "nclose", ch=e))
        if i % 3 == 0:
            go.append([op("lclose", l="L" if both else "D")])
        ops += [op("storm", go=go), Q, sleep(300)] + [op("nclose", ch=e) for e in st] + [op("lclose", l="D"), sleep(100)]
        return scenario(f"C21/streams{i}", "C21", r.randrange(1 << 30), ops, alone=True)
