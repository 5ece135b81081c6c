"""Histories of storage, size and fusing calls on variables of one or more
solutions, replayed on the kernel and validated against YaskStore."""
import concurrent.futures as cf
import json
import os
import random
import re

import explore as X
import prog as PR
import run as R

UND = 2000000001
PROG = [("A", ["t", "x", "y"], True), ("B", ["t", "x", "y"], True), ("C", ["x", "y"], False), ("D", ["m", "x"], False)]


def program(name, d, rad):
    p = PR.Prog(name, ["x", "y"], ["m"], d)
    for n, dm, _ in PROG:
        p.var(n, dm)
    p.eq("A", [], ["+", ["+", ["v", "A", [0, 0, rad]], ["v", "B", [0, -1, 0]]], ["+", ["v", "C", [0, 0]], ["v", "D", [1, 0]]]])
    p.eq("B", [], ["+", ["v", "A", [0, 1, 0]], ["v", "B", [-d, 0, 0]]])
    return p


class Hist:
    """Generates a history, with its own idea of which names exist."""

    def __init__(self, r, nr, ns, d):
        self.r, self.nr, self.ns, self.d = r, nr, ns, d
        self.ev, self.live, self.nm = [], {}, 0
        self.t, self.runs = {}, 0

    def op(self, op, s, **k):
        e = dict(op=op, s=s, v="", d="", n=0, w="", x=0, y="", dm=[], z=[])
        e.update(k)
        self.ev.append(e)
        if op in ("halo", "pad", "size", "first", "alloc", "rel", "end", "prep", "rsize", "minpad", "newvar", "fuse", "fusesoln", "new", "run", "del"):
            self.look()

    def look(self):
        for s in sorted(self.live):
            for v in self.live[s]:
                self.ev.append(dict(op="vinfo", s=s, v=v, d="", n=0, w="", x=0, y="", dm=[], z=[]))

    def dims(self, v):
        return {"A": "txy", "B": "txy", "C": "xy", "D": "mx"}.get(v) or v.split("_")[1]

    def anyvar(self, s=None):
        s = s or self.r.choice(sorted(self.live))
        return s, self.r.choice(self.live[s])

    def newvar(self, s):
        r = self.r
        self.nm += 1
        dm = r.choice(["txy", "xy", "mx", "x", "y", "txy", "xy", "m", "tx", "qx", "", "ty", "mxy"] + (["xx", "xt"] if r.random() < .1 else []))
        nm = "u%d_%s" % (self.nm, dm)
        z = []
        if r.random() < .45 and dm:
            z = [r.choice([0, 1, 2, 3, 5, 8, 16]) if d in "tmq" else r.choice([1, 5, 8, 16]) for d in dm]
            if r.random() < .08:
                z[r.randint(0, len(z) - 1)] = -2
        if r.random() < .06:
            nm = self.r.choice(self.live[s])
            dm = self.dims(nm)
        self.op_new(s, nm, dm, z)

    def op_new(self, s, nm, dm, z):
        ok = nm not in self.live[s] and len(set(dm)) == len(dm) and "t" not in dm[1:] and all(i >= 0 for i in z)
        if ok:
            self.live[s].append(nm)
        self.op("newvar", s, v=nm, dm=list(dm), z=z)

    def elem(self, s, v):
        r = self.r
        ix = []
        for d in self.dims(v):
            if d == "t":
                ix.append(r.choice(["F+0", "L+0", "L+0", "F+0"] + (["L+1", "F-1", "L+3"] if r.random() < .3 else [])))
            else:
                ix.append(r.choice(["f+0", "l+0", "f+1", "l-1", "f+2"] + (["f-1", "l+1"] if r.random() < .15 else [])))
        return ix

    def data(self):
        r = self.r
        s, v = self.anyvar()
        k = r.random()
        if k < .25:
            self.op("setall", s, v=v, n=r.randint(-99, 99))
        elif k < .5:
            self.op("set", s, v=v, n=r.randint(-99, 99), ixs=self.elem(s, v))
        elif k < .6:
            self.op("add", s, v=v, n=r.randint(-9, 9), ixs=self.elem(s, v))
        elif k < .9:
            self.op("get", s, v=v, ixs=self.elem(s, v))
        else:
            self.op("local", s, v=v, ixs=self.elem(s, v))

    def pair(self):
        s, v = self.anyvar()
        x, y = self.anyvar()
        same = [(a, b) for a in self.live for b in self.live[a] if sorted(self.dims(b)) == sorted(self.dims(v))]
        if self.r.random() < .85:
            x, y = self.r.choice(same)
        return dict(s=s, v=v, x=x, y=y)

    def peek(self):
        r = self.r
        k = r.random()
        if k < .4:
            self.op("sameraw", **self.pair())
        elif k < .7:
            self.op("samelay", **self.pair())
        else:
            s, v = self.anyvar()
            self.op("stor", s, v=v)

    def geom(self):
        r = self.r
        s, v = self.anyvar()
        dm = self.dims(v)
        if not dm:
            return
        k = r.random()
        if k < .35:
            dd = [d for d in dm if d in "xy"] or ["x"]
            self.op("halo", s, v=v, d=r.choice(dd if r.random() < .95 else list(dm)), n=r.choice([0, 1, 2, 3, 4, -1 if r.random() < .4 else 1]), w=r.choice(["l", "r", "b"]))
        elif k < .65:
            dd = [d for d in dm if d in "xy"] or ["x"]
            self.op("pad", s, v=v, d=r.choice(dd if r.random() < .95 else list(dm)), n=r.choice([0, 1, 3, 5, 8, 11, -1 if r.random() < .4 else 2]), w=r.choice(["l", "r", "b"]))
        elif k < .85:
            nat = v in "ABCD"
            d = r.choice(dm if not nat or r.random() < .3 else [c for c in dm if c == "m"] or dm)
            n = r.choice([1, 2, 3] if nat else [0, 1, 2, 3, 8] if d in "tmq" else [4, 8, 13, 16])
            self.op("size", s, v=v, d=d, n=-3 if r.random() < .07 else n)
        else:
            dd = [d for d in dm if d in "mq"] or ["m"]
            if v in "ABCD":
                return
            self.op("first", s, v=v, d=r.choice(dd), n=r.randint(-3, 4))

    def run(self):
        s = self.r.choice(sorted(self.live))
        self.op("run", s, n=self.t[s])
        self.t[s] += self.d

    def new(self):
        s = self.r.choice([i for i in range(1, self.ns + 1) if i not in self.live])
        self.live[s] = [p[0] for p in PROG]
        self.t[s] = 0
        self.op("new", s)
        for d in "xy":
            if self.r.random() < .9:
                self.op("rsize", s, d=d, n=16)

    def go(self, n):
        r = self.r
        self.new()
        while n > 0:
            n -= 1
            s = r.choice(sorted(self.live)) if self.live else 0
            if not s or (len(self.live) < self.ns and r.random() < .08):
                self.new()
                continue
            k = r.random()
            if k < .36:
                self.data()
            elif k < .46:
                self.peek()
            elif k < .6:
                self.geom()
            elif k < .66:
                self.newvar(s) if len(self.live[s]) < 9 else None
            elif k < .72:
                self.op("alloc", **dict(zip(("s", "v"), self.anyvar())))
            elif k < .77:
                self.op("rel", **dict(zip(("s", "v"), self.anyvar())))
            elif k < .86:
                f = self.pair()
                # Two results of a program in one storage: not on several ranks.
                if self.nr == 1 or "B" not in (f["v"], f["y"]):
                    self.op("fuse", **f)
            elif k < .875:
                self.op("fusesoln", s, x=r.choice(sorted(self.live)))
            elif k < .92:
                self.op("prep", s)
            elif k < .94:
                self.op("rsize", s, d=r.choice("xy"), n=r.choice([16, 16, 8, 24]))
            elif k < .955:
                self.op("minpad", s, d=r.choice("xy"), n=r.choice([0, 3, 6]))
            elif k < .965:
                self.op("end", s)
            elif k < .99 and self.runs < 12:
                self.runs += 1
                self.run()
            elif len(self.live) > 1:
                self.live.pop(s)
                self.op("del", s)
        for s in sorted(self.live):
            for v in self.live[s]:
                self.op("get", s, v=v, ixs=["F+0" if d == "t" else "f+1" for d in self.dims(v)])
        return self.ev


def cmd(e):
    o, s, v = e["op"], e["s"], e["v"]
    w = {"l": "l", "r": "r", "b": ""}.get(e["w"], "")
    oth = "%d:%s" % (e["x"], e["y"])
    ix = " ".join(e.get("ixs", []))
    return {"new": lambda: "soln %d" % s, "del": lambda: "delsoln %d" % s, "rsize": lambda: "rsize %s %d" % (e["d"], e["n"]),
            "minpad": lambda: "minpad %s %d" % (e["d"], e["n"]),
            "newvar": lambda: ("newfixed %s %s" % (v, " ".join("%s %d" % z for z in zip(e["dm"], e["z"]))) if e["z"] else
                               "newvar %s %s" % (v, " ".join(e["dm"]))).strip(),
            "halo": lambda: "v%shalo %s %s %d" % (w, v, e["d"], e["n"]), "pad": lambda: "v%spad %s %s %d" % (w, v, e["d"], e["n"]),
            "size": lambda: "valloc %s %s %d" % (v, e["d"], e["n"]), "first": lambda: "vmisc %s %s %d" % (v, e["d"], e["n"]),
            "alloc": lambda: "allocstor " + v, "rel": lambda: "relstor " + v, "fuse": lambda: "fuse %s %s" % (v, oth),
            "fusesoln": lambda: "fusesoln %d" % e["x"], "prep": lambda: "tryprep", "end": lambda: "end",
            "run": lambda: "run %d %d" % (e["n"], e["n"]), "setall": lambda: "setall %s %d" % (v, e["n"]),
            "set": lambda: "set all %s %d 1 %s" % (v, e["n"], ix), "add": lambda: "add all %s %d 1 %s" % (v, e["n"], ix),
            "get": lambda: "get all %s %s" % (v, ix), "local": lambda: "local %s %s" % (v, ix), "stor": lambda: "stor " + v,
            "sameraw": lambda: "sameraw %s %s" % (v, oth), "samelay": lambda: "samelay %s %s" % (v, oth), "vinfo": lambda: "vinfo " + v}[o]()


def script(h):
    L, M, cur = [], [], None
    for e in h:
        if cur != e["s"] and e["op"] not in ("new", "del"):
            L.append("use %d" % e["s"])
            M.append(None)
        cur = e["s"] if e["op"] != "del" else None
        L.append(cmd(e))
        M.append(e)
    return L, M


def events(L, M, evs, base, eb):
    """Merges the meaning of the script with what one rank reported."""
    by = {e["l"]: e for e in evs if "l" in e}
    out = []
    for i, (ln, m) in enumerate(zip(L, M)):
        e = by.get(base + i + 1)
        if e is None:
            return None, "no outcome of '%s'" % ln
        if "err" in e:
            return None, "'%s' failed: %s" % (ln, e["err"])
        if m is None:
            continue
        f = {k: v for k, v in m.items() if k != "ixs"}
        f["ex"] = int("exc" in e)
        o = m["op"]
        if "ixs" in m:
            if "ix" not in e:
                return None, "'%s' failed: %s" % (ln, e)
            f["ix"] = e["ix"]
        if o == "get":
            v = e.get("val", 0)
            f["val"] = v if isinstance(v, int) and abs(v) < 2000000000 else UND - 1
        elif o == "local":
            f["r"] = e["r"]
        elif o in ("sameraw", "samelay"):
            f["r"] = e.get("same", -1)
        elif o == "stor":
            f["yy"] = e["alloced"] if e["alloced"] == e["raw"] else -1
        elif o == "vinfo":
            if "exc" in e:
                if any(x["op"] == "newvar" and x["v"] == m["v"] and x["s"] == m["s"] and x["ex"] == 1 for x in out):
                    break               # the history counted on this variable
                return None, "'%s' refused: %s" % (ln, e["exc"])
            dd = e.get("dom", e.get("domf"))
            f.update(dm=e["dims"], al=e["alloced"], dyn=e["dyn"], fx=e["fixed"], ne=e["nelems"], nb=e["nbytes"], eb=eb,
                     d=[dd[d] if d in dd else [e["alloc"][j], e["fv"], e["lv"]] if d == "t" else [e["alloc"][j], e["flo"][j], e["llo"][j]]
                        for j, d in enumerate(e["dims"])])
        out.append(f)
    return out, ""


def campaign(c, nrand, length):
    rng = c.rng("s")
    specs = [(1, 1, [4, 2], 8), (-1, 2, [2, 2], 8), (1, 2, [1, 4], 8)]
    progs = [(program("st%d" % i, d, rad), [dict(copts=["-fold", "x=%d,y=%d" % tuple(fo)] + (["-no-inner-misc-layout"] if i == 2 else []), new_var_types=True)]) for i, (d, rad, fo, _) in enumerate(specs)]
    with R.Scratch() as sd:
        built = list(X.Exp(c).build(progs))
        jobs = []
        for i in range(nrand):
            r = random.Random(rng.random())
            k = r.randint(0, len(built) - 1)
            nr = 2 if i % 5 == 4 else 1
            h = Hist(r, nr, 1 if nr > 1 else r.choice([1, 2, 3]), specs[k][0]).go(r.randint(length // 2, length))
            jobs.append((k, nr, h))

        def go(a):
            i, (k, nr, h) = a
            L, M = script(h)
            txt = "\n".join(L) + "\n"
            rc, evs, err = R.exec_script(built[k][1][0][0], txt, sd, "s%d" % i, nr, {}, 100)
            return rc, evs, err, txt, L, M
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(go, enumerate(jobs)))
        cases, keep, nv = [], [], 0

        def bad(what, rp):
            nonlocal nv
            nv += 1
            if os.environ.get("VALDEBUG"):
                f = os.path.join(os.environ["VALDEBUG"], "st%d.txt" % nv)
                open(f, "w").write("# %s\n# %s\n" % (rp["nranks"], what.replace("\n", " ")) + rp["script"])
            if nv <= 5:
                c.violation(what, rp)
        for (k, nr, h), (rc, evs, err, txt, L, M) in zip(jobs, outs):
            p, exes = built[k]
            rp = dict(script=txt, nranks=nr, sx=p.sx(), variant=exes[0][1])
            one = [events(L, M, ev, 0, specs[k][3]) for ev in evs]
            w = [y for x, y in one if x is None]
            if w or rc:
                bad("storage: %s (exit code %d: %s)" % (w[0] if w else "died at the end", rc, err[-300:]), rp)
                continue
            for rk in range(nr):
                P = dict(nr=nr, rk=rk, dy=(k == 2), dd=["x", "y"],
                         prog=[dict(n=n, dm=dm, out=o, sz=[UND] * len(dm), mi=[UND] * len(dm)) for n, dm, o in PROG])
                cases.append(dict(P=P, ns=3, ev=one[rk][0]))
                keep.append(rp)
        res, tot = R.validate_cases("YaskStoreTrace", cases, sd, lambda x: 0, lambda x: len(x["ev"]))
    for x, rp, (ok, a, b) in zip(cases, keep, res):
        if not ok:
            e = x["ev"][a] if 0 <= a < len(x["ev"]) else {}
            pre = [z for z in x["ev"][:a] if z["op"] != "vinfo"][-6:]
            bad("storage: event %d is not allowed by the specification: %s, after %s [%s]" % (
                a + 1, brief(e), [brief(z) for z in pre], x.get("tlc", "")[-200:]), rp)
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.cov["samples"] = [dict(history=[cmd(e) for e in j[2] if e["op"] != "vinfo"][:16]) for j in jobs[:: max(1, len(jobs) // 4)][:4]]
    c.log("%d histories, %d rejected; %s" % (len(cases), nv, tot))


def brief(e):
    return " ".join("%s=%s" % (k, v) for k, v in e.items() if v not in ("", 0, []) or k in ("ex", "n", "r", "val"))
