"""C07 and C09: random calls of the access functions of variables of many
shapes; each rank's log of each variable is validated against YaskVar."""
import concurrent.futures as cf
import json
import random

import build as B
import explore as X
import prog as PR
import run as R

UNK, ODD, LOWEST, HIGHEST, EXC = -2000000000, 2000000001, -2000000002, 2000000002, 2000000009
import os
ARITY = int(os.environ.get('ARITY', '2'))
DBL_MAX = "1.7976931348623157e+308"


def zoo(rng, name, nd, nmisc, nv):
    """A program that uses variables of many shapes."""
    dd = ["x", "y", "z", "w"][:nd]
    misc = ["c", "d"][:nmisc]
    p = PR.Prog(name, dd, misc, 1)
    p.var("A", ["t"] + dd)
    terms = [["v", "A", [0] + [rng.choice([-1, 0, 1]) for _ in dd]], ["v", "A", [-rng.randint(0, 2)] + [0] * nd]]
    for i in range(nv):
        pool = list(dd) + list(misc)
        ds = [d for d in pool if rng.random() < .75]
        rng.shuffle(ds)
        if rng.random() < .6 or not ds:
            ds = ["t"] + ds
        nm = "BCDEFGHIJK"[i]
        p.var(nm, ds)

        def ix(big):
            return [rng.choice([0, 0, -1]) if d == "t" else (rng.randint(-2, 2) if big else 0) if d in dd
                    else rng.choice([-2, 0, 1, 3]) for d in ds]
        for _ in range(rng.randint(1, 2)):
            terms.append(["v", nm, ix(rng.random() < .6)])
    p.eq("A", [], ["+"] + terms)
    return p


def small_size(rng, nd):
    lo, hi = {1: (9, 30), 2: (5, 12), 3: (4, 7), 4: (3, 4)}[nd]
    return [rng.randint(lo, hi) for _ in range(nd)]


class Calls:
    """Random call lines for one variable (dims in order)."""
    def __init__(self, rng, v, dims, nd_sizes, wrap, wild):
        self.r, self.v, self.dims, self.n, self.wrap, self.wild = rng, v, dims, nd_sizes, wrap, wild
        self.st = bool(dims) and dims[0] == "t"

    def tok(self, d, out):
        """An index; 'out' = possibly outside the allowed range."""
        r = self.r
        if d == "t":
            if self.wrap:
                return str(r.randint(-6, 9))
            return r.choice(["F-1", "L+1", "L+3", "F-5"]) if out else r.choice(["F", "L", "F", "L", "F+1" if r.random() < .2 else "L"])
        if out:
            return r.choice(["f-1", "l+1", "f-7", "l+4"])
        k = r.random()
        if k < .3:
            return r.choice(["f", "l"])
        if k < .7:
            return r.choice(["d", "e", "d+1", "e-1", "d-1", "e+1", "d+2"])
        if d in self.n:
            return str(r.randint(-1, self.n[d]))
        return r.choice(["f", "l", "f+1", "l-1"])

    def ix(self):
        r = self.r
        bad = r.random() < self.wild
        outs = {r.randrange(max(1, len(self.dims)))} if bad else set()
        t = [self.tok(d, k in outs) for k, d in enumerate(self.dims)]
        if r.random() < self.wild * .15:
            t = ["0"] * r.choice([k for k in range(len(self.dims) + ARITY) if k != len(self.dims)])
        return t

    def slice(self):
        """First and last index; mostly first <= last."""
        r = self.r
        f, z = [], []
        bad = r.random() < self.wild
        which = r.randrange(max(1, len(self.dims)))
        for k, d in enumerate(self.dims):
            if d == "t":
                if self.wrap:
                    a = r.randint(-5, 5)
                    q = (str(a), str(a + r.choice([0, 0, 1, 2, 3])))
                else:
                    q = r.choice([("F", "L"), ("F", "F"), ("L", "L")])
                    if bad and k == which:
                        q = r.choice([("F-1", "F"), ("L", "L+1"), ("F-3", "L+3"), ("L+1", "L+2"), ("F-9", "F-5"), ("L", "F")])
            else:
                a, b = r.randint(0, 2), r.randint(0, 2)
                q = r.choice([("f", "l"), ("d", "e"), ("d", "e"), ("f+%d" % a, "l-%d" % b), ("d+%d" % a, "e-%d" % b),
                              ("d", "d+%d" % a), ("e-%d" % b, "e"), ("f", "f+%d" % a), ("l-%d" % b, "l")])
                if r.random() < .05:
                    q = r.choice([("d+1", "d"), ("d+2", "d"), ("e", "d"), ("l", "f")])
                elif d in self.n and r.random() < .15:
                    a, b = sorted([r.randint(0, self.n[d] - 1), r.randint(0, self.n[d] - 1)])
                    q = (str(a), str(b))
                if bad and k == which:
                    q = r.choice([("f-1", "d"), ("e", "l+1"), ("f-3", "l+2"), ("l+1", "l+3"), ("f-5", "f-1"), ("f-9", "l+9")])
            f.append(q[0])
            z.append(q[1])
        if r.random() < .03:          # backwards in several dimensions
            f, z = zip(*[(a, b) if d == "t" or a[0] not in "fd" or b[0] not in "le" else (b, a) for d, a, b in zip(self.dims, f, z)]) if f else (f, z)
        if r.random() < self.wild * .1:
            n = r.choice([k for k in range(len(self.dims) + ARITY) if k != len(self.dims)])
            f, z = ["0"] * n, ["1"] * n
        return "%d %s %s" % (len(f), " ".join(f), " ".join(z))

    def one(self, reds=.15):
        r, v = self.r, self.v
        if r.random() < reds:
            return "red %s %d %d %s" % (v, r.choice([1, 2, 4, 8, 16, 31, 3, 24, 5, 8, 16, 0, r.randint(0, 31)]), r.random() < .4, self.slice())
        w = not self.wrap
        k = r.choice(["local", "get", "get", "set", "set", "set", "add", "add", "getsl", "getsl", "win", "set"] +
                     (["setsl", "setsl", "slsame", "slsame", "slsame", "setall"] if w else []))
        if k == "local":
            return "local %s %s" % (v, " ".join(self.ix()))
        if k == "get":
            return "get all %s %s" % (v, " ".join(self.ix()))
        if k in ("set", "add"):
            return "%s all %s %d %d %s" % (k, v, r.randint(-90, 90), r.random() < .5, " ".join(self.ix()))
        dl = r.choice([0, 0, 0, 1, 3, -1, -2]) if r.random() < self.wild else 0
        if k == "getsl":
            h = r.choice(["getsl", "getslf", "getslv"])
            return "%s %s %d %s" % (h, v, 0 if h == "getslv" else dl, self.slice())
        if k == "setsl":
            h = r.choice(["setsl", "setslf", "setslv"])
            return "%s %s %d %d %s" % (h, v, r.randint(1, 99), 0 if h == "setslv" else dl, self.slice())
        if k == "slsame":
            return "slsame %s %d %d %s" % (v, r.randint(-9, 9), r.random() < .5, self.slice())
        if k == "setall":
            return "setall %s %d" % (v, r.choice([0, 1, -1, 2, -3, 7, -50]))
        return "win " + v if self.st else "local %s %s" % (v, " ".join(self.ix()))

    def whole(self, op, extra):
        f = " ".join("F" if d == "t" else "f" for d in self.dims)
        z = " ".join("L" if d == "t" else "l" for d in self.dims)
        return "%s %s %s %d %s %s" % (op, self.v, extra, len(self.dims), f, z)


def code(x, red=False):
    if red:
        if x == "exc":
            return EXC
        if x == DBL_MAX:
            return HIGHEST
        if x == "-" + DBL_MAX:
            return LOWEST
    return x if isinstance(x, int) and abs(x) < 2000000000 else ODD


def event(e, line):
    """The specification's form of one logged call; None = not comparable."""
    w = line.split()
    op = w[0]
    exc = "exc" in e
    o = dict(exc=exc)
    if op == "local":
        o.update(op="local", ix=e["ix"], r=e.get("r", 0))
    elif op == "get":
        o.update(op="get", ix=e["ix"], val=code(e.get("val", 0)))
    elif op in ("set", "add"):
        o.update(op=op, ix=e["ix"], v=int(w[3]), strict=w[4] == "1", n=e.get("n", 0))
    elif op in ("getsl", "getslf", "getslv"):
        o.update(op="getsl", f=e["f"], z=e["z"], len=e["len"] if op != "getslv" else 1000000, n=e.get("n", 0), over=e.get("over", 0),
                 vals=[code(x) for x in e.get("vals", [])])
    elif op in ("setsl", "setslf", "setslv"):
        o.update(op="setsl", f=e["f"], z=e["z"], len=e["len"] if op != "setslv" else 1000000, n=e.get("n", 0), seed=int(w[2]), same=False, v=0)
    elif op == "slsame":
        o.update(op="slsame", f=e["f"], z=e["z"], strict=w[3] == "1", n=e.get("n", 0), same=True, v=int(w[2]), seed=0)
    elif op == "setall":
        o.update(op="setall", v=int(w[2]))
    elif op == "win":
        o.update(op="win", fv=e.get("fv", 0), lv=e.get("lv", 0))
    elif op == "red":
        o.update(op="red", f=e["f"], z=e["z"], strict=w[3] == "1", m=int(w[2]), n=e.get("n", 0), mask=e.get("mask", 0))
        for k in ("sum", "sumsq", "prod", "max", "min"):
            o[k] = code(e.get(k, 0), True)
    else:
        return None
    return o


def rank_sizes(rng, dd, lay, fold):
    """Overall sizes that can be split as asked: every rank but the last of a
    dimension gets a multiple of the fold."""
    dsz = []
    for d, n in zip(dd, small_size(rng, len(dd))):
        if lay[d] > 1:
            m = fold.get(d, 1)
            m *= max(1, -(-3 // m))
            n = (lay[d] - 1) * m + rng.randint(max(2, m // 2), m)
        dsz.append(n)
    return dsz


def make_run(rng, p, ncalls, reds, wild, fold):
    """One script over all variables of p, with its setting."""
    dd = p.dd
    nr = rng.choice([1, 1, 2, 3, 4])
    lay = rng.choice(R.layouts(nr, dd))
    dsz = rank_sizes(rng, dd, lay, fold)
    o = ["soln 0"]
    for d, n in zip(dd, dsz):
        o.append("osize %s %d" % (d, n))
    for d in dd:
        if nr > 1:
            o.append("nr %s %d" % (d, lay[d]))
    wrap = rng.random() < .2
    if wrap:
        o.append("wrap 1")
    if rng.random() < .4:
        o.append("opts " + rng.choice(["-no-bundle_allocs", "-mp%s %d" % (rng.choice(dd), rng.randint(0, 5)), "-ep%s %d" % (rng.choice(dd), rng.randint(0, 3)),
                                       "-no-allow_addl_padding"]))
    vs = [(v["nm"], v["dims"]) for v in p.vars]
    post = []
    # Variables made by the user: of the shape of one of the program, or of fixed size.
    for i in range(rng.randint(0, 2)):
        ds = rng.choice(vs)[1]
        if rng.random() < .5:
            o.append("newvar U%d %s" % (i, " ".join(ds)))
            for d in ds:
                if d not in dd:
                    o.append("valloc U%d %s %d" % (i, d, rng.randint(1, 4)))
                    if d != "t" and rng.random() < .6:
                        o.append("vmisc U%d %s %d" % (i, d, rng.randint(-5, 5)))
                elif rng.random() < .5:
                    o.append("%s U%d %s %d" % (rng.choice(["vlhalo", "vrhalo", "vhalo", "vlpad", "vrpad", "vpad"]), i, d, rng.randint(0, 3)))
        else:
            o.append("newfixed U%d %s" % (i, " ".join("%s %d" % (d, rng.randint(1, 6)) for d in ds)))
            for d in ds:
                if d not in dd and d != "t" and rng.random() < .6:
                    o.append("vmisc U%d %s %d" % (i, d, rng.randint(-5, 5)))
        vs.append(("U%d" % i, ds))
        post.append("allocstor U%d" % i)
    o.append("prep")
    o += post
    n = dict(zip(dd, dsz))
    calls = [Calls(rng, v, ds, n, wrap, wild) for v, ds in vs]
    for v, _ in vs:
        o.append("vinfo " + v)
    if not wrap:
        for c in calls:
            if rng.random() < .8:
                o.append(c.whole("setsl", "%d 0" % rng.randint(1, 99)))
    seq = [c for c in calls for _ in range(ncalls)]
    rng.shuffle(seq)
    o += [c.one(reds) for c in seq]
    o += [c.whole(rng.choice(["getsl", "getslf"]), "0") for c in calls]
    o.append("end")
    env = {"OMP_NUM_THREADS": str(rng.choice([1, 2, 3, 4, 7]))}
    return dict(nr=nr, lines=o, env=env, vs=vs, wrap=wrap, dsz=dsz)


def cases_of(run, revs):
    """Cases (rank, var) of a run, or a reason why there are none."""
    out = []
    lines = run["lines"]
    for rk, evs in enumerate(revs):
        geo, ev, fvs = {}, {}, {}
        if len(evs) != len(lines) + 1 or evs[-1].get("op") != "eof":
            return None, "rank %d: the run ended after: %s" % (rk, lines[min(len(evs), len(lines)) - 1] if evs else "nothing")
        for ln, e in zip(lines, evs):
            w = ln.split()
            if "err" in e:
                return None, "rank %d: %s: %s" % (rk, ln, e["err"])
            if w[0] == "vinfo":
                if "exc" in e:
                    return None, "rank %d: %s: %s" % (rk, ln, e["exc"])
                geo[w[1]] = e
                ev[w[1]] = []
            elif not geo or w[0] == "end":
                if "exc" in e:
                    return None, "rank %d: %s: %s" % (rk, ln, e["exc"])
            else:
                v = w[2] if w[0] in ("get", "set", "add") else w[1]
                ev[v].append((event(e, ln), ln))
        for v, ds in run["vs"]:
            g = geo[v]
            if g["dims"] != ds:
                return None, "dims of %s are %s" % (v, g["dims"])
            st = bool(ds) and ds[0] == "t"
            V = dict(st=st, al=g["alloc"][0] if st else 1, lo=g["flo"][1:] if st else g["flo"], hi=g["llo"][1:] if st else g["llo"],
                     wrap=run["wrap"] and st)
            evs = affordable(V, [x for x, _ in ev[v]])
            out.append((dict(V=V, fv=g.get("fv", 0), ev=evs), rk, v, [y for _, y in ev[v]]))
    return out, None


def campaign(c, nprog, nvar, nrun, ncalls, reds, wild=.25, new_types=False, sched=False):
    rng = c.rng("v")
    progs = []
    for i in range(nprog):
        r = random.Random(rng.random())
        p = zoo(r, "zoo%d" % i, [2, 3, 1, 2, 3, 4][i % 6], [1, 0, 2, 1][i % 4], r.randint(3, 6))
        kws = []
        for k in range(nvar):
            eb = r.choice([4, 8])
            kw = dict(copts=X.rand_fold(r, p.dd, 32 // eb), elem_bytes=eb, target="avx2")
            if r.random() < .3:
                kw["copts"] += [r.choice(["-no-inner-misc-layout", "-outer-domain-layout", "-no-first-inner"])]
            if r.random() < .3:
                kw["copts"] += ["-step-alloc", str(X.step_need(p) + r.randint(0, 2))]
            if sched:
                kw["sched"] = True
            kws.append(kw)
        progs.append((p, kws))
    ex = X.Exp(c)
    jobs = []
    for p, exes in ex.build(progs):
        for exe, kw in exes:
            for _ in range(nrun):
                jobs.append((p, exe, kw, make_run(random.Random(rng.random()), p, ncalls, reds, wild, X.parse_fold(kw["copts"]))))
                if sched:
                    jobs[-1][3]["env"]["VOMP_SEED"] = str(rng.randint(1, 10**6))
    with R.Scratch() as sd:
        def go(a):
            i, (p, exe, kw, run) = a
            rc, evs, err = R.exec_script(exe, "\n".join(run["lines"]) + "\n", sd, "v%d" % i, run["nr"], run["env"], 100)
            return rc, evs, err
        with cf.ThreadPoolExecutor(B.JOBS) as exr:
            outs = list(exr.map(go, enumerate(jobs)))
        cases = []
        for (p, exe, kw, run), (rc, evs, err) in zip(jobs, outs):
            cs, why = cases_of(run, evs)
            if cs is None or rc:
                c.violation("%s %s: %s (exit code %d: %s)" % (p.name, kw, why, rc, err[-300:]),
                            dict(sx=p.sx(), variant=kw, script="\n".join(run["lines"]) + "\n", nranks=run["nr"], env=run["env"]))
                continue
            cases += [(x, rk, v, ls, p, kw, run) for x, rk, v, ls in cs]
        c.log("%d runs, %d cases" % (len(jobs), len(cases)))
        res, tot = R.validate_cases("YaskVarTrace", [x[0] for x in cases], sd, lambda x: x["V"],
                                    lambda x: 50 + len(x["ev"]) * (10 + vol(x["V"])))
    bad = 0
    for (x, rk, v, ls, p, kw, run), (ok, a, b) in zip(cases, res):
        if not ok:
            bad += 1
            if bad <= 5:
                e = x["ev"][a] if 0 <= a < len(x["ev"]) else {}
                c.violation("%s %s rank %d var %s: call %d of %d is not allowed by the specification: %s -> %s [%s]" % (
                    p.name, kw, rk, v, a + 1, b, ls[a] if 0 <= a < len(ls) else "", {k: q for k, q in e.items() if k != "vals"}, x.get("tlc", "")[-300:]),
                    dict(sx=p.sx(), variant=kw, script="\n".join(run["lines"]) + "\n", nranks=run["nr"], env=run["env"], rank=rk, var=v, geo=x["V"], event=a))
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.cov["samples"] = [dict(program=j[0].sx(), variant=j[2], script=j[3]["lines"][:40]) for j in jobs[:: max(1, len(jobs) // 3)][:3]]
    c.log("%d cases rejected; %s" % (bad, tot))


def affordable(V, ev, most=30000):
    """The longest prefix of a history that TLC can evaluate in reasonable time."""
    left, whole = most, vol(V)
    for i, e in enumerate(ev):
        n = 1
        if "f" in e and "z" in e and len(e["f"]) == len(e["z"]):
            for a, b in zip(e["f"], e["z"]):
                n *= max(1, b - a + 1)
        elif e["op"] == "setall":
            n = whole
        left -= min(n, whole)
        if left < 0:
            return ev[:i]
    return ev


def vol(V):
    n = V["al"]
    for a, b in zip(V["lo"], V["hi"]):
        n *= b - a + 1
    return n
