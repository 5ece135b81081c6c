"""The auto-tuner under a clock the check controls: values against YaskTrace,
life of the tuner and the sizes it leaves against YaskTuner."""
import concurrent.futures as cf
import os
import random
import re

import explore as X
import prog as PR
import run as R
import tcheck as T

LEV = ["Mb", "b", "mb", "nb", "pb"]


def opts(r):
    o = ["-auto_tune_radius", str(r.choice([1, 1, 2, 2, 4, 8, 16])),
         "-auto_tune_trial_secs", r.choice(["0.01", "0.1", "0.5", "4"])]
    if r.random() < .85:
        o += ["-auto_tune_targets", ",".join(r.sample(LEV, r.choice([1, 1, 2, 2, 3, 5])))]
    return o


# ------------------------------------------------------------------ values

def dfn(r, p):
    lo, hi = {1: (12, 30), 2: (5, 10), 3: (4, 5), 4: (3, 4)}[len(p.dd)]
    return [r.randint(lo, hi) for _ in p.dd]


def hist(many):
    def f(p, r, z):
        vs = [v["nm"] for v in p.vars if not v["scr"]]
        out = {q["v"] for q in p.eqs if not p.V(q["v"])["scr"]}
        d, s = p.dir, 0
        h = [("fill", v, r.randint(1, 99)) for v in vs]
        acts = ["run"] * 4 + ["dump"] + [r.choice(["at 1", "at 1", "at 0", "now", "run", "run", "until"]) for _ in range(3)]
        r.shuffle(acts)
        for a in acts:
            if a == "run":
                k = r.choice([1, 1, 2, 3, 5])
                h.append(("run", s, s + d * (k - 1)))
                s += d * k
            elif a == "dump":
                h.append(("dump", r.choice(vs)))
            elif a == "until":
                if not many:
                    h.append(("until", 150, s))
                    h += [("win", v) for v in vs if p.step in p.V(v)["dims"]] + [("dump", r.choice(sorted(out)))]
                    s += 200 * d       # how many steps it took is not known here
                    h += [("rewin", v, s) for v in vs if v in out and p.step in p.V(v)["dims"]]
                    h += [("fill", v, r.randint(1, 99)) for v in vs]
            elif a == "now":
                h += [("setall", v, r.randint(1, 9)) for v in vs]      # bounded values also where none were exchanged
                h.append(("raw", "atnow"))
                h += [("rewin", v, s) for v in vs if v in out and p.step in p.V(v)["dims"]]
                h += [("fill", v, r.randint(1, 99)) for v in vs]
            else:
                h.append(("raw", a))
            if r.random() < .3:
                h.append(("raw", "atq"))
        h.append(("run", s, s + d))
        h += [("win", v) for v in vs if p.step in p.V(v)["dims"]]
        h += [("dump", v) for v in vs]
        return h
    return f


def values(c, n, k, ranks, tag, nd):
    rng = c.rng(tag)
    many = max(ranks) > 1
    gens = [dict(idx=False, p_cond=.15, p_sc=.1, rad=1 + i % 2, nd=[2, 1, 2, 3][i % 4], ns=[0, 0, 1][i % 3], misc=[0, 0, 0, 1][i % 4]) for i in range(n)]

    def sfn(r, p, st, i):
        st.opts += opts(r) + (["-auto_tune"] if r.random() < .75 else [])
        st.env["VCLOCK"] = "%s %d" % (r.choice(["big"] * 7 + ["mix"] * (0 if many else 2)), r.randint(1, 10**6))
        return st
    return T.campaign(c, tag, gens, k, {"tile", "temporal", "threads", "mpi"} if many else {"tile", "temporal", "threads", "misc"},
                      nranks=ranks, ndsz=nd, hist=hist(many), dfn=dfn, sfn=sfn)


# --------------------------------------------------------------- the tuner

def sizes(e, dd, step):
    v = dict(re.findall(r"^\s+(\w+):\s+(-?\d+)\s*$", e["vals"], re.M))
    return dict(rank=[int(v["l" + d]) for d in dd],
                z=[[int(v[l + d]) for d in dd] for l in LEV],
                t=[int(v["Mb" + step]), int(v["b" + step])])


def life(c, n, k):
    """Histories of the tuner on each rank."""
    rng = c.rng("life")
    ex = X.Exp(c)
    specs = []
    for i in range(n):
        r = random.Random(rng.random())
        p = PR.Gen(r, dict(idx=False, nd=[2, 1, 3][i % 3], rad=1 + i % 2, ns=[0, 1][i % 2], p_cond=.1)).gen("a%d" % i)
        specs.append((p, [dict(copts=X.rand_fold(r, p.dd, 4))]))
    jobs = []
    for p, exes in ex.build(specs):
        exe, kw = exes[0]
        for i in range(k):
            r = random.Random(rng.random())
            mode = r.choice(["big", "big", "big", "mix", "back", "zero"])
            nr = r.choice([1, 1, 2, 4]) if mode == "big" else 1
            top = {1: 40, 2: 20, 3: 9}[len(p.dd)] if mode == "big" else {1: 20, 2: 8, 3: 4}[len(p.dd)]
            z = [r.randint(max(3, top // 3), top) * (2 if nr > 1 else 1) for _ in p.dd]
            S = T.settings(r, p, kw, z, {"tile", "temporal", "threads", "mpi"}, (nr,))
            st = S.one()
            tg = r.sample(LEV, r.choice([1, 1, 2, 3, 5] if mode == "big" else [1, 1, 1, 2]))
            st.opts += opts(r)[:4] + ["-auto_tune_targets", ",".join(tg)]
            auto = r.random() < .5
            if auto:
                st.opts.append("-auto_tune")
            st.env["VCLOCK"] = "%s %d" % (mode, r.randint(1, 10**6))
            jobs.append((p, exe, kw, z, st, tg, auto, mode, script(r, p, z, st, mode, st.n())))
    with R.Scratch() as sd:
        def go(a):
            i, (p, exe, kw, z, st, tg, auto, mode, txt) = a
            return R.exec_script(exe, txt, sd, "a%d" % i, st.n(), st.env, 150)
        with cf.ThreadPoolExecutor(8) as pool:
            outs = list(pool.map(go, enumerate(jobs)))
        cases, keep, nv = [], [], 0
        for (p, exe, kw, z, st, tg, auto, mode, txt), (rc, evs, err) in zip(jobs, outs):
            rp = dict(script=txt, nranks=st.n(), env=st.env, sx=p.sx(), variant=kw)
            bad = [e for ev in evs for e in ev if "exc" in e or "err" in e]
            if rc or bad:
                nv += 1
                if nv <= 5:
                    c.violation("auto-tuner: the run failed (exit code %d): %s %s" % (rc, bad[:1], err[-300:]), rp)
                continue
            fold = X.parse_fold(kw.get("copts", []))
            for rk, ev in enumerate(evs):
                P = dict(rank=[], fold=[fold.get(d, 1) for d in p.dd], tg=[LEV.index(x) + 1 for x in tg], big=int(mode == "big"), auto=int(auto))
                o = []
                ln = txt.split("\n")
                for e in ev:
                    w = ln[e["l"] - 1].split() if e.get("l") else []
                    q = dict(op="", on=0, n=0, k=1, z=[], t=[])
                    if e["op"] == "prep":
                        q["op"] = "prep"
                    elif e["op"] in ("run", "run1"):
                        q.update(op="run", k=abs(int(w[-1]) - int(w[1])) + 1)
                    elif e["op"] == "untiloff":
                        q.update(op="until", n=e["n"], on=e["on"], k=int(w[4]))
                    elif e["op"] == "at":
                        q.update(op="at", on=int(w[1]))
                    elif e["op"] == "atq":
                        q.update(op="atq", on=e["on"])
                    elif e["op"] == "atnow":
                        q["op"] = "now"
                    elif e["op"] == "optvals":
                        s = sizes(e, p.dd, p.step)
                        P["rank"] = P["rank"] or s["rank"]
                        q.update(op="sizes", z=s["z"], t=s["t"] + s["rank"])
                    else:
                        continue
                    o.append(q)
                cases.append(dict(P=P, ev=o))
                keep.append(rp)
        res, tot = R.validate_cases("YaskTunerTrace", cases, sd, lambda x: 0, lambda x: len(x["ev"]))
    for x, rp, (ok, a, b) in zip(cases, keep, res):
        if not ok:
            e = x["ev"][a] if 0 <= a < len(x["ev"]) else {}
            nv += 1
            if nv <= 5:
                c.violation("auto-tuner: event %d is not allowed by the specification: %s with %s [%s]" % (
                    a + 1, e, x["P"], x.get("tlc", "")[-200:]), rp)
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.log("%d tuner histories (%d per-rank), %d rejected; %s" % (len(jobs), len(cases), nv, tot))


def script(r, p, z, st, mode, nr):
    d = p.dir
    hist = [("setall", v["nm"], r.randint(1, 9)) for v in p.vars if not v["scr"]]
    o = [("raw", "atq"), ("raw", "optvals")]
    s = 0
    for _ in range(r.randint(4, 9)):
        a = r.choice(["run", "run", "runs", "until", "at 1", "at 1", "at 0", "atnow", "optvals"])
        if a in ("run", "runs"):
            for _ in range(1 if a == "run" else r.randint(2, 30)):
                k = r.choice([1, 1, 2, 5])
                o.append(("run", s, s + d * (k - 1)))
                s += d * k
        elif a == "until":
            if nr == 1:
                k = 1 if mode == "big" else r.choice([500, 500, 130, 997])
                o.append(("raw", "untiloff %d %d %d %d" % (4000, s, d, k)))
            else:
                for _ in range(r.choice([20, 60, 150])):
                    o.append(("run", s, s))
                    s += d
        else:
            o.append(("raw", a))
        if r.random() < .7:
            o += [("raw", "atq"), ("raw", "optvals")]
    o += [("raw", "atq"), ("raw", "optvals"), ("run", s, s), ("raw", "atq"), ("raw", "optvals")]
    return R.script(p, z, hist + o, st)


def search(c, cfgs):
    """The search itself, exhaustively."""
    with R.Scratch() as sd:
        for n1, n2, rad in cfgs:
            f = sd.path("m.cfg")
            open(f, "w").write("SPECIFICATION Spec\nCONSTANTS N1 = %d N2 = %d R = %d\nINVARIANTS TypeOK HasBest Fresh\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n" % (n1, n2, rad))
            rc, out = R.tlc_batch("YaskTunerMC.tla", f, {}, sd, "m", 600)
            s, t = R.tlc_stats(out)
            if rc:
                raise RuntimeError("YaskTunerMC fails: " + out[-800:])
            c.add(states=t, transitions=s)


def campaign(c, nv, kv, nd, nl, kl, cfgs):
    search(c, cfgs)
    life(c, nl, kl)
    values(c, nv, kv, (1,), "one", nd)
    values(c, max(2, nv // 2), kv, (2, 4, 3), "many", nd)
