"""Thread schedules (C19): kernels linked with the scheduling OpenMP run-time
kd/omp/vomp.cpp. Values under seeded schedules against YaskTrace, accesses of
the concurrent tasks of every phase against YaskThreads, host access under
schedules against YaskVarTrace, and additions from the user's threads."""
import concurrent.futures as cf
import glob
import json
import os
import random

import build as B
import explore as X
import prog as PR
import run as R
import tcheck as T
import vars as VR


def tune(rec):
    def f(r, p, st, i):
        """Small tiles, several threads on both levels, a schedule."""
        e = st.env
        e["VOMP_SEED"] = str(r.randint(1, 10**6))
        e["OMP_NUM_THREADS"] = str(r.choice([2, 3, 4, 6, 8]))
        o = [x for x in st.opts]
        for w in ("-inner_threads", "-outer_threads"):
            while w in o:
                k = o.index(w)
                del o[k:k + 2]
        o = [x for x in o if x != "-bind_inner_threads"]
        inner = r.choice([1, 1, 2, 2, 3])
        o += ["-outer_threads", str(r.choice([1, 2, 2, 3, 4])), "-inner_threads", str(inner)]
        if inner > 1 and r.random() < .4:
            o += ["-bind_inner_threads"]
        if r.random() < .8:
            for lev, n in (("Mb", (8, 12, 16)), ("b", (4, 4, 6, 8)), ("mb", (4, 4, 6)), ("nb", (2, 4))):
                if r.random() < .6:
                    for d in p.dd:
                        o += ["-%s%s" % (lev, d), str(r.choice(n))]
        if r.random() < .4 and "-force_scalar" not in o:
            o += ["-force_scalar"]
        st.opts = o
        if rec is not None:
            st.rec = rec[0].path("rec%d" % len(rec[1]))
            rec[1].append(st)
            e["VOMP_REC"] = st.rec
        return st
    return f


def variant(r, p, k):
    eb = r.choice([8, 8, 4])
    return dict(copts=X.rand_fold(r, p.dd, 32 // eb), elem_bytes=eb, sched=True)


def hist(p, r, z):
    return X.api_hist(p, r, z, nops=r.choice([0, 2, 4]), nruns=2, xchg=False) if r.random() < .4 else X.std_hist(p, r, nsteps=r.randint(2, 5))


def values(c, n, k):
    """Values under schedules; the phases of every run, recorded."""
    with R.Scratch() as sd:
        jobs = []
        base = dict(p_cond=.25, p_sc=.15, rad=2)
        gens = [dict(base, nd=[2, 1, 3, 2][i % 4], ns=[0, 1, 2, 0, 1][i % 5], dir=[1, 1, 1, -1][i % 4], nv=[2, 3, 2][i % 3]) for i in range(n)]
        T.campaign(c, "s", gens, k, {"tile", "temporal", "threads", "misc", "mpi"}, nranks=(1, 1, 1, 1, 2), vfn=variant, hist=hist,
                   dfn=lambda r, p: [r.randint(*{1: (24, 60), 2: (9, 18), 3: (5, 9)}[len(p.dd)]) for _ in p.dd], sfn=tune((sd, jobs)))
        phases(c, sd, jobs)


def phases(c, sd, jobs):
    seen, cases, total = set(), [], 0
    for st in jobs:
        ev = []
        for f in sorted(glob.glob(st.rec + ".*")):
            for ln in open(f):
                if not ln.endswith("}\n"):
                    continue
                total += 1
                e = json.loads(ln)
                if "-force_scalar" not in st.opts:
                    # vector code reads whole vectors, also elements it does not use
                    e["cells"] = [dict(x, r=[]) for x in e["cells"] if x["w"]]
                    if not e["cells"]:
                        continue
                k = json.dumps([[x["r"], x["w"]] for x in e["cells"]])
                if k in seen:
                    continue
                seen.add(k)
                ev.append(dict(op="phase", **e))
            os.unlink(f)
        if ev:
            cases.append((dict(ev=ev), st))
    res, tot = R.validate_cases("YaskThreadsTrace", [x[0] for x in cases], sd, lambda x: 0, lambda x: sum(len(e["cells"]) for e in x["ev"]))
    bad = 0
    for (x, st), (ok, a, b) in zip(cases, res):
        if not ok:
            bad += 1
            if bad <= 5:
                e = x["ev"][a] if 0 <= a < len(x["ev"]) else {}
                cl = [q for q in e.get("cells", []) if q["w"] and (len(q["w"]) > 1 or set(q["r"]) - set(q["w"]))][:3]
                c.violation("concurrent tasks of one phase (level %s, %s tasks) touch the same storage: %s; %s [%s]" % (
                    e.get("lv"), e.get("n"), cl, st, x.get("tlc", "")[-200:]), dict(phase=cl, setting=repr(st), env=st.env))
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.notes["phases_recorded"] = c.notes.get("phases_recorded", 0) + total
    c.notes["phases_distinct"] = c.notes.get("phases_distinct", 0) + len(seen)
    c.log("%d phases, %d distinct, %d runs rejected; %s" % (total, len(seen), bad, tot))


def adds(c, n, k):
    """Additions from several of the user's threads to one element."""
    rng = c.rng("a")
    specs = []
    for i in range(n):
        r = random.Random(rng.random())
        p = PR.Gen(r, dict(nd=[2, 1, 3][i % 3], nv=2, rad=1, misc=i % 2)).gen("add%d" % i)
        specs.append((p, [variant(r, p, 0)]))
    ex = X.Exp(c)
    jobs = []
    for p, exes in ex.build(specs):
        for exe, kw in exes:
            for _ in range(k):
                r = random.Random(rng.random())
                z = [r.randint(4, 7) for _ in p.dd]
                st = R.Setting({}, [], {"OMP_NUM_THREADS": "2"})
                h, exp = [], []
                vs = [v["nm"] for v in p.vars if not v["scr"]]
                h += [("setall", v, r.randint(1, 9)) for v in vs]
                lines = R.script(p, z, h, st).rstrip("\n").split("\n")
                tail = [lines.pop()] if lines[-1] == "end" else []
                for _ in range(6):
                    v = r.choice(vs)
                    ix = X.rand_index(p, v, r, z)
                    ixs = " ".join(str(q) for q in ix)
                    nt, reps, val = r.choice([2, 3, 4]), r.choice([3, 20, 60]), r.choice([1, 2, -3, 5])
                    lines += ["get own %s %s" % (v, ixs), "paradd %s %d %d %d %s" % (v, nt, reps, val, ixs), "get own %s %s" % (v, ixs)]
                    exp.append((nt * reps, val))
                jobs.append((p, exe, kw, "\n".join(lines + tail) + "\n", exp))
    with R.Scratch() as sd:
        with cf.ThreadPoolExecutor(4) as pool:
            outs = list(pool.map(lambda a: R.exec_script(a[1][1], a[1][3], sd, "a%d" % a[0], 1, {}, 60), enumerate(jobs)))
        cases, keep = [], []
        for j, (rc, evs, err) in zip(jobs, outs):
            rp = dict(sx=j[0].sx(), variant=j[2], script=j[3], nranks=1, env={})
            es = evs[0] if evs else []
            pa = [i for i, e in enumerate(es) if e["op"] == "paradd"]
            if rc or len(pa) != len(j[4]) or any("exc" in es[q] for i in pa for q in (i - 1, i, i + 1)):
                c.violation("concurrent add_to_element calls fail (exit code %d): %s" % (rc, err[-300:]), rp)
                continue
            ev = []
            for i, (m, val) in zip(pa, j[4]):
                ev.append(dict(op="add", before=es[i - 1]["val"], after=es[i + 1]["val"], n=es[i]["n"], adds=m, val=val))
            cases.append(dict(ev=ev))
            keep.append(rp)
        res, tot = R.validate_cases("YaskThreadsTrace", cases, sd, lambda x: 0, lambda x: len(x["ev"]))
    bad = 0
    for x, rp, (ok, a, b) in zip(cases, keep, res):
        if not ok:
            bad += 1
            if bad <= 5:
                c.violation("concurrent additions are lost: %s [%s]" % (x["ev"][a] if a < len(x["ev"]) else {}, x.get("tlc", "")[-200:]), rp)
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.log("%d histories of concurrent additions, %d rejected" % (len(cases), bad))


def models(c, cfgs):
    with R.Scratch() as sd:
        for f in cfgs:
            rc, out = R.tlc_batch("YaskThreadsMC.tla", f + ".cfg", {}, sd, "m", 600)
            s, t = R.tlc_stats(out)
            # a phase with a race must have another outcome in some schedule
            if (rc == 0) == f.endswith("race"):
                raise RuntimeError("YaskThreadsMC %s: unexpected result %d: %s" % (f, rc, out[-800:]))
            c.add(states=s, transitions=t)


def campaign(c, n, k, nv, kv, na, ka, cfgs):
    models(c, cfgs)
    values(c, n, k)
    VR.campaign(c, nv, 1, kv, 8, .4, wild=.1, sched=True)
    adds(c, na, ka)
