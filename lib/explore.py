"""Engine used by the trace-based checks: random programs, built from the
working tree in several variants, run under many settings; every distinct
canonical history is validated by TLC against spec/YaskTrace.tla."""
import concurrent.futures as cf
import json
import random

import build as B
import prog as PR
import run as R


def maxhalo(p):
    """Upper bound, per domain dim, of how far the program reads (through scratch vars too)."""
    memo = {}

    def reach(e, off):
        """max |offset| per dim over all reads in e evaluated at offset bound off."""
        if e is None:
            return {}
        if e[0] == "v":
            V = p.V(e[1])
            o = dict(off)
            for d, i in zip(V["dims"], e[2]):
                if d in p.dd:
                    o[d] = o.get(d, 0) + abs(i)
            r = dict(o)
            if V["scr"]:
                for q in p.eqs:
                    if q["v"] == e[1]:
                        for k, x in reach(q["rhs"], o).items():
                            r[k] = max(r.get(k, 0), x)
            return r
        r = {}
        for x in e[1:]:
            if isinstance(x, list):
                for k, y in reach(x, off).items():
                    r[k] = max(r.get(k, 0), y)
        return r
    m = {d: 0 for d in p.dd}
    for q in p.eqs:
        if not p.V(q["v"])["scr"]:
            for k, x in reach(q["rhs"], {}).items():
                m[k] = max(m[k], x)
    # Scratch equations may be evaluated together, over the widest halo any needs: be generous.
    if any(v["scr"] for v in p.vars):
        so = {d: 0 for d in p.dd}      # sum over scratch variables of the widest offset of a read of it
        ro = {d: 0 for d in p.dd}      # widest offset of any read
        w = {}

        def scan(e):
            if e is None:
                return
            if e[0] == "v":
                V = p.V(e[1])
                for d, i in zip(V["dims"], e[2]):
                    if d in p.dd:
                        ro[d] = max(ro[d], abs(i))
                        if V["scr"]:
                            w[(e[1], d)] = max(w.get((e[1], d), 0), abs(i))
            for x in e[1:]:
                if isinstance(x, list) and x and isinstance(x[0], str):
                    scan(x)
        for q in p.eqs:
            for f in ("rhs", "cond", "sc"):
                scan(q[f])
        for (v, d), x in w.items():
            so[d] += x
        for d in p.dd:
            m[d] = max(m[d], so[d] + ro[d])
    return m


def nstages(p):
    return max(1, len({(q["v"], tuple(q["ms"])) for q in p.eqs if not p.V(q["v"])["scr"]}))


def parse_fold(copts):
    f = {}
    for i, o in enumerate(copts):
        if o == "-fold":
            for kv in copts[i + 1].split(","):
                k, v = kv.split("=")
                f[k] = int(v)
    return f


def rand_fold(rng, dd, vlen):
    """A random vector fold of vlen elements over the domain dims."""
    f = {}
    rest = vlen
    ds = list(dd)
    while rest > 1:
        d = rng.choice(ds)
        f[d] = f.get(d, 1) * 2
        rest //= 2
    n = 1
    for v in f.values():
        n *= v
    assert n == vlen
    return ["-fold", ",".join("%s=%d" % kv for kv in sorted(f.items()))]


def std_hist(p, rng, nsteps=3, start=None):
    """Fill everything, run, look; run again, look."""
    vs = [v["nm"] for v in p.vars if not v["scr"]]
    d = p.dir
    s = 0 if start is None else start
    k = rng.randint(1, nsteps)
    h = [("fill", v, rng.randint(1, 99)) for v in vs]
    h += [("run", s, s + d * (k - 1))]
    if k < nsteps:
        h += [("dump", v) for v in vs if "t" in p.V(v)["dims"]]
        h += [("run", s + d * k, s + d * (nsteps - 1))]
    h += [("win", v) for v in vs if "t" in p.V(v)["dims"]]
    h += [("dump", v) for v in vs]
    return h


def misc_range(p, nm, k):
    """Values of the misc index at position k of var nm that the program uses."""
    got = set()

    def scan(e):
        if e is None:
            return
        if e[0] == "v" and e[1] == nm:
            got.add(e[2][k])
        for x in e[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                scan(x)
    for q in p.eqs:
        if q["v"] == nm:
            got.add(p.lhs_idx(q)[k])
        for f in ("rhs", "cond", "sc"):
            scan(q[f])
    return min(got or [0]), max(got or [0])


def rand_index(p, nm, rng, dsz, steps=("F", "L")):
    V, ix = p.V(nm), []
    for k, d in enumerate(V["dims"]):
        if d == p.step:
            ix.append(rng.choice(steps))
        elif d in p.dd:
            n = dsz[p.dd.index(d)]
            ix.append(rng.choice([0, n - 1, rng.randint(0, n - 1), rng.randint(0, n - 1), n // 2, n // 2 - 1, (n + 1) // 2]))
        else:
            ix.append(rng.randint(*misc_range(p, nm, k)))
    return ix


def api_hist(p, rng, dsz, nops=10, nruns=4, xchg=True, dumps=0.25):
    """Random interleaving of runs with host reads and writes at valid places."""
    vs = [v["nm"] for v in p.vars if not v["scr"]]
    live = [v for v in vs if not (v.startswith("R") and v not in used_vars(p))] or vs
    d = p.dir
    s = 0
    h = [("fill", v, rng.randint(1, 99)) for v in vs]
    acts = ["run"] * nruns + [rng.choice(["set", "set", "add", "setsl", "setsl", "slsame", "slsame", "setall", "get", "dump", "fill"] + (["xchg"] if xchg else []))
                              for _ in range(nops)]
    rng.shuffle(acts)
    for a in acts:
        v = rng.choice(live)
        if a == "run":
            k = rng.choice([1, 1, 2, 3])
            h.append(("run", s, s + d * (k - 1)))
            s += d * k
            if rng.random() < dumps:
                h.append(("dump", rng.choice(vs)))
        elif a == "set":
            h.append(("set", v, rng.randint(-90, 90), rand_index(p, v, rng, dsz)))
        elif a == "add":
            h.append(("add", v, rng.randint(-9, 9), rand_index(p, v, rng, dsz)))
        elif a == "get":
            h.append(("get", v, rand_index(p, v, rng, dsz)))
        elif a == "fill":
            h.append(("fill", v, rng.randint(1, 99)))
        elif a in ("setsl", "slsame"):
            f, z = rand_index(p, v, rng, dsz), rand_index(p, v, rng, dsz)
            for k in range(len(f)):
                if isinstance(f[k], str):
                    if f[k] != z[k]:
                        f[k], z[k] = "F", "L"
                else:
                    f[k], z[k] = min(f[k], z[k]), max(f[k], z[k])
            h.append((a, v, rng.randint(1, 99), f, z))
        elif a == "setall":
            h.append(("setall", v, rng.randint(-50, 50)))
        elif a == "dump":
            h.append(("dump", v))
        else:
            h.append(("xchg",))
            h += [("faces", w) for w in vs]
    k = rng.choice([1, 2])
    h.append(("run", s, s + d * (k - 1)))
    h += [("win", v) for v in vs if "t" in p.V(v)["dims"]]
    h += [("dump", v) for v in vs]
    return h


def used_vars(p):
    got = set()

    def scan(e):
        if e is None:
            return
        if e[0] == "v":
            got.add(e[1])
        for x in e[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                scan(x)
    for q in p.eqs:
        got.add(q["v"])
        for f in ("rhs", "cond", "sc"):
            scan(q[f])
    return got


def step_need(p):
    """Number of steps that any variable of p must hold: the range of step offsets used."""
    m = 0

    def scan(e):
        nonlocal m
        if e is None:
            return
        if e[0] == "v":
            for d, i in zip(p.V(e[1])["dims"], e[2]):
                if d == p.step:
                    m = max(m, abs(i - p.dir))
        for x in e[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str):
                scan(x)
    for q in p.eqs:
        for f in ("rhs", "cond", "sc"):
            scan(q[f])
    return m + 1


class Exp:
    """One exploration.  groups: list of dict(p, exes=[(path, kw)], dsz, hist)."""

    def __init__(self, c):
        self.c = c
        self.jobs = []
        self.refused = 0
        self.sources = {}

    def build(self, specs):
        """specs: list of (prog, [kw...]). Returns list of (prog, [(exe, kw)...])."""
        flat = []
        for p, kws in specs:
            sx = p.sx()
            for kw in kws:
                flat.append(dict(kw, sx_text=sx))
        res = B.kernels(flat)
        out, i = [], 0
        for p, kws in specs:
            ok = []
            for kw in kws:
                r = res[i]
                i += 1
                if isinstance(r, str):
                    ok.append((r, kw))
                else:
                    what = "a legal program is rejected or miscompiled: %s %s: %s" % (p.name, kw, str(r)[-400:])
                    self.c.violation(what, dict(sx=p.sx(), variant=kw, error=str(r)))
            out.append((p, ok))
        self.c.log("built %d variants" % len([r for r in res if isinstance(r, str)]))
        self.c.notes["programs"] = self.c.notes.get("programs", 0) + len(specs)
        self.c.notes["variants_built"] = self.c.notes.get("variants_built", 0) + len(flat)
        return out

    def add(self, p, exe, kw, dsz, hist, st):
        self.jobs.append((p, exe, kw, dsz, hist, st))

    def run(self, timeout=150, nproc=None, tlc_timeout=600, key=None):
        """Execute all jobs, validate distinct histories. Returns list of results per distinct case."""
        c = self.c
        nproc = nproc or B.JOBS
        with R.Scratch() as sd:
            def go(a):
                i, (p, exe, kw, dsz, hist, st) = a
                for attempt in (0, 1):
                    rc, evs, err = R.exec_script(exe, R.script(p, dsz, hist, st), sd, "j%d_%d" % (i, attempt), st.n(), st.env, timeout)
                    if rc != 124:
                        break           # a time-out may be the machine's fault: once more
                g, ev = R.merge(p, dsz, hist, evs)
                if rc and not (ev and ev[-1]["op"] == "bad"):
                    ev.append(dict(op="bad", why="exit code %d: %s" % (rc, err)))
                elif rc:
                    ev[-1]["why"] += " [exit code %d: %s]" % (rc, err[-300:])
                return g, ev
            with cf.ThreadPoolExecutor(nproc) as ex:
                outs = list(ex.map(go, enumerate(self.jobs)))
            c.log("%d runs" % len(self.jobs))
            cases, order = {}, []
            nbad = 0
            for j, (g, ev) in zip(self.jobs, outs):
                p, exe, kw, dsz, hist, st = j
                bad = [x for x in ev if x["op"] == "bad"]
                if bad:
                    w = bad[0]["why"]
                    if "minimum size" in w and not st.must_accept:
                        self.refused += 1
                        continue
                    nbad += 1
                    if nbad <= 5:
                        self.report(j, ev, len(ev) - 1, w, key)
                    continue
                P = p.tla(dsz, g)
                k = json.dumps([P, ev])
                if k not in cases:
                    cases[k] = (dict(P=P, ev=ev), [])
                    order.append(k)
                cases[k][1].append(j)
            cl = [cases[k] for k in order]
            res, tot = R.validate([x[0] for x in cl], sd, nproc, tlc_timeout)
            nv = 0
            for (cs, js), (ok, a, b) in zip(cl, res):
                if not ok:
                    nv += 1
                    if nv <= 5:
                        e = cs["ev"][a] if 0 <= a < len(cs["ev"]) else None
                        w = "history not allowed by the specification: event %d of %d %s" % (
                            a + 1, b, {k: v for k, v in e.items() if k != "vals"} if e else cs.get("tlc", "storage is too small")[-300:])
                        self.report(js[0], cs["ev"], a, w, key, len(js))
        c.add(states=tot["states"], transitions=tot["transitions"],
              traces_validated_against_impl=len(self.jobs) - self.refused - nbad)
        c.notes["distinct_histories"] = c.notes.get("distinct_histories", 0) + len(cl)
        c.notes["runs_refused"] = c.notes.get("runs_refused", 0) + self.refused
        if isinstance(c.cov.get("samples"), int):
            c.cov["samples"] = []
        for j in self.jobs[:: max(1, len(self.jobs) // 3)][:3]:
            c.cov["samples"].append(dict(program=j[0].sx(), variant=j[2], size=j[3], history=[list(h)[:4] for h in j[4]], setting=repr(j[5])))
        c.log("%d distinct histories, %d rejected, %d bad runs, %d refused; %s" % (len(cl), nv, nbad, self.refused, tot))
        self.jobs = []
        return cl, res

    def report(self, j, ev, at, why, key, n=1):
        p, exe, kw, dsz, hist, st = j
        self.c.violation("%s %s size %s, %s: %s (%d run(s))" % (p.name, kw, dsz, st, why, n),
                         dict(sx=p.sx(), variant=kw, size=dsz, history=hist, setting=repr(st), nranks=st.n(), env=st.env,
                              script=R.script(p, dsz, hist, st), event=at, why=why, events=ev[max(0, at - 1):at + 1],
                              P=p.tla(dsz, {})), key(j, ev) if key else None)


def rand_loops(r, dd, temporal=False):
    """Random paths of the loops that scan tiles (RANK_LOOP_MODS, RANK_LOOP_ORDER, ... of src/kernel/Makefile).

    temporal: only paths that may be used with temporal tiling."""
    import build as B
    out = {}
    for n, fl, code in B.LOOPS:
        if n == "misc" or r.random() < .25:
            continue
        od = list(range(1, len(dd) + 1))
        if r.random() < .5:
            r.shuffle(od)
        mods = ["", "nested"]
        if not temporal or n == "nano_block":
            mods += ["serpentine", "square_wave", "serpentine square_wave"]
        m = r.choice(mods)
        if n == "pico_block":
            # Its inner loop is one of its own.
            out[n] = (fl, m + " loop(PICO_BLOCK_OUTER_LOOP_DIMS) { loop(PICO_BLOCK_INNER_LOOP_DIM) { } }")
            continue
        out[n] = (fl, "%s %s loop(%s) { }" % (m, "omp" if n in ("mega_block", "micro_block") else "", ",".join(map(str, od))))
    return out



def rand_variant(r, p):
    """A random build: fold, element size, layout of variables in memory."""
    eb = r.choice([8, 8, 8, 4])
    o = rand_fold(r, p.dd, 32 // eb)
    if p.misc and r.random() < .25:
        o = o + ["-no-inner-misc-layout"]
    if r.random() < .15:
        o = o + ["-outer-domain-layout"]
    if r.random() < .2:
        o = o + ["-domain-dims", ",".join(r.sample(p.dd, len(p.dd)))]
    if r.random() < .1:
        o = o + ["-inner-loop-dim", r.choice(p.dd)]
    return dict(copts=o, elem_bytes=eb)
