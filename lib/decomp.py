"""C06: how the ranks share the domain. Histories of setters (API scalar and
vector forms, options; on all ranks or on one), preparations and queries are
run on the kernel; the merged history of all ranks is validated against
YaskDecomp. Histories come from a random generator and, for small
configurations, from TLC's enumeration of YaskDecompMC's states."""
import concurrent.futures as cf
import json
import random
import re

import build as B
import explore as X
import prog as PR
import run as R


def program(rng, name, nd, stages):
    """One- or two-stage program with exactly known halos."""
    dd = ["x", "y", "z"][:nd]
    p = PR.Prog(name, dd, [], 1)
    hal = {d: rng.choice([0, 1, 1, 2, 3]) for d in dd}
    p.var("A", ["t"] + dd)
    p.var("C", [d for d in dd if rng.random() < .7] or dd[:1])
    cd = p.V("C")["dims"]

    def at(v, ds, t, d=None, k=0):
        return ["v", v, ([t] if ds and ds[0] == "t" else []) + [k if e == d else 0 for e in ds if e != "t"]]
    # the widest read in each dim is on one side only, sometimes of C
    ts = [at("A", ["t"] + dd, 0), at("C", cd, 0)]
    for d in dd:
        if hal[d]:
            s = rng.choice([1, -1])
            if d in cd and rng.random() < .3:
                ts.append(at("C", cd, 0, d, s * hal[d]))
            else:
                ts.append(at("A", ["t"] + dd, 0, d, s * hal[d]))
            if rng.random() < .5:
                ts.append(at("A", ["t"] + dd, 0, d, -s * rng.randint(0, hal[d])))
    if stages == 2:
        p.var("D", ["t"] + dd)
        p.eq("A", [], ["+"] + ts)
        p.eq("D", [], ["+", at("A", ["t"] + dd, 1, dd[0], rng.choice([0, hal[dd[0]]])), at("D", ["t"] + dd, 0)])
    else:
        p.eq("A", [], ["+"] + ts)
    return p, [hal[d] for d in dd]


class Hist:
    """Script lines and, for each, what the line means to the specification."""
    def __init__(self, dd, n):
        self.dd, self.n, self.lines, self.mean = dd, n, [], []

    def raw(self, ln, mean=None):
        self.lines.append(ln)
        self.mean.append(mean)

    def set(self, rng, k, vals, dims=None, rank=None, how=None):
        """Sets field k of dims (names) on one rank or on all, in one of the ways there are."""
        dims = dims or self.dd
        cmd = {"gs": "osize", "rs": "rsize", "nr": "nr", "ri": "ri"}[k]
        opt = {"gs": "g", "rs": "l", "nr": "nr", "ri": "ri"}[k]
        at = "" if rank is None else "@%d " % rank
        how = how or rng.choice(["api", "api", "vec", "opt"])
        if how == "vec" and list(dims) == self.dd:
            self.raw("%s%sv %s" % (at, cmd, " ".join(map(str, vals))), ("set", k, 0, list(vals), "api", rank))
        elif how == "opt" and all(v >= 0 for v in vals):
            if list(dims) == self.dd and len(set(vals)) == 1 and rng.random() < .7:
                self.raw("%sopts -%s %d" % (at, opt, vals[0]), ("set", k, 0, list(vals), "opt", rank))
            else:
                for d, v in zip(dims, vals):
                    self.raw("%sopts -%s%s %d" % (at, opt, d, v), ("set", k, self.dd.index(d) + 1, [v], "opt", rank))
        else:
            z = list(zip(dims, vals))
            rng.shuffle(z)
            for d, v in z:
                self.raw("%s%s %s %d" % (at, cmd, d, v), ("set", k, self.dd.index(d) + 1, [v], "api", rank))

    def bad(self, rng):
        cmd = rng.choice(["osize", "rsize", "nr", "ri"])
        ln = rng.choice(["%s %s 3" % (cmd, rng.choice(["t", "q", "xx"])),
                         "%sv %s" % (cmd, " ".join(["2"] * rng.choice([k for k in range(0, 5) if k != len(self.dd)])))])
        self.raw(ln, ("badset", None))

    def prep(self, wf):
        self.raw("prep", ("prep",))
        self.raw("geom x", ("geom",))
        self.raw("vinfo A", ("vinfo",))
        self.raw("vinfo C", ("vinfo",))

    def geom(self):
        self.raw("geom", ("geom",))


def uneven(rng, k, lo, hi, m):
    """k sizes; most of them multiples of m."""
    return [max(1, rng.randint(lo, hi) // m * m if rng.random() < .5 else rng.randint(lo, hi)) for _ in range(k)]


def make(rng, dd, n, hal, fold, wf, stages):
    """One random history."""
    h = Hist(dd, n)
    if wf:
        h.raw("opts -Mbt %d" % wf)
    least = {d: hal[i] + (-(-hal[i] // fold.get(d, 1)) * fold.get(d, 1) * (stages * wf - 1) if wf else 0) for i, d in enumerate(dd)}
    rounds = rng.choice([1, 1, 1, 2, 3])
    err = rng.random() < .45
    for rd in range(rounds):
        last = rd == rounds - 1
        lay = rng.choice(R.layouts(n, dd))
        lim = lambda d: max(1, least[d])
        ri = None
        ops = []
        # rank indices
        coords = []
        for r in range(n):
            c, q = [], r
            for d in dd:
                c.append(q % lay[d])
                q //= lay[d]
            coords.append(c)
        explicit = rng.random() < .35 or (rd > 0 and "ri" in [m[1] for m in h.mean if m and m[0] == "set"])
        if explicit:
            rng.shuffle(coords)
            bad = err and last and rng.random() < .4
            who = list(range(n))
            if bad:
                e = rng.choice(["out", "dup", "some", "neg"])
                r0 = rng.randrange(n)
                if e == "out":
                    coords[r0] = [c + (lay[d] if i == 0 else 0) for i, (c, d) in enumerate(zip(coords[r0], dd))]
                elif e == "neg":
                    coords[r0] = [-1] + coords[r0][1:]
                elif e == "dup" and n > 1:
                    coords[r0] = coords[(r0 + 1) % n]
                elif e == "some":
                    who = who[1:]
            for r in who:
                ops.append(lambda r=r: h.set(rng, "ri", coords[r], rank=r))
        # grid
        nrv = [lay[d] for d in dd]
        g = rng.random()
        if err and last and rng.random() < .25:
            nrv[rng.randrange(len(dd))] += rng.choice([1, 1, 2, -1])
            nrv = [max(0, v) for v in nrv]
            g = 1
        given = explicit and rng.random() < .8 or g > .35
        if rd > 0:
            given = True
        if given:
            part = dd if g > .5 or explicit else rng.sample(dd, rng.randint(1, len(dd)))
            if rd > 0:
                part = dd
            ops.append(lambda: h.set(rng, "nr", [nrv[dd.index(d)] for d in dd if d in part], [d for d in dd if d in part]))
            if err and last and n > 1 and rng.random() < .1:
                ops.append(lambda: h.set(rng, "nr", [nrv[0] + 1], [dd[0]], rank=rng.randrange(n)))
        # sizes
        for i, d in enumerate(dd):
            f = fold.get(d, 1)
            m = rng.choice(["g", "g", "l", "l", "b"])
            tot = None
            if m in "lb":
                if rng.random() < .5:
                    sz = [rng.randint(lim(d), lim(d) + 9)] * lay[d]
                else:
                    sz = uneven(rng, lay[d], lim(d), lim(d) + 9, f)
                if err and last and rng.random() < .15:
                    sz[rng.randrange(lay[d])] = max(0, lim(d) - 1)
                rsz = [sz[coords[r][i] % lay[d]] for r in range(n)]
                if err and last and rng.random() < .15:
                    rsz[rng.randrange(n)] += rng.choice([1, -1, -rsz[0]])
                    rsz = [max(0, v) for v in rsz]
                if len(set(rsz)) == 1 and rng.random() < .8:
                    ops.append(lambda d=d, v=rsz[0]: h.set(rng, "rs", [v], [d]))
                else:
                    for r in range(n):
                        ops.append(lambda d=d, v=rsz[r], r=r: h.set(rng, "rs", [v], [d], rank=r))
                tot = sum(sz)
                if m == "l":
                    if rd > 0 or rng.random() < .1:
                        ops.append(lambda d=d: h.set(rng, "gs", [0], [d]))
            if m in "gb":
                lo = lim(d)
                v = tot if tot and rng.random() < (.6 if err else 1) else (lay[d] - 1) * (-(-lo // f) * f) + rng.randint(lo, lo + 6 * lay[d])
                if err and last and rng.random() < .2:
                    v = rng.randint(0, max(1, lay[d] * lo))
                ops.append(lambda d=d, v=v: h.set(rng, "gs", [v], [d]))
                if err and last and n > 1 and rng.random() < .06:
                    ops.append(lambda d=d, v=v: h.set(rng, "gs", [v + 1], [d], rank=rng.randrange(n)))
                if m == "g" and (rd > 0 or rng.random() < .1):
                    ops.append(lambda d=d: h.set(rng, "rs", [0], [d]))
        rng.shuffle(ops)
        for o in ops:
            if rng.random() < .08:
                h.geom()
            if rng.random() < .05:
                h.bad(rng)
            o()
        if rd > 0 and rng.random() < .15:     # set back something else first
            h.geom()
        h.geom()
        h.prep(wf)
        if not last:
            h.raw("end", ("end",))
    return h


def from_state(st, dd, rng):
    """A history that leads to a state of the specification."""
    n = len(st)
    h = Hist(dd, n)
    ops = []
    for k in ("gs", "nr", "rs", "ri"):
        if k == "ri" and st[0]["loc"]:
            continue
        for r in range(n):
            ops.append((k, r))
    rng.shuffle(ops)
    same = {k: all(st[r][k] == st[0][k] for r in range(n)) for k in ("gs", "nr", "rs", "ri")}
    seen = set()
    for k, r in ops:
        if k == "ri" and st[r]["loc"]:
            continue
        if same[k] and not (k == "ri" and any(s["loc"] for s in st)):
            if k not in seen:
                seen.add(k)
                if any(st[0][k]) or k == "ri":
                    h.set(rng, k, st[0][k])
        elif any(st[r][k]) or k == "ri":
            h.set(rng, k, st[r][k], rank=r)
    h.geom()
    h.prep(0)
    return h


def merge(h, evs, dd):
    """The global history, or the reason why there is none. (events, lines)"""
    out, n = [], h.n
    ends = [len(e) for e in evs]
    per = [{e["l"]: e for e in es if "l" in e} for es in evs]
    pend = None
    for ln, (txt, mean) in enumerate(zip(h.lines, h.mean), 1):
        es = [p.get(ln) for p in per]
        if any(e and "err" in e for e in es):
            return None, "%s: %s" % (txt, [e["err"] for e in es if e and "err" in e][0])
        if mean and mean[0] == "prep":
            ex = [e for e in es if e and "exc" in e]
            if ex:
                out.append((dict(op="prep", ok=0), txt))
                return out, None
        if any(e is None for e in es):
            return None, "no answer to line %d (%s)" % (ln, txt)
        if mean is None:
            if any("exc" in e for e in es):
                return None, "%s: refused" % txt
            continue
        k = mean[0]
        exr = [r + 1 for r in range(n) if "exc" in es[r]]
        if k == "set":
            _, f, i, v, how, rank = mean
            out.append((dict(op="set", w=[rank + 1] if rank is not None else list(range(1, n + 1)), k=f, i=i, v=v, how=how, ex=exr), txt))
        elif k == "badset":
            out.append((dict(op="badset", w=list(range(1, n + 1)), ex=exr), txt))
        elif k == "end":
            if exr:
                return None, "end: refused"
            out.append((dict(op="end"), txt))
        elif k == "prep":
            out.append((dict(op="prep", ok=1), txt))
        elif k == "geom":
            if exr:
                return None, "%s: refused" % txt
            o = []
            for e in es:
                x = 1 if "frd" in e else 0
                o.append(dict(osz=e["osz"], rsz=e["rsz"], nr=e["nr"], ri=e["ri"], x=x, frd=e.get("frd", []), lrd=e.get("lrd", []), vs=[]))
            ev = dict(op="geom", o=o)
            out.append((ev, txt))
            pend = ev
        elif k == "vinfo":
            for r, e in enumerate(es):
                for d, a in e.get("dom", {}).items():
                    pend["o"][r]["vs"].append([dd.index(d) + 1, a[0], a[1], a[2]])
                    # the reported allocation must hold the domain and the halos
                    if not (a[11] <= a[5] and a[6] <= a[12] and a[13] == a[12] - a[11] + 1 and a[5] == a[1] - a[3] and a[6] == a[2] + a[4]):
                        return None, "%s: inconsistent geometry %s in %s" % (txt, a, d)
    return out, None


def model_states(sd, quick):
    """States of YaskDecompMC before a preparation, with whether it can succeed."""
    rc, out = R.tlc_batch("YaskDecompGen.tla", "YaskDecompGen.cfg", {}, sd, "gen", 400, extra=())
    sts = []
    for m in re.finditer(r'<<"ST", "(.*)", (TRUE|FALSE)>>', out):
        sts.append((json.loads(m.group(1).replace('\\"', '"')), m.group(2) == "TRUE"))
    if not sts:
        raise RuntimeError("no states from TLC: " + out[-1500:])
    g, d = R.tlc_stats(out)
    return sts, g, d


def campaign(c, nprog, nrun, nmodel, mc=True):
    rng = c.rng("d")
    progs = []
    for i in range(nprog):
        r = random.Random(rng.random())
        nd, stg = [2, 3, 1, 2][i % 4], [1, 2, 1, 1][i % 4]
        p, hal = program(r, "dec%d" % i, nd, stg)
        eb = r.choice([4, 8])
        progs.append((p, [dict(copts=X.rand_fold(r, p.dd, 32 // eb), elem_bytes=eb, target="avx2")], hal, stg))
    # The small configuration that TLC enumerates: fold x=2, halo 1 in both dims.
    pm = PR.Prog("decm", ["x", "y"], [], 1)
    pm.var("A", ["t", "x", "y"])
    pm.var("C", ["y", "x"])
    pm.eq("A", [], ["+", ["v", "A", [0, 1, 0]], ["v", "A", [0, 0, -1]], ["v", "C", [0, 0]]])
    progs.append((pm, [dict(copts=["-fold", "x=2"], elem_bytes=8, target="intel64")], [1, 1], 1))
    with R.Scratch() as sd, cf.ThreadPoolExecutor(2) as bg:
        gen = bg.submit(model_states, sd, c.quick)
        mcs = [bg.submit(R.tlc_batch, "YaskDecompMC.tla", f, {}, sd, f, 600) for f in
               (["YaskDecompMC.cfg"] if c.quick else ["YaskDecompMC.cfg", "YaskDecompMC4.cfg"])]
        ex = X.Exp(c)
        built = list(ex.build([(p, kws) for p, kws, _, _ in progs]))
        jobs = []
        for (p, exes), (_, _, hal, stg) in zip(built, progs):
            exe, kw = exes[0]
            fold = X.parse_fold(kw["copts"])
            if p.name == "decm":
                sts, g, d = gen.result()
                c.add(states=d, transitions=g)
                for okv in (True, False):
                    cand = [s for s, o in sts if o == okv]
                    rng.shuffle(cand)
                    for st in cand[:nmodel]:
                        jobs.append((p, exe, kw, hal, stg, fold, 0, from_state(st, p.dd, rng)))
                continue
            for i in range(nrun):
                n = rng.choice([1, 2, 2, 3, 4, 4, 6, 8])
                wf = rng.choice([0, 0, 0, 0, 1, 2])
                jobs.append((p, exe, kw, hal, stg, fold, wf, make(random.Random(rng.random()), p.dd, n, hal, fold, wf, stg)))

        def go(a):
            i, (p, exe, kw, hal, stg, fold, wf, h) = a
            return R.exec_script(exe, "soln 0\n" + "\n".join(h.lines) + "\n", sd, "d%d" % i, h.n, {}, 20)
        with cf.ThreadPoolExecutor(B.JOBS * 2) as exr:
            outs = list(exr.map(go, enumerate(jobs)))
        cases, nv = [], 0
        for (p, exe, kw, hal, stg, fold, wf, h), (rc, evs, err) in zip(jobs, outs):
            for es in evs:
                for e in es:
                    if "l" in e:
                        e["l"] -= 1     # for the "soln" line
            m, why = merge(h, evs, p.dd)
            if m is None or (rc not in (0, 77) or (rc == 77) != (m[-1][0].get("ok") == 0)) and not (h.n == 1 and m and m[-1][0].get("ok") == 0):
                nv += 1
                if nv <= 5:
                    c.violation("%s %s on %d ranks: %s (exit code %d: %s)" % (p.name, kw, h.n, why, rc, err[-200:]),
                                dict(sx=p.sx(), variant=kw, script="soln 0\n" + "\n".join(h.lines) + "\n", nranks=h.n))
                continue
            P = dict(n=h.n, d=len(p.dd), fold=[fold.get(d, 1) for d in p.dd], hal=hal, wf=wf, stages=stg)
            cases.append((dict(P=P, ev=[e for e, _ in m]), [t for _, t in m], p, kw, h))
        okp = sum(1 for x in cases for e in x[0]["ev"] if e.get("ok") == 1)
        c.log("%d runs, %d preparations succeeded, %d were refused" % (len(jobs), okp, sum(1 for x in cases for e in x[0]["ev"] if e.get("ok") == 0)))
        res, tot = R.validate_cases("YaskDecompTrace", [x[0] for x in cases], sd, lambda x: 0, lambda x: 3 + len(x["ev"]) * x["P"]["n"] ** 2)
        for f in mcs:
            rc, out = f.result()
            if "No error has been found" not in out:
                raise RuntimeError("model checking of YaskDecompMC failed: " + out[-1500:])
            g, d = R.tlc_stats(out)
            c.add(states=d, transitions=g)
    for (x, ls, p, kw, h), (ok, a, b) in zip(cases, res):
        if not ok:
            nv += 1
            if nv <= 5:
                e = x["ev"][a] if 0 <= a < len(x["ev"]) else {}
                c.violation("%s %s on %d ranks: step %d (%s) is not allowed by the specification: %s [%s]" % (
                    p.name, kw, h.n, a + 1, ls[a] if 0 <= a < len(ls) else "", json.dumps(e), x.get("tlc", "")[-300:]),
                    dict(sx=p.sx(), variant=kw, script="soln 0\n" + "\n".join(h.lines) + "\n", nranks=h.n, P=x["P"], event=a))
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.cov["samples"] = [dict(program=j[0].sx(), ranks=j[7].n, script=j[7].lines) for j in jobs[:: max(1, len(jobs) // 4)][:4]]
    c.log("%d histories rejected; %s" % (nv, tot))
