"""Stencil programs as data: random generation, S-expression form (for the
YASK compiler driver) and JSON form (for the TLA+ interpreter YaskDSL)."""
import random

# Expression: ["c",k] ["v",name,[idx per var dim]] ["+",a,b,..] ["*",a,b,..] ["-",a,b] ["neg",a] ["abs",a]
#  ["min",a,b] ["max",a,b] ["i",dim] ["first",dim] ["last",dim] ["t"]
# idx: offset from the index for step and domain dims; the index itself for misc dims.

FNS = ("sqrt0", "sin0", "cos0", "exp0", "log1", "atan0", "erf0", "cbrt0")
SUBS = ("pow2", "fdiv") + FNS + ("+", "*", "-", "/", "%", "neg", "abs", "min", "max", "and", "or", "not", "==", "!=", "<", ">", "<=", ">=")


class Prog:
    def __init__(self, name, dd, misc=(), direction=1, step="t"):
        self.name, self.dd, self.misc, self.dir, self.step = name, list(dd), list(misc), direction, step
        self.vars = []      # dict(nm, scr, dims)
        self.eqs = []       # dict(v, ms(list), so, rhs, cond, sc)
        self.extra = []     # extra S-expression items, e.g. "(alloc A 3)"
        self.bounds = {}    # max |value| per var, for generation only.

    def var(self, nm, dims, scr=False):
        self.vars.append(dict(nm=nm, dims=list(dims), scr=scr))
        return nm

    def V(self, nm):
        return next(v for v in self.vars if v["nm"] == nm)

    def eq(self, v, ms, rhs, cond=None, sc=None, so=None):
        V = self.V(v)
        self.eqs.append(dict(v=v, ms=list(ms), so=(self.dir if so is None else so), rhs=rhs, cond=cond, sc=sc))

    def lhs_idx(self, e):
        V = self.V(e["v"])
        ms = list(e["ms"])
        r = []
        for d in V["dims"]:
            if d == self.step:
                r.append(e["so"])
            elif d in self.dd:
                r.append(0)
            else:
                r.append(ms.pop(0))
        return r

    # -- S-expression --
    def sx(self):
        o = ["(prog %s (step %s) (domain %s)" % (self.name, self.step, " ".join(self.dd))]
        if self.misc:
            o.append(" (misc %s)" % " ".join(self.misc))
        for v in self.vars:
            o.append(" (var %s %d %s)" % (v["nm"], v["scr"], " ".join(v["dims"])))
        for x in self.extra:
            if not x.startswith("(flow"):
                o.append(" " + x)
        for e in self.eqs:
            o.append(" (eq (%s %s) %s %s %s)" % (
                e["v"], " ".join(map(str, self.lhs_idx(e))), sx_expr(e["rhs"], self),
                sx_expr(e["cond"], self) if e["cond"] else "-", sx_expr(e["sc"], self) if e["sc"] else "-"))
        for x in self.extra:
            if x.startswith("(flow"):
                o.append(" " + x)
        o.append(")")
        return "\n".join(o) + "\n"

    # -- JSON for TLC --
    def tla(self, dsz, geo):
        """geo: {var: dict(al, lo{dim}, hi{dim})} as reported by the implementation
        (step allocation, halo extents around the global domain, misc range)."""
        names = [v["nm"] for v in self.vars]
        vs = []
        for v in self.vars:
            nd = [d for d in v["dims"] if d != self.step]
            g = geo.get(v["nm"], {})
            vs.append(dict(
                nm=v["nm"], scr=bool(v["scr"]), st=self.step in v["dims"],
                sp=v["dims"].index(self.step) + 1 if self.step in v["dims"] else 0,
                al=g.get("al", 1),
                dd=[self.dd.index(d) + 1 if d in self.dd else 0 for d in nd],
                lo=[g.get("lo", {}).get(d, 0) for d in nd], hi=[g.get("hi", {}).get(d, 0) for d in nd]))
        def ex(e):
            if e is None:
                return {"n": "none"}
            k = e[0]
            if k == "c":
                return {"n": "c", "x": int(e[1])}
            if k == "v":
                V = self.V(e[1])
                o, a = 0, []
                for d, i in zip(V["dims"], e[2]):
                    if d == self.step:
                        o = i
                    else:
                        a.append(i)
                return {"n": "v", "v": names.index(e[1]) + 1, "o": o, "a": a}
            if k in ("i", "first", "last"):
                return {"n": k, "d": self.dd.index(e[1]) + 1}
            if k == "t":
                return {"n": "t"}
            assert k in SUBS, k
            return {"n": k, "k": [ex(x) for x in e[1:]]}
        eqs = [dict(v=names.index(e["v"]) + 1, ms=e["ms"], rhs=ex(e["rhs"]), cond=ex(e["cond"]), sc=ex(e["sc"])) for e in self.eqs]
        return dict(dsz=list(dsz), dir=self.dir, vars=vs, eqs=eqs)


def sx_expr(e, p):
    k = e[0]
    if k == "c":
        return "(c %d)" % e[1]
    if k == "v":
        return "(v %s %s)" % (e[1], " ".join(map(str, e[2])))
    if k in ("i", "first", "last"):
        return "(%s %s)" % (k, e[1])
    if k == "t":
        return "(i %s)" % p.step
    return "(%s %s)" % (k, " ".join(sx_expr(x, p) for x in e[1:]))


# ---------------------------------------------------------------- generation

LIM = 1000          # every stored value stays within +-LIM


def fold_to(e, b, lim=LIM):
    """Fold e (|e| <= b) into +-lim by repeated reflection; exact and sensitive."""
    while b > lim:
        m = (b + 1) // 2
        e = ["-", ["abs", e], ["c", m]]
        b = max(m, b - m)
    return e, b


class Gen:
    """Random legal programs."""

    def __init__(self, rng, prof):
        self.r = rng
        self.f = prof

    def offs(self, V, p, rad, so, center=False):
        r = self.r
        idx = []
        for d in V["dims"]:
            if d == p.step:
                idx.append(so)
            elif d in p.dd:
                if center:
                    idx.append(0)
                else:
                    lo, hi = rad[d]
                    idx.append(r.choice([0, r.randint(-lo, hi), r.choice([-lo, hi])]))
            else:
                idx.append(r.choice(self.misc_vals[d]))
        return idx

    def gen(self, name):
        r, f = self.r, self.f
        nd = f.get("nd") or r.choice([1, 2, 2, 3])
        dd = ["x", "y", "z", "w"][:nd]
        if f.get("names"):
            dd = f["names"][:nd]
        nmisc = f.get("misc", 0)
        misc = ["a", "b"][:nmisc]
        p = Prog(name, dd, misc, f.get("dir", 1))
        p.halo = {}
        self.misc_vals = {d: [r.randint(-1, 2)] for d in misc}
        for d in misc:
            base = self.misc_vals[d][0]
            self.misc_vals[d] = [base, base + 1] + ([base + 2] if r.random() < 0.4 else [])
        maxr = f.get("rad", 2)
        def radii():
            m = {}
            for d in dd:
                m[d] = (r.randint(0, maxr), r.randint(0, maxr))
                if r.random() < 0.3:
                    m[d] = (0, r.randint(0, maxr)) if r.random() < 0.5 else (r.randint(0, maxr), 0)
            return m
        nv = f.get("nv") or r.randint(1, 3)
        ns = f.get("ns", 0)
        # read-only vars, possibly with fewer dims.
        ro = []
        for i in range(f.get("nro", r.randint(0, 2))):
            k = r.randint(0, nd) if f.get("ro_any", True) else nd
            ds = r.sample(dd, k)
            if r.random() < 0.7:
                ds = [d for d in dd if d in ds]
            ds = ds + (r.sample(misc, r.randint(0, len(misc))) if misc else [])
            if not ds and r.random() < 0.5:
                ds = [dd[0]]
            if r.random() < 0.15:
                ds = ["t"] + ds
            nm = "R%d" % i
            p.var(nm, ds)
            ro.append(nm)
            p.bounds[nm] = 100
        upd = []
        for i in range(nv):
            ds = list(dd)
            if f.get("perm") and r.random() < 0.5:
                r.shuffle(ds)
            vm = r.sample(misc, r.randint(0, len(misc))) if misc and r.random() < 0.6 else []
            for d in vm:
                ds.insert(r.randint(0, len(ds)), d)
            ds = ["t"] + ds
            nm = "ABCDEF"[i]
            p.var(nm, ds)
            upd.append(nm)
            p.bounds[nm] = LIM
        scr = []
        for i in range(ns):
            ds = list(dd)
            vm = r.sample(misc, 1) if misc and r.random() < 0.25 else []
            ds = r.sample(ds + vm, len(ds + vm))
            nm = "S%d" % i
            p.var(nm, ds, True)
            scr.append(nm)
        dirn = p.dir
        # how far back in time each var may be read
        back = {v: r.choice([0, 0, 0, 1, 1, 2] if f.get("back", True) else [0]) for v in upd}
        written = []       # (v, ms) already defined at the new step, in order.
        sdef = {}          # scratch (v, ms) -> (bound, defined)
        def term(rad, allow_scr, allow_new, center=False):
            """random read; returns (expr, bound)"""
            pool = []
            pool += [("old", v) for v in upd] * 3
            pool += [("ro", v) for v in ro]
            if allow_scr:
                pool += [("scr", k) for k in sdef] * 3
            if allow_new:
                pool += [("new", k) for k in written] * 3
            kind, v = r.choice(pool)
            if kind == "old":
                V = p.V(v)
                so = -dirn * r.randint(0, back[v])
                return ["v", v, self.offs(V, p, rad, so, center)], p.bounds[v]
            if kind == "ro":
                V = p.V(v)
                return ["v", v, self.offs(V, p, rad, 0, center)], p.bounds[v]
            nm, ms = v
            V = p.V(nm)
            idx = self.offs(V, p, rad, dirn, center)
            k = 0
            for i, d in enumerate(V["dims"]):
                if d in misc:
                    idx[i] = ms[k]
                    k += 1
            if kind == "new":
                return ["v", nm, idx], p.bounds[nm]
            return ["v", nm, idx], sdef[v]
        def combo(ls, k):
            """An n-ary sum or product of a random multiset of the leaves."""
            pick = [r.choice(ls) for _ in range(k)]
            b = 1
            for x in pick:
                b *= max(1, x[1])
            if b < 2000000 and f.get("mul", True) and r.random() < .4:
                return ["*"] + [x[0] for x in pick], b
            return ["+"] + [x[0] for x in pick], sum(x[1] for x in pick)
        def mutate(e):
            """A near-duplicate of e: something a lookup of repeated subexpressions could confuse with it."""
            if not isinstance(e, list) or e[0] in ("v", "t", "i", "last", "first", "%", "pow2", "fdiv"):
                return e
            if e[0] == "c":
                return ["c", e[1] + r.choice([0, 1, -1])]
            q = r.random()
            k = list(e[1:])
            if q < .35 and len(k) > 1:
                k[0], k[-1] = k[-1], k[0]
            elif q < .5 and e[0] == "+" and len(k) > 1:
                i, j = r.sample(range(len(k)), 2)
                k[i] = k[j]
            elif q < .6 and e[0] in ("min", "max"):
                return [{"min": "max", "max": "min"}[e[0]]] + k
            else:
                i = r.randrange(len(k))
                k[i] = mutate(k[i])
            return [e[0]] + k
        def clones(ls):
            """Pairs of expressions that are alike but not the same, each with its own weight."""
            if not ls:
                return []
            ls = ls[:3]
            out = []
            if r.random() < .6 and len(ls) > 1:
                k = r.randint(2, 4)
                op = r.random() < .35 and f.get("mul", True) and max(x[1] for x in ls[:2]) ** k < 400000
                two = r.sample(ls, 2)
                for _ in range(2):
                    pick = [r.choice(two) for _ in range(k)]
                    b = 1
                    for x in pick:
                        b *= max(1, x[1])
                    out.append((["*"] + [x[0] for x in pick], b) if op else
                               (["+"] + [x[0] for x in pick], sum(x[1] for x in pick)))
            else:
                e, b = combo(ls, r.randint(2, 3)) if r.random() < .5 else r.choice(ls)
                out = [(e, b), (mutate(e), 4 * b + 50 if e[0] != "*" else 4 * b * max(1, b) + 50)]
            w = r.choice([2, 3, -2])
            out = [out[0], (["*", ["c", w], out[1][0]], abs(w) * out[1][1])]
            return [fold_to(e, b) if b > LIM else (e, b) for e, b in out if b < 6000000]
        def expr(rad, allow_scr, allow_new, nt, center=False, must=()):
            acc, b = None, 0
            ts = []
            for m in must:
                ts.append(m)
            for i in range(nt - len(must)):
                ts.append(term(rad, allow_scr, allow_new, center))
            parts = []
            for e, eb in ts:
                q = r.random()
                if q < 0.25:
                    k = r.choice([2, 3, -2, -1])
                    e, eb = (["*", ["c", k], e] if r.random() < 0.5 else ["*", e, ["c", k]]), eb * abs(k)
                elif q < 0.30:
                    e, eb = ["neg", e], eb
                elif q < 0.36:
                    e, eb = ["+", e, ["c", r.randint(-50, 50)]], eb + 50
                elif q < 0.40 and f.get("idxval", True):
                    d = r.choice(dd)
                    e, eb = ["+", e, ["*", ["c", 3], ["i", d]]], eb + 300
                elif q < 0.415 and f.get("idxval", True):
                    d = r.choice(dd)
                    e, eb = ["+", e, ["*", ["c", 5], ["%", ["+", ["i", d], ["c", 12]], ["c", r.choice([2, 3, 4])]]]], eb + 15
                elif q < 0.43 and f.get("mod", True):
                    k = r.choice([2, 3, 7, 10])
                    e, eb = ["%", e, ["c", k]], k
                elif q < 0.455 and f.get("idx", True):
                    e, eb = ["+", e, ["*", ["c", 7], ["t"]]], eb + 140
                elif q < 0.485 and f.get("idx", True):
                    d = r.choice(dd)
                    e, eb = ["+", e, ["-", ["last", d], ["*", ["c", 2], ["first", d]]]], eb + 300
                if r.random() < f.get("idxhi", 0):
                    d = r.choice(dd)
                    e, eb = ["+", e, ["*", ["c", r.choice([3, -2, 5])], ["i", d]]], eb + 300
                if r.random() < f.get("fdiv", .05):
                    d = r.choice(dd)
                    fd = r.choice([["c", r.randrange(1, 40)], ["i", d], e, ["-", ["c", 3], ["i", d]]])
                    fd, fb = ["fdiv", fd, ["c", r.choice([2, 4, 8])]], eb if fd is e else 100
                    e, eb = (fd, eb) if r.random() < .3 else (["+", e, fd], eb + fb)
                if r.random() < f.get("fn", .06):
                    q = r.random()
                    if q < .2 and eb <= 300:
                        e, eb = ["pow2", e], eb * eb
                    elif q < .7:
                        e, eb = ["+", e, ["*", ["c", 9], ["sin0", e]], ["*", ["c", 11], ["cos0", e]]], eb + 20
                    else:
                        e, eb = ["+", e, ["*", ["c", 13], [r.choice(FNS), e]]], eb + 13
                parts.append((e, eb))
            if parts and r.random() < f.get("clone", 0.06):
                parts += clones([t for t in parts if t[1] <= 5000])
            while len(parts) > 1:
                (a, ab), (c, cb) = parts.pop(0), parts.pop(0)
                q = r.random()
                if q < 0.65:
                    e = (["+", a, c], ab + cb)
                    if len(parts) and r.random() < 0.5:
                        d, db = parts.pop(0)
                        e = (["+", a, c, d], ab + cb + db)
                elif q < 0.82:
                    e = (["-", a, c], ab + cb)
                elif q < 0.88:
                    e = (["min", a, c], max(ab, cb))
                elif q < 0.94:
                    e = (["max", a, c], max(ab, cb))
                elif ab * cb < 4000000 and f.get("mul", True):
                    e = (["*", a, c], ab * cb)
                else:
                    e = (["+", a, c], ab + cb)
                parts.append(e)
                if parts[-1][1] > 6000000:
                    e, eb = fold_to(*parts.pop())
                    parts.append((e, eb))
            return parts[0]
        def misc_slice(nm):
            return [r.choice(self.misc_vals[d]) for d in p.V(nm)["dims"] if d in misc]
        # the order in which things get defined
        todo = [("s", s) for s in scr]
        plan = []
        for v in upd:
            plan.append(("u", v))
            if any(d in misc for d in p.V(v)["dims"]) and r.random() < 0.6:
                plan.append(("u", v))
        r.shuffle(plan)
        pos = 0
        for s in todo:
            pos = r.randint(pos, max(pos, len(plan) - 1))
            plan.insert(pos, s)
            pos += 1
        used_scr = set()
        eqs = []
        for kind, nm in plan:
            rad = radii()
            if kind == "s":
                ms = misc_slice(nm)
                if (nm, tuple(ms)) in sdef:
                    continue
                e, b = expr(rad, f.get("scr_chain", True), f.get("scr_new", True), r.randint(1, 3))
                if b > 20000:
                    e, b = fold_to(e, b, 20000)
                if f.get("scr_cond") and r.random() < 0.6:
                    cnd = self.cond(p)
                    e2, b2 = expr(rad, False, False, r.randint(1, 2))
                    if b2 > 20000:
                        e2, b2 = fold_to(e2, b2, 20000)
                    eqs.append((nm, ms, e, cnd, None))
                    eqs.append((nm, ms, e2, ["not", cnd], None))
                    b = max(b, b2)
                else:
                    eqs.append((nm, ms, e, None, None))
                sdef[(nm, tuple(ms))] = b
                continue
            ms = misc_slice(nm)
            if (nm, tuple(ms)) in written:
                continue
            must = []
            unused = [k for k in sdef if k not in used_scr]
            if unused:
                k = unused[0]
                used_scr.add(k)
                V = p.V(k[0])
                idx = self.offs(V, p, rad, 0)
                j = 0
                for i, d in enumerate(V["dims"]):
                    if d in misc:
                        idx[i] = k[1][j]
                        j += 1
                must.append((["v", k[0], idx], sdef[k]))
            if f.get("deps", True) and written and r.random() < f.get("p_deps", 0.6):
                k = r.choice(written)
                V = p.V(k[0])
                idx = self.offs(V, p, rad, dirn)
                j = 0
                for i, d in enumerate(V["dims"]):
                    if d in misc:
                        idx[i] = k[1][j]
                        j += 1
                must.append((["v", k[0], idx], LIM))
            new_ok = f.get("deps", True)
            center = r.random() < f.get("p_center", 0.1)
            e, b = expr(rad, True, new_ok, max(len(must), r.randint(2, f.get("nt", 4))), center, must)
            if b > LIM:
                e, b = fold_to(e, b)
            cnd = self.cond(p) if r.random() < f.get("p_cond", 0) else None
            sc = self.scond(p) if r.random() < f.get("p_sc", 0) else None
            eqs.append((nm, ms, e, cnd, sc))
            if (cnd or sc) and r.random() < 0.6:
                e2, b2 = expr(radii(), True, new_ok, r.randint(1, 3), center)
                if b2 > LIM:
                    e2, b2 = fold_to(e2, b2)
                q = r.random()
                if cnd and not sc:
                    eqs.append((nm, ms, e2, ["not", cnd], None))
                elif sc and not cnd:
                    eqs.append((nm, ms, e2, None, ["not", sc]))
                elif q < 0.5:
                    eqs.append((nm, ms, e2, ["not", cnd], sc))
                else:
                    eqs.append((nm, ms, e2, cnd, ["not", sc]))
            written.append((nm, tuple(ms)))
        # drop scratch equations nobody reads (they would be dead code)
        if f.get("shuffle", True) and r.random() < 0.5:
            r.shuffle(eqs)
        for nm, ms, e, cnd, sc in eqs:
            p.eq(nm, ms, e, cnd, sc)
        return p

    def cond(self, p):
        """Domain condition."""
        r = self.r
        q = r.random()
        def rng1(d):
            a, b = r.randint(0, 3), r.randint(0, 3)
            q = r.random()
            lo = [">=", ["i", d], ["+", ["first", d], ["c", a]]] if a else [">", ["i", d], ["first", d]]
            hi = ["<=", ["i", d], ["-", ["last", d], ["c", b]]] if b else ["<", ["i", d], ["last", d]]
            if q < 0.35:
                return lo
            if q < 0.7:
                return hi
            return ["and", lo, hi]
        if q < 0.35:
            return rng1(r.choice(p.dd))
        if q < 0.6:
            c = rng1(p.dd[0])
            for d in p.dd[1:]:
                if r.random() < 0.7:
                    c = ["and", c, rng1(d)]
            return c
        if q < 0.72:
            return ["or", rng1(r.choice(p.dd)), ["==", ["i", r.choice(p.dd)], ["first", p.dd[0]]]]
        if q < 0.82:
            return ["==", ["%", ["i", r.choice(p.dd)], ["c", r.choice([2, 3])]], ["c", 0]]
        if q < 0.90 and len(p.dd) > 1:
            a, b = r.sample(p.dd, 2)
            return [r.choice(["<", ">=", "!="]), ["i", a], ["i", b]]
        if q < 0.95:
            d = r.choice(p.dd)
            return ["not", ["and", [">", ["i", d], ["+", ["first", d], ["c", 1]]], ["<", ["i", d], ["-", ["last", d], ["c", 2]]]]]
        d = r.choice(p.dd)
        return [">", ["i", d], ["c", r.randint(2, 8)]]

    def scond(self, p):
        r = self.r
        q = r.random()
        if q < 0.5:
            return ["==", ["%", ["t"], ["c", r.choice([2, 3])]], ["c", r.choice([0, 1])]]
        if q < 0.75:
            return [r.choice(["<", ">="]), ["t"], ["c", r.randint(1, 4)]]
        if q < 0.9:
            return ["and", [">", ["t"], ["c", 1]], ["!=", ["t"], ["c", 3]]]
        return ["or", ["==", ["t"], ["c", 0]], [">=", ["t"], ["c", 3]]]
