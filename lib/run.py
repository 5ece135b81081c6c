"""Runs histories on the real kernel under many settings, merges the ranks'
event logs into one canonical trace per run, and validates distinct traces
with TLC against spec/YaskTrace.tla."""
import concurrent.futures as cf
import hashlib
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import time
import tempfile

import build as B

SPEC = os.path.join(B.VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SENT = 2000000001          # a value no program or fill produces: "not an integer".


class Scratch:
    """A scratch directory removed at exit."""
    def __init__(self):
        base = os.path.join(B.BUILD, "tmp")
        os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="r", dir=base)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.d, n)


# ------------------------------------------------------------ one execution

def exec_script(exe, text, sd, tag, nranks=1, env=None, timeout=60):
    """Run the driver on a script. Returns (rc, [events per rank], stderr)."""
    sf, of = sd.path(tag + ".scr"), sd.path(tag + ".o")
    with open(sf, "w") as f:
        f.write(text)
    e = dict(B.ENV)
    e.update(VMPI_N=str(nranks), VMPI_TIMEOUT=str(timeout), OMP_NUM_THREADS="2", OMP_DYNAMIC="false",
             # fresh memory holds finite values that no program produces
             GLIBC_TUNABLES="glibc.malloc.perturb=63:glibc.malloc.tcache_count=0")
    e.update(env or {})
    try:
        p = subprocess.run([exe, sf, of], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout + 30, cwd=sd.d)
        rc, err = p.returncode, (p.stdout + p.stderr).decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, err = 124, "timeout"
    evs = []
    for r in range(nranks):
        try:
            with open(of + ".%d" % r) as f:
                ls = f.read().split("\n")
        except OSError:
            ls = []
        out = []
        for ln in ls:
            if ln:
                try:
                    out.append(json.loads(ln))
                except ValueError:
                    out.append({"op": "garbled"})
        evs.append(out)
        try:
            os.unlink(of + ".%d" % r)
        except OSError:
            pass
    os.unlink(sf)
    return rc, evs, err[-1500:]


# ------------------------------------------------------------ settings

class Setting:
    """One way of running: how many ranks in which layout, options, env."""
    def __init__(self, nr=None, opts=(), env=None, pre=(), how=("slice", "slice"), label="", api=None, split=None):
        self.nr = nr or {}              # dim -> number of ranks
        self.opts = list(opts)
        self.env = env or {}
        self.pre = list(pre)            # extra script lines before prepare
        self.post = []                  # extra script lines after prepare
        self.how = how                  # (fill method, dump method)
        self.label = label
        self.sizes = api or "o"         # how sizes are given: o (overall), r (rank), g (-g opt), l (-l opt)
        self.split = split              # explicit rank sizes
        self.must_accept = True    # a refusal is then a violation

    def n(self):
        k = 1
        for v in self.nr.values():
            k *= v
        return k

    def __repr__(self):
        return "ranks=%s opts=%s env=%s how=%s sizes=%s" % (self.nr, " ".join(self.opts), self.env, self.how, self.sizes)


def layouts(n, dd):
    """All ways of factoring n ranks over the domain dims."""
    if len(dd) == 1:
        return [{dd[0]: n}]
    r = []
    for k in range(1, n + 1):
        if n % k == 0:
            for rest in layouts(n // k, dd[1:]):
                r.append(dict({dd[0]: k}, **rest))
    return r


class Settings:
    """Random settings for a given program."""
    def __init__(self, rng, dd, dsz, step="t", nranks=(1,), use=None, maxhalo=None, fold=None, nstages=1):
        self.r, self.dd, self.dsz, self.step, self.nranks = rng, dd, dsz, step, nranks
        self.use = use or {"tile", "temporal", "threads", "misc", "mpi"}
        self.maxhalo = maxhalo or {d: 2 for d in dd}     # per dim
        self.fold = fold or {}
        self.nstages = nstages

    def wf_ok(self, l, wf):
        """Can every rank's domain hold the halos and wave-front extensions?"""
        for k, d in enumerate(self.dd):
            if l[d] > 1:
                f = self.fold.get(d, 1)
                ang = -(-self.maxhalo[d] // f) * f
                share = -(-(-(-self.dsz[k] // l[d])) // f) * f
                least = min(share, self.dsz[k] - share * (l[d] - 1))
                need = self.maxhalo[d] + (ang * (self.nstages * wf - 1) if wf else 0)
                if least < max(need, 1):
                    return False
        return True

    def size_opt(self, name, d, lo=1):
        n = self.dsz[self.dd.index(d)]
        v = self.r.choice([0, self.r.randint(lo, max(lo, n)), self.r.randint(lo, max(lo, n // 2)), 4, 8])
        return ["-%s%s" % (name, d), str(v)]

    def one(self, i=0):
        r, o, env = self.r, [], {}
        wf = bt = 0
        if "temporal" in self.use:
            q = r.random()
            wf = r.choice([2, 3, 4, 5]) if q < 0.7 else 0
            bt = r.choice([2, 2, 3, 4]) if q > 0.3 else 0
        n = r.choice(self.nranks)
        lay = layouts(n, self.dd)
        while True:
            # every rank needs room for its halos and wave-front extensions
            ok = [l for l in lay if self.wf_ok(l, max(wf, bt))]
            if ok:
                nr = r.choice(ok)
                break
            if max(wf, bt) > 0:
                wf, bt = max(0, wf - 1), max(0, bt - 1)
            else:
                nr, n = {d: 1 for d in self.dd}, 1
                break
        if "tile" in self.use:
            if r.random() < 0.3:
                # Small tiles nested in each other in all dimensions.
                for lev, ns in (("Mb", (8, 12, 16)), ("b", (4, 4, 6, 8)), ("mb", (4, 4, 6)), ("nb", (2, 4))):
                    if r.random() < 0.65:
                        for d in self.dd:
                            o += ["-%s%s" % (lev, d), str(r.choice(ns))]
            else:
                for lev in ("Mb", "b", "mb", "nb", "pb"):
                    if r.random() < 0.75:
                        for d in self.dd:
                            if r.random() < 0.7:
                                o += self.size_opt(lev, d)
        if "temporal" in self.use:
            if wf:
                o += ["-Mb" + self.step, str(wf)]
            if bt:
                o += ["-b" + self.step, str(bt)]
            if r.random() < 0.2:
                o += ["-round_up_temporal_angles"] if r.random() < 0.5 else ["-no-round_up_temporal_angles"]
        if "threads" in self.use:
            t = r.choice([1, 2, 2, 3, 4]) if nr and n == 1 else r.choice([1, 2])
            env["OMP_NUM_THREADS"] = str(t)
            if r.random() < 0.6:
                inner = r.randint(1, t)
                o += ["-inner_threads", str(inner)]
                if r.random() < 0.5:
                    o += ["-outer_threads", str(r.randint(1, t))]
                if inner > 1 and r.random() < 0.5:
                    o += ["-bind_inner_threads"]
        if "misc" in self.use:
            if r.random() < 0.2:
                o += ["-force_scalar"]
            if r.random() < 0.3:
                o += ["-no-bundle_allocs"]
            if r.random() < 0.3:
                o += ["-init_scratch_vars"]
            if r.random() < 0.3:
                o += ["-allow_addl_padding"] if r.random() < 0.5 else ["-no-allow_addl_padding"]
            if r.random() < 0.3:
                for d in self.dd:
                    if r.random() < 0.6:
                        o += [r.choice(["-ep", "-mp"]) + d, str(r.randint(0, 9))]
        if "mpi" in self.use and n > 1:
            if r.random() < 0.5:
                o += ["-no-overlap_comms"] if r.random() < 0.7 else ["-overlap_comms"]
            if r.random() < 0.4:
                o += ["-min_exterior", str(r.choice([0, 1, 2, 4, 6]))]
            o += r.choice([[], ["-use_shm"], ["-no-use_shm"]])
            if r.random() < 0.3:
                o += ["-force_scalar_exchange"]
            env["VMPI_SEED"] = str(r.randint(0, 10**6)) if r.random() < 0.8 else "0"
            if r.random() < 0.4:
                env["VMPI_PPN"] = str(r.choice([1, 2]))
        s = Setting(nr if n > 1 or r.random() < 0.3 else {}, o, env,
                    how=(r.choice(["slice", "slice", "elem", "fslice", "add"]), r.choice(["slice", "slice", "elem", "fslice"])))
        s.sizes = r.choice(["o", "o", "g"])
        if "mpi" in self.use and n > 1:
            self.place(s, nr, n, max(wf, bt))
        return s

    def place(self, s, nr, n, wf):
        """Sometimes gives the ranks explicit indices and uneven domain sizes."""
        r = self.r
        cs = []
        for k in range(n):
            c = []
            for d in self.dd:
                c.append(k % nr[d])
                k //= nr[d]
            cs.append(c)
        uneven = r.random() < .3
        if uneven or r.random() < .2:
            r.shuffle(cs)
            s.pre += ["@%d ri %s %d" % (k, d, c[i]) for k, c in enumerate(cs) for i, d in enumerate(self.dd)]
        if uneven:
            for k, d in enumerate(self.dd):
                f = self.fold.get(d, 1)
                ang = -(-self.maxhalo[d] // f) * f
                least = max(1, self.maxhalo[d] + (ang * (self.nstages * wf - 1) if wf else 0)) if nr[d] > 1 else 1
                rest = self.dsz[k] - least * nr[d]
                if rest < 0:
                    return
                cut = sorted(r.randint(0, rest) for _ in range(nr[d] - 1))
                if r.random() < .4:
                    cut = sorted(x // f * f for x in cut)
                parts = [least + b - a for a, b in zip([0] + cut, cut + [rest])]
                s.pre += ["@%d opts -l%s %d" % (q, d, parts[c[k]]) for q, c in enumerate(cs)]
            s.sizes = r.choice(["o", "g", "p"])


# ------------------------------------------------------------ scripts

def script(prog, dsz, hist, st, sid=0):
    """Driver script that performs the history under a setting."""
    o = ["soln %d" % sid]
    if st.opts:
        o.append("opts " + " ".join(st.opts))
    if st.sizes == "o":
        for d, n in zip(prog.dd, dsz):
            o.append("osize %s %d" % (d, n))
    elif st.sizes == "g":
        o.append("opts " + " ".join("-g%s %d" % (d, n) for d, n in zip(prog.dd, dsz)))
    for d, n in st.nr.items():
        o.append("nr %s %d" % (d, n))
    o += st.pre
    o.append("prep")
    o += st.post
    for v in prog.vars:
        if not v["scr"]:
            o.append("vinfo " + v["nm"])
    for h in hist:
        k = h[0]
        if k == "fill":
            o.append("fill %s %d %s %s win" % (h[1], h[2], h[3] if len(h) > 3 else "own", st.how[0]))
        elif k == "dump":
            o.append("dump %s own %s" % (h[1], st.how[1]))
        elif k == "faces":
            o.append("dump %s own %s" % (h[1], st.how[1]))
            for d in prog.V(h[1])["dims"]:
                if d in prog.dd:
                    o += ["dump %s fl:%s %s" % (h[1], d, st.how[1]), "dump %s fr:%s %s" % (h[1], d, st.how[1])]
        elif k == "run":
            if h[1] == h[2] and (h[1] % 2):
                o.append("run1 %d" % h[1])
            else:
                o.append("run %d %d" % (h[1], h[2]))
        elif k == "win":
            o.append("win " + h[1])
        elif k in ("set", "add"):
            o.append("%s own %s %d 1 %s" % (k, h[1], h[2], " ".join(map(str, h[3]))))
        elif k == "get":
            o.append("get own %s %s" % (h[1], " ".join(map(str, h[2]))))
        elif k == "setsl":
            o.append("setslown %s %d %s %d %s %s" % (h[1], h[2], st.how[0] if st.how[0] != "add" else "elem", len(h[3]), " ".join(map(str, h[3])), " ".join(map(str, h[4]))))
        elif k == "slsame":
            o.append("slsame %s %d 0 %d %s %s" % (h[1], h[2], len(h[3]), " ".join(map(str, h[3])), " ".join(map(str, h[4]))))
        elif k == "setall":
            o.append("setall %s %d" % (h[1], h[2]))
        elif k in ("xchg", "stats", "clrstats"):
            o.append(k)
        elif k == "until":          # runs of one step until the auto-tuner is done
            o.append("untiloff %d %d %d 1" % (h[1], h[2], prog.dir))
        elif k == "rewin":          # make the steps that end with h[2] the valid ones
            fs = " ".join("f" for d in prog.V(h[1])["dims"] if d != prog.step)
            o += ["set all %s 0 1 %d %s" % (h[1], s, fs) for s in (-1000, h[2])]
        elif k == "raw":
            o.append(h[1])
        else:
            raise ValueError(k)
    o.append("end")
    return "\n".join(o) + "\n"


class Bad(Exception):
    """The ranks' logs cannot be merged into one history: the reason."""


def _same(evs, key):
    v = evs[0].get(key)
    for e in evs[1:]:
        if e.get(key) != v:
            raise Bad("ranks disagree on %s of %s: %s / %s" % (key, evs[0].get("op"), v, e.get(key)))
    return v


def as_int(x):
    return x if isinstance(x, int) and abs(x) < SENT else SENT


def merge_dump(prog, vname, evs, dims, lo, hi):
    """Combine the boxes the ranks own into the global array lo..hi (non-step
    dims); every element must be reported, and equally by all that report it."""
    nd = [k for k, d in enumerate(dims) if d != prog.step]
    s0, s1 = _same(evs, "s0"), _same(evs, "s1")
    shape = [hi[k] - lo[k] + 1 for k in range(len(nd))]
    vol = 1
    strd = [0] * len(nd)
    for k in range(len(nd) - 1, -1, -1):
        strd[k] = vol
        vol *= shape[k]
    res = [[None] * vol for _ in range(s1 - s0 + 1)]
    for e in evs:
        el, eh = [e["lo"][k] for k in nd], [e["hi"][k] for k in nd]
        rngs = [range(a, b + 1) for a, b in zip(el, eh)]
        vals = [x for row in e["vals"] for x in row]
        # flat positions of this rank's box, row-major
        pos = [0]
        for k, rg in enumerate(rngs):
            if len(rg) and (rg[0] < lo[k] or rg[-1] > hi[k]):
                raise Bad("rank reports %s outside the global array in dim %s" % (vname, dims[nd[k]]))
            pos = [p + (i - lo[k]) * strd[k] for p in pos for i in rg]
        n = len(pos)
        if len(vals) != n * len(res):
            raise Bad("dump of %s has %d values, not %d" % (vname, len(vals), n * len(res)))
        j = 0
        for row in res:
            for p in pos:
                v = vals[j]
                j += 1
                if row[p] is None:
                    row[p] = v
                elif row[p] != v:
                    raise Bad("ranks hold different values of %s" % vname)
    for row in res:
        if any(v is None for v in row):
            raise Bad("some elements of %s belong to no rank" % vname)
    return s0, s1, [[as_int(v) for v in row] for row in res]


def merge(prog, dsz, hist, revs, geo=None):
    """Merge per-rank events of script(prog, dsz, hist, ...) into
    (geo, events). geo: {var: dict(al, lo, hi)}. Any event that has no
    counterpart in the specification becomes {"op": "bad"}, which no
    action of the specification accepts."""
    names = [v["nm"] for v in prog.vars]
    out = []
    nr = len(revs)
    idx = [0] * nr

    def nxt(may=False):
        es = []
        for r in range(nr):
            while idx[r] < len(revs[r]) and revs[r][idx[r]].get("op") == "hist":
                idx[r] += 1
            if idx[r] >= len(revs[r]) or revs[r][idx[r]].get("op") in ("eof", "garbled"):
                raise Bad("the run ended early")
            es.append(revs[r][idx[r]])
            idx[r] += 1
        for e in es:
            if e["op"] != es[0]["op"] or e.get("l") != es[0].get("l"):
                raise Bad("ranks out of step")
            if "exc" in e and not (may and e["op"] in ("get", "add", "setslown")):
                raise Bad("exception from %s: %s" % (e["op"], e["exc"]))
            if "err" in e:
                raise Bad("error from %s: %s" % (e["op"], e["err"]))
        return es

    g = {}
    try:
        while True:
            es = nxt()
            if es[0]["op"] == "opts":
                for e in es:
                    if e.get("rem", "").strip():
                        raise Bad("options not recognised: " + e["rem"])
            if es[0]["op"] == "prep":
                break
        vs = [v for v in prog.vars if not v["scr"]]
        got = 0
        while got < len(vs):
            es = nxt()
            if es[0]["op"] != "vinfo":
                continue
            v = vs[got]
            got += 1
            dims = _same(es, "dims")
            if dims != v["dims"]:
                raise Bad("dims of %s reported as %s" % (v["nm"], dims))
            gl = dict(al=1, lo={}, hi={})
            for k, d in enumerate(dims):
                if d == prog.step:
                    a = [e["alloc"][k] for e in es]
                    if len(set(a)) > 1:
                        raise Bad("step allocation differs between ranks")
                    gl["al"] = a[0]
                elif d in prog.dd:
                    n = dsz[prog.dd.index(d)]
                    # left halo as seen by the first rank, right halo as seen by the last.
                    fl = [e["dom"][d][3] for e in es if e["dom"][d][1] == 0]
                    rl = [e["dom"][d][4] for e in es if e["dom"][d][2] == n - 1]
                    if not fl or not rl or len(set(fl)) > 1 or len(set(rl)) > 1:
                        raise Bad("ranks do not cover dim %s of %s" % (d, v["nm"]))
                    gl["lo"][d], gl["hi"][d] = -fl[0], n - 1 + rl[0]
                else:
                    a = set((e["flo"][k], e["llo"][k]) for e in es)
                    if len(a) > 1:
                        raise Bad("misc range differs between ranks")
                    gl["lo"][d], gl["hi"][d] = a.pop()
            g[v["nm"]] = gl
    except Bad as b:
        return g, [dict(op="bad", why=str(b)[:300])]
    try:
        for h in hist:
            es = nxt(True)
            k = h[0]
            if k == "raw":
                continue
            if k == "until":
                n = _same(es, "n")
                if _same(es, "on"):
                    raise Bad("the auto-tuner did not end")
                if n:
                    out.append(dict(op="run", a=h[2], b=h[2] + prog.dir * (n - 1)))
                continue
            if k == "rewin":
                nxt()
                out.append(dict(op="rewin", v=names.index(h[1]) + 1, s=h[2] - g[h[1]]["al"] + 1))
                continue
            if k in ("add", "get", "setsl") and any("exc" in e for e in es):
                if not all("exc" in e or not e.get("did", 1) for e in es):
                    raise Bad("only some ranks refuse %s" % (h,))
                x = dict(op="x" + k, v=names.index(h[1]) + 1)
                for q in ("ix", "f", "z"):
                    if q in es[0]:
                        x[q] = _same(es, q)
                out.append(x)
                continue
            vi = names.index(h[1]) + 1 if k not in ("run", "xchg", "stats", "clrstats") else 0
            if k == "fill":
                s0, s1 = _same(es, "s0"), _same(es, "s1")
                for e in es:
                    if e["n"] != e["expect"]:
                        raise Bad("fill of %s set %d of %d elements" % (h[1], e["n"], e["expect"]))
                out.append(dict(op="fill", v=vi, seed=h[2], s0=s0, s1=s1))
            elif k in ("dump", "faces"):
                V = prog.V(h[1])
                if k == "faces":       # also every copy of a neighbour's points
                    for d in V["dims"]:
                        if d in prog.dd:
                            es = es + nxt() + nxt()
                gg = g[h[1]]
                nd = [d for d in V["dims"] if d != prog.step]
                s0, s1, vals = merge_dump(prog, h[1], es, V["dims"], [gg["lo"][d] for d in nd], [gg["hi"][d] for d in nd])
                out.append(dict(op="dump", v=vi, s0=s0, s1=s1, vals=vals))
            elif k == "run":
                out.append(dict(op="run", a=h[1], b=h[2]))
            elif k == "win":
                out.append(dict(op="win", v=vi, fv=_same(es, "fv"), lv=_same(es, "lv")))
            elif k in ("set", "add"):
                if not any(e["did"] for e in es):
                    raise Bad("no rank owns %s" % (h,))
                for e in es:
                    if e["did"] and e["n"] != 1:
                        raise Bad("%s reported %d elements" % (k, e["n"]))
                out.append(dict(op=k, v=vi, val=h[2], ix=_same(es, "ix")))
            elif k == "get":
                vals = [e["val"] for e in es if e["did"]]
                if not vals:
                    raise Bad("no rank owns %s" % (h,))
                if any(v != vals[0] for v in vals):
                    raise Bad("ranks hold different values of %s" % (h,))
                out.append(dict(op="get", v=vi, ix=_same(es, "ix"), val=as_int(vals[0])))
            elif k == "setsl":
                for e in es:
                    if e["n"] != e["expect"]:
                        raise Bad("setting a slice of %s set %d of %d elements" % (h[1], e["n"], e["expect"]))
                out.append(dict(op="setsl", v=vi, seed=h[2], f=_same(es, "f"), z=_same(es, "z")))
            elif k == "slsame":
                out.append(dict(op="slsame", v=vi, val=h[2], f=_same(es, "f"), z=_same(es, "z")))
            elif k == "setall":
                out.append(dict(op="setall", v=vi, val=h[2]))
            elif k == "clrstats":
                out.append(dict(op=k))
            elif k == "stats":
                if _same(es, "tneg") or _same(es, "flops") < 0:
                    raise Bad("negative time or operation count")
                out.append(dict(op=k, n=_same(es, "steps"), pts=_same(es, "elems"), wr=_same(es, "writes")))
            elif k == "xchg":
                pass
    except Bad as b:
        out.append(dict(op="bad", why=str(b)[:300]))
    return g, out


# ------------------------------------------------------------ TLC

def tlc_batch(module, cfg, env, sd, tag, timeout=600, mem="3g", extra=()):
    meta = sd.path("meta_" + tag)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + mem, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
           "-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=sd.d)
        rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b"").decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


STATS = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")


def tlc_stats(out):
    g = d = 0
    for m in STATS.finditer(out):
        g, d = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return g, d


def validate(cases, sd, nproc=None, timeout=700):
    """cases: list of dict(P, ev) for YaskTrace."""
    # cost estimate: domain points x steps x equations
    def cost(c):
        n = 1
        for x in c["P"]["dsz"]:
            n *= x
        k = sum(abs(e["b"] - e["a"]) + 1 for e in c["ev"] if e["op"] == "run") + 1
        return n * k * (3 + 6 * len(c["P"]["eqs"])) + 2000
    return validate_cases("YaskTrace", cases, sd, lambda c: [c["P"]["dsz"], c["P"]["vars"]], cost, nproc, timeout)


def validate_cases(module, cases, sd, geo, cost, nproc=None, timeout=700):
    """Have TLC check each case (a dict with ev) against a trace module.
    Returns [(accepted, matched, total)] and totals. Cases with the same
    geo(case) share what the specification computes from it."""
    nproc = nproc or B.JOBS
    if not cases:
        return [], dict(states=0, transitions=0)
    order = sorted(range(len(cases)), key=lambda i: -cost(cases[i]))
    nb = min(nproc, max(1, len(cases)))
    bins = [[] for _ in range(nb)]
    load = [0] * nb
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += cost(cases[i])
    res = [None] * len(cases)
    tot = dict(states=0, transitions=0)

    def work(k):
        ids = bins[k]
        if not ids:
            return
        f = sd.path("%s%d.ndjson" % (module, k))
        gs = {}
        with open(f, "w") as fh:
            for j, i in enumerate(ids):
                c = cases[i]
                g = gs.setdefault(json.dumps(geo(c), sort_keys=True), j + 1)
                fh.write(json.dumps(dict({q: x for q, x in c.items() if q != "tlc"}, g=g)) + "\n")
        t0 = time.time()
        rc, out = tlc_batch(module + ".tla", module + ".cfg", {"TRACES": f}, sd, "v%d" % k, timeout)
        got = {}
        for m in re.finditer(r'<<"CASE", (\d+), (-?\d+), (\d+)>>', out):
            got[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
        if len(got) != len(ids):
            return k, ids, out, rc
        for j, i in enumerate(ids):
            a, b = got[j + 1]
            res[i] = (a == b, max(a, 0), b)
        g, d = tlc_stats(out)
        tot["states"] += d
        tot["transitions"] += g
        if os.environ.get("VALDEBUG"): shutil.copy(f, os.environ["VALDEBUG"]); print("batch", k, round(time.time()-t0,1), len(ids))
        os.unlink(f)
        return None
    with cf.ThreadPoolExecutor(nb) as ex:
        fails = [x for x in ex.map(work, range(nb)) if x]
    for k, ids, out, rc in fails:
        # An evaluation error (or a time-out): validate the cases in smaller groups.
        if "Parsing or semantic analysis failed" in out or "Fatal errors while parsing" in out:
            raise RuntimeError(out[-1500:])
        if len(ids) == 1:
            i = ids[0]
            res[i] = (False, -1, len(cases[i]["ev"]))
            cases[i]["tlc"] = out[-1500:]
            if rc == 124:
                raise RuntimeError("TLC timed out")
            if "TLC threw" in out and "OutOfMemory" in out:
                raise RuntimeError("TLC ran out of memory")
        else:
            sub, t2 = validate_cases(module, [cases[i] for i in ids], sd, geo, cost, nproc, timeout)
            for i, r in zip(ids, sub):
                res[i] = r
            tot["states"] += t2["states"]
            tot["transitions"] += t2["transitions"]
    return res, tot
