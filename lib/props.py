"""One function per property."""
import copy
import random

import cmdline as CL
import fdcoef as FD
import life as LF
import store as ST
import threads as TH
import tuner as TU
import decomp as DC
import deps as DP
import explore as X
import prog as PR
import run as R
import tcheck as T
import vars as VS
from tcheck import campaign

RUN = {}


def prop(pid):
    def f(fn):
        RUN[pid] = fn
        return fn
    return f


def mix(rng, n, base, **choices):
    """n profiles varying the given choices."""
    out = []
    for i in range(n):
        d = dict(base)
        for k, v in choices.items():
            d[k] = v[i % len(v)]
        out.append(d)
    return out


# C01: any spatial tiling, threading, storage layout: same, correct results.
@prop("C01")
def c01(c):
    n, k = (8, 26) if c.quick else (32, 60)
    gens = mix(c.rng(), n, dict(p_cond=.15, p_sc=.1, perm=True), nd=[1, 2, 3, 2, 3, 2, 4, 3], ns=[0, 1, 0, 2], misc=[0, 0, 1])
    campaign(c, "t", gens, k, {"tile", "threads", "misc"})
    # Any path of the loops over tiles.
    n, k = (4, 12) if c.quick else (16, 30)
    gens = mix(c.rng("l"), n, dict(p_cond=.15, p_sc=.1), nd=[2, 3, 3, 1], ns=[0, 1, 2], misc=[0, 0, 1])
    campaign(c, "l", gens, k, {"tile", "threads", "misc"}, variants=3, vfn=loop_variant(False))


def loop_variant(temporal):
    return lambda r, p, k: dict(copts=X.rand_fold(r, p.dd, 4), loops=X.rand_loops(r, p.dd, temporal))


# C02: temporal tiling.
@prop("C02")
def c02(c):
    n, k = (10, 44) if c.quick else (40, 80)
    gens = mix(c.rng(), n, dict(p_cond=.15, p_sc=.15, rad=2), nd=[2, 1, 3, 2], ns=[0, 1, 0, 0, 2], misc=[0, 0, 0, 1])
    campaign(c, "w", gens, k, {"tile", "temporal", "threads", "mpi"}, nranks=(1, 1, 1, 2, 3, 4),
             hist=lambda p, r, z: X.std_hist(p, r, nsteps=r.randint(5, 8)))
    n, k = (3, 16) if c.quick else (12, 40)
    gens = mix(c.rng("l"), n, dict(p_cond=.1, p_sc=.1, rad=2), nd=[2, 3, 2, 1], ns=[0, 1], misc=[0])
    campaign(c, "l", gens, k, {"tile", "temporal", "threads"}, variants=2, vfn=loop_variant(True),
             hist=lambda p, r, z: X.std_hist(p, r, nsteps=r.randint(4, 6)))


# C03: any decomposition over ranks.
@prop("C03")
def c03(c):
    n, k = (8, 20) if c.quick else (32, 50)
    gens = mix(c.rng(), n, dict(p_cond=.2, p_sc=.1, rad=2, perm=True), nd=[2, 3, 1, 2], ns=[0, 1, 0, 0, 2], misc=[0, 0, 1])
    campaign(c, "r", gens, k, {"tile", "mpi", "temporal"}, nranks=(2, 4, 3, 4, 6, 8),
             dfn=lambda r, p: T.dsize(r, p, big={1: 20, 2: 6, 3: 2, 4: 1}[len(p.dd)]))


# C04: host writes between runs.
@prop("C04")
def c04(c):
    n, k = (8, 14) if c.quick else (32, 40)
    gens = mix(c.rng(), n, dict(p_cond=.15, rad=2, perm=True), nd=[2, 2, 1, 3], ns=[0, 1, 0, 0], misc=[0, 1, 0, 0])
    campaign(c, "a", gens, k, {"tile", "mpi", "temporal"}, nranks=(2, 4, 3, 2, 6), ndsz=2,
             hist=lambda p, r, z: X.api_hist(p, r, z),
             dfn=lambda r, p: T.dsize(r, p, big={1: 16, 2: 4, 3: 2, 4: 1}[len(p.dd)]))


# C05: message timing, overlap, shared memory.
@prop("C05")
def c05(c):
    n, k = (6, 36) if c.quick else (24, 80)
    gens = mix(c.rng(), n, dict(p_cond=.1, rad=2), nd=[2, 3, 1, 2], ns=[0, 0, 1], misc=[0])

    def sfn(r, p, st, i):
        """Every combination of overlap, shared memory and packing, with many arrival orders."""
        o, k = [], 0
        while k < len(st.opts):
            if st.opts[k] in ("-overlap_comms", "-no-overlap_comms", "-use_shm", "-no-use_shm", "-force_scalar_exchange"):
                k += 1
            elif st.opts[k] == "-min_exterior":
                k += 2
            else:
                o.append(st.opts[k])
                k += 1
        if st.n() > 1:
            o += [["-overlap_comms"], ["-no-overlap_comms"]][i % 2]
            o += [["-use_shm"], ["-use_shm"], ["-no-use_shm"]][(i // 2) % 3]
            if (i // 6) % 3 == 1:
                o += ["-force_scalar_exchange"]
            if r.random() < .5:
                o += ["-min_exterior", str(r.choice([0, 1, 3, 5, 8]))]
            st.env["VMPI_SEED"] = str(r.randint(1, 10**6))
            st.env["VMPI_PPN"] = str(r.choice([1, 2, 2, 3, 4, 8]))
        st.opts = o
        return st
    campaign(c, "m", gens, k, {"tile", "mpi", "temporal"}, nranks=(2, 4, 3, 4, 6, 8), sfn=sfn,
             hist=lambda p, r, z: X.api_hist(p, r, z, nops=3, nruns=3),
             dfn=lambda r, p: T.dsize(r, p, big={1: 20, 2: 6, 3: 2, 4: 1}[len(p.dd)]))

    def nap(r, p, st, i):
        """Shared memory between ranks that are held up at accesses to it."""
        st = sfn(r, p, st, i)
        st.opts = [o for o in st.opts if o not in ("-no-use_shm", "-use_shm")] + ["-use_shm"]
        st.env.update(VNAP=str(r.randint(1, 10**6)), VMPI_PPN=str(r.choice([2, 4, 4, 8])), OMP_NUM_THREADS=str(r.choice([1, 2])))
        return st
    n, k = (3, 16) if c.quick else (10, 60)
    gens = mix(c.rng(), n, dict(p_cond=0, rad=1), nd=[2, 1, 3], ns=[0], misc=[0])
    campaign(c, "p", gens, k, {"mpi", "tile"}, nranks=(2, 3, 4), sfn=nap, vfn=lambda r, p, j: dict(copts=X.rand_fold(r, p.dd, 4), elem_bytes=8, sched=True),
             hist=lambda p, r, z: X.api_hist(p, r, z, nops=3, nruns=4),
             dfn=lambda r, p: T.dsize(r, p, big={1: 20, 2: 6, 3: 2, 4: 1}[len(p.dd)]))


# C08: the window of valid steps.
def win_hist(p, rng, dsz):
    """Runs forward (and again from later steps), writes at any step, refused accesses."""
    vs = [v["nm"] for v in p.vars if not v["scr"]]
    sv = [v for v in vs if "t" in p.V(v)["dims"]]
    d, s = p.dir, rng.choice([0, 0, 0, 5, -4])
    h = [("fill", v, rng.randint(1, 99)) for v in vs]

    def step():
        return rng.choice(["F", "L", "F-1", "L+1", "F+1", "L-1", "L+3", "F-4"])
    for _ in range(rng.randint(6, 10)):
        v = rng.choice(sv)
        a = rng.choice(["run", "run", "get", "get", "set", "add", "setsl", "slsame", "win", "dump", "setall"])
        if a == "run":
            k = rng.choice([1, 1, 2, 3, 5])
            h.append(("run", s, s + d * (k - 1)))
            s += d * k
            if rng.random() < .15:
                s += rng.randint(-3, 3)
        elif a in ("get",):
            h.append(("get", v, X.rand_index(p, v, rng, dsz, [step()])))
        elif a == "set":
            h.append(("set", v, rng.randint(-90, 90), X.rand_index(p, v, rng, dsz, [step()])))
        elif a == "add":
            h.append(("add", v, rng.randint(-9, 9), X.rand_index(p, v, rng, dsz, [step()])))
        elif a in ("setsl", "slsame"):
            f, z = X.rand_index(p, v, rng, dsz), X.rand_index(p, v, rng, dsz)
            for k in range(len(f)):
                if isinstance(f[k], str):
                    f[k], z[k] = rng.choice([("F", "L"), ("F", "F"), ("L", "L"), ("F-1", "F"), ("L", "L+1"), ("F-2", "L+2"), ("L+1", "L+2")])
                else:
                    f[k], z[k] = min(f[k], z[k]), max(f[k], z[k])
            h.append((a, v, rng.randint(1, 99), f, z))
        elif a == "setall":
            h.append(("setall", v, rng.randint(-50, 50)))
        elif a == "win":
            h += [("win", w) for w in sv]
        else:
            h.append(("dump", v))
    h += [("run", s, s + d)]
    h += [("win", v) for v in sv]
    h += [("dump", v) for v in vs]
    return h


@prop("C08")
def c08(c):
    n, k = (6, 4) if c.quick else (32, 8)
    gens = mix(c.rng(), n, dict(p_cond=.15, rad=1, nv=2), nd=[1, 2, 1, 2], dir=[1, -1, 1], ns=[0, 0, 1], misc=[0, 0, 1])

    def vfn(r, p, i):
        o = X.rand_fold(r, p.dd, 4)
        if i == 1:
            o += ["-step-alloc", str(X.step_need(p) + r.choice([0, 1, 1, 2, 4]))]
        return dict(copts=o)

    def sfn(r, p, st, i):
        st.how = (r.choice(["slice", "fslice"]), st.how[1])
        return st
    campaign(c, "v", gens, k, {"tile", "temporal"}, hist=win_hist, variants=2, vfn=vfn, sfn=sfn, ndsz=10)


# C07: element and slice access.
@prop("C07")
def c07(c):
    VS.campaign(c, *((6, 2, 14, 22) if c.quick else (12, 4, 60, 40)), reds=.05)


# C09: reductions.
@prop("C09")
def c09(c):
    VS.campaign(c, *((6, 2, 12, 20) if c.quick else (12, 4, 50, 40)), reds=.55, wild=.12)


# C06: decomposition of the domain.
@prop("C06")
def c06(c):
    DC.campaign(c, *((4, 90, 150) if c.quick else (12, 400, 3000)))


# C10: order of the equations, and which programs are refused.
@prop("C10")
def c10(c):
    smp = DP.campaign(c, 1 if c.quick else 6)
    n, k = (6, 3) if c.quick else (24, 6)
    gens = []
    for i in range(n):
        r = c.rng("p%d" % i)
        p = PR.Gen(r, dict(nd=[1, 2, 1, 2, 3][i % 5], nv=r.randint(3, 5), ns=r.randint(1, 4), nro=1, deps=True, p_deps=.9,
                           p_cond=.2, p_sc=.1, rad=1, nt=2, shuffle=False)).gen("ord%d" % i)
        for j in range(3):
            q = copy.deepcopy(p)
            q.name = "ord%d_%d" % (i, j)
            r.shuffle(q.eqs)
            gens.append(q)
    campaign(c, "e", gens, k, {"tile", "temporal"}, hist=lambda p, r, z: X.std_hist(p, r, nsteps=2))
    c.cov["samples"] = smp + list(c.cov.get("samples") or [])[:3]


# C11: conditions.
@prop("C11")
def c11(c):
    n, k = (8, 20) if c.quick else (40, 40)
    gens = mix(c.rng(), n, dict(p_cond=.9, p_sc=.35, nv=2), nd=[2, 1, 3, 2], ns=[0, 1, 0, 0], misc=[0, 0, 1], scr_cond=[True])
    campaign(c, "c", gens, k, {"tile", "temporal", "mpi", "threads"}, nranks=(1, 1, 2, 4),
             hist=lambda p, r, z: X.std_hist(p, r, nsteps=r.randint(3, 6)))


# C12: scratch variables.
@prop("C12")
def c12(c):
    n, k = (8, 22) if c.quick else (40, 40)
    gens = mix(c.rng(), n, dict(rad=2, nv=2), nd=[2, 1, 3, 2], ns=[2, 3, 1, 2], misc=[0, 0, 1], scr_cond=[False, True], p_cond=[0, .5, .25, .7])
    campaign(c, "s", gens, k, {"tile", "temporal", "threads", "misc", "mpi"}, nranks=(1, 1, 1, 2, 4),
             hist=lambda p, r, z: X.std_hist(p, r, nsteps=r.randint(2, 4)))
    # Scratch variables large enough to be initialized by several threads, within teams of bound threads.
    n, k = (2, 8) if c.quick else (10, 16)
    gens = mix(c.rng("init"), n, dict(rad=2, nv=2), nd=[2, 3], ns=[2], scr_cond=[True], p_cond=[0, .5])
    campaign(c, "i", gens, k, {"tile", "temporal"}, variants=1, dfn=lambda r, p: [r.randint(20, 40)] + [r.randint(8, 60 if len(p.dd) == 2 else 20) for d in p.dd[1:]],
             hist=lambda p, r, z: X.std_hist(p, r, nsteps=3), sfn=init_bound)


def init_bound(r, p, st, i):
    """Settings: conditional scratch variables are initialized, inner threads are bound."""
    t = r.choice([2, 3, 4])
    st.env["OMP_NUM_THREADS"] = str(t)
    st.opts += ["-init_scratch_vars", "-inner_threads", str(r.choice([t, t, max(2, t // 2)]))]
    if r.random() < .8:
        st.opts += ["-bind_inner_threads"]
    return st


# C13: code generation.
def rand_copts(r, p):
    """A random combination of compiler options."""
    target = r.choice(["avx2", "avx2", "avx", "intel64", "avx512"])
    eb = r.choice([4, 8])
    kw = dict(target=target, elem_bytes=eb, style=0)
    vl = {"avx2": 32, "avx": 32, "avx512": 64, "intel64": r.choice([8, 16, 32])}[target] // eb
    o = X.rand_fold(r, p.dd, max(1, vl)) if vl > 1 and r.random() < .85 else []
    def some(pr, *a):
        if r.random() < pr:
            o.extend(a)
    # Unaligned loads, as documented, need one folded dimension that has unit stride in memory: the last of the
    # solution's domain dimensions, which are in the order in which the variables introduce them.
    order = list(dict.fromkeys(d for v in p.vars for d in v["dims"] if d in p.dd))
    ul = vl > 1 and r.random() < .25
    if ul:
        o[:] = ["-fold", "%s=%d" % (order[-1], vl), "-ul"]
    some(.2, "-no-bundle")
    some(.2, "-no-bundle-scratch")
    if p.misc:
        some(1 if ul else .3, "-no-inner-misc-layout")
    None if ul else some(.2, "-outer-domain-layout")
    some(.2, "-no-first-inner")
    some(.2, "-no-opt-comb")
    some(.2, "-opt-reorder") if r.random() < .5 else some(.2, "-no-opt-reorder")
    some(.2, "-no-opt-cse")
    some(.2, "-no-opt-pair")
    some(.2, "-max-es", str(r.choice([1, 5, 20])))
    some(.2, "-min-es", str(r.choice([1, 2, 10])))
    some(.2, r.choice(["-use-ptrs", "-no-use-ptrs"]))
    some(.2, "-early-loads") if r.random() < .5 else some(.2, "-no-early-loads")
    some(.2, "-min-buffer-len", str(r.choice([1, 2, 8])))
    some(.2, "-inner-loop-dim", r.choice(p.dd))
    some(.2, "-l1-prefetch-dist", str(r.choice([0, 1, 3])))
    some(.2, "-l2-prefetch-dist", str(r.choice([0, 2, 5])))
    some(.2, "-use-safe-ptrs")
    if not ul:
        some(.25, "-domain-dims", ",".join(r.sample(p.dd, len(p.dd))))
        some(.1, "-step-dim", p.step)
    kw["copts"] = o
    return kw


@prop("C13")
def c13(c):
    n, v, k = (5, 5, 6) if c.quick else (16, 10, 10)
    gens = mix(c.rng(), n, dict(p_cond=.2, rad=2, perm=True, clone=.6, fn=.12, idxhi=.12), nd=[2, 3, 1, 2, 4], ns=[1, 0, 0, 2], misc=[0, 1])
    campaign(c, "g", gens, k, {"tile", "threads", "temporal"}, variants=v, vfn=lambda r, p, i: rand_copts(r, p),
             hist=lambda p, r, z: X.std_hist(p, r, nsteps=2))


# C16: command-line options.
@prop("C16")
def c16(c):
    CL.campaign(c, *((40, 40, 10, 600) if c.quick else (400, 400, 60, 0)))


# C17: the work statistics.
def stats_hist(p, r, dsz):
    """Runs forth and in pieces, with the statistics read or cleared in between."""
    h = X.std_hist(p, r, nsteps=1)[:-1]
    h = [x for x in h if x[0] == "fill"]
    t = r.choice([0, 0, 5, -2])
    for i in range(r.randint(3, 6)):
        k = r.choice([1, 1, 2, 3, 4])
        h.append(("run", t, t + p.dir * (k - 1)))
        t += p.dir * k
        q = r.random()
        if q < .55:
            h.append(("stats",))
            if q < .1:
                h.append(("stats",))
        elif q < .7:
            h.append(("clrstats",))
        elif q < .8:
            h.append(("xchg",))
    return h + [("stats",), ("stats",)]


@prop("C17")
def c17(c):
    n, k = (10, 16) if c.quick else (40, 40)
    gens = mix(c.rng(), n, dict(p_cond=.4, p_sc=.35, rad=2), nd=[2, 1, 3, 2], ns=[0, 0, 0, 1], misc=[0, 0, 1])
    campaign(c, "w", gens, k, {"tile", "temporal", "mpi", "threads"}, nranks=(1, 1, 2, 4), hist=stats_hist)


# C18: backward in time.
@prop("C18")
def c18(c):
    n, k = (8, 22) if c.quick else (32, 50)
    gens = mix(c.rng(), n, dict(dir=-1, p_cond=.15, p_sc=.3, rad=2), nd=[2, 1, 3, 2], ns=[0, 1, 0, 0], misc=[0, 0, 1])
    campaign(c, "b", gens, k, {"tile", "temporal", "mpi", "threads"}, nranks=(1, 1, 2, 4),
             hist=lambda p, r, z: X.std_hist(p, r, nsteps=r.randint(3, 7), start=r.choice([0, 0, 9, -3])))


NOTE = {}
TV = "TLA+ trace validation with TLC (YaskTrace/YaskSoln/YaskDSL) of random programs run under many settings"
def note(pid, text, tech=TV):
    NOTE[pid] = (tech, text)


# C14: storage of variables.
@prop("C14")
def c14(c):
    ST.campaign(c, *((400, 60) if c.quick else (1500, 120)))


# C15: auto-tuning.
@prop("C15")
def c15(c):
    TU.campaign(c, *((6, 8, 3, 6, 25, [(4, 3, 4)]) if c.quick else (20, 20, 5, 24, 80, [(4, 4, 4), (5, 4, 2), (7, 1, 8)])))


# C19: thread schedules.
@prop("C19")
def c19(c):
    TH.campaign(c, *((9, 14, 2, 12, 2, 6, ["YaskThreadsMC", "YaskThreadsMCrace"]) if c.quick else
                     (36, 40, 8, 40, 6, 30, ["YaskThreadsMC", "YaskThreadsMCa", "YaskThreadsMC4", "YaskThreadsMCrace"])))


# C20: the life cycle of solutions.
@prop("C20")
def c20(c):
    LF.campaign(c, *((150, 3000, "YaskLifeMC.cfg") if c.quick else (600, 0, "YaskLifeMC8.cfg")))


# C21: finite-difference coefficients.
@prop("C21")
def c21(c):
    FD.campaign(c, 2500 if c.quick else 60000)


note("C15", "Values: traces of runs tuned in place, stopped, restarted and tuned off-line, under clocks the check controls, are checked by TLC to be behaviours of the untuned specification (YaskTrace). Life of the tuner and the sizes it leaves: per-rank traces against YaskTuner (on/off, bound on its length, legal sizes, only the levels asked for). The search itself is model-checked for every outcome of every measurement (YaskTunerMC: ends, never repeats a size). The clock is the harness's (kd/vclock.cpp).")
note("C01", "Each distinct observed history of the real kernel is checked by TLC to be a behaviour of the specification, in which only programs, sizes and API calls exist; bounded by the sampled programs and settings. Trusts TLC, the driver and integer-exact arithmetic.")
note("C02", "As C01, over temporal sizes, multi-stage programs, partial last tiles and step conditions.")
note("C03", "As C01, over rank grids; ranks are processes connected by the harness's own MPI (kd/vmpi.cpp), whose faithfulness to MPI is trusted.")
note("C04", "As C01, over histories of element, slice, whole-variable and additive writes interleaved with runs and explicit exchanges on several ranks; every dump compares all ranks' copies, and after exchange_halos() also every copy of a neighbour's points.")
note("C05", "As C03, over seeds that permute the arrival and completion order of messages, node placements, overlap, shared-memory and packing options; a blocked run is reported as a violation.")
VTV = "TLA+ trace validation with TLC (YaskVarTrace/YaskVar) of random access calls on variables of many shapes"
note("C07", "Each rank's log of random element, slice, uniform, add and whole-variable calls (with indices in and out of range, wrong counts and short buffers) on program, user and fixed-size variables is checked by TLC to be a behaviour of the array specification; bounded by the sampled shapes and calls.", VTV)
note("C09", "As C07, mostly reductions with all masks, over slices written by all access paths; products too large for exact arithmetic are not compared.", VTV)
note("C08", "As C01 on one rank, over histories of runs, writes and reads at steps in and out of the window, forward and backward programs and step allocations; refused calls must be refused exactly when the model's window excludes the step.")
note("C11", "As C01, over programs whose equations nearly all have domain or step conditions.")
note("C12", "As C01, over programs with chains of (conditional) scratch variables, which the specification evaluates by substitution.")
note("C13", "As C01, over compiler options: targets, element sizes, folds, layouts, bundling and expression options.")
note("C17", "As C01, with the statistics read and cleared between runs; steps, points and writes exactly, the estimated operation count and times only for sign. Writes are compared exactly for programs without scratch variables and as a lower bound otherwise.")
note("C18", "As C01, over programs that write the previous step.")
note("C06", "Histories of setters in all their forms on all or single ranks, preparations and geometry queries, from a random generator and from TLC's enumeration of the states of a small configuration; the merged history of all ranks is checked by TLC to be a behaviour of YaskDecomp, whose theorem (a preparation tiles the domain and keeps what was given) TLC checks exhaustively for 2 ranks (thorough: 4). Bounded by the sampled programs and histories.", "TLA+ specification YaskDecomp checked with TLC; TLC-generated and random setting histories replayed on the kernel and validated against it")
note("C10", "TLC writes out whole families of program outlines (every dependency graph of three equations, each scratch or not; every combination of conditions on equations for the same slice; every form of every argument on either side; directions of time; missing dimensions), each of which is written as a program and given to the compiler; its verdicts must be those of YaskDeps, in which TLC also checks that legal programs can be evaluated in any order that respects their needs without getting stuck. The order used is checked by running permutations of random programs with chains of equations against YaskSoln.", "TLA+ specification YaskDeps checked with TLC; exhaustive families of outlines generated by TLC replayed into the compiler, verdicts and executions validated against it")
note("C16", "Histories of option strings, argument vectors and argc/argv arguments with legal, malformed, out-of-range, unknown and oddly quoted words, API setters, and reports of all values, for kernels of two shapes and for the compiler; TLC checks each to be a behaviour of YaskCmdLine (tokens, numbers of any size and base, lists, aliases, atomic refusal, words left over). The same lines over few words that TLC enumerates to prove that cutting a line between options does not matter are replayed too. Bounded by the sampled lines.", "TLA+ specification YaskCmdLine checked with TLC; TLC-generated and random option histories replayed into kernel and compiler, traces validated against it")
note("C20", "Random histories of life-cycle calls in and out of order on up to three solutions, with hooks that read, write, change settings and run, and histories that reach every state of a small configuration (two solutions) by every transition, as enumerated by TLC, which proves there that refused calls change nothing and solutions are independent; each replayed history, with the log of its hooks and what every solution then looks like, is checked by TLC to be a behaviour of YaskLife. Bounded by the sampled histories.", "TLA+ specification YaskLife checked with TLC; TLC-generated and random life-cycle histories replayed on the kernel and validated against it")
note("C14", "Random histories of variable and storage calls - allocate, release, fuse single variables and whole solutions, new and fixed-size variables, halo, pad, size and misc-index settings, rank sizes, padding options, prepare, run, end, element accesses - on up to three solutions of one program (with further handles sharing variables), each on 1 or 2 ranks; TLC checks that every call's outcome, every variable's reported geometry (sizes, halos, pads, extra pads, first and last indices, storage), and every element read back is allowed by YaskStore, in which handles refer to bases, and a base has its sizes, its storage and its data. Bounded by the sampled histories.", "TLA+ specification YaskStore; random histories of storage calls run on the kernel and validated against it with TLC")
note("C19", "The kernel is linked with an OpenMP run-time of this check's own whose threads are fibers: which thread runs is a function of a seed, and can change at every memory access. Random programs, settings, tile sizes and thread counts on both levels run under many such schedules; the histories are checked against YaskSoln. The run-time also records which storage each thread of a phase (between two barriers) reads and writes; TLC checks each recorded phase to be one that YaskThreads allows (no storage written by one thread and read or written by another, except by atomic additions), and YaskThreads' theorem - such phases have one result whatever the interleaving, others may not - is model-checked, as are the additions. Host threads that call the variables' API run under the same schedules. Bounded by the sampled programs, settings and schedules; weak-memory effects are not modelled. Reads are judged in scalar code only, as vector code reads lanes that it does not use.", "TLA+ specification YaskThreads checked with TLC; recorded phases of kernels under a controlled OpenMP run-time validated against it, histories of scheduled runs validated against YaskSoln")
note("C21", "Calls of all four functions - every sequence of up to four sample points out of six with several evaluation points and orders, written out by TLC, and random points, spacings, orders and refused arguments - are checked by TLC against YaskFD, modulo two primes after exact scaling to integers; TLC proves, for the small sequences, that YaskFD's coefficients are exact for polynomials and follow from each other when a point is added. Bounded to 15 points and orders up to 6.", "TLA+ specification YaskFD checked with TLC; recorded calls, TLC-enumerated and random, validated against it")
