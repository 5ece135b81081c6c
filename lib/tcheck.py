"""The checks that compare whole executions with the specification: each is a
family of programs, build variants, histories and settings."""
import random

import explore as X
import prog as PR
import run as R


def dsize(rng, p, big=0, cap=None):
    """A random global domain size, small enough for TLC."""
    nd = len(p.dd)
    lo, hi = {1: (20, 60), 2: (9, 21), 3: (6, 10), 4: (4, 6)}[nd]
    z = [rng.randint(lo + big, hi + big) for _ in p.dd]
    return z


def settings(rng, p, kw, dsz, use, nranks=(1,)):
    return R.Settings(rng, p.dd, dsz, step=p.step, nranks=nranks, use=set(use), maxhalo=X.maxhalo(p),
                      fold=X.parse_fold(kw.get("copts", [])), nstages=X.nstages(p))


def campaign(c, name, gens, nset, use, nranks=(1,), variants=1, hist=None, ndsz=1, vfn=None, dfn=None, sfn=None):
    """gens: list of generator profiles (or Prog). One exploration."""
    rng = c.rng(name)
    specs = []
    for i, g in enumerate(gens):
        r = random.Random(rng.random())
        p = g if isinstance(g, PR.Prog) else PR.Gen(r, g).gen("%s%d" % (name, i))
        kws = []
        for k in range(variants):
            kws.append(vfn(r, p, k) if vfn else X.rand_variant(r, p))
        specs.append((p, kws))
    ex = X.Exp(c)
    for p, exes in ex.build(specs):
        for k in range(ndsz):
            r = random.Random(rng.random())
            dsz = (dfn or dsize)(r, p)
            h = hist(p, r, dsz) if hist else X.std_hist(p, r)
            for exe, kw in exes:
                S = settings(r, p, kw, dsz, use, nranks)
                for i in range(nset):
                    st = S.one()
                    if sfn:
                        st = sfn(r, p, st, i)
                    ex.add(p, exe, kw, dsz, h, st)
    return ex.run()
