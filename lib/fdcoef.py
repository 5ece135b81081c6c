"""C21: finite-difference coefficients. Calls with every short sequence of
small points (from TLC) and with random points, spacings and orders; TLC
checks the recorded results against YaskFD."""
import json, os, random, subprocess
import concurrent.futures as cf
from fractions import Fraction as F
import build as B
import run as R

P1, P2 = 30011, 32003


def points(q):
    f, r = q["f"], q["r"]
    if f == "A":
        return q["x"]
    return list(range(-r, r + 1)) if f == "C" else list(range(0, r + 1)) if f == "F" else list(range(-r, 1))


def size(q):
    """The largest integer the results stand for."""
    x, e, m = points(q), q["e"] if q["f"] == "A" else 0, q["m"]
    row = [1] + [0] * len(x)
    for y in x:
        row = [(row[k - 1] if k else 0) + abs(y - e) * row[k] for k in range(len(x) + 1)]
    z = row[m] if m <= len(x) else 0
    for k in range(2, m + 1):
        z *= k
    return z


def rand_query(r):
    while True:
        m = r.choice([1, 1, 2, 2, 3, 4, 5, 6])
        k = r.random()
        h = r.choice([F(1), F(1), F(1, 2), F(2), F(1, 8), F(1, 10), F(5, 2), F(30), F(3, 7)])
        if k < 0.08:        # to be refused
            q = dict(f=r.choice("CFBA"), m=r.choice([0, -1, 1, 2]), r=r.choice([0, -1, -5]), e=0, x=r.choice([[], [3]]), h=F(1))
            if q["m"] < 1 and r.random() < 0.6:
                q["r"] = r.randint(1, 4)
                q["x"] = [0, 1, 2]
            if q["f"] == "A":
                q["r"] = 0
            else:
                q["x"] = []
            return q
        if k < 0.35:
            f = r.choice("CFB")
            q = dict(f=f, m=m, r=r.randint(1, 7 if f == "C" else 11), e=0, x=[], h=F(1))
        elif k < 0.75:      # in order, or from some point outwards
            n = r.randint(2, 11)
            x = sorted(r.sample(range(-8, 9), n)) if r.random() < 0.5 else [i - r.randint(0, n) for i in range(n)]
            x = sorted(set(x))
            if len(x) < 2:
                continue
            if r.random() < 0.3:
                x = x[::-1]
            e = r.randint(min(x) - 1, max(x) + 1)
            if r.random() < 0.3:
                x.sort(key=lambda a: abs(a - e))
            q = dict(f="A", m=m, r=0, e=e, x=x, h=h)
        else:
            x = r.sample(range(-6, 7), r.randint(2, 7))
            q = dict(f="A", m=m, r=0, e=r.randint(-7, 7), x=x, h=h)
        if size(q) < 10 ** 9:
            return q


def line(q):
    if q["f"] != "A":
        return "%s %d %d" % (q["f"], q["m"], q["r"])
    return "A %d %s %d %s" % (q["m"], float(q["e"] * q["h"]).hex(), len(q["x"]), " ".join(float(a * q["h"]).hex() for a in q["x"]))


def event(q, o):
    z = dict(f=q["f"], m=q["m"], r=q["r"], e=q["e"], x=q["x"], exc=int("exc" in o), k1=[], k2=[], near=[])
    worst = 0
    if "c" in o:
        x = points(q)
        h = q["h"]
        c = [float.fromhex(a) if "n" not in a.lower() else None for a in o["c"]]
        for i, a in enumerate(c):
            k = F(0)
            ok = a is not None
            if ok:
                k = F(a) * h ** q["m"]
                for j, y in enumerate(x):
                    if j != i and i < len(x):
                        k *= x[i] - y
            n = round(k)
            d = abs(k - n)
            worst = max(worst, d)
            z["k1"].append(n % P1)
            z["k2"].append(n % P2)
            z["near"].append(int(ok and d < F(1, 50)))
    return z, worst


def campaign(c, nrand):
    rng = c.rng("fd")
    with R.Scratch() as sd:
        ycd = B.build_yc()
        rc, out = R.tlc_batch("YaskFDMC.tla", "YaskFDMC.cfg", {"OUT": sd.path("pts")}, sd, "mc", 300)
        if "No error has been found" not in out:
            raise RuntimeError("model checking of YaskFDMC failed: " + out[-1500:])
        g, d = R.tlc_stats(out)
        c.add(states=d, transitions=g)
        qs = []
        for ln in open(sd.path("pts")):
            x = json.loads(ln)
            for e in (-1, 0, 1, 2):
                for m in (1, 2, 3, 4, 5):
                    qs.append(dict(f="A", m=m, r=0, e=e, x=x, h=F(1)))
        for f in "CFB":
            for r in range(-1, 6):
                for m in range(-1, 6):
                    qs.append(dict(f=f, m=m, r=r, e=0, x=[], h=F(1)))
        qs += [rand_query(rng) for _ in range(nrand)]
        rng.shuffle(qs)
        jobs = [qs[i:i + 100] for i in range(0, len(qs), 100)]

        def go(a):
            i, q = a
            f = sd.path("f%d" % i)
            with open(f, "w") as h:
                h.write("".join(line(x) + "\n" for x in q))
            z = subprocess.run([ycd, "-fd", f], env=B.ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            evs = [json.loads(ln) for ln in z.stdout.decode("utf-8", "replace").split("\n") if ln.startswith("{") and ln.endswith("}")]
            return z.returncode, evs, z.stderr.decode("utf-8", "replace")
        with cf.ThreadPoolExecutor(B.JOBS) as ex:
            outs = list(ex.map(go, enumerate(jobs)))
        cases, keep, nv, worst = [], [], 0, 0
        for q, (rc, evs, err) in zip(jobs, outs):
            if rc or len(evs) != len(q):
                nv += 1
                if nv <= 5:
                    c.violation("finite-difference call ended the program (%d: %s): %s" % (rc, err[-200:], line(q[len(evs)]) if len(evs) < len(q) else ""),
                                dict(fd="".join(line(x) + "\n" for x in q[:len(evs) + 1])))
                continue
            es = []
            for x, o in zip(q, evs):
                e, w = event(x, o)
                worst = max(worst, w)
                es.append(e)
            cases.append(dict(ev=es))
            keep.append(q)
        res, tot = R.validate_cases("YaskFDTrace", cases, sd, lambda x: 0, lambda x: len(x["ev"]))
    for x, q, (ok, a, b) in zip(cases, keep, res):
        if not ok:
            nv += 1
            if nv <= 5:
                e = x["ev"][a] if a < len(x["ev"]) else {}
                c.violation("finite-difference coefficients: not those of the specification: %s: %s" % (line(q[a]) if a < len(q) else "", e), dict(fd="".join(line(y) + "\n" for y in q[:a + 1])))
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.cov["samples"] = [dict(calls=[line(y) for y in q[:3]]) for q in keep[:3]]
    c.log("%d calls in %d histories, %d rejected; farthest from an integer %.2g; %s" % (len(qs), len(jobs), nv, float(worst), tot))
