"""C10: which programs the compiler must refuse, and the order of equations.
TLC writes out whole families of program outlines (YaskDepsGen); each is
turned into a program in one of the ways there are to write it and given to
the compiler; the verdicts are validated against YaskDeps."""
import concurrent.futures as cf
import json
import os
import random
import subprocess

import build as B
import run as R

OFFS, CONST, BADA = 0, 1, 2


def offs(r, ix, k):
    """Ways to write ix + k."""
    i = ["i", ix]
    if k == 0 and r.random() < .7:
        return i
    q = r.random()
    if q < .4:
        return ["+", i, ["c", k]]
    if q < .6:
        return ["-", i, ["c", -k]]
    if q < .75:
        return ["+", ["c", k], i]
    j = r.randint(-2, 2)
    if q < .9:
        return ["-", ["+", i, ["c", j]], ["c", j - k]]
    return ["+", ["-", i, ["c", j]], ["c", j + k]]


BAD = dict(
    s=[["i", "x"], ["*", ["c", 2], ["i", "t"]], ["neg", ["i", "t"]], ["+", ["i", "t"], ["i", "t"]],
       ["+", ["i", "t"], ["r", 0.5]], ["i", "m"]],
    d=[["i", "t"], ["*", ["i", "x"], ["c", 2]], ["neg", ["i", "x"]], ["+", ["i", "x"], ["i", "x"]],
       ["-", ["i", "x"], ["r", 1.5]], ["i", "m"]],
    m=[["i", "m"], ["i", "x"], ["r", 1.5], ["+", ["i", "m"], ["c", 1]], ["+", ["i", "t"], ["c", 1]], ["*", ["i", "m"], ["c", 2]]])
COND = {0: "-", 1: ["==", ["%", ["i", "x"], ["c", 2]], ["c", 0]], 2: ["!=", ["%", ["i", "x"], ["c", 2]], ["c", 0]]}
SCOND = {0: "-", 1: ["==", ["%", ["i", "t"], ["c", 2]], ["c", 0]], 2: ["==", ["%", ["i", "t"], ["c", 2]], ["c", 1]]}


def sx(e):
    return "(" + " ".join(sx(x) for x in e) + ")" if isinstance(e, list) else str(e)


def arg(r, kind, a):
    f, k = a
    ix = dict(s="t", d="x", m="m")[kind]
    if f == OFFS:
        if kind != "m" and r.random() < .5:
            return k
        return offs(r, ix, k)
    if f == CONST:
        return k if kind == "m" and r.random() < .5 else ["c", k]
    return BAD[kind][k - 1]


def render(P, r, name):
    """One of the programs with outline P."""
    names = r.sample("ABCDEFGH", len(P["vars"]))
    md = [max([len(a["m"]) for e in P["eqs"] for a in [e["lhs"]] + e["rd"] if a["v"] == i + 1] + [v["md"]]) for i, v in enumerate(P["vars"])]
    order = []          # of the dims of each var.
    for i, v in enumerate(P["vars"]):
        o = (["x"] if v["full"] else []) + ["m"] * md[i]
        r.shuffle(o)
        order.append((["t"] if v["st"] else []) + o)

    def acc(a):
        i = a["v"] - 1
        z = dict(t=[arg(r, "s", a["s"])] if a["s"] else [], x=[arg(r, "d", q) for q in a["d"]], m=[arg(r, "m", q) for q in a["m"]])
        return [names[i]] + [z[d][0] for d in order[i] if z[d]]
    out = ["solution", name, ["step", "t"], ["domain", "x"], ["misc", "m"]]
    vs = list(range(len(names)))
    r.shuffle(vs)
    for i in vs:
        out.append(["var", names[i], 1 if P["vars"][i]["scr"] else 0] + order[i])
    for e in P["eqs"]:
        ts = [["v"] + acc(a) for a in e["rd"]]
        r.shuffle(ts)
        x = ["c", r.randint(1, 9)]
        for t in ts:
            x = r.choice([["+", x, t], ["+", t, x], ["*", x, t], ["-", x, t], ["neg", ["+", x, t]], ["max", x, t]])
        out.append(["eq", acc(e["lhs"]), x, COND[e["c"]], SCOND[e["sc"]]])
    return sx(out)


OPTS = [[], [], [], ["-no-bundle", ], ["-fold", "x=4"], ["-no-opt-cse"], ["-no-opt-reorder"], ["-no-opt-comb"]]


def verdicts(progs, sd, tag):
    """progs: [(text, style, opts)] -> list of (ok|throw|error|crash, message)."""
    ycd = B.build_yc()
    n = B.JOBS
    outs = [None] * len(progs)

    def go(k):
        ids = list(range(k, len(progs), n))
        lst = sd.path("%s%d.lst" % (tag, k))
        with open(lst, "w") as f:
            for i in ids:
                pf = sd.path("%s_%d.sx" % (tag, i))
                with open(pf, "w") as g:
                    g.write(progs[i][0])
                f.write("%s -null %d -target avx2 -elem-bytes 8 %s\n" % (pf, progs[i][1], " ".join(progs[i][2])))
        p = subprocess.run([ycd, "-batch", lst], env=B.ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=800)
        for ln in p.stdout.decode("utf-8", "replace").split("\n"):
            w = ln.split(" ", 3)
            if w[0] == "RESULT":
                outs[ids[int(w[1])]] = (w[2], w[3] if len(w) > 3 else "")
        for i in ids:
            os.unlink(sd.path("%s_%d.sx" % (tag, i)))
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(go, range(n)))
    return outs


def campaign(c, reps):
    """Every outline of the families, each written in reps ways."""
    rng = c.rng("o")
    with R.Scratch() as sd, cf.ThreadPoolExecutor(4) as bg:
        mc = bg.submit(R.tlc_batch, "YaskDepsGen.tla", "YaskDepsMC.cfg", {}, sd, "mc", 300)
        gens = [bg.submit(R.tlc_batch, "YaskDepsGen.tla", "YaskDepsGen.cfg", {"FAM": str(f), "OUT": sd.path("f%d" % f)}, sd, "g%d" % f, 300)
                for f in (1, 2, 3)]
        outl = []
        B.build_yc()
        for f, g in zip((1, 2, 3), gens):
            rc, out = g.result()
            if "No error has been found" not in out:
                raise RuntimeError("generation failed: " + out[-1000:])
            outl += [json.loads(ln) for ln in open(sd.path("f%d" % f))]
        progs = []
        for i, P in enumerate(outl):
            for k in range(reps):
                r = random.Random(rng.random())
                progs.append((P, (render(P, r, "o%d_%d" % (i, k)), r.randint(0, 1), r.choice(OPTS))))
        vs = verdicts([p for _, p in progs], sd, "p")
        cases, keep = [], []
        nv = 0
        for (P, (text, style, opts)), v in zip(progs, vs):
            if v is None or v[0] not in ("ok", "throw"):
                nv += 1
                if nv <= 5:
                    c.violation("the compiler failed (%s) on %s %s" % (v, text, opts), dict(sx=text, style=style, copts=opts))
                continue
            cases.append(dict(P=P, ev=[dict(op="ok" if v[0] == "ok" else "refused")]))
            keep.append((text, style, opts, v))
        res, tot = R.validate_cases("YaskDepsTrace", cases, sd, lambda x: 0, lambda x: 1)
        for (text, style, opts, v), (ok, a, b) in zip(keep, res):
            if not ok:
                nv += 1
                if nv <= 5:
                    c.violation("the compiler %s a program that is %s: %s [options: %s] %s" % (
                        "accepted" if v[0] == "ok" else "refused", "not legal" if v[0] == "ok" else "legal", text, opts, v[1][:200]),
                        dict(sx=text, style=style, copts=opts, verdict=v))
        rc, out = mc.result()
        if "No error has been found" not in out:
            raise RuntimeError("model checking of YaskDepsGen failed: " + out[-1500:])
        g, d = R.tlc_stats(out)
        nok = sum(1 for k in keep if k[3][0] == "ok")
        c.add(states=tot["states"] + d, transitions=tot["transitions"] + g, traces_validated_against_impl=len(cases))
        c.cov.setdefault("programs_accepted", 0)
        c.add(programs_accepted=nok)
        c.log("%d outlines, %d programs: %d accepted, %d refused, %d verdicts wrong; %s" % (len(outl), len(progs), nok, len(keep) - nok, nv, tot))
        return [dict(program=k[0], verdict=k[3][0]) for k in keep[:: max(1, len(keep) // 4)][:4]]
