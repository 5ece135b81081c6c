"""Histories of life-cycle calls on several solutions of one program, with hooks
that act, replayed on the kernel and validated against YaskLife. Histories come
from a random generator and from TLC's enumeration of the states of YaskLifeMC."""
import concurrent.futures as cf
import json
import random
import re

import explore as X
import prog as PR
import run as R

UND = 2000000001
SIZES = [16, 32, 48]


def program(name, d):
    """The program of YaskLife."""
    p = PR.Prog(name, ["x"], [], d)
    p.var("u", ["t", "x"])
    p.var("v", ["t", "x"])
    p.var("w", ["x"])
    p.eq("u", [], ["+", ["+", ["v", "u", [-d, 0]], ["v", "v", [0, 0]]], ["v", "w", [0]]])
    p.eq("v", [], ["-", ["v", "u", [d, 0]], ["v", "v", [0, 0]]])
    return p


def idx(v, w="F"):
    return "d0" if v == "w" else "%s0 d0" % w


def cmd(e):
    """The driver's command for an operation."""
    o = e["op"]
    return {"new": lambda: "soln %(s)d", "from": lambda: "solnfrom %(s)d %(o)d", "del": lambda: "delsoln %(s)d",
            "rsize": lambda: "rsizev %(n)d" if e.get("vec") else "rsize x %(n)d",
            "osize": lambda: "osizev %(n)d" if e.get("vec") else "osize x %(n)d",
            "optl": lambda: "opts -lx %(n)d", "optg": lambda: "opts -gx %(n)d", "tune": lambda: "opts -bx %(n)d",
            "bsize": lambda: "bsize x %(n)d", "prep": lambda: "tryprep", "run": lambda: "run %(a)d %(b)d", "end": lambda: "end",
            "rel": lambda: "relstor %(v)s", "setall": lambda: "setall %(v)s %(n)d", "xchg": lambda: "xchg",
            "get": lambda: "get all %(v)s " + idx(e["v"], "FL"[e["w"]]), "win": lambda: "win %(v)s", "stor": lambda: "stor %(v)s",
            "geom": lambda: "geom", "stats": lambda: "stats", "clrstats": lambda: "clrstats",
            "hook": lambda: "hook %(kind)s %(tag)d" + hcmd(e)}[o]() % e


def hcmd(e):
    return {"none": "", "setall": " setall %s %d" % (e["v"], e["n"]), "get": " get all %s %s" % (e["v"], idx(e["v"])),
            "bsize": " bsize x 16", "run": " run %d %d" % (e["n"], e["n"])}[e["k"]]


def hook(r, tag, runs=True):
    kind = r.choice(["bp", "ap", "br", "ar", "br", "ar"])
    k = r.choice(["none", "setall", "setall", "get", "get"] + (["bsize"] if r.random() < .4 else []) +
                 (["run"] if kind == "ap" and runs else []))
    return dict(op="hook", kind=kind, tag=tag, k=k, v=r.choice("uvw"), n=r.randint(-9, 9) if k != "run" else r.randint(0, 3))


def history(r, d, ns, n):
    """A random history; legal sequences are likely, out-of-order calls common."""
    h, live, tag, made, t = [], set(), 0, 0, {}
    runs = 0

    def op(**k):
        h.append(k)
    for _ in range(n):
        if not live or (len(live) < ns and r.random() < .12):
            s = r.choice([i for i in range(1, ns + 1) if i not in live])
            if live and r.random() < .5:
                op(op="from", s=s, o=r.choice(sorted(live)))
            else:
                op(op="new", s=s)
            live.add(s)
            t[s] = r.choice([0, 0, 3, -2])
            if r.random() < .7:
                op(op=r.choice(["rsize", "osize"]), s=s, n=r.choice(SIZES), vec=r.randint(0, 1))
            for _ in range(r.choice([0, 1, 2, 4])):
                tag += 1
                op(s=s, **hook(r, tag))
            if r.random() < .8:
                op(op="prep", s=s)
            continue
        s = r.choice(sorted(live))
        q = r.random()
        if q < .2 and runs < 14:
            k = r.choice([1, 1, 2, 3])
            if r.random() < .15:
                t[s] += r.choice([-3, 2, 5])
            op(op="run", s=s, a=t[s], b=t[s] + d * (k - 1))
            t[s] += d * k
            runs += k
        elif q < .32:
            op(op="prep", s=s)
        elif q < .38:
            op(op="end", s=s)
            if r.random() < .3:
                op(op="run", s=s, a=t[s], b=t[s])
        elif q < .42:
            op(op="rel", s=s, v=r.choice("uvw"))
        elif q < .5:
            op(op=r.choice(["rsize", "osize"]), s=s, n=r.choice(SIZES), vec=r.randint(0, 1))
        elif q < .53:
            o = r.choice(["optl", "optg"])
            op(op=o, s=s, n=r.choice(SIZES + [0]))
            op(op="prep", s=s)
        elif q < .57:
            op(op="bsize", s=s, n=r.choice([8, 16]))
        elif q < .6:
            op(op="tune", s=s, n=r.choice([8, 16]))
        elif q < .67:
            tag += 1
            op(s=s, **hook(r, tag, runs < 10))
            runs += 2
        elif q < .82:
            for v in r.sample("uvw", r.choice([1, 3])):
                op(op="setall", s=s, v=v, n=r.randint(-9, 9))
        elif q < .9:
            op(op="get", s=s, v=r.choice("uvw"), w=r.randint(0, 1))
        elif q < .93:
            op(op=r.choice(["stats", "clrstats"]), s=s)
        elif q < .96:
            op(op="xchg", s=s)
        elif len(live) > 1 or r.random() < .3:
            op(op="del", s=s)
            live.discard(s)
    return h


def observe(r, h, full):
    """Adds what is looked at after the operations."""
    out, live = [], []
    for e in h:
        out.append(e)
        if e["op"] in ("new", "from"):
            live.append(e["s"])
        if e["op"] == "del":
            live.remove(e["s"])
        if e["op"] in ("hook", "get", "win", "stor", "stats", "geom"):
            continue
        if full or r.random() < .3:
            for s in live:
                if full and s != e["s"] and r.random() < .6:
                    continue
                out += look(s)
    for s in live:
        out += look(s)
        out.append(dict(op="stats", s=s))
    return out


def look(s):
    z = []
    for v in "uvw":
        z.append(dict(op="stor", s=s, v=v))
        if v != "w":
            z.append(dict(op="win", s=s, v=v))
        z += [dict(op="get", s=s, v=v, w=w) for w in ((0,) if v == "w" else (0, 1))]
    return z + [dict(op="geom", s=s)]


def script(h):
    L, M = [], []
    cur = None
    for e in h:
        if cur != e["s"] and e["op"] not in ("new", "from", "del"):
            L.append("use %d" % e["s"])
            M.append(None)
        cur = e["s"] if e["op"] != "del" else None
        L.append(cmd(e))
        M.append(e)
        if e["op"] in ("prep", "run"):
            L.append("hooklog")
            M.append("log")
    return L, M


def events(L, M, evs, base):
    """Merges the meaning of the script with what one rank reported."""
    by = {e["l"]: e for e in evs if "l" in e}
    out = []
    for i, (ln, m) in enumerate(zip(L, M)):
        e = by.get(base + i + 1)
        if e is None:
            return None, "no outcome of '%s'" % ln
        if "err" in e:
            return None, "'%s' failed: %s" % (ln, e["err"])
        if m is None:
            continue
        if m == "log":
            lg = []
            for x in e["log"]:
                if x.get("s", -1) < 1:
                    return None, "a hook was called with a solution that does not exist"
                v = x.get("val", UND)
                lg.append(dict(tag=int(x["tag"]), s=x["s"], a=x["a"], b=x["b"], r=v if isinstance(v, int) else UND - 1, x=int("exc" in x)))
            out[-1]["log"] = lg
            continue
        f = dict(m, ex=int("exc" in e), log=[])
        o = m["op"]
        if o == "get":
            v = e.get("val", 0)
            f["val"] = v if isinstance(v, int) and abs(v) < 2000000000 else UND - 1
        elif o == "win":
            f.update(lo=e.get("fv", 0), hi=e.get("lv", 0))
        elif o == "stor":
            f["y"] = e.get("alloced", -1) if e.get("alloced") == e.get("raw") else -1
        elif o == "geom":
            f.update(rs=e["rsz"][0], gs=e["osz"][0])
        elif o == "stats":
            f.update(el=e.get("elems", -1), st=e.get("steps", -1))
        out.append(f)
    return out, ""


def slots(exe, sd):
    """How many steps the compiler stores of u and v."""
    rc, evs, err = R.exec_script(exe, "soln 0\nrsize x 16\nprep\nwin u\nwin v\n", sd, "slots", 1, {}, 60)
    z = [e for e in evs[0] if e.get("op") == "win"]
    return [e["lv"] - e["fv"] + 1 for e in z]


def model_histories(out):
    """The histories that reach each state of YaskLifeMC by each transition."""
    hs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'<<"ST", "(.*)">>', out)]
    if not hs:
        raise RuntimeError("no histories from TLC: " + out[-1500:])
    return [h for h in hs if len(h) > 1]


def campaign(c, nrand, nmodel, mcfg):
    rng = c.rng("l")
    progs = [(program("life%d" % i, d), [dict(copts=["-fold", "x=%d" % f])]) for i, (d, f) in enumerate([(1, 4), (-1, 2)])]
    with R.Scratch() as sd, cf.ThreadPoolExecutor(1) as bg:
        mc = bg.submit(R.tlc_batch, "YaskLifeMC.tla", mcfg, {}, sd, "mc", 600)
        built = list(X.Exp(c).build(progs))
        par = [dict(d=p.dir, av=0, au=0, nr=1) for p, _ in built]
        for z, (p, exes) in zip(par, built):
            z["au"], z["av"] = slots(exes[0][0], sd)
        jobs = []           # (program index, ranks, [histories])
        for i in range(nrand):
            r = random.Random(rng.random())
            k = r.randint(0, len(built) - 1)
            nr = 2 if i % 5 == 4 else 1
            h = observe(r, history(r, par[k]["d"], 3, r.randint(15, 40)), r.random() < .3)
            jobs.append((k, nr, [h]))
        rc, out = mc.result()
        if "No error has been found" not in out:
            raise RuntimeError("model checking of YaskLifeMC failed: " + out[-1500:])
        g, d = R.tlc_stats(out)
        c.add(states=d, transitions=g)
        ms = model_histories(out)
        rng.shuffle(ms)
        ms = ms[:nmodel] if nmodel else ms
        for k in range(0, len(ms), 40):
            jobs.append((0, 1, [observe(rng, h, False) for h in ms[k:k + 40]]))

        def go(a):
            i, (k, nr, hs) = a
            txt, parts = "", []
            n = 0
            for h in hs:
                L, M = script(h)
                parts.append((L, M, n))
                live = set()
                for e in h:
                    live.add(e["s"]) if e["op"] in ("new", "from") else live.discard(e["s"]) if e["op"] == "del" else None
                L2 = ["delsoln %d" % s for s in sorted(live)]
                txt += "\n".join(L + L2) + "\n"
                n += len(L) + len(L2)
            exe = built[k][1][0][0]
            rc, evs, err = R.exec_script(exe, txt, sd, "l%d" % i, nr, {}, 100)
            return rc, evs, err, txt, parts
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(go, enumerate(jobs)))
        cases, keep, nv = [], [], 0

        def bad(what, rp):
            nonlocal nv
            nv += 1
            if nv <= 5:
                c.violation(what, rp)
        for (k, nr, hs), (rc, evs, err, txt, parts) in zip(jobs, outs):
            p, exes = built[k]
            rp = dict(script=txt, nranks=nr, sx=p.sx(), variant=exes[0][1])
            one = [[events(L, M, ev, n) for L, M, n in parts] for ev in evs]
            done = False
            for j in range(len(parts)):
                for rk in range(nr):
                    ev, why = one[rk][j]
                    if not done and (ev is None or (rc and j == len(parts) - 1)):
                        done = True
                        bad("life cycle: %s (exit code %d: %s)" % (why or "died at the end", rc, err[-300:]), rp)
                if done:
                    break
                for rk in range(nr):
                    cases.append(dict(P=dict(par[k], nr=nr), ns=3, ev=one[rk][j][0]))
                    keep.append(rp)
        res, tot = R.validate_cases("YaskLifeTrace", cases, sd, lambda x: 0, lambda x: len(x["ev"]))
    for x, rp, (ok, a, b) in zip(cases, keep, res):
        if not ok:
            e = x["ev"][a] if 0 <= a < len(x["ev"]) else {}
            bad("life cycle: event %d is not allowed by the specification: %s, after %s [%s]" % (
                a + 1, json.dumps(e), json.dumps(x["ev"][max(0, a - 6):a]), x.get("tlc", "")[-200:]), rp)
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.cov["samples"] = [dict(history=[cmd(e) for e in j[2][0]][:14]) for j in jobs[:: max(1, len(jobs) // 4)][:4]]
    c.log("%d histories (%d from TLC), %d rejected; %s" % (len(cases), len(ms), nv, tot))
