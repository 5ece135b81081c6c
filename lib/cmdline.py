"""C16: options of solutions, in the kernel and in the compiler. Histories of
strings, argument vectors, API setters and reports of all values are validated
against YaskCmdLine; all short lines over a few words come from TLC."""
import concurrent.futures as cf
import json
import random
import subprocess
from decimal import Decimal

import build as B
import explore as X
import prog as PR
import run as R

BLK = ["Mb", "b", "mb", "nb", "pb"]


def ch(s):
    return [ord(c) for c in s]


class Table:
    def __init__(self):
        self.T, self.ids = [], {}

    def id(self, s):
        return self.ids.setdefault(s, len(self.ids) + 1)

    def add(self, name, kind, settings=None, allowed=(), keys=()):
        self.T.append(dict(name=name, kind=kind, vars=[self.id(s) for s in (settings or [name])], allowed=list(allowed), keys=list(keys)))

    def tla(self):
        return [dict(name=ch(o["name"]), kind=o["kind"], vars=o["vars"], allowed=[ch(a) for a in o["allowed"]], keys=[ch(a) for a in o["keys"]]) for o in self.T]


def kernel_table(dd):
    """The documented options of a kernel with these domain dims."""
    t = Table()
    for n in ("print_suffixes verbose round_up_temporal_angles allow_addl_padding overlap_comms exchange_halos use_shm "
              "force_scalar_exchange force_scalar bind_inner_threads bundle_allocs init_scratch_vars auto_tune").split():
        t.add(n, "bool")
    for n in "max_threads outer_threads inner_threads numa_pref auto_tune_radius".split():
        t.add(n, "int")
    t.add("block_threads", "int", ["inner_threads"])
    t.add("min_exterior", "idx")
    t.add("auto_tune_trial_secs", "dbl")
    t.add("auto_tune_targets", "list", allowed=BLK)
    for p in ["g", "l"] + BLK + ["d", "mp", "ep", "nr", "ri"]:
        q = "l" if p == "d" else p
        for d in (["t"] if p in ("Mb", "b") else []) + dd:
            t.add(p + d, "idx", [q + d])
        t.add(p, "idx", [q + d for d in dd])
    return t


def compiler_table():
    t = Table()
    for n in "target step-dim inner-loop-dim vars".split():
        t.add(n, "str")
    t.add("domain-dims", "list")
    for n in "elem-bytes min-buffer-len l1-prefetch-dist l2-prefetch-dist halo step-alloc max-es min-es".split():
        t.add(n, "int")
    for n in ("inner-misc-layout outer-domain-layout first-inner bundle bundle-scratch ul opt-comb opt-reorder opt-cse opt-pair "
              "use-ptrs use-safe-ptrs early-loads").split():
        t.add(n, "bool")
    t.add("fus", "bool", ["first-inner"])
    t.add("fold", "fold", ["fold x", "fold y", "fold z"], keys=["x", "y", "z"])
    return t


# -- values: the canonical forms of YaskCmdLine
def ival(n):
    n = int(n)
    return [int(n < 0)] + ([int(c) for c in str(abs(n))] if n else [])


def dval(s):
    d = Decimal(s)
    if not d:
        return [0, 0]
    sg, dg, ex = d.as_tuple()
    dg = list(dg)
    x = len(dg) + ex
    while dg[-1] == 0:
        dg.pop()
    return [sg, x] + dg


def report(t, text):
    """Values of each option's settings from the text that reports them; None if it makes no sense."""
    got = {}
    for ln in text.split("\n"):
        n, _, v = ln.strip().partition(":")
        if n:
            got[n] = v.strip()
    out = []
    for o in t.T:
        if o["name"] not in got:
            return None, "option '%s' is not reported" % o["name"]
        v = got[o["name"]]
        try:
            k = o["kind"]
            if k == "bool":
                r = [[{"0": 0, "1": 1, "false": 0, "true": 1}[v]]]
            elif k in ("int", "idx"):
                r = [ival(x) for x in v.split(",")]
            elif k == "dbl":
                r = [dval(v)]
            elif k == "str":
                if v[:1] != "'" or v[-1:] != "'":
                    raise ValueError(v)
                r = [ch(v[1:-1])]
            elif k == "list":
                r = [ch(v)]
            else:
                f = dict(x.split("=") for x in v.split(",") if x)
                r = [ival(f.get(d, 0)) for d in o["keys"]]
            if len(r) != len(o["vars"]):
                raise ValueError(v)
        except (ValueError, KeyError, ArithmeticError):
            return None, "option '%s' reports '%s'" % (o["name"], v)
        out.append(r)
    return out, ""


# -- generation
def number(r, kind, wild, size=False):
    if size and not wild:
        return str(r.choice([0, 1, 2, 3, 7, 8, 16, 37, 100, 1234]))
    if wild and r.random() < .35:
        return r.choice(["", "x", "4x", "1.5", "--3", "0x", "0xg", "08", "12a", "-", "+", "1 2", "-by", "99999999999999999999", "9223372036854775807",
                         "-9223372036854775808", "-99999999999999999999"] + (["2147483648", "-2147483649", "4294967300", "1099511627776"] if kind == "int" else []))
    q = r.random()
    n = r.choice([0, 1, 2, 3, 7, 8, 16, 37, 100, 1234])
    if q < .6 or size and (q < .7 or q >= .9):
        return str(n)
    if q < .7:
        return "-%d" % n
    if q < .75:
        return "+%d" % n
    if q < .83:
        return "0x%x" % n if r.random() < .5 else "0X%X" % n
    if q < .9:
        return "0%o" % n
    if kind == "idx":
        return r.choice(["9223372036854775806", "-9223372036854775807", "4294967296", "123456789012"])
    return r.choice(["2147483647", "-2147483648", "65536"])


def value(r, o, wild):
    k = o["kind"]
    if k in ("int", "idx"):
        # storage is laid out as soon as sizes are known: keep those small.
        return number(r, k, wild, o["name"][:2] in ("mp", "ep", "Mb", "mb") or o["name"][:1] in ("l", "d", "b"))
    if k == "dbl":
        if wild and r.random() < .35:
            return r.choice(["", "x", "1.5.2", "1e", "nan", "inf", "1e999", "0.5s", ".", "-"])
        return r.choice(["0.5", "2", "1e2", "-0.25", ".125", "3.", "1.5e-3", "0", "12345.6", "+7"])
    if k == "str":
        return r.choice(["avx2", "", "a b", "-x", "x", "it's", "pseudo"])
    if k == "list":
        if o["allowed"]:
            s = [r.choice(o["allowed"]) for _ in range(r.randint(1, 4))]
            if wild and r.random() < .35:
                s.insert(r.randint(0, len(s)), r.choice(["zz", "", "bb", "t"]))
                if s[-1] == "":
                    s.append("zz")
            return ",".join(s)
        return ",".join(r.sample(["x", "y", "z", "w"], r.randint(1, 3)))
    its = ["%s=%s" % (d, r.choice(["1", "2", "4", "8", "0x10"])) for d in r.sample(o["keys"], r.randint(1, len(o["keys"])))]
    if wild and r.random() < .35:
        its.insert(r.randint(0, len(its)), r.choice(["x", "=4", "x=", "x=4a", "x=99999999999999999999", "y=4294967298", "x=2.5", "zz"]))
    return ",".join(its)


STRAY = ["foo", "-zz", "--bx", "bx", "-bx=4", "-BX", "-no-bx", "-no-no-verbose", "-", "--", "-no-", "no-verbose", "x y", "it's", 'say "hi"', "a'b\"c d",
         "", "-verbose ", "- verbose", "-verbos", "-verbosee", "7", "-no-g", "-tt", "tab\there"]


def args(r, t, wild):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8])):
        q = r.random()
        if q < .25:
            out.append(r.choice(STRAY))
            continue
        o = r.choice(t.T)
        if o["kind"] == "bool":
            out.append(r.choice(["-", "-no-"]) + o["name"])
        else:
            out.append("-" + o["name"])
            if not (wild and r.random() < .08):
                out.append(value(r, o, wild))
    return out


def quote(r, a):
    """a as it might be written in one string."""
    safe = a and not any(c in " \t\n'\"" for c in a)
    if safe and r.random() < .7:
        return a
    out, i = "", 0
    while i < len(a):
        k = r.randint(i + 1, len(a))
        p = a[i:k]
        if "'" in p and '"' in p:
            k = i + 1
            p = a[i:k]
        if not any(c in " \t\n'\"" for c in p) and r.random() < .5:
            out += p
        elif "'" in p:
            out += '"%s"' % p
        elif '"' in p or r.random() < .5:
            out += "'%s'" % p
        else:
            out += '"%s"' % p
        i = k
    return out or r.choice(["''", '""'])


def hx(s):
    return "".join("%02x" % ord(c) for c in s) or "-"


def one_call(r, t, a, L, M, unterm=.03):
    q = r.random()
    if q < .55:
        sep = lambda: r.choice([" ", " ", "  ", "\t", " \n "])
        s = (sep() if r.random() < .2 else "") + "".join(x if i == 0 else sep() + x for i, x in enumerate(quote(r, b) for b in a)) + (sep() if r.random() < .2 else "")
        if r.random() < unterm:
            s += r.choice([" 'abc", ' "', "'"])
        L.append("optx " + hx(s))
        M.append(("opts", ch(s)))
    else:
        L.append(("optvx " if q < .8 else "optax ") + " ".join(hx(b) for b in a))
        M.append(("optv", [ch(b) for b in a]))


def history(r, t, dd, kern, n):
    L, M = [], []

    def vals():
        L.append("optvals")
        M.append(("vals",))
    vals()
    for _ in range(n):
        q = r.random()
        if kern and q < .12:
            p, cmd = r.choice([("g", "osize"), ("l", "rsize"), ("nr", "nr"), ("ri", "ri"), ("b", "bsize"), ("mp", "minpad")])
            d = r.choice(dd)
            v = r.choice([1, 8, 64, 1000])
            L.append("%s %s %d" % (cmd, d, v))
            M.append(("set", t.ids[p + d], ival(v)))
        elif kern and q < .2:
            L.append("geom")
            M.append(("eff",))
        elif not kern and q < .12:
            a = r.choice(["fold", "elem", "target"])
            if a == "fold":
                d, v = r.choice("xyz"), r.choice([1, 2, 4])
                L.append("fold %s %d" % (d, v))
                M.append(("set", t.ids["fold " + d], ival(v)))
            elif a == "elem":
                v = r.choice([4, 8])
                L.append("elem %d" % v)
                M.append(("set", t.ids["elem-bytes"], ival(v)))
            else:
                L.append("target avx512")
                M.append(("set", t.ids["target"], ch("avx512")))
        elif not kern and q < .2:
            L.append("eff")
            M.append(("eff",))
        else:
            one_call(r, t, args(r, t, r.random() < .5), L, M)
        vals()
    return L, M


def prep_history(r, t, dd):
    """Legal settings, a preparation, and what is in effect afterwards."""
    L, M = [], []
    a = []
    for d in dd:
        a += ["-g" + d if r.random() < .7 else "-l" + d, str(r.randint(8, 40))]
    for p in BLK:
        for d in dd:
            if r.random() < .4:
                a += ["-" + p + d, str(r.choice([0, 1, 3, 4, 8, 100]))]
    a += ["-inner_threads", str(r.choice([1, 2])), "-bt", str(r.choice([0, 0, 2])), "-Mbt", str(r.choice([0, 0, 2]))]
    one_call(r, t, a, L, M, 0)
    L, M = ["optvals"] + L, [("vals",)] + M
    L += ["optvals", "prep", "optvals", "geom", "optvals"]
    M += [("vals",), ("prep",), ("vals",), ("eff",), ("vals",)]
    return L, M


def lines_history(r, t, lines, kern):
    """The lines TLC wrote, over three options of the real table."""
    w = {"-b": "-b", "-bx": "-bx", "-v": "-verbose", "-no-v": "-no-verbose"} if kern else \
        {"-b": "-elem-bytes", "-bx": "-halo", "-v": "-bundle", "-no-v": "-no-bundle"}
    L, M = ["optvals"], [("vals",)]
    for ln in lines:
        a = ["".join(map(chr, x)) for x in ln]
        one_call(r, t, [w.get(x, x) for x in a], L, M)
        L.append("optvals")
        M.append(("vals",))
    return L, M


def events(t, L, M, evs, dd):
    """Merges the meaning of the script with what was reported."""
    by = {e["l"]: e for e in evs if "l" in e}
    out = []
    for i, (ln, m) in enumerate(zip(L, M)):
        e = by.get(i + 1)
        if e is None:
            return None, "no outcome of '%s'" % ln
        if "err" in e:
            return None, "'%s' failed: %s" % (ln, e["err"])
        exc = int("exc" in e)
        if m[0] == "opts":
            out.append(dict(op="opts", s=m[1], exc=exc, rem=ch(e.get("rem", ""))))
        elif m[0] == "optv":
            out.append(dict(op="optv", a=m[1], exc=exc, rem=ch(e.get("rem", ""))))
        elif m[0] == "prep":
            if exc:
                return None, "preparation refused: %s" % e["exc"]
            out.append(dict(op="prep"))
        elif exc and m[0] == "set" and "less than minimum size" in e["exc"]:
            # a setter may refuse sizes that do not fit each other; it then changes nothing.
            continue
        elif exc:
            return None, "'%s' refused: %s" % (ln, e["exc"])
        elif m[0] == "set":
            out.append(dict(op="set", i=m[1], v=m[2]))
        elif m[0] == "vals":
            v, why = report(t, e["vals"])
            if v is None:
                return None, why
            out.append(dict(op="vals", n=len(t.ids), v=v))
        elif m[0] == "eff":
            z = []
            if "osz" in e:
                for k, p in (("osz", "g"), ("rsz", "l"), ("nr", "nr"), ("ri", "ri"), ("bsz", "b")):
                    z += [dict(i=t.ids[p + d], v=ival(x)) for d, x in zip(dd, e[k])]
            else:
                z = [dict(i=t.ids["target"], v=ch(e["target"])), dict(i=t.ids["elem-bytes"], v=ival(e["elem"]))]
            out.append(dict(op="eff", e=z))
    return out, ""


def campaign(c, nk, nc, nprep, nlines):
    rng = c.rng("o")
    progs = []
    for i, dd in enumerate((["x", "y"], ["x", "y", "z"])):
        p = PR.Prog("opt%d" % i, dd, [], 1)
        p.var("A", ["t"] + dd)
        p.eq("A", [], ["+", ["v", "A", [0] + [1] + [0] * (len(dd) - 1)], ["c", 1]])
        progs.append((p, [dict(copts=["-fold", "x=4"])]))
    with R.Scratch() as sd, cf.ThreadPoolExecutor(1) as bg:
        mc = bg.submit(R.tlc_batch, "YaskCmdLineMC.tla", "YaskCmdLineMC.cfg", {"OUT": sd.path("lines")}, sd, "mc", 300)
        built = list(X.Exp(c).build(progs))
        ycd = B.build_yc()
        rc, out = mc.result()
        if "No error has been found" not in out:
            raise RuntimeError("model checking of YaskCmdLineMC failed: " + out[-1500:])
        g, d = R.tlc_stats(out)
        c.add(states=d, transitions=g)
        lines = [json.loads(x) for x in open(sd.path("lines"))]
        rng.shuffle(lines)
        ct = compiler_table()
        jobs = []       # (table, dd, exe or None, program, L, M)
        for p, exes in built:
            t = kernel_table(p.dd)
            exe = exes[0][0]
            for _ in range(nk):
                r = random.Random(rng.random())
                jobs.append((t, p.dd, exe, p) + history(r, t, p.dd, True, r.randint(6, 14)))
            for _ in range(nprep):
                r = random.Random(rng.random())
                jobs.append((t, p.dd, exe, p) + prep_history(r, t, p.dd))
        for _ in range(nc):
            r = random.Random(rng.random())
            jobs.append((ct, [], None, None) + history(r, ct, [], False, r.randint(6, 14)))
        use = lines[:nlines] if nlines else lines
        t0 = kernel_table(built[0][0].dd)
        for k in range(0, len(use), 25):
            if (k // 25) % 2:
                jobs.append((ct, [], None, None) + lines_history(rng, ct, use[k:k + 25], False))
            else:
                jobs.append((t0, built[0][0].dd, built[0][1][0][0], built[0][0]) + lines_history(rng, t0, use[k:k + 25], True))

        def go(a):
            i, (t, dd, exe, p, L, M) = a
            if exe:
                rc, evs, err = R.exec_script(exe, "soln 0\n" + "\n".join(L) + "\n", sd, "o%d" % i, 1, {}, 60)
                evs = [dict(e, l=e["l"] - 1) for e in (evs[0] if evs else []) if "l" in e]
                return rc, evs, err
            f = sd.path("c%d" % i)
            with open(f, "w") as h:
                h.write("\n".join(L) + "\n")
            z = subprocess.run([ycd, "-cmd", f], env=B.ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            evs = []
            for ln in z.stdout.decode("utf-8", "replace").split("\n"):
                if ln.startswith("{"):
                    evs.append(json.loads(ln))
            return z.returncode, evs, z.stderr.decode("utf-8", "replace")
        with cf.ThreadPoolExecutor(B.JOBS) as ex:
            outs = list(ex.map(go, enumerate(jobs)))
        cases, keep, nv = [], [], 0
        for (t, dd, exe, p, L, M), (rc, evs, err) in zip(jobs, outs):
            rp = dict(script=("soln 0\n" if exe else "") + "\n".join(L) + "\n", nranks=1, **(dict(sx=p.sx(), variant=dict(copts=["-fold", "x=4"])) if exe else {}))
            ev, why = events(t, L, M, evs, dd)
            if ev is None or rc:
                nv += 1
                if nv <= 5:
                    c.violation("%s options: %s (exit code %d: %s)" % ("kernel" if exe else "compiler", why, rc, err[-200:]), rp)
                continue
            cases.append(dict(T=t.tla(), ev=ev))
            keep.append((exe, L, M, rp))
        res, tot = R.validate_cases("YaskCmdLineTrace", cases, sd, lambda x: 0, lambda x: len(x["ev"]))
    txt = lambda s: "".join(map(chr, s))
    for x, (exe, L, M, rp), (ok, a, b) in zip(cases, keep, res):
        if not ok:
            nv += 1
            if nv <= 5:
                e = dict(x["ev"][a]) if 0 <= a < len(x["ev"]) else {}
                w = e.get("op")
                prev = x["ev"][a - 1] if a > 0 else {}
                sh = lambda e: dict(op=e.get("op"), args=txt(e["s"]) if "s" in e else [txt(q) for q in e["a"]] if "a" in e else e.get("e", ""),
                                    exc=e.get("exc"), rem=txt(e.get("rem", [])))
                c.violation("%s options: event %d is not allowed by the specification: %s, after %s [%s]" % (
                    "kernel" if exe else "compiler", a + 1, sh(e), sh(prev), x.get("tlc", "")[-200:]), rp)
    c.add(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=len(cases))
    c.cov["samples"] = [dict(where="kernel" if k[0] else "compiler", calls=[sh2(m) for m in k[2] if m[0] in ("opts", "optv")][:6]) for k in keep[:: max(1, len(keep) // 4)][:4]]
    c.log("%d histories, %d rejected; %s" % (len(jobs), nv, tot))


def sh2(m):
    return "".join(map(chr, m[1])) if m[0] == "opts" else ["".join(map(chr, a)) for a in m[1]]
