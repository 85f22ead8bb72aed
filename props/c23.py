"""C23: filter descriptions reject invalid parameters and carry valid ones."""
from common import *
from fractions import Fraction
import re
import llparse

T_ = "normalized sorted2 sorted4".split()
DESIGN = "low high pass stop arb hilbert".split()
# family: number of fields, carries a grid
W2, W3, W1, AW, AL, LS, LB, HI = (2, 0), (3, 0), (1, 0), (2, 0), (2, 1), (5, 1), (9, 1), (2, 1)
S0, B0, S1, B1, S3, B3 = (1, 0), (2, 0), (2, 0), (3, 0), (3, 0), (4, 0)


def table():
    """wrapper: fields, grid, fields set by the parameters (-1: grid), number of frequencies among the parameters"""
    t = {}

    def setter(name, fam, idx, freq=0, first=False):
        t[name] = fam + (idx, freq, False)
        if first:
            a, b = name.rsplit("_", 1)
            t[a + "_first_" + b] = fam + (idx, freq, True)
    for n in ("w_low", "w_high"):
        setter(n + "_cutoff", W2, [0], 1)
        setter(n + "_window", W2, [1])
    for n in ("w_pass", "w_stop"):
        setter(n + "_band", W3, [0, 1], 2)
        setter(n + "_window", W3, [2])
    setter("w_hilbert_window", W1, [0])
    setter("w_arb_response", AW, [0])
    setter("w_arb_window", AW, [1])
    for n in ("ls_low", "ls_high"):
        setter(n + "_cutoff", LS, [0, 1], 2, True)
        setter(n + "_weight", LS, [2, 3, 4], 0, True)
        setter(n + "_grid", LS, [-1])
    for n in ("ls_pass", "ls_stop"):
        setter(n + "_band", LB, [0, 1, 2, 3], 4, True)
        setter(n + "_weight", LB, [4, 5, 6, 7, 8], 0, True)
        setter(n + "_grid", LB, [-1])
    setter("ls_hilbert_width", HI, [0], 0, True)
    setter("ls_hilbert_weight", HI, [1], 0, True)
    setter("ls_hilbert_grid", HI, [-1])
    setter("ls_arb_response", AL, [0])
    setter("ls_arb_weight", AL, [1])
    setter("ls_arb_grid", AL, [-1])
    for m, s, b in (("bw", S0, B0), ("c1", S1, B1), ("c2", S1, B1), ("el", S3, B3)):
        for n in ("low", "high"):
            setter("%s_%s_cutoff" % (m, n), s, [0], 1, True)
        for n in ("pass", "stop"):
            setter("%s_%s_band" % (m, n), b, [0, 1], 2, True)
        for n, base in (("low", 1), ("high", 1), ("pass", 2), ("stop", 2)):
            fam = s if base == 1 else b
            if m in ("c1", "el"):
                setter("%s_%s_pass" % (m, n), fam, [base], 0, True)
            if m in ("c2", "el"):
                setter("%s_%s_stop" % (m, n), fam, [base + (m == "el")], 0, True)
    return t


TABLE = table()
UNITS = {"s": dict(cpp="descs.cpp", exports=list(TABLE), keep=["20ThrowIfNotNormalizedI", "16ThrowIfNotSortedI"]),
         "t": dict(cpp="descs.cpp", exports=T_),
         "d": dict(cpp="lsprobe.cpp", exports=["ls_" + d for d in DESIGN], keep=["20ThrowIfNotNormalizedI", "16ThrowIfNotSortedI", "20HalfbandToHilbertOddI"])}
REPLAY = [("c23.cpp", ["-DPART1"]), "c23.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["The text of the exception message is not modelled: the path that builds it is shown never to return, so it ends in the exception.",
               "The least-squares designs are observed through an overload of fir::KernelLeastSquares for the view type of the unit that evaluates the response and the weight it receives at one arbitrary frequency; the kernel itself (Eigen) is not verified."]
BOUNDED = "NaN, infinite and denormal frequencies, chains of setters in different orders and float descriptions are checked on a grid of boundary values; least-squares designs are compared with direct calls of their kernel."


def normalized(x):
    return And(x.ge(0), x.le(1))


def ordered(xs):
    return And(*([T.TRUE] + [a.le(b) for a, b in zip(xs, xs[1:])]))


def setter(fn):
    nf, grid, idx, freq, first = TABLE[fn]

    def job(mod):
        p = Proof(mod, fn, budget=60, label="setter %s" % fn)
        o, g = p.array("o", I(nf), readonly=False), p.array("g", I(1), readonly=False)
        params = [p.real("x%d" % k) if k >= 0 else p.size("x") for k in idx]
        valid = And(*([T.TRUE] + [normalized(x) for x in params[:freq]] + [ordered(params[:freq])]))
        if first:
            d, dg = p.array("d", I(nf), readonly=False), p.array("dg", I(1), readonly=False)
            args = [o, g, d, dg] + params
        else:
            i, gi = p.array("i", I(nf)), p.size("gi")
            args = [o, g, i, gi] + params

        def check(cond):
            # returns only when the condition holds, throws otherwise; no exception for valid parameters
            def handler(e, st, a, ins):
                c = cond(a)
                e.require(st, Implies(valid, c), "%s:valid parameters are accepted" % fn)
                s = st.fork()
                s.assume(c)
                return [(s, "ret", None)]
            return handler
        keep_contract(p, "20ThrowIfNotNormalizedI", check(lambda a: normalized(a[0])))
        keep_contract(p, "16ThrowIfNotSortedI", check(ordered))

        def post(p, st, v):
            p.ensure(st, valid, "invalid parameters are rejected")
            rd = lambda arr, k: p.e.read(st, arr.obj, arr.off + 8 * k, F64)
            gr = lambda arr: p.e.read(st, arr.obj, arr.off, ("i", 64))
            for k in range(nf):
                want = params[idx.index(k)] if k in idx else rd(d, k) if first else app("i", (I(k),), "R")
                p.ensure(st, rd(o, k).eq(want), "field %d" % k)
            if grid:
                p.ensure(st, gr(g).eq(params[0] if -1 in idx else gr(dg) if first else gi), "grid")
        return p.run(args, post)
    return job


def no_return(mod, ins):
    """no return statement is reachable from the call: the path ends with an exception"""
    for f in mod.funcs.values():
        for b, code in f.blocks.items():
            if any(x is ins for x in code):
                llparse.analyse(f)
                seen, todo = set(), [b]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    todo += f.succ[x]
                return not any(f.blocks[x][-1].op == "ret" for x in seen)
    return False


def thrower(fn, ok):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s %s" % (fn, "accepts" if ok else "rejects"))
        xs = [p.real("x%d" % k) for k in range({"normalized": 1, "sorted2": 2, "sorted4": 4}[fn])]
        cond = normalized(xs[0]) if fn == "normalized" else ordered(xs)
        p.requires(cond if ok else Not(cond))
        if ok:
            return p.run(xs, lambda p, st, v: p.ensure(st, T.TRUE, "returns"))

        def message(e, st, a, ins):
            e.require(st, T.bconst(no_return(mod, ins)), "%s:the path of the message never returns" % fn)
            return []
        p.e.contract_match.append((lambda n: "basic_stringstream" in n, message))
        p.throws_ok = lambda p, st, v: None
        return p.run(xs, lambda p, st, v: p.ensure(st, FALSE, "invalid parameters are rejected"), want_return=False)
    return job


def smooth(f, lo, hi):
    """smooth step from 0 at lo to 1 at hi"""
    x = T.rdiv(f - lo, hi - lo)
    c = ite(x.lt(0), R(0), ite(R(1).lt(x), R(1), x))
    return 3 * c * c - 2 * c * c * c


def design(fn):
    kind = fn[3:]
    nf = {"low": 5, "high": 5, "pass": 9, "stop": 9, "arb": 2, "hilbert": 2}[kind]

    def job(mod):
        p = Proof(mod, fn, budget=60, label="least-squares design: %s" % kind)
        o, i, g = p.array("o", I(4), readonly=False), p.array("i", I(nf)), p.size("g")
        x = [app("i", (I(k),), "R") for k in range(nf)]
        f = app("o", (I(0),), "R")

        def bands(edges, weights):
            r = weights[-1]
            for e, w in reversed(list(zip(edges, weights))):
                r = ite(f.le(e), w, r)
            return r
        half = R(Fraction(1, 2))
        edges = x[:4 if nf == 9 else 2]
        if kind == "hilbert":
            edges = [half - x[0], half + x[0]]
            p.requires(x[0].gt(0))
            p.requires((x[0] * 2).le(1))
            keep_contract(p, "20ThrowIfNotNormalizedI", lambda e, st, a, ins: (e.require(st, normalized(a[0]), "%s:does not throw" % fn), [(st, "ret", None)])[1])
            keep_contract(p, "16ThrowIfNotSortedI", lambda e, st, a, ins: (e.require(st, ordered(a), "%s:does not throw" % fn), [(st, "ret", None)])[1])
            keep_contract(p, "20HalfbandToHilbertOddI", lambda e, st, a, ins: [(st, "ret", None)])
        if kind != "arb":
            for a, b in zip(edges, edges[1:]):
                p.requires(a.lt(b))
        if kind == "arb":
            p.e.contracts["ext_response"] = lambda e, st, a, ins: [(st, "ret", app("response", (a[0], a[1]), "R"))]
            p.e.contracts["ext_weight"] = lambda e, st, a, ins: [(st, "ret", app("weight", (a[0], a[1]), "R"))]
            resp, weight = app("response", (x[0], f), "R"), app("weight", (x[1], f), "R")
        elif kind in ("low", "high", "hilbert"):
            a, b = edges
            resp = smooth(f, b, a) if kind != "high" else smooth(f, a, b)
            weight = bands(edges, x[2:] if kind != "hilbert" else [R(1), x[1], R(1)])
        else:
            a, b, c, d = edges
            mid = (b + c) * half
            resp = ite(f.lt(mid), smooth(f, a, b), smooth(f, d, c)) if kind == "pass" else ite(f.lt(mid), smooth(f, b, a), smooth(f, c, d))
            weight = bands(edges, x[4:])

        def post(p, st, v):
            rd = lambda k: p.e.read(st, o.obj, o.off + 8 * k, F64)
            p.ensure(st, rd(1).eq(resp), "response at every frequency")
            p.ensure(st, rd(2).eq(weight), "weight at every frequency")
            p.ensure(st, p.e.read(st, o.obj, o.off + 24, ("i", 64)).eq(g), "grid size")
        return p.run([o, i, g], post)
    return job


def jobs(thorough):
    js = [Job(f, "s", setter(f)) for f in TABLE]
    js += [Job("%s.%s" % (f, "ok" if ok else "bad"), "t", thrower(f, ok)) for f in T_ for ok in (True, False)]
    js += [Job("design." + d, "d", design("ls_" + d)) for d in DESIGN]
    return js
