"""C22: views."""
from common import *

ELT = {"d": 8, "c": 16}
FROM_PTR = "v_ptr_size v_iters as_view_it as_view_ps as_cview_it as_cview_ps".split()
FROM_SIG = "v_signal v_csignal v_siter v_siter_size as_view_s as_view_cs as_cview_s".split()
FROM_VIEW = "v_cview v_copy as_view_v as_view_cv as_cview_v as_cview_cv".split()
SUB = "v_sub2 v_sub1 v_first v_last".split()
ATTR = "v_size v_bytes v_empty v_dist v_rdist".split()
ACC = "v_front v_back v_data v_at v_begin v_cbegin v_end v_cend v_rbegin v_crbegin v_rend v_crend".split()
EX = FROM_PTR + FROM_SIG + FROM_VIEW + SUB + ATTR + ACC + ["v_set", "v_fill", "v_copy_rev"]
UNITS = {"d": dict(cpp="containers.cpp", exports=EX, defines=["-DVIEWS"]), "c": dict(cpp="containers.cpp", exports=EX, defines=["-DVIEWS", "-DA_C"])}
REPLAY = ["c22.cpp"]
LEVEL = "proof"
ASSUMPTIONS = ["a failed assert ends the program (builds with NDEBUG do not check sub-view bounds)"]
BOUNDED = "element types float, int and complex<float>"


def parent(p, t, kind, lo=0):
    """an array of N elements and a signal or view of n of them starting at element s"""
    w = ELT[t]
    N, s, n = p.size("N"), p.size("s"), p.size("n", lo)
    p.requires((s + n).le(N))
    a = p.array("a", N * (w // 8), readonly=False)
    b, e = Ptr(a.obj, s * w), Ptr(a.obj, (s + n) * w)
    fields = [(0, PTR, b), (8, PTR, e)] + ([(16, PTR, e)] if kind == "signal" else [])
    return a, s, n, w, p.struct("v", fields, 24 if kind == "signal" else 16)


def is_range(p, st, r, a, first, count, w):
    b, e = p.e.read(st, r.obj, I(0), PTR), p.e.read(st, r.obj, I(8), PTR)
    if b.obj is None or e.obj is None:
        p.ensure(st, And(count.eq(0), T.bconst(b.obj is None and e.obj is None), b.off.eq(e.off)), "an empty view")
        return
    p.ensure(st, T.bconst(b.obj is a.obj and e.obj is a.obj), "the view refers to the parent's elements")
    p.ensure(st, b.off.eq(first * w), "first element")
    p.ensure(st, e.off.eq((first + count) * w), "end of the view")


def make(fn, t):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s<%s>" % (fn, t))
        r = p.struct("r", [], 16)
        if fn in FROM_PTR:
            w = ELT[t]
            N, s, n = p.size("N"), p.size("s"), p.size("n")
            p.requires((s + n).le(N))
            a = p.array("a", N * (w // 8), readonly=False)
            return p.run([r, Ptr(a.obj, s * w), n], lambda p, st, v: is_range(p, st, r, a, s, n, w))
        a, s, n, w, x = parent(p, t, "signal" if fn in FROM_SIG else "view")
        return p.run([r, x], lambda p, st, v: is_range(p, st, r, a, s, n, w))
    return job


def sub(fn, t, inside):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s<%s>%s" % (fn, t, "" if inside else " outside"))
        a, s, n, w, x = parent(p, t, "view")
        r = p.struct("r", [], 16)
        k, m = p.size("k"), p.size("m")
        if fn == "v_sub2":
            args, ok, first, count = [k, m], (k + m).le(n), s + k, m
        elif fn == "v_sub1":
            args, ok, first, count = [k], k.le(n), s + k, n - k
        elif fn == "v_first":
            args, ok, first, count = [k], k.le(n), s, k
        else:
            args, ok, first, count = [k], k.le(n), s + n - k, k
        p.requires(ok if inside else Not(ok))
        if inside:
            return p.run([r, x] + args, lambda p, st, v: is_range(p, st, r, a, first, count, w))
        p.e.contracts["__assert_fail"] = lambda e, st, ar, ins: []
        p.throws_ok = lambda p, st, v: None
        return p.run([r, x] + args, lambda p, st, v: p.ensure(st, FALSE, "a sub-view outside its parent is rejected"), want_return=False)
    return job


def attr(fn, t):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s<%s>" % (fn, t))
        a, s, n, w, x = parent(p, t, "view")

        def post(p, st, v):
            if fn == "v_empty":
                b = v if not isinstance(v, Poly) else v.ne(0)
                p.ensure(st, T.Iff(b, n.eq(0)), "empty exactly when without elements")
            else:
                p.ensure(st, v.eq(n * w if fn == "v_bytes" else n), "size")
        return p.run([x], post)
    return job


def access(fn, t):
    def job(mod):
        p = Proof(mod, fn, budget=60, label="%s<%s>" % (fn, t))
        a, s, n, w, x = parent(p, t, "view", 1)
        i = p.size("i")
        p.requires(i.lt(n))
        args, k = [x, i], i
        if fn in ("v_front", "v_back", "v_data"):
            args, k = [x], (n - 1 if fn == "v_back" else I(0))
        elif fn in ("v_end", "v_cend", "v_rbegin", "v_crbegin"):
            k = n - 1 - i

        def post(p, st, v):
            p.ensure(st, T.bconst(v.obj is a.obj), "refers to the parent")
            p.ensure(st, v.off.eq((s + k) * w), "refers to the element")
        return p.run(args, post)
    return job


def vset(t):
    def job(mod):
        p = Proof(mod, "v_set", budget=60, label="v_set<%s>" % t)
        a, s, n, w, x = parent(p, t, "view", 1)
        i = p.size("i")
        p.requires(i.lt(n))
        y = p.array("y", w // 8)

        def spec(j, st):
            q, e = (imod(j, 2), idiv(j, 2)) if w == 16 else (I(0), j)
            return ite(e.eq(s + i), app("y", (q,), "R"), app("a", (j,), "R"))
        return p.run([x, i, y], lambda p, st, v: p.ensure_all(st, a, idiv(a.obj.size, 8), 8, spec, "only that element is written"))
    return job


def fill(t):
    def job(mod):
        p = Proof(mod, "v_fill", budget=60, label="v_fill<%s>" % t)
        a, s, n, w, x = parent(p, t, "view")
        y = p.array("y", w // 8)

        def spec(j, st):
            q, e = (imod(j, 2), idiv(j, 2)) if w == 16 else (I(0), j)
            return ite(And(e.ge(s), e.lt(s + n)), app("y", (q,), "R"), app("a", (j,), "R"))
        return p.run([x, y], lambda p, st, v: p.ensure_all(st, a, idiv(a.obj.size, 8), 8, spec, "iteration writes every element and no other"))
    return job


def rev(t):
    def job(mod):
        p = Proof(mod, "v_copy_rev", budget=60, label="v_copy_rev<%s>" % t)
        a, s, n, w, x = parent(p, t, "view")
        o = p.array("o", n * (w // 8), readonly=False)

        def post(p, st, v):
            for q in range(w // 8):
                p.ensure_all(st, Ptr(o.obj, I(8 * q)), n, w, lambda j, s_: app("a", ((w // 8) * (s + n - 1 - j) + q,), "R"), "reverse iteration visits the elements from the back")
        return p.run([o, x], post)
    return job


def jobs(thorough):
    J = []
    for t in "dc":
        for f in FROM_PTR + FROM_SIG + FROM_VIEW:
            J.append(Job("%s<%s>" % (f, t), t, make(f, t)))
        for f in SUB:
            J += [Job("%s<%s>" % (f, t), t, sub(f, t, True)), Job("%s<%s> outside" % (f, t), t, sub(f, t, False))]
        for f in ATTR:
            J.append(Job("%s<%s>" % (f, t), t, attr(f, t)))
        for f in ACC:
            J.append(Job("%s<%s>" % (f, t), t, access(f, t)))
        J += [Job("v_set<%s>" % t, t, vset(t)), Job("v_fill<%s>" % t, t, fill(t)), Job("v_copy_rev<%s>" % t, t, rev(t))]
    return J
