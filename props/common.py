"""Contract vocabulary shared by the properties."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dv"))
from spec import *            # noqa
from driver import Job        # noqa
from engine import Content    # noqa

F64, F32, I64, PTR = ("f", 64), ("f", 32), ("i", 64), ("ptr",)


def ft(elt):
    return F64 if elt == 8 else F32


def uz(f, i, n):
    """element i of array f, zero outside [0,n)"""
    return ite(And(i.ge(0), i.lt(n)), app(f, (i,), "R"), R(0))


def el(name):
    return lambda i: app(name, (i,), "R")


def conv_sum(a, na, b, nb, N):
    """(a*b)[N] = sum over k in [0,N] of a[k] b[N-k], elements outside the arrays being zero"""
    return Sum(I(0), N + 1, lambda k: uz(a, k, na) * uz(b, N - k, nb))


def same_obj(e, st, p, q, what):
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is q.obj):
        e.require(st, FALSE, "%s:pre(%s: both iterators belong to one array)" % (e.cur, what))
        return False
    return True


def mem_elem(e, st, p, n, i, elt):
    """element i of the array at p, zero outside [0,n)"""
    s = st.fork()
    c = And(i.ge(0), i.lt(n))
    if p.obj is None:
        return R(0)
    s.assume(c)
    if not e.pv.feasible(s.pc):
        return R(0)
    return ite(c, e.read(s, p.obj, p.off + elt * i, ft(elt)), R(0))


def conv_kernel_contract(e, st, args, ins, elt=8):
    """ConvolutionSlide / ConvolutionReduceVec(first1,last1,first2,last2,firstOut,lastOut,n,accumulate)"""
    f1, l1, f2, l2, fo, lo, n, acc = args[:8]
    if not (same_obj(e, st, f1, l1, "first operand") and same_obj(e, st, f2, l2, "second operand") and same_obj(e, st, fo, lo, "output")):
        return []
    na, nb, no = [idiv(x.off - y.off, elt) for x, y in ((l1, f1), (l2, f2), (lo, fo))]
    e.require(st, And(na.ge(0), nb.ge(0), no.ge(0), n.ge(0)), "%s:pre(convolution kernel: sizes not negative)" % e.cur)
    e.require(st, Or(no.eq(0), And(na.ge(1), nb.ge(1), (n + no).le(na + nb - 1))), "%s:pre(convolution kernel: output range inside the full convolution)" % e.cur)
    for p, q, w in ((f1, l1, "first operand"), (f2, l2, "second operand"), (fo, lo, "output")):
        if p.obj is not None:
            e.require(st, And(p.off.ge(0), q.off.le(p.obj.size)), "%s:pre(convolution kernel: %s in bounds)" % (e.cur, w))
    if fo.obj is None:
        return [(st, "ret", None)]
    if fo.obj.readonly:
        e.require(st, Or(no.eq(0)), "%s:frame(output is assignable)" % e.cur)
    if not e.pv.feasible(st.pc, (no.ge(1),)):
        return [(st, "ret", None)]
    e.require(st, T.bconst(fo.obj is not f1.obj and fo.obj is not f2.obj), "%s:pre(convolution kernel: output does not overlap the operands)" % e.cur)
    ent = st.mem[fo.obj]
    base_off = fo.off
    st0 = st.fork()

    def one(st, isacc):
        def f(rst, offb, ty):
            j = (offb - base_off).divides_exact(elt)
            if j is None:
                return e.fresh_val(ty)
            s = rst.fork()
            s.mem = dict(st0.mem)
            N = n + j

            def body(k):
                s2 = s.fork()
                s2.assume(And(k.ge(0), k.le(N)))
                return mem_elem(e, s2, f1, na, k, elt) * mem_elem(e, s2, f2, nb, N - k, elt)
            v = Sum(I(0), N + 1, body)
            if isacc:
                v = v + e.read(s, fo.obj, offb, ty, content=ent)
            return v
        st.mem[fo.obj] = Content(ent, "fn", (base_off, lo.off, f))
        return (st, "ret", None)
    if isinstance(acc, Poly):
        acc = acc.ne(0)
    if acc is TRUE or acc is FALSE:
        return [one(st, acc is TRUE)]
    s1, s2 = st.fork(), st.fork()
    s1.assume(acc)
    s2.assume(Not(acc))
    return [one(s, b) for s, b in ((s1, True), (s2, False)) if e.pv.feasible(s.pc)]


def reduce_loop_contract(elt):
    """ConvolutionReduceLoop(first1,first2,accumulator,count): lane l gains sum_m first1[m]*first2[l-m]"""
    def h(e, st, args, ins):
        p1, p2, x, cnt = args
        e.require(st, cnt.ge(0), "%s:pre(ReduceLoop: count not negative)" % e.cur)
        L = len(x) if isinstance(x, tuple) else 1
        e.require(st, Implies(cnt.ge(1), And(p1.off.ge(0), (p1.off + elt * cnt).le(p1.obj.size))), "%s:pre(ReduceLoop: first operand in bounds)" % e.cur)
        e.require(st, Implies(cnt.ge(1), And((p2.off - elt * (cnt - 1)).ge(0), (p2.off + elt * L).le(p2.obj.size))), "%s:pre(ReduceLoop: second operand in bounds)" % e.cur)
        res = []
        for l in range(L):
            def body(m, l=l):
                s = st.fork()
                s.assume(And(m.ge(0), m.lt(cnt)))
                return e.read(s, p1.obj, p1.off + elt * m, ft(elt)) * e.read(s, p2.obj, p2.off + elt * (l - m), ft(elt))
            x0 = x[l] if isinstance(x, tuple) else x
            res.append(x0 if not e.pv.feasible(st.pc, (cnt.ge(1),)) else x0 + Sum(I(0), cnt, body))
        return [(st, "ret", tuple(res) if isinstance(x, tuple) else res[0])]
    return h


def keep_contract(p, frag, handler):
    p.e.contract_match.append((lambda n, frag=frag: frag in n, handler))
