"""Symbolic executor / VC generator over the LLVM IR of the real library code.

Paths are followed exactly; every loop is cut at its header and replaced by an inductive
invariant.  Candidate invariants come from (a) templates (affine induction variables, linear
bounds taken from the branch conditions of the loop, closed forms of accumulators as finite
sums, effects of the loop on memory as range maps) and (b) the contract of the function.
A candidate is used only after it was proved to hold on entry and to be preserved by the
body (Houdini-style greatest fixpoint).  Whatever is left unproved is not assumed.
"""
import time
from fractions import Fraction
import terms as T
from terms import (Poly, B, I, R, TRUE, FALSE, And, Or, Not, Implies, Iff, poly_of, ite, idiv, imod, rdiv,
                   fresh, fresh_b, ivar, rvar, app, subst, Sum, to_real)
from llparse import analyse


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    pass


class PathLimit(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%s[%r]" % (self.obj.name if self.obj else "null", self.off)


class FnPtr:
    def __init__(self, name):
        self.name = name


class Opaque:
    """a value of unknown bit pattern"""
    __slots__ = ("val", "ty")

    def __init__(self, val, ty):
        self.val, self.ty = val, ty


class Obj:
    _n = [0]

    def __init__(self, name, size, kind, align=16):
        Obj._n[0] += 1
        self.id = Obj._n[0]
        self.name, self.size, self.kind = name, I(size), kind
        self.readonly = False
        self.elt = None
        self.hint = None     # element size of what was last written as floating point

    def __repr__(self):
        return "obj:" + self.name


class Content:
    __slots__ = ("parent", "kind", "d", "depth", "grid")

    def __init__(self, parent, kind, d):
        self.parent, self.kind, self.d = parent, kind, d
        self.depth = parent.depth + 1 if parent else 0


class State:
    __slots__ = ("env", "mem", "pc", "freed", "trace")

    def __init__(self):
        self.env, self.mem, self.pc, self.freed, self.trace = {}, {}, [], frozenset(), ()

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.freed = self.freed
        s.trace = self.trace
        return s

    def assume(self, b):
        if b is TRUE:
            return
        if b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        if b not in self.pc:
            self.pc.append(b)


class Obligation:
    __slots__ = ("name", "status", "detail", "secs", "backend")

    def __init__(self, name, status, detail="", secs=0.0, backend="z3"):
        self.name, self.status, self.detail, self.secs, self.backend = name, status, detail, secs, backend


def tsize(ty):
    k = ty[0]
    if k == "i":
        return max(1, ty[1] // 8)
    if k == "f":
        return {32: 4, 64: 8, 80: 16, 16: 2}[ty[1]]
    if k == "ptr":
        return 8
    raise TypeError(ty)


def sort_of(ty):
    if ty[0] == "f":
        return "R"
    if ty[0] == "i":
        return "I"
    return None


MEM_LAYER_LIMIT = 400
SIZE_MAX = 1 << 40


class LoopInfo:
    """what a contract's invariant generator may look at"""

    def __init__(self, eng, st, fn, header, k, phis, init, hdr):
        self.eng, self.st, self.fn, self.header, self.k = eng, st, fn, header, k
        self.phis = phis        # names
        self.init = init        # name -> initial value
        self.hdr = hdr          # name -> value at the loop header in terms of k and fresh symbols

    def reals(self):
        """flattened (name, lane, init, header value) of every real phi"""
        out = []
        for n in self.phis:
            h = self.hdr[n]
            if isinstance(h, Poly) and h.sort == "R":
                out.append((n, None, self.init[n], h))
            elif isinstance(h, tuple) and h and isinstance(h[0], Poly) and h[0].sort == "R":
                for l, x in enumerate(h):
                    out.append((n, l, self.init[n][l], x))
        return out

    def ints(self):
        out = []
        for n in self.phis:
            h = self.hdr[n]
            if isinstance(h, Poly) and h.sort == "I":
                out.append((n, self.init[n], h))
            elif isinstance(h, Ptr):
                out.append((n, self.init[n].off, h.off))
        return out


class Engine:
    def __init__(self, mod, prover, fpmode="real"):
        self.mod, self.pv, self.fpmode = mod, prover, fpmode
        self.obls = []
        self.emit = True            # record obligations
        self.nofork = False
        self.hints = []             # summand functions g(i)
        self.joint_cands = []       # fn(loopinfo) -> [B]: tried together with memory invariants
        self.mem_inv = []           # fn(loopinfo, obj, entry_content) -> list of fn(k)->Content
        self.loop_cands = []        # fn(loopinfo) -> list of B over header symbols
        self.contracts = {}         # name -> handler(engine, st, args, inst) -> [(st, val)]
        self.contract_match = []    # (predicate(name), handler)
        self.inlined = set()
        self.contract_used = set()
        self.globals = {}
        self.depth = 0
        self.npaths = 0
        self.quot_hook = None
        self.quot_memo = {}
        self.maxpaths = 6000
        self.cur = ""
        self.assumed = set()
        self.deadline = None
        self.trace_on = False
        self.check_bounds = True
        self.loops_done = set()
        self.loops_havoc = set()
        self.ptr_domain = {}

    # ------------------------------------------------------------------ obligations
    def require(self, st, cond, name, detail=""):
        """a proof obligation; afterwards it is assumed on this path"""
        if self.emit and cond is not TRUE:
            t0 = time.time()
            self.pv.last_model = None
            r = self.pv.prove(st.pc, cond)
            if r != "proved" and self.pv.cex is None:
                self.pv.cex = self.pv.last_model
            self.obls.append(Obligation(name, r, "" if r == "proved" else detail or repr(cond)[:2000], time.time() - t0))
            if r != "proved":
                self.obls[-1].detail += "\n  path: " + "; ".join(repr(x) for x in st.pc[-30:])[:4000]
        elif self.emit:
            self.obls.append(Obligation(name, "proved", "", 0.0, "syntactic"))
        st.assume(cond)

    def fail(self, st, name, detail):
        if self.emit:
            self.obls.append(Obligation(name, "unknown", detail))

    # ------------------------------------------------------------------ memory
    def new_obj(self, st, name, size, kind, base=None, elt=None):
        o = Obj(name, size, kind)
        o.elt = elt
        st.mem[o] = Content(None, "base", base or self.undef_base(o))
        return o

    def undef_base(self, o, tag="undef"):
        nm = "%s_%s_%d" % (tag, o.name, o.id)
        return self.uf_base(nm)

    def uf_base(self, nm, elt=None, on_read=None):
        def f(off, ty):
            s = sort_of(ty)
            if s is None:
                return Opaque(app(nm + "_p", (off,), "I"), ty)
            n = tsize(ty)
            idx = off.divides_exact(n)
            sfx = "" if (elt == n) else "_%s%d" % (ty[0], n)
            if idx is None and self.split_ite:
                cut = next((m[0] for m in off.t if len(m) == 1 and m[0].op == "ite" and off.t[m] == 1 and m[0].sort == "I"), None)
                if cut is not None:  # a read at a chosen position is the chosen read
                    c, a, b = cut.args
                    rest = off - T.poly_of(cut)
                    return T.ite(c, f(rest + a, ty), f(rest + b, ty))
            if idx is None:
                v = app(nm + sfx + "b", (off,), s)
            else:
                v = app(nm + sfx, (idx,), s)
            if ty == ("i", 1) or ty == ("i", 8):
                pass
            if on_read:
                on_read(idx, v)
            return v
        return f

    split_ite = False

    def zero_bytes(self, st, obj, off, size, c):
        """every byte of the value is a zero"""
        return all(self.read(st, obj, off + b, ("i", 8), content=c) == I(0) for b in range(size))

    def read(self, st, obj, off, ty, content=None):
        c = content or st.mem[obj]
        pend = []
        size = tsize(ty)
        while True:
            if c.kind == "base":
                v = c.d(off, ty)
                break
            if c.kind == "cell":
                coff, cty, cval = c.d
                csz = tsize(cty)
                d = off - coff
                if d.is_const():
                    dv = d.const()
                    if dv == 0 and csz == size:
                        v = cval
                        break
                    if dv >= csz or dv <= -size:
                        c = c.parent
                        continue
                    if isinstance(cval, Poly) and not cval.t:
                        if dv >= 0 and dv + size <= csz:
                            v = I(0) if ty[0] == "i" else R(0) if ty[0] == "f" else Ptr(None, I(0))
                            break
                    if cty[0] == "i" and ty[0] == "i" and isinstance(cval, Poly) and dv >= 0 and dv + size <= csz:
                        v = self.wrap(st, idiv(cval, 1 << (8 * dv)), ty)
                        break
                    v = self.fresh_val(ty, "partial")
                    if csz < size and self.zero_bytes(st, obj, off, size, c):
                        v = I(0) if ty[0] == "i" else R(0) if ty[0] == "f" else Ptr(None, I(0))
                    break
                if csz == size and (d.divides_exact(size) is not None or size >= 4 and len(d.t) <= 6 and not self.pv.feasible(st.pc, (d.gt(-size), d.lt(size), d.ne(0)))):
                    eq = d.eq(0)
                    if eq is FALSE:
                        c = c.parent
                        continue
                    if self.pv.quick(st.pc, eq):
                        v = cval
                        break
                    if self.pv.quick(st.pc, Not(eq)):
                        c = c.parent
                        continue
                    pend.append((eq, cval))
                    c = c.parent
                    continue
                out = Or(d.ge(csz), d.le(-size))
                if self.pv.quick(st.pc, out):
                    c = c.parent
                    continue
                if csz == size and self.pv.quick(st.pc, d.eq(0)):
                    v = cval
                    break
                if size == 1 and ty[0] == "i" and isinstance(cval, Poly) and not cval.t:
                    pend.append((And(d.ge(0), d.lt(csz)), I(0)))
                    c = c.parent
                    continue
                v = self.fresh_val(ty, "overlap")
                break
            if c.kind == "fn":
                lo, hi, f = c.d
                inn = And(lo.le(off), (off + size).le(hi))
                out = Or(off.ge(hi), (off + size).le(lo))
                if inn is TRUE or (out is not TRUE and self.pv.quick(st.pc, inn)):
                    v = f(st, off, ty)
                    break
                if out is TRUE or self.pv.quick(st.pc, out):
                    c = c.parent
                    continue
                # element-aligned data: either inside or outside
                if size > 1 and ((off - lo).divides_exact(size) is None or (hi - lo).divides_exact(size) is None) and self.pv.feasible(st.pc, (Not(inn), Not(out))):
                    v = self.fresh_val(ty, "overlap")
                    if self.zero_bytes(st, obj, off, size, c):
                        v = I(0) if ty[0] == "i" else R(0) if ty[0] == "f" else Ptr(None, I(0))
                    break
                pend.append((inn, f(st, off, ty)))
                c = c.parent
                continue
            if c.kind == "cond":
                cf, f = c.d
                cc = cf(off)
                if self.pv.quick(st.pc, cc):
                    v = f(st, off, ty)
                    break
                if self.pv.quick(st.pc, Not(cc)):
                    c = c.parent
                    continue
                pend.append((cc, f(st, off, ty)))
                c = c.parent
                continue
            raise Unsupported("content " + c.kind)
        v = self.conv(v, ty)
        for cond, val in reversed(pend):
            v = self.merge(cond, self.conv(val, ty), v, ty)
        return v

    def conv(self, v, ty):
        """re-type a stored value"""
        if isinstance(v, Opaque):
            if v.ty == ty:
                return v if ty[0] == "ptr" else v.val
            if ty[0] == "i" and ty[1] >= 32:
                return v
            if v.ty[0] == ty[0]:
                return v.val
            if isinstance(v.val, (Poly, Ptr)) and self.class_of(v.val) == ty[0]:
                return v.val
            return self.fresh_val(ty, "retype")
        k = self.class_of(v)
        if k == ty[0]:
            return v
        if isinstance(v, Poly) and not v.t:
            return I(0) if ty[0] == "i" else R(0) if ty[0] == "f" else Ptr(None, I(0))
        if isinstance(v, B) and ty[0] == "i":
            return ite(v, I(1), I(0))
        # an integer-typed copy of something else (memcpy lowered to i64 load/store)
        return Opaque(v, (k, 64) if k != "ptr" else ("ptr",))

    @staticmethod
    def class_of(v):
        if isinstance(v, Poly):
            return "i" if v.sort == "I" else "f"
        if isinstance(v, (Ptr, FnPtr)):
            return "ptr"
        if isinstance(v, B):
            return "b"
        return "?"

    def merge(self, cond, a, b, ty):
        if isinstance(a, Poly) and isinstance(b, Poly) and a.sort == b.sort:
            return ite(cond, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return Ptr(a.obj, ite(cond, a.off, b.off))
        if isinstance(a, B) and isinstance(b, B):
            return ite(cond, a, b)
        return self.fresh_val(ty, "merge")

    def fresh_val(self, ty, tag="v"):
        k = ty[0]
        if k == "i":
            if ty[1] == 1:
                return fresh_b(tag)
            return fresh(tag, "I")
        if k == "f":
            return fresh(tag, "R")
        if k == "ptr":
            return Opaque(fresh(tag, "I"), ty)
        if k == "vec":
            return tuple(self.fresh_val(ty[2], tag) for _ in range(ty[1]))
        if k == "named":
            return self.fresh_val(self.mod.resolve(ty), tag)
        if k == "struct":
            return [self.fresh_val(x, tag) for x in ty[1]]
        if k == "arr":
            return [self.fresh_val(ty[2], tag) for _ in range(ty[1])]
        return None

    def write(self, st, obj, off, ty, val):
        c = st.mem[obj]
        if ty[0] == "f" and obj.elt is None:
            obj.hint = tsize(ty)
        # overwrite of the same cell near the top
        p, n, stack = c, 0, []
        while p.kind == "cell" and n < 24:
            d = off - p.d[0]
            if not d.is_const():
                break
            if d.const() == 0 and tsize(p.d[1]) == tsize(ty):
                q = p.parent
                for x in reversed(stack):
                    q = Content(q, "cell", x)
                st.mem[obj] = Content(q, "cell", (off, ty, val))
                return
            if -tsize(ty) < d.const() < tsize(p.d[1]):
                break
            stack.append(p.d)
            p = p.parent
            n += 1
        st.mem[obj] = Content(c, "cell", (off, ty, val))

    def access(self, st, p, size, what):
        if isinstance(p, Opaque):
            raise Unsupported("access through unknown pointer (%s) at %s" % (what, self.cur))
        if not isinstance(p, Ptr):
            raise Unsupported("access through %r" % (p,))
        if p.obj is None:
            self.require(st, FALSE, "%s:null-%s" % (self.cur, what))
            return False
        if self.check_bounds and self.emit:
            self.require(st, And(p.off.ge(0), (p.off + size).le(p.obj.size)), "%s:%s-in-bounds(%s)" % (self.cur, what, p.obj.name))
            if what in ("store", "memwrite") and p.obj.readonly:
                self.require(st, FALSE, "%s:frame(%s is not assignable)" % (self.cur, p.obj.name))
            if p.obj in st.freed:
                self.require(st, FALSE, "%s:use-after-free(%s)" % (self.cur, p.obj.name))
        else:
            st.assume(And(p.off.ge(0), (p.off + size).le(p.obj.size)))
        return True

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ("i", "f", "ptr"):
            if ty[0] == "i" and ty[1] not in (1, 8, 16, 32, 64, 128):
                raise Unsupported("load " + repr(ty))
            if not self.access(st, p, tsize(ty) if ty != ("i", 128) else 16, "load"):
                return self.fresh_val(ty)
            return self.read(st, p.obj, p.off, ty)
        if ty[0] == "vec":
            n = self.mod.size(ty[2])
            if not self.access(st, p, n * ty[1], "load"):
                return self.fresh_val(ty)
            return tuple(self.read(st, p.obj, p.off + n * i, ty[2]) for i in range(ty[1]))
        if ty[0] == "struct":
            return [self.load(st, Ptr(p.obj, p.off + self.mod.offset(ty, i)), x) for i, x in enumerate(ty[1])]
        if ty[0] == "arr":
            n = self.mod.size(ty[2])
            return [self.load(st, Ptr(p.obj, p.off + n * i), ty[2]) for i in range(ty[1])]
        raise Unsupported("load " + repr(ty))

    def store(self, st, p, ty, v):
        ty = self.mod.resolve(ty)
        if ty[0] in ("i", "f", "ptr"):
            if not self.access(st, p, tsize(ty), "store"):
                return
            if ty == ("i", 1) or isinstance(v, B):
                v = ite(v, I(1), I(0)) if isinstance(v, B) else v
            self.write(st, p.obj, p.off, ("i", 8) if ty == ("i", 1) else ty, v)
            return
        if ty[0] == "vec":
            n = self.mod.size(ty[2])
            if not self.access(st, p, n * ty[1], "store"):
                return
            for i in range(ty[1]):
                self.write(st, p.obj, p.off + n * i, ty[2], v[i])
            return
        if ty[0] == "struct":
            for i, x in enumerate(ty[1]):
                self.store(st, Ptr(p.obj, p.off + self.mod.offset(ty, i)), x, v[i])
            return
        if ty[0] == "arr":
            n = self.mod.size(ty[2])
            for i in range(ty[1]):
                self.store(st, Ptr(p.obj, p.off + n * i), ty[2], v[i])
            return
        raise Unsupported("store " + repr(ty))

    def memcpy(self, st, d, s, n):
        if n.is_const() and n.const() == 0:
            return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and (d.obj is None or s.obj is None):
            self.require(st, n.eq(0), self.cur + ":memcpy-null")
            return
        if not n.is_const() or n.const() > 0:
            # an empty copy touches nothing
            pass
        if self.emit:
            ok = Or(n.eq(0), And(d.off.ge(0), (d.off + n).le(d.obj.size), n.ge(0)))
            self.require(st, ok, "%s:memwrite-in-bounds(%s)" % (self.cur, d.obj.name))
            ok = Or(n.eq(0), And(s.off.ge(0), (s.off + n).le(s.obj.size)))
            self.require(st, ok, "%s:memread-in-bounds(%s)" % (self.cur, s.obj.name))
            if d.obj.readonly:
                self.require(st, n.eq(0), "%s:frame(%s is not assignable)" % (self.cur, d.obj.name))
        else:
            st.assume(And(n.ge(0), Or(n.eq(0), And(d.off.ge(0), (d.off + n).le(d.obj.size), s.off.ge(0), (s.off + n).le(s.obj.size)))))
        snap = st.mem[s.obj]
        if n.is_const() and n.const() <= 64:
            # try to copy cell-wise when every cell is known
            cells = self.const_cells(snap, s.off, n.const())
            if cells is not None:
                for o, ty, v in cells:
                    self.write(st, d.obj, d.off + o, ty, v)
                return
            cells = self.record_cells(s, n.const())
            if cells is not None:
                vs = [(o, ty, self.read(st, s.obj, s.off + o, ty)) for o, ty in cells]
                for o, ty, v in vs:
                    self.write(st, d.obj, d.off + o, ty, v)
                return
            w = s.obj.elt or d.obj.elt or s.obj.hint or d.obj.hint
            if w in (4, 8) and not getattr(s.obj, "record", None) and s.obj.elt in (w, None) and d.obj.elt in (w, None) and n.const() % w == 0:
                ty = ("f", 8 * w)
                vs = [self.read(st, s.obj, s.off + o, ty) for o in range(0, n.const(), w)]
                if all(isinstance(v, Poly) for v in vs):
                    for i, v in enumerate(vs):
                        self.write(st, d.obj, d.off + i * w, ty, v)
                    return
        delta = s.off - d.off
        sobj = s.obj

        def f(rst, off, ty):
            return self.read(rst, sobj, off + delta, ty, content=snap)
        st.mem[d.obj] = Content(st.mem[d.obj], "fn", (d.off, d.off + n, f))

    cur_state = None

    def record_cells(self, s, n):
        """the fields of an array of records that make up the n bytes, None if they leave gaps"""
        record = getattr(s.obj, "record", None)
        if not record:
            return None
        out, o = [], 0
        while o < n:
            ty = [t for at, t in record[1] if (s.off + o - at).divides_exact(record[0]) is not None]
            if not ty:
                return None
            out.append((o, ty[0]))
            o += tsize(ty[0])
        return out if o == n else None

    def const_cells(self, c, off, n):
        out, covered = [], set()
        depth = 0
        while len(covered) < n and depth < 64:
            depth += 1
            if c.kind != "cell":
                return None
            d = c.d[0] - off
            if not d.is_const():
                return None
            dv, sz = d.const(), tsize(c.d[1])
            c0 = c
            c = c.parent
            if dv >= n or dv + sz <= 0:
                continue
            r = set(range(dv, dv + sz))
            if dv < 0 or dv + sz > n or (r & covered and not r <= covered):
                return None
            if r <= covered:
                continue
            covered |= r
            out.append((dv, c0.d[1], c0.d[2]))
        return out if len(covered) == n else None

    def memset(self, st, d, byte, n):
        if isinstance(d, Ptr) and d.obj is None:
            self.require(st, n.eq(0), self.cur + ":memset-null")
            return
        if self.emit:
            self.require(st, Or(n.eq(0), And(d.off.ge(0), (d.off + n).le(d.obj.size), n.ge(0))), "%s:memwrite-in-bounds(%s)" % (self.cur, d.obj.name))
            if d.obj.readonly:
                self.require(st, n.eq(0), "%s:frame(%s is not assignable)" % (self.cur, d.obj.name))
        else:
            st.assume(n.ge(0))
        if not byte.is_const() or byte.const() != 0:
            nm = fresh("memset", "I")

            def f(rst, off, ty):
                return self.fresh_val(ty, "memset")
        else:
            def f(rst, off, ty):
                return R(0) if ty[0] == "f" else I(0) if ty[0] == "i" else Ptr(None, I(0))
        st.mem[d.obj] = Content(st.mem[d.obj], "fn", (d.off, d.off + n, f))

    # ------------------------------------------------------------------ operands
    def const(self, v, ty):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == "int":
            if ty == ("i", 1):
                return T.bconst(v[1])
            return I(v[1])
        if k == "fp":
            if isinstance(v[1], str):
                return app("fp_" + v[1].replace("-", "neg"), (), "R")
            return R(v[1])
        if k == "null":
            return Ptr(None, I(0))
        if k == "undef":
            return self.fresh_val(ty, "undef")
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            if ty[0] == "vec":
                return tuple(self.const(x, t) for t, x in v[1])
            return [self.const(x, t) for t, x in v[1]]
        if k == "glob":
            return self.globptr(v[1])
        if k == "cgep":
            base = self.const(v[2][0][1], v[2][0][0])
            return self.gep(None, v[1], base, [(t, self.const(x, t)) for t, x in v[2][1:]])
        if k == "ccast":
            x = self.const(v[3], v[2])
            return x
        if k == "bytes":
            return [I(x) for x in v[1]]
        raise Unsupported("const %r" % (v,))

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == "i":
            return FALSE if ty[1] == 1 else I(0)
        if k == "f":
            return R(0)
        if k == "ptr":
            return Ptr(None, I(0))
        if k == "vec":
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        if k == "arr":
            return [self.zero(ty[2]) for _ in range(ty[1])]
        if k == "struct":
            return [self.zero(x) for x in ty[1]]
        raise Unsupported("zero")

    def globptr(self, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        o = self.globals.get(name)
        if o is None:
            t, init, const = self.mod.globals.get(name, (("i", 8), None, False))
            try:
                size = self.mod.size(t)
            except Exception:
                size = 8
            o = Obj(name, size, "global")
            o.readonly = const
            o.init = (t, init, const)
            self.globals[name] = o
        return Ptr(o, I(0))

    def ensure_global(self, st, o):
        if o.kind == "global" and o not in st.mem:
            t, init, const = o.init
            st.mem[o] = Content(None, "base", self.undef_base(o, "glob"))
            if init is not None and const:
                em, self.emit = self.emit, False
                ro, o.readonly = o.readonly, False
                try:
                    v = self.const(init, t)
                    if isinstance(v, list) and t[0] == "arr" and t[2][0] == "i" and t[1] > 64:
                        pass
                    else:
                        self.store(st, Ptr(o, I(0)), t, v)
                except (Unsupported, TypeError):
                    pass
                self.emit, o.readonly = em, ro

    def val(self, st, v, ty):
        if v[0] == "loc":
            return st.env[v[1]]
        r = self.const(v, ty)
        if isinstance(r, Ptr) and r.obj is not None and r.obj.kind == "global":
            self.ensure_global(st, r.obj)
        return r

    def gep(self, st, bt, base, idx):
        if isinstance(base, Opaque):
            if all(isinstance(x, Poly) and x.is_const() and x.const() == 0 for _, x in idx):
                return base
            raise Unsupported("gep on unknown pointer at " + self.cur)
        if isinstance(base, FnPtr):
            return base
        off = base.off
        t = bt
        for i, (it, x) in enumerate(idx):
            if isinstance(x, tuple):
                raise Unsupported("vector gep")
            if i == 0:
                off = off + x * self.mod.size(t)
                continue
            t = self.mod.resolve(t)
            if t[0] == "struct":
                n = x.const()
                off = off + self.mod.offset(t, n)
                t = t[1][n]
            else:
                t = t[2]
                off = off + x * self.mod.size(t)
        return Ptr(base.obj, off)

    # ------------------------------------------------------------------ arithmetic
    def wrap(self, st, x, ty):
        """bring a mathematical integer into the signed range of iN"""
        n = ty[1]
        if x.is_const():
            v = x.const() & ((1 << n) - 1)
            if v >> (n - 1):
                v -= 1 << n
            return I(v)
        if n >= 64:
            return x
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if self.pv.quick(st.pc, And(x.ge(lo), x.le(hi))):
            return x
        m = imod(x, 1 << n)
        if self.pv.quick(st.pc, m.lt(1 << (n - 1))):
            return m
        return ite(m.lt(1 << (n - 1)), m, m - (1 << n))

    def nonneg(self, st, x):
        if x.is_const():
            return x.const() >= 0
        return self.pv.quick(st.pc, x.ge(0))

    def unsigned(self, st, x, n):
        if self.nonneg(st, x):
            return x
        if x.is_const():
            return x + (1 << n)
        if self.pv.quick(st.pc, x.lt(0)):
            return x + (1 << n)
        return ite(x.ge(0), x, x + (1 << n))

    def binop(self, st, op, fl, ty, a, b):
        if ty[0] == "vec":
            return tuple(self.binop(st, op, fl, ty[2], x, y) for x, y in zip(a, b))
        if op[0] == "f":
            return self.fop(st, op, a, b)
        n = ty[1]
        if n == 1:
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if op in ("xor", "add", "sub"):
                return Not(Iff(a, b))
            raise Unsupported("i1 " + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Poly) and b.is_const() and b.const() == 0 and op in ("add", "or", "sub"):
                return a
            return fresh("opq")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrarith(st, op, a, b)
        if op in ("add", "sub", "mul"):
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            if n < 64 and not fl & {"nsw"}:
                return self.wrap(st, r, ty)
            return self.wrap(st, r, ty) if r.is_const() else r
        if op == "shl":
            if b.is_const():
                r = a * (1 << b.const())
                return self.wrap(st, r, ty) if (r.is_const() or n < 64) else r
            if a.is_const():
                # 2^b
                p = app("pow2", (b,), "I")
                return p * a.const()
            return app("shl", (a, b), "I")
        if op in ("lshr", "ashr"):
            if b.is_const() and b.const() == n - 1 and not a.is_const():
                # the sign bit
                return ite(a.ge(0), I(0), I(-1 if op == "ashr" else 1)) if not self.nonneg(st, a) else I(0)
            if b.is_const():
                x = a if op == "ashr" else self.unsigned(st, a, n)
                return idiv(x, 1 << b.const())
            return app(op, (a, b), "I")
        if op == "udiv":
            a, b = self.unsigned(st, a, n), self.unsigned(st, b, n)
            self.require(st, b.ne(0), self.cur + ":division-by-zero")
            return idiv(a, b)
        if op == "urem":
            a, b = self.unsigned(st, a, n), self.unsigned(st, b, n)
            self.require(st, b.ne(0), self.cur + ":division-by-zero")
            return imod(a, b)
        if op in ("sdiv", "srem"):
            self.require(st, b.ne(0), self.cur + ":division-by-zero")
            if self.quot_hook:
                q = self.quot_hook(st, a, b)
                if q is not None:
                    return q if op == "sdiv" else a - b * q
            an, bn = self.nonneg(st, a), self.nonneg(st, b)
            if self.quot_hook and not b.is_const():
                # truncated division as a fresh quotient and remainder
                q, r = self.quot_memo.setdefault((a, b), (fresh("quo"), fresh("rem")))
                st.assume(a.eq(b * q + r))
                ab = b if bn else ite(b.ge(0), b, -b)
                st.assume(And(Implies(a.ge(0), And(r.ge(0), r.lt(ab))), Implies(a.le(0), And(r.le(0), (-r).lt(ab)))))
                return q if op == "sdiv" else r
            if an and bn:
                return idiv(a, b) if op == "sdiv" else imod(a, b)
            if "exact" in fl and op == "sdiv" and b.is_const() and b.const() > 0:
                q = a.divides_exact(b.const())
                if q is not None:
                    return q
                return idiv(a, b)
            sa = lambda x, neg: ite(x.ge(0), x, -x) if not neg else x
            aa, bb = sa(a, an), sa(b, bn)
            if op == "sdiv":
                q = idiv(aa, bb)
                neg = Not(Iff(a.ge(0), b.ge(0)))
                return ite(neg, -q, q)
            r = imod(aa, bb)
            return ite(a.ge(0), r, -r)
        if op in ("and", "or", "xor"):
            return self.bitop(st, op, fl, n, a, b)
        raise Unsupported(op)

    def bitop(self, st, op, fl, n, a, b):
        if a.is_const() and not b.is_const():
            a, b = b, a
        if b.is_const():
            c = b.const()
            if a.is_const():
                x, y = a.const(), c
                return I(x & y if op == "and" else x | y if op == "or" else x ^ y)
            if op == "and":
                if c == 0:
                    return I(0)
                if c == -1:
                    return a
                if c > 0:
                    low = (c & -c).bit_length() - 1
                    m = c >> low
                    if m & (m + 1) == 0:            # contiguous ones
                        w = m.bit_length()
                        return imod(idiv(a, 1 << low), 1 << w) * (1 << low)
                    # few bits
                    if bin(c).count("1") <= 8:
                        r = I(0)
                        for i in range(c.bit_length()):
                            if c >> i & 1:
                                r = r + imod(idiv(a, 1 << i), 2) * (1 << i)
                        return r
                else:
                    m = -c
                    if m & (m - 1) == 0:            # ~(2^k-1)
                        return a - imod(a, m)
                    if m & (m - 1) and ((~c) & ((~c) + 1)) == 0:
                        return a - imod(a, ~c + 1)
                    # clear a contiguous field: a & ~mask
                    mask = ~c
                    low = (mask & -mask).bit_length() - 1
                    mm = mask >> low
                    if mm & (mm + 1) == 0:
                        return a - imod(idiv(a, 1 << low), 1 << mm.bit_length()) * (1 << low)
            if op == "or":
                if "disjoint" in fl:
                    return a + b
                if c == 0:
                    return a
                if c > 0 and c & (c - 1) == 0:
                    bit = imod(idiv(a, c), 2)
                    return a + (1 - bit) * c
                if c > 0 and c & (c + 1) == 0:
                    return a - imod(a, c + 1) + c
            if op == "xor":
                if c == -1:
                    return -a - 1
                if c == 0:
                    return a
                if c > 0 and c & (c - 1) == 0:
                    bit = imod(idiv(a, c), 2)
                    return a + (1 - 2 * bit) * c
                if c > 0 and c & (c + 1) == 0:
                    # the low bits are complemented
                    return a - 2 * imod(a, c + 1) + c
                if c == -(1 << (n - 1)):
                    return ite(a.ge(0), a + c, a - c)
            return app("bv%s" % op, (a, b), "I")
        if op == "or" and "disjoint" in fl:
            return a + b
        return app("bv%s" % op, tuple(sorted((a, b), key=lambda p: repr(p))), "I")

    def ptrarith(self, st, op, a, b):
        # integers obtained by ptrtoint are kept as Ptr
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return a.off - b.off
            if a.obj is None and a.off.is_const() and False:
                return None
            # difference of unrelated objects: unknown
            return self.baseaddr(st, a) - self.baseaddr(st, b)
        if op == "add":
            if isinstance(a, Ptr) and isinstance(b, Poly):
                return Ptr(a.obj, a.off + b)
            if isinstance(b, Ptr) and isinstance(a, Poly):
                return Ptr(b.obj, b.off + a)
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Poly):
            return Ptr(a.obj, a.off - b)
        A = self.baseaddr(st, a) if isinstance(a, Ptr) else a
        Bb = self.baseaddr(st, b) if isinstance(b, Ptr) else b
        return self.binop(st, op, set(), ("i", 64), A, Bb)

    def baseaddr(self, st, p):
        if p.obj is None:
            return p.off
        b = ivar("addr_%s_%d" % (p.obj.name, p.obj.id))
        st.assume(And(b.ge(4096), imod(b, 16).eq(0)))
        return b + p.off

    COMM = {"fadd", "fmul"}

    def fop(self, st, op, a, b):
        if self.fpmode == "uf":
            if op == "fadd" and False:
                pass
            if op in self.COMM:
                x = sorted((a, b), key=lambda p: sorted((tuple((q.skey(), q.id) for q in m), str(c)) for m, c in p.t.items()))
                return app("ieee_" + op, tuple(x), "R")
            return app("ieee_" + op, (a, b), "R")
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "fdiv":
            return rdiv(a, b)
        if op == "frem":
            return app("fmod", (a, b), "R")
        raise Unsupported(op)

    def fneg(self, a):
        if isinstance(a, tuple):
            return tuple(self.fneg(x) for x in a)
        if self.fpmode == "uf":
            return app("ieee_fneg", (a,), "R")
        return -a

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, tuple):
            return tuple(self.icmp(st, pred, x, y, ty) for x, y in zip(a, b))
        if isinstance(a, B) or isinstance(b, B):
            eq = Iff(a, b)
            if pred == "eq":
                return eq
            if pred == "ne":
                return Not(eq)
            if pred in ("ult", "sgt"):
                return And(Not(a), b)
            if pred in ("ugt", "slt"):
                return And(a, Not(b))
            if pred in ("ule", "sge"):
                return Or(Not(a), b)
            return Or(a, Not(b))
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                e = a.name == b.name
            else:
                e = False
            return T.bconst(e if pred == "eq" else not e)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and pred in ("eq", "ne") and isinstance(a.val, Poly) and isinstance(b.val, Poly):
                e = a.val.eq(b.val)
                return e if pred == "eq" else Not(e)
            return fresh_b("cmpopq")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Poly):
                a = Ptr(None, a)
            if isinstance(b, Poly):
                b = Ptr(None, b)
            if a.obj is b.obj:
                a, b = a.off, b.off
                pred = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
            elif pred in ("eq", "ne"):
                if a.obj is None or b.obj is None:
                    # an object never lives at null; one-past pointers are never null either
                    other = a if a.obj is None else b
                    if other.off.is_const() and other.off.const() == 0:
                        return T.bconst(pred == "ne")
                # distinct objects: one-past-end may coincide with another object's base
                x, y = self.baseaddr(st, a), self.baseaddr(st, b)
                ina = lambda p: And(p.off.ge(0), p.off.lt(p.obj.size)) if p.obj else FALSE
                both = And(ina(a), ina(b))
                if both is TRUE or self.pv.quick(st.pc, both):
                    return T.bconst(pred == "ne")
                return x.eq(y) if pred == "eq" else x.ne(y)
            else:
                a, b = self.baseaddr(st, a), self.baseaddr(st, b)
                self.addr_range(st)
        if pred == "eq":
            return a.eq(b)
        if pred == "ne":
            return a.ne(b)
        if pred == "slt":
            return a.lt(b)
        if pred == "sle":
            return a.le(b)
        if pred == "sgt":
            return a.gt(b)
        if pred == "sge":
            return a.ge(b)
        # unsigned
        if pred in ("ugt", "uge"):
            return self.icmp(st, "ult" if pred == "ugt" else "ule", b, a, ty)
        strict = pred == "ult"
        base = a.lt(b) if strict else a.le(b)
        an, bn = self.nonneg(st, a), self.nonneg(st, b)
        if an and bn:
            return base
        if b.is_const() and b.const() >= 0:
            return And(a.ge(0), base)
        return Or(And(a.ge(0), b.ge(0), base), And(a.ge(0), b.lt(0)), And(a.lt(0), b.lt(0), base))

    def addr_range(self, st):
        pass

    def fcmp(self, st, pred, a, b):
        if isinstance(a, tuple):
            return tuple(self.fcmp(st, pred, x, y) for x, y in zip(a, b))
        if pred in ("ord", "uno"):
            self.assumed.add("floating-point values are never NaN (ordered comparisons)")
            return T.bconst(pred == "ord")
        if pred == "true":
            return TRUE
        if pred == "false":
            return FALSE
        p = pred[1:]
        if self.fpmode == "uf":
            pass
        return {"eq": a.eq(b), "ne": a.ne(b), "lt": a.lt(b), "le": a.le(b), "gt": a.gt(b), "ge": a.ge(b)}[p]

    def cast(self, st, op, t1, t2, fl, v):
        if t1[0] == "vec":
            if op == "bitcast":
                return self.bitcast(st, t1, t2, v)
            return tuple(self.cast(st, op, t1[2], t2[2], fl, x) for x in v)
        if op in ("zext", "sext"):
            if isinstance(v, B):
                return ite(v, I(1 if op == "zext" else -1), I(0))
            if isinstance(v, Opaque):
                return fresh("ext")
            if op == "sext" or "nneg" in fl:
                return v
            return self.unsigned(st, v, t1[1])
        if op == "trunc":
            if isinstance(v, (Opaque, Ptr)):
                return self.fresh_val(t2, "trunc")
            if t2[1] == 1:
                return imod(v, 2).eq(1)
            return self.wrap(st, v, t2)
        if op in ("ptrtoint", "inttoptr"):
            if op == "inttoptr" and isinstance(v, Poly):
                return Ptr(None, v)
            return v
        if op in ("sitofp", "uitofp"):
            if isinstance(v, B):
                return ite(v, R(1 if op == "uitofp" else -1), R(0))
            if op == "uitofp":
                v = self.unsigned(st, v, t1[1])
            return to_real(v)
        if op in ("fptosi", "fptoui"):
            e = T.real_to_int_exact(v)
            if e is not None:
                return e
            if op == "fptoui" or (v.is_const() and v.const() >= 0) or self.pv.quick(st.pc, v.ge(0)):
                return self.floor(st, v)
            fl_ = self.floor(st, v)
            # truncation toward zero
            return ite(v.ge(0), fl_, -self.floor(st, -v))
        if op in ("fpext", "fptrunc"):
            if self.fpmode == "uf" and op == "fptrunc":
                return app("ieee_fptrunc", (v,), "R")
            return v
        if op == "bitcast":
            return self.bitcast(st, t1, t2, v)
        raise Unsupported(op)

    def bitcast(self, st, t1, t2, v):
        if t1 == t2:
            return v
        lanes = list(v) if t1[0] == "vec" else [v]
        n2 = t2[1] if t2[0] == "vec" else 1
        e1 = t1[2] if t1[0] == "vec" else t1
        e2 = t2[2] if t2[0] == "vec" else t2
        if len(lanes) == n2:
            out = [self.bitlane(st, x, e1, e2) for x in lanes]
            return tuple(out) if t2[0] == "vec" else out[0]
        if all(isinstance(x, Poly) and not x.t for x in lanes):
            z0 = R(0) if e2[0] == "f" else I(0)
            return tuple([z0] * n2) if t2[0] == "vec" else z0
        raise Unsupported("bitcast %r %r" % (t1, t2))

    def bitlane(self, st, x, e1, e2):
        if e1[0] == e2[0]:
            return x
        if isinstance(x, Opaque):
            if self.class_of(x.val) == e2[0]:
                return x.val
            return Opaque(x.val, e2)
        if isinstance(x, Poly) and not x.t:
            return R(0) if e2[0] == "f" else I(0)
        if isinstance(x, B):
            return x
        return Opaque(x, e2)

    def floor(self, st, v):
        """floor of a real as an integer term"""
        e = T.real_to_int_exact(v)
        if e is not None:
            return e
        f = app("floor", (v,), "I")
        return f

    def select(self, st, c, a, b, ty):
        """returns a list of (state, value)"""
        if isinstance(c, tuple):
            return tuple(ite(x, y, w) if not isinstance(y, Opaque) else self.fresh_val(ty[2]) for x, y, w in zip(c, a, b))
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, tuple):
            return tuple(self.select(st, c, x, y, ty[2] if ty[0] == "vec" else ty) for x, y in zip(a, b))
        if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)):
            # keep simple minima/maxima decided when possible
            if self.pv.quick(st.pc, c):
                return a
            if self.pv.quick(st.pc, Not(c)):
                return b
            return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off))
        return None

    # ------------------------------------------------------------------ execution
    def run_function(self, name, args, st):
        """list of (state, kind, value): kind 'ret' | 'throw'"""
        f = self.mod.funcs[name]
        if self.depth > 40:
            raise Unsupported("recursion depth in " + name)
        saved = st.env
        st.env = {}
        for (pn, pt, at), v in zip(f.params, args):
            if pn is None:
                continue
            st.env[pn] = v
        self.depth += 1
        outs = []
        try:
            analyse(f)
            for o in self.run(f, st, f.order[0], None, None):
                if o[0] == "ret":
                    o[1].env = dict(saved)
                    outs.append((o[1], "ret", o[2]))
                elif o[0] == "throw":
                    o[1].env = dict(saved)
                    outs.append((o[1], "throw", o[2]))
                else:
                    raise Unsupported("escape")
        finally:
            self.depth -= 1
        return outs

    def run(self, f, st, blk, prev, loop, start=True):
        """run from blk until return, throw, or leaving/closing `loop` (header name)"""
        outs = []
        work = [(st, blk, prev, None, start)]
        body = f.loops[loop] if loop else None
        while work:
            self.npaths += 1
            if self.npaths > self.maxpaths:
                raise PathLimit("path limit in " + f.name)
            if self.deadline and time.time() > self.deadline:
                raise PathLimit("time limit in " + f.name)
            st, blk, prev, at, first = work.pop()
            if at is None:
                if loop is not None and not first:
                    if blk == loop:
                        outs.append(("back", st, prev))
                        continue
                    if blk not in body:
                        outs.append(("exit", st, prev, blk))
                        continue
                if blk in f.loops and not (blk == loop and first):
                    for o in self.exec_loop(f, st, blk, prev):
                        if o[0] == "exit":
                            work.append((o[1], o[3], o[2], None, False))
                        else:
                            outs.append(o)
                    continue
                if not (blk == loop and first):
                    self.do_phis(f, st, blk, prev)
                at = 0
                ins = f.blocks[blk]
                while at < len(ins) and ins[at].op == "phi":
                    at += 1
            res = self.exec_from(f, st, blk, at)
            for r in res:
                if r[0] == "goto":
                    work.append((r[1], r[2], blk, None, False))
                elif r[0] == "cont":
                    work.append((r[1], blk, prev, r[2], False))
                else:
                    outs.append(r)
        return outs

    def do_phis(self, f, st, blk, prev):
        vals = []
        for ins in f.blocks[blk]:
            if ins.op != "phi":
                break
            for v, b in ins.a:
                if b == prev:
                    vals.append((ins.res, self.val(st, v, ins.ty)))
                    break
            else:
                raise Unsupported("phi")
        for n, v in vals:
            st.env[n] = v

    def branch(self, st, c):
        """decide a condition: returns list of (state, bool)"""
        if c is TRUE:
            return [(st, True)]
        if c is FALSE:
            return [(st, False)]
        t = self.pv.feasible(st.pc, (c,))
        e = self.pv.feasible(st.pc, (Not(c),))
        if t and e:
            if self.nofork:
                raise NeedFork()
            s2 = st.fork()
            st.assume(c)
            s2.assume(Not(c))
            return [(st, True), (s2, False)]
        if t:
            st.assume(c)
            return [(st, True)]
        if e:
            st.assume(Not(c))
            return [(st, False)]
        return []

    def exec_from(self, f, st, blk, at):
        ins_list = f.blocks[blk]
        self.cur_state = st
        while True:
            ins = ins_list[at]
            op = ins.op
            self.cur = "%s/%s" % (short(f.name), op)
            if op == "bin":
                o, fl = ins.x
                st.env[ins.res] = self.binop(st, o, fl, ins.ty, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty))
            elif op == "icmp":
                st.env[ins.res] = self.icmp(st, ins.x, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty), ins.ty)
            elif op == "fcmp":
                st.env[ins.res] = self.fcmp(st, ins.x, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty))
            elif op == "cast":
                o, t1, fl = ins.x
                st.env[ins.res] = self.cast(st, o, t1, ins.ty, fl, self.val(st, ins.a[0], t1))
            elif op == "fneg":
                st.env[ins.res] = self.fneg(self.val(st, ins.a[0], ins.ty))
            elif op == "gep":
                base = self.val(st, ins.a[0][1], ins.a[0][0])
                st.env[ins.res] = self.gep(st, ins.ty, base, [(t, self.val(st, v, t)) for t, v in ins.a[1:]])
            elif op == "load":
                st.env[ins.res] = self.load(st, self.val(st, ins.a[1], ("ptr",)), ins.ty)
            elif op == "store":
                (t, v), (_, p) = ins.a
                self.store(st, self.val(st, p, ("ptr",)), t, self.val(st, v, t))
            elif op == "alloca":
                n = self.mod.size(ins.ty)
                if ins.a:
                    cnt = self.val(st, ins.a[1], ins.a[0])
                    size = cnt * n
                else:
                    size = I(n)
                o = self.new_obj(st, "local" + ins.res[1:].split(".")[0], size, "alloca")
                st.env[ins.res] = Ptr(o, I(0))
            elif op == "select":
                c = self.val(st, ins.a[0][1], ins.a[0][0])
                a = self.val(st, ins.a[1][1], ins.ty)
                b = self.val(st, ins.a[2][1], ins.ty)
                r = self.select(st, c, a, b, ins.ty)
                if r is not None:
                    st.env[ins.res] = r
                else:
                    outs = []
                    for s, taken in self.branch(st, c):
                        s.env[ins.res] = a if taken else b
                        outs.append(("cont", s, at + 1))
                    return outs
            elif op == "jmp":
                return [("goto", st, ins.x)]
            elif op == "br":
                c = self.val(st, ins.a, ins.ty)
                return [("goto", s, ins.x[0] if t else ins.x[1]) for s, t in self.branch(st, c)]
            elif op == "switch":
                v = self.val(st, ins.a, ins.ty)
                outs = []
                cur = st
                for cv, dest in ins.x[1]:
                    r = self.branch(cur, v.eq(I(cv[1])) if isinstance(v, Poly) else Iff(v, T.bconst(cv[1])))
                    cur = None
                    for s, t in r:
                        if t:
                            outs.append(("goto", s, dest))
                        else:
                            cur = s
                    if cur is None:
                        break
                if cur is not None:
                    outs.append(("goto", cur, ins.x[0]))
                return outs
            elif op == "ret":
                return [("ret", st, None if ins.a is None else self.val(st, ins.a, ins.ty))]
            elif op == "unreachable":
                self.require(st, FALSE, "%s:unreachable" % self.cur)
                return []
            elif op == "resume":
                return [("throw", st, None)]
            elif op == "landingpad":
                st.env[ins.res] = [Opaque(fresh("exc"), ("ptr",)), fresh("sel")]
            elif op in ("call", "invoke"):
                outs = self.call(f, st, ins)
                cont = []
                for s, kind, v in outs:
                    if kind == "ret":
                        if ins.res:
                            s.env[ins.res] = v
                        if op == "invoke":
                            cont.append(("goto", s, ins.x[0]))
                        else:
                            cont.append(("cont", s, at + 1))
                    else:
                        if op == "invoke":
                            cont.append(("goto", s, ins.x[1]))
                        else:
                            cont.append(("throw", s, v))
                if len(cont) == 1 and cont[0][0] == "cont":
                    st = cont[0][1]
                    self.cur_state = st
                    at += 1
                    continue
                return cont
            elif op == "extractvalue":
                v = self.val(st, ins.a[1], ins.a[0])
                for i in ins.x:
                    v = v[i]
                st.env[ins.res] = v
            elif op == "insertvalue":
                (t, a), (t2, b) = ins.a
                v = self.val(st, a, t)
                st.env[ins.res] = self.insertv(v, ins.x, self.val(st, b, t2))
            elif op == "extractelement":
                v = self.val(st, ins.a[0][1], ins.a[0][0])
                i = self.val(st, ins.a[1][1], ins.a[1][0])
                if not i.is_const():
                    raise Unsupported("extractelement")
                st.env[ins.res] = v[i.const()]
            elif op == "insertelement":
                v = list(self.val(st, ins.a[0][1], ins.a[0][0]))
                i = self.val(st, ins.a[2][1], ins.a[2][0])
                if not i.is_const():
                    raise Unsupported("insertelement")
                v[i.const()] = self.val(st, ins.a[1][1], ins.a[1][0])
                st.env[ins.res] = tuple(v)
            elif op == "shufflevector":
                a = self.val(st, ins.a[0][1], ins.a[0][0])
                b = self.val(st, ins.a[1][1], ins.a[1][0])
                mt, mv = ins.x
                if mv[0] == "zero":
                    idx = [0] * mt[1]
                elif mv[0] == "undef":
                    idx = [None] * mt[1]
                else:
                    idx = [x[1] if x[0] == "int" else None for _, x in mv[1]]
                ab = list(a) + list(b)
                st.env[ins.res] = tuple(ab[i] if i is not None else self.fresh_val(ins.ty[2], "undef") for i in idx)
            elif op == "freeze":
                st.env[ins.res] = self.val(st, ins.a[0], ins.ty)
            else:
                raise Unsupported("instruction %s (%s)" % (op, ins.txt[:80]))
            at += 1

    def insertv(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insertv(v[idx[0]], idx[1:], x)
        return v

    # ------------------------------------------------------------------ calls
    def call(self, f, st, ins):
        callee, args = ins.a
        if callee[0] == "loc":
            fp = st.env[callee[1]]
            if not isinstance(fp, FnPtr):
                raise Unsupported("indirect call in " + f.name)
            name = fp.name
        elif callee[0] == "glob":
            name = callee[1]
        else:
            raise Unsupported("asm or constant call")
        nm = name[1:].strip('"')
        if nm.startswith("llvm."):
            return self.intrinsic(st, nm, ins, args)
        vals = []
        for (t, v, at) in args:
            x = self.val(st, v, t)
            if "byval" in at and isinstance(x, Ptr):
                # private copy for the callee
                ty = at["byval"]
                n = self.mod.size(ty)
                o = self.new_obj(st, "byval", n, "alloca")
                self.memcpy(st, Ptr(o, I(0)), x, I(n))
                x = Ptr(o, I(0))
            vals.append(x)
        h = self.contracts.get(nm)
        if h is None:
            for pred, hh in self.contract_match:
                if pred(nm):
                    h = hh
                    break
        if h is not None:
            self.contract_used.add(nm)
            return h(self, st, vals, ins)
        if name in self.mod.funcs:
            self.inlined.add(nm)
            return self.run_function(name, vals, st)
        return self.external(st, nm, ins, vals)

    MATH1 = {"sin", "cos", "tan", "exp", "log", "log10", "log2", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
             "cbrt", "erf", "erfc", "tgamma", "lgamma", "exp2", "expm1", "log1p"}
    CMATH = {"c" + x for x in ("exp log sqrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh pow log10").split()}
    MATH2 = {"pow", "atan2", "fmod", "hypot", "remainder", "fmin", "fmax"}

    def external(self, st, nm, ins, a):
        base = nm[:-1] if nm.endswith("f") and nm[:-1] in (self.MATH1 | self.MATH2 | {"sqrt", "fabs", "floor", "ceil"}) else nm
        if base in self.MATH1:
            return [(st, "ret", app("m_" + base, (a[0],), "R"))]
        if base == "fmod":
            return [(st, "ret", app("fmod", (a[0], a[1]), "R"))]
        if nm == "cabs":
            return [(st, "ret", app("cm_abs", (a[0], a[1]), "R"))]
        if nm == "carg":
            return [(st, "ret", app("m_atan2", (a[1], a[0]), "R"))]
        if nm in self.CMATH:
            return [(st, "ret", [app("cm_%s_%s" % (nm[1:], q), tuple(a), "R") for q in ("re", "im")])]
        if base in self.MATH2:
            return [(st, "ret", app("m_" + base, (a[0], a[1]), "R"))]
        if base in ("sqrt", "fabs", "floor", "ceil", "trunc"):
            return self.intrinsic(st, "llvm." + base + ".f64", ins, None, a)
        if base == "modf":
            v = a[0]
            ip = ite(v.ge(0), to_real(self.floor(st, v)), -to_real(self.floor(st, -v)))
            self.store(st, a[1], ("f", 64), ip)
            return [(st, "ret", v - ip)]
        if nm in ("_Znwm", "_Znam", "malloc"):
            n = a[0]
            if self.emit:
                self.require(st, And(n.ge(0), n.le(SIZE_MAX * 64)), "%s:allocation-size" % self.cur)
            o = self.new_obj(st, "heap%d" % (len(st.mem)), n, "heap")
            return [(st, "ret", Ptr(o, I(0)))]
        if nm in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdaPvm"):
            if isinstance(a[0], Ptr) and a[0].obj is not None:
                if self.emit:
                    self.require(st, And(a[0].off.eq(0), T.bconst(a[0].obj not in st.freed)), "%s:free-valid" % self.cur)
                st.freed = st.freed | {a[0].obj}
            return [(st, "ret", None)]
        if nm == "__assert_fail":
            self.require(st, FALSE, "%s:assertion-holds" % self.cur.rsplit("/", 1)[0])
            return []
        if nm in ("_ZSt20__throw_length_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv", "_ZSt24__throw_out_of_range_fmtPKcz",
                  "_ZSt9terminatev", "abort", "_ZSt21__throw_runtime_errorPKc"):
            self.require(st, FALSE, "%s:no-abort(%s)" % (self.cur, nm))
            return []
        if nm in ("_ZSt19__throw_logic_errorPKc",):
            return [(st, "throw", nm)]
        if nm == "__cxa_allocate_exception":
            o = self.new_obj(st, "exc", a[0], "heap")
            return [(st, "ret", Ptr(o, I(0)))]
        if nm == "__cxa_throw":
            return [(st, "throw", a[1].obj.name if isinstance(a[1], Ptr) and a[1].obj else "?")]
        if nm == "__cxa_begin_catch":
            return [(st, "ret", a[0])]
        if nm in ("__cxa_end_catch", "__cxa_free_exception"):
            return [(st, "ret", None)]
        if nm.startswith(("_ZNSt16invalid_argumentC", "_ZNSt12out_of_rangeC", "_ZNSt13runtime_errorC", "_ZNSt11logic_errorC", "_ZNSt12domain_errorC", "_ZNSt12length_errorC")):
            return [(st, "ret", None)]
        if nm in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], a[2])
            return [(st, "ret", a[0])]
        if nm in ("fma", "fmaf"):
            return self.intrinsic(st, "llvm.fma.f64", ins, None, a)
        if nm == "__muldc3":
            # complex multiply, infinities ignored
            x, y, u, v = a
            re = self.fop(st, "fsub", self.fop(st, "fmul", x, u), self.fop(st, "fmul", y, v))
            im = self.fop(st, "fadd", self.fop(st, "fmul", x, v), self.fop(st, "fmul", y, u))
            self.assumed.add("__muldc3 (C99 complex multiplication) is the plain formula on finite values")
            return [(st, "ret", [re, im])]
        if nm == "__divdc3":
            x, y, u, v = a
            self.assumed.add("__divdc3 (C99 complex division) is the plain formula on finite values")
            d = u * u + v * v
            return [(st, "ret", [rdiv(x * u + y * v, d), rdiv(y * u - x * v, d)])]
        raise Unsupported("external function " + nm)

    def lanes(self, fn, *vs):
        if isinstance(vs[0], tuple):
            return tuple(fn(*x) for x in zip(*vs))
        return fn(*vs)

    def intrinsic(self, st, nm, ins, args, vals=None):
        p = nm.split(".")
        k = p[1]
        if k in ("lifetime", "dbg", "assume", "experimental", "invariant", "prefetch", "donothing", "stackrestore"):
            if k == "assume":
                pass
            return [(st, "ret", None)]
        a = vals if vals is not None else [self.val(st, v, t) for (t, v, _) in args]
        r = None
        if k == "memcpy" or k == "memmove":
            self.memcpy(st, a[0], a[1], a[2])
        elif k == "memset":
            self.memset(st, a[0], a[1], a[2])
        elif k in ("fma", "fmuladd"):
            if self.fpmode == "uf" and k == "fma":
                r = self.lanes(lambda x, y, w: app("ieee_fma", (x, y, w), "R"), *a)
            else:
                r = self.lanes(lambda x, y, w: self.fop(st, "fadd", self.fop(st, "fmul", x, y), w), *a)
        elif k == "sqrt":
            r = self.lanes(lambda x: self.sqrt(st, x), a[0])
        elif k == "fabs":
            if self.fpmode == "uf":
                r = self.lanes(lambda x: app("ieee_fabs", (x,), "R"), a[0])
            else:
                r = self.lanes(lambda x: self.fabs(st, x), a[0])
        elif k in ("floor", "ceil", "trunc"):
            if k == "floor":
                r = self.lanes(lambda x: to_real(self.floor(st, x)), a[0])
            elif k == "ceil":
                r = self.lanes(lambda x: -to_real(self.floor(st, -x)), a[0])
            else:
                r = self.lanes(lambda x: ite(x.ge(0), to_real(self.floor(st, x)), -to_real(self.floor(st, -x))), a[0])
        elif k in ("smax", "smin", "umax", "umin"):
            def mm(x, y):
                if k[0] == "u":
                    c = self.icmp(st, "ult", x, y, ("i", 64))
                else:
                    c = x.lt(y)
                if self.pv.quick(st.pc, c):
                    return y if k.endswith("max") else x
                if self.pv.quick(st.pc, Not(c)):
                    return x if k.endswith("max") else y
                return ite(c, y, x) if k.endswith("max") else ite(c, x, y)
            r = self.lanes(mm, a[0], a[1])
        elif k in ("maxnum", "minnum", "maximum", "minimum"):
            def fm(x, y):
                c = x.lt(y)
                return ite(c, y, x) if k.startswith("max") else ite(c, x, y)
            r = self.lanes(fm, a[0], a[1])
        elif k == "abs":
            r = self.lanes(lambda x: ite(x.ge(0), x, -x), a[0])
        elif k in ("usub", "uadd") and p[2] == "sat":
            x, y = a
            if k == "usub":
                r = ite(self.icmp(st, "ult", x, y, ("i", 64)), I(0), x - y)
            else:
                r = x + y
        elif k in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and p[2] == "with":
            x, y = a[0], a[1]
            v = {"mul": x * y, "add": x + y, "sub": x - y}[k[1:]]
            n = 64
            self.assumed.add("size arithmetic does not wrap (overflow-checked allocation sizes)")
            r = [v, FALSE if k[1:] != "sub" else x.lt(y)]
        elif k in ("fshl", "fshr"):
            x, y, c = a
            if x is y or x == y:
                if k == "fshl" and c.is_const():
                    nb = int(p[-1][1:])
                    s = c.const() % nb
                    u = self.unsigned(st, x, nb)
                    r = imod(u, 1 << (nb - s)) * (1 << s) + idiv(u, 1 << (nb - s))
                    if nb < 64:
                        r = self.wrap(st, r, ("i", nb))
            if r is None:
                r = self.fresh_val(ins.ty, "fsh")
        elif k in ("copysign",):
            x, y = a
            ax = self.fabs(st, x)
            r = ite(y.ge(0), ax, -ax)
        elif k in ("vector",):
            # llvm.vector.reduce.*
            kind = p[3]
            v = a[-1]
            if kind in ("fadd", "add"):
                r = a[0] if kind == "fadd" else I(0)
                for x in v:
                    r = r + x
            else:
                raise Unsupported(nm)
        elif k in self.MATH1:
            r = self.lanes(lambda x: app("m_" + k, (x,), "R"), a[0])
        elif k in ("pow",):
            r = self.lanes(lambda x, y: app("m_pow", (x, y), "R"), a[0], a[1])
        elif k in ("powi",):
            if a[1].is_const() and 0 <= a[1].const() <= 8:
                r = R(1)
                for _ in range(a[1].const()):
                    r = r * a[0]
            else:
                r = app("powi", (a[0], a[1]), "R")
        elif k in ("trap", "ubsantrap"):
            self.require(st, FALSE, "%s:no-undefined-behaviour" % self.cur)
            return []
        elif k == "expect":
            r = a[0]
        elif k == "is":
            r = FALSE
        elif k == "x86":
            r = self.x86(st, nm, a)
        elif k in ("ctpop", "cttz", "ctlz"):
            r = self.bits(st, k, a, ins)
        elif k == "eh":
            r = I(ivar("typeid").t and 1)
            r = fresh("typeid")
        elif k in ("rint", "nearbyint", "round"):
            r = self.lanes(lambda x: app("m_" + k, (x,), "R"), a[0])
        else:
            raise Unsupported("intrinsic " + nm)
        return [(st, "ret", r)]

    def bits(self, st, k, a, ins):
        x = a[0]
        if isinstance(x, Poly):
            return app(k, (x,), "I")
        return self.fresh_val(ins.ty, k)

    def x86(self, st, nm, a):
        if nm in ("llvm.x86.sse2.max.pd", "llvm.x86.sse2.min.pd", "llvm.x86.sse.max.ps", "llvm.x86.sse.min.ps"):
            mx = ".max." in nm
            # MAXPD: a > b ? a : b
            return tuple(ite(y.lt(x), x, y) if mx else ite(x.lt(y), x, y) for x, y in zip(*a))
        raise Unsupported("intrinsic " + nm)

    def sqrt(self, st, x):
        if self.fpmode == "uf":
            return app("m_sqrt", (x,), "R")
        if x.is_const():
            import math
            c = Fraction(x.const())
            if c >= 0:
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return R(Fraction(a, b))
        return app("m_sqrt", (x,), "R")

    def fabs(self, st, x):
        if x.is_const():
            return x if x.const() >= 0 else -x
        return ite(x.ge(0), x, -x)

    # ------------------------------------------------------------------ loops
    def exec_loop(self, f, st, header, prev):
        key = "%s:%s" % (f.name, header)
        # 1. a loop whose every branch is decided (constant trip count) is simply executed
        r = self.try_concrete(f, st, header, prev)
        if r is not None:
            return r
        if self.nofork:
            raise NeedFork()
        return LoopRun(self, f, st, header, prev).go()

    def try_concrete(self, f, st, header, prev):
        s = st.fork()
        emit, nf = self.emit, self.nofork
        nobl = len(self.obls)
        np = self.npaths
        self.nofork = True
        self.emit = False
        try:
            self.do_phis(f, s, header, prev)
            # only worth trying when some phi starts as a constant
            n = 0
            outs = []
            while True:
                n += 1
                if n > 40:
                    return None
                res = self.run(f, s, header, None, header)
                nxt = None
                for o in res:
                    if o[0] == "back":
                        if nxt is not None:
                            return None
                        nxt = o
                    else:
                        outs.append(o)
                if nxt is None:
                    break
                s = nxt[1]
                self.do_phis(f, s, header, nxt[2])
            if len(outs) != 1:
                return None
        except (NeedFork, Unsupported):
            return None
        finally:
            self.nofork = nf
            self.emit = emit
            self.npaths = np
        if not emit:
            return outs
        # replay with obligations on
        s = st.fork()
        self.nofork = True
        try:
            self.do_phis(f, s, header, prev)
            while True:
                res = self.run(f, s, header, None, header)
                nxt = [o for o in res if o[0] == "back"]
                if not nxt:
                    return res
                s = nxt[0][1]
                self.do_phis(f, s, header, nxt[0][2])
        except NeedFork:
            del self.obls[nobl:]
            return None
        finally:
            self.nofork = nf


def short(n):
    n = n[1:].strip('"')
    if n.startswith("_Z"):
        import re
        ids = re.findall(r"\d+([A-Za-z_]\w*?)(?=I|E|\d|$)", n)
        m = re.match(r"_ZN?K?(?:\d+\w)*", n)
        out = []
        i = 2
        if n[i:i + 1] == "N":
            i += 1
        if n[i:i + 1] == "K":
            i += 1
        while i < len(n):
            m = re.match(r"(\d+)", n[i:])
            if m:
                L = int(m.group(1))
                i += len(m.group(1))
                out.append(n[i:i + L])
                i += L
            elif n[i:i + 2] in ("St", "Sa"):
                out.append("std")
                i += 2
            else:
                break
        return "::".join(out[-2:]) or n[:60]
    return n


from loops import LoopRun  # noqa: E402
