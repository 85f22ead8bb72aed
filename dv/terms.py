"""Term language of the verifier.

Integer and real terms are kept in polynomial normal form over interned atoms
(variables, uninterpreted applications, array reads, ite, div, mod, finite sums...).
Booleans are interned trees over  p <= 0  and  p == 0.
"""
from fractions import Fraction
from math import gcd
import z3

# ----------------------------------------------------------------------------- atoms
_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("op", "args", "sort", "id", "_z", "key", "_fv")

    def __init__(self, op, args, sort, key):
        self.op, self.args, self.sort = op, args, sort
        self.id = len(_atom_list)
        self._z = None
        self._fv = None
        self.key = key
        _atom_list.append(self)

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return (self.skey(), self.id) < (o.skey(), o.id)

    def skey(self):
        if self.op == "app":
            return "app " + self.args[0]
        return self.op


def atom(op, args, sort):
    key = (op, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom(op, args, sort, key)
        _atoms[key] = a
    return a


# ----------------------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "sort", "_h", "_z", "_at")

    def __init__(self, t, sort):
        self.t = t          # dict monomial(tuple of Atom) -> Fraction/int
        self.sort = sort
        self._h = None
        self._z = None
        self._at = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.sort, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.sort == o.sort and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = lift(o, self.sort)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
        return Poly(r, self.sort)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()}, self.sort)

    def __sub__(self, o):
        return self + (-lift(o, self.sort))

    def __rsub__(self, o):
        return lift(o, self.sort) - self

    def __mul__(self, o):
        o = lift(o, self.sort)
        if o.is_const():
            c = o.const()
            if c == 0:
                return Poly({}, self.sort)
            if c == 1:
                return self
            return Poly({m: norm(v * c) for m, v in self.t.items()}, self.sort)
        if self.is_const():
            return o * self
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = norm(v)
        return simp_inv(Poly(r, self.sort))

    __rmul__ = __mul__

    def scale(self, c):
        return Poly({m: norm(v * c) for m, v in self.t.items()}, self.sort) if c != 0 else Poly({}, self.sort)

    def divides_exact(self, d):
        """self / d for an integer d when every coefficient is divisible."""
        for c in self.t.values():
            if c % d != 0:
                return None
        return Poly({m: norm(Fraction(c) / d) for m, c in self.t.items()}, self.sort)

    def atoms(self):
        """All atoms occurring anywhere inside (deep)."""
        if self._at is None:
            s = set()
            for m in self.t:
                for a in m:
                    s |= atom_atoms(a)
            self._at = frozenset(s)
        return self._at

    def __repr__(self):
        return show(self)

    # comparisons building booleans
    def le(self, o):
        return le0(self - lift(o, self.sort))

    def lt(self, o):
        return lt0(self - lift(o, self.sort))

    def ge(self, o):
        return lift(o, self.sort).le(self)

    def gt(self, o):
        return lift(o, self.sort).lt(self)

    def eq(self, o):
        return eq0(self - lift(o, self.sort))

    def ne(self, o):
        return Not(self.eq(o))


def norm(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def simp_inv(p):
    """cancel x * inv(x) where x is a single atom or polynomial (assumes x != 0, see assumptions)"""
    if p.sort != "R":
        return p
    hit = False
    for m in p.t:
        for a in m:
            if a.op == "inv":
                hit = True
    if not hit:
        return p
    r = {}
    for m, c in p.t.items():
        ms = list(m)
        changed = True
        while changed:
            changed = False
            for a in ms:
                if a.op == "inv":
                    q = a.args[0]
                    if len(q.t) == 1:
                        (qm, qc), = q.t.items()
                        rest = list(ms)
                        rest.remove(a)
                        ok = True
                        for x in qm:
                            if x in rest:
                                rest.remove(x)
                            else:
                                ok = False
                                break
                        if ok and qm:
                            ms = rest
                            c = norm(Fraction(c) / qc)
                            changed = True
                            break
        key = tuple(ms)
        v = r.get(key, 0) + c
        if v == 0:
            r.pop(key, None)
        else:
            r[key] = norm(v)
    return Poly(r, p.sort)


def atom_atoms(a):
    if a._fv is None:
        s = {a}
        for x in a.args:
            if isinstance(x, (Poly, B)):
                s |= x.atoms()
        a._fv = frozenset(s)
    return a._fv


def lift(x, sort):
    if isinstance(x, Poly):
        if x.sort != sort:
            if sort == "R" and x.sort == "I":
                return to_real(x)
            raise TypeError("sort mismatch %s %s" % (x, sort))
        return x
    if isinstance(x, (int, Fraction)):
        return Poly({(): norm(x)} if x != 0 else {}, sort)
    raise TypeError("cannot lift %r" % (x,))


def I(x):
    return lift(x, "I")


def R(x):
    return lift(x, "R")


def poly_of(a):
    return Poly({(a,): 1}, a.sort)


def ivar(name):
    return poly_of(atom("var", (name,), "I"))


def rvar(name):
    return poly_of(atom("var", (name,), "R"))


_fresh = [0]


def fresh(prefix, sort="I"):
    _fresh[0] += 1
    return poly_of(atom("var", ("%s!%d" % (prefix, _fresh[0]),), sort))


def app(name, args, sort):
    if name == "m_pow" and args[1].is_const() and args[1] in (R(1), R(2)):
        return args[0] if args[1] == R(1) else args[0] * args[0]
    if name in ("m_cos", "m_sin") and len(args) == 1:
        # even and odd functions: one normal form for x and -x; cos 0 = 1, sin 0 = 0
        x = args[0]
        if not x.t:
            return R(1) if name == "m_cos" else R(0)
        if x.t[min(x.t, key=lambda m: [a.id for a in m])] < 0:
            r = poly_of(atom("app", (name, -x), sort))
            return r if name == "m_cos" else -r
    return poly_of(atom("app", (name,) + tuple(args), sort))


def to_real(p):
    if p.sort == "R":
        return p
    r = {}
    for m, c in p.t.items():
        key = tuple(sorted(atom("toreal", (poly_of(a),), "R") for a in m))
        r[key] = r.get(key, 0) + c
    return Poly(r, "R")


def real_to_int_exact(p):
    """inverse of to_real when p is a polynomial over toreal atoms with integer coefficients"""
    r = {}
    for m, c in p.t.items():
        if Fraction(c).denominator != 1:
            return None
        mm = []
        for a in m:
            if a.op != "toreal":
                return None
            (x,), = a.args[0].t.keys()
            mm.append(x)
        r[tuple(sorted(mm))] = int(c)
    return Poly(r, "I")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if isinstance(a, B):
        return Or(And(c, a), And(Not(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # if a and b share a common part, factor it: ite(c, x+d, x) ...
    return poly_of(atom("ite", (c, a, b), a.sort))


def idiv(a, b):
    """floor division; b > 0 when constant"""
    b = lift(b, "I")
    if b.is_const():
        d = b.const()
        if d == 1:
            return a
        if a.is_const():
            return I(a.const() // d)
        q = {}
        r = {}
        for m, c in a.t.items():
            if c % d == 0:
                q[m] = c // d
            elif m == ():
                if c // d:
                    q[m] = c // d
                r[m] = c % d
            else:
                r[m] = c
        rp = Poly(r, "I")
        if rp.is_const():
            return Poly(q, "I") + (rp.const() // d)
        g = d
        for c in r.values():
            g = gcd(g, c)
        # (g*x)/(g*d') = x/d'
        if g > 1:
            return Poly(q, "I") + idiv(Poly({m: c // g for m, c in r.items()}, "I"), d // g)
        return Poly(q, "I") + poly_of(atom("div", (rp, b), "I"))
    return poly_of(atom("div", (a, b), "I"))


def imod(a, b):
    b = lift(b, "I")
    if b.is_const():
        d = b.const()
        if d == 1:
            return I(0)
        r = {m: c % d for m, c in a.t.items() if c % d != 0}
        if d == 2:
            for m in r:
                if len(m) == 1 and m[0].op == "app" and m[0].args[0] == "bvxor":
                    # the lowest bit of an exclusive or is that of the sum
                    return imod(a - poly_of(m[0]) * a.t[m] + m[0].args[1] + m[0].args[2], b)
        rp = Poly(r, "I")
        if rp.is_const():
            return I(rp.const() % d)
        g = d
        for c in r.values():
            g = gcd(g, c)
        if g > 1:
            return imod(Poly({m: c // g for m, c in r.items()}, "I"), d // g) * g
        return poly_of(atom("mod", (rp, b), "I"))
    return poly_of(atom("mod", (a, b), "I"))


def rinv(p):
    """1/p"""
    if p.is_const():
        return R(Fraction(1) / Fraction(p.const())) if p.const() != 0 else app("div0", (R(1),), "R")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0].op == "inv":
            return m[0].args[0].scale(Fraction(1) / Fraction(c))
        r = R(Fraction(1) / Fraction(c))
        for a in m:
            if a.op == "inv":
                r = r * a.args[0]
            else:
                r = r * poly_of(atom("inv", (poly_of(a),), "R"))
        return r
    # normalise leading coefficient
    lead = min(p.t.items(), key=lambda kv: tuple((a.skey(), a.id) for a in kv[0]) if kv[0] else (("~", 0),))
    c = lead[1]
    return poly_of(atom("inv", (p.scale(Fraction(1) / Fraction(c)),), "R")).scale(Fraction(1) / Fraction(c))


def rdiv(a, b):
    return a * rinv(b)


# ----------------------------------------------------------------------------- booleans
_bools = {}


class B:
    __slots__ = ("op", "args", "id", "_z", "_at")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.id = len(_bools)
        self._z = None
        self._at = None

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show_b(self)

    def atoms(self):
        if self._at is None:
            s = set()
            for x in self.args:
                if isinstance(x, (Poly, B)):
                    s |= x.atoms()
            self._at = frozenset(s)
        return self._at


def mkb(op, args):
    key = (op, args)
    b = _bools.get(key)
    if b is None:
        b = B(op, args)
        _bools[key] = b
    return b


TRUE = mkb("true", ())
FALSE = mkb("false", ())


def bconst(v):
    return TRUE if v else FALSE


def bvar(name):
    return mkb("bvar", (name,))


def fresh_b(prefix):
    _fresh[0] += 1
    return bvar("%s!%d" % (prefix, _fresh[0]))


def bapp(name, args):
    return mkb("bapp", (name,) + tuple(args))


def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        p = b.args[0]
        if p.sort == "I":
            return le0(1 - p)
        return mkb("not", (b,))
    return mkb("not", (b,))


def And(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == "and":
            out.extend(b.args)
        else:
            out.append(b)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mkb("and", tuple(out))


def Or(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == "or":
            out.extend(b.args)
        else:
            out.append(b)
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mkb("or", tuple(out))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if a is FALSE:
        return Not(b)
    if b is TRUE:
        return a
    if b is FALSE:
        return Not(a)
    return mkb("iff", (a, b))


def le0(p):
    if p.is_const():
        return bconst(p.const() <= 0)
    if p.sort == "I":
        g = 0
        for m, c in p.t.items():
            if not isinstance(c, int):
                raise NonIntegral()
            if m != ():
                g = gcd(g, c)
        if g > 1:
            c0 = p.t.get((), 0)
            r = {m: c // g for m, c in p.t.items() if m != ()}
            c1 = -((-c0) // g)     # ceil(c0/g): g*x + c0 <= 0  <=>  x + ceil(c0/g) <= 0
            if c1:
                r[()] = c1
            p = Poly(r, "I")
    else:
        lead = min(p.t.items(), key=lambda kv: tuple((a.skey(), a.id) for a in kv[0]) if kv[0] else (("~", 0),))
        c = abs(Fraction(lead[1]))
        if c != 1:
            p = p.scale(1 / c)
    return mkb("le", (p,))


def lt0(p):
    if p.sort == "I":
        return le0(p + 1)
    return Not(le0(-p))


def eq0(p):
    if p.is_const():
        return bconst(p.const() == 0)
    lead = min(p.t.items(), key=lambda kv: tuple((a.skey(), a.id) for a in kv[0]) if kv[0] else (("~", 0),))
    if p.sort == "I":
        g = 0
        for m, c in p.t.items():
            if not isinstance(c, int):
                raise NonIntegral()
            if m != ():
                g = gcd(g, c)
        c0 = p.t.get((), 0)
        if c0 % g != 0:
            return FALSE
        if lead[1] < 0:
            g = -g
        if g != 1:
            p = Poly({m: c // g for m, c in p.t.items()}, "I")
    else:
        c = Fraction(lead[1])
        if c != 1:
            p = p.scale(1 / c)
    return mkb("eq", (p,))


# ----------------------------------------------------------------------------- finite sums
# Sum over k in [lo, hi) of body(k): atom op 'sum', args = (lo, hi, skeleton id, params...)
# The skeleton is the body with every maximal k-free sub-polynomial replaced by a parameter.
_skeletons = {}
_skel_list = []
_BOUND = atom("var", ("$k",), "I")
BOUND = poly_of(_BOUND)


class Skeleton:
    def __init__(self, body, params, sid):
        self.body, self.params, self.id = body, params, sid


def _has_bound(x):
    return _BOUND in x.atoms()


def _abstract(p, params, pidx, top=False):
    """replace maximal $k-free sub-terms by parameter variables"""
    if isinstance(p, B):
        if not _has_bound(p):
            return p
        na = tuple(_abstract(x, params, pidx) if isinstance(x, (Poly, B)) else x for x in p.args)
        if p.op == "le":
            return mkb("le", na)
        if p.op == "eq":
            return mkb("eq", na)
        return mkb(p.op, na)
    free, bound = {}, {}
    for m, c in p.t.items():
        if any(_has_bound_atom(a) for a in m):
            bound[m] = c
        else:
            free[m] = c
    r = Poly({}, p.sort)
    if free or not top:
        fp = Poly(free, p.sort)
        if not (top and not free):
            r = r + _param(fp, params, pidx)
    for m, c in sorted(bound.items(), key=lambda kv: tuple((a.skey(), a.id) for a in kv[0])):
        t = lift(c, p.sort)
        fm = {}
        for a in m:
            if not _has_bound_atom(a):
                fm[a] = fm.get(a, 0) + 1
        if fm:
            fp = lift(1, p.sort)
            for a, n in fm.items():
                for _ in range(n):
                    fp = fp * poly_of(a)
            t = t * _param(fp, params, pidx)
        for a in m:
            if _has_bound_atom(a):
                if a is _BOUND:
                    t = t * poly_of(a)
                else:
                    na = tuple(_abstract(x, params, pidx) if isinstance(x, (Poly, B)) else x for x in a.args)
                    t = t * poly_of(atom(a.op, na, a.sort))
        r = r + t
    return r


def _has_bound_atom(a):
    return _BOUND in atom_atoms(a)


def _param(fp, params, pidx):
    if fp.is_const() and fp.sort == "R":
        return fp
    params.append(fp)
    return poly_of(atom("var", ("$p%d%s" % (len(params) - 1, fp.sort),), fp.sort))


def Sum(lo, hi, bodyfn, sort="R"):
    """Sum_{lo<=k<hi} bodyfn(k)"""
    lo, hi = I(lo), I(hi)
    d = hi - lo
    if d.is_const():
        n = d.const()
        r = lift(0, sort)
        if n <= 0:
            return r
        if n <= 16:
            for i in range(n):
                r = r + bodyfn(lo + i)
            return r
    body = bodyfn(BOUND)
    if not body.t:
        return body
    # pull out constant real coefficients term by term: sum is linear
    out = lift(0, sort)
    for m, c in body.t.items():
        bm = tuple(a for a in m if _has_bound_atom(a))
        fm = tuple(a for a in m if not _has_bound_atom(a))
        coef = Poly({fm: c}, sort)
        if not bm:
            out = out + coef * count_real(lo, hi, sort)
            continue
        lo_, hi_, one = lo, hi, Poly({bm: 1}, sort)
        an = _anchor(one)
        if an is not None:
            sg, free = an
            # index so that the anchor argument is exactly the bound variable
            try:
                if sg == 1:
                    one = subst(one, {_BOUND: BOUND - free})
                    lo_, hi_ = lo + free, hi + free
                else:
                    one = subst(one, {_BOUND: free - BOUND})
                    lo_, hi_ = free - hi + 1, free - lo + 1
            except NonIntegral:
                one, lo_, hi_ = Poly({bm: 1}, sort), lo, hi
        params = []
        sk = _abstract(one, params, None, top=True)
        s = _skeletons.get(sk)
        if s is None:
            s = Skeleton(sk, [q.sort for q in params], len(_skel_list))
            _skeletons[sk] = s
            _skel_list.append(s)
        out = out + coef * poly_of(atom("sum", (lo_, hi_, s.id) + tuple(params), sort))
    return out


def _anchor(p):
    """(sign, free) of the index argument  sign*$k + free  that fixes the position of the summation index"""
    best = None
    for a in p.atoms():
        if a.op != "app":
            continue
        for n, x in enumerate(a.args[1:]):
            if isinstance(x, Poly) and x.sort == "I" and _BOUND in x.atoms():
                c = x.t.get((_BOUND,), 0)
                free = x - BOUND * c
                if c == 0 or _BOUND in free.atoms():
                    continue
                sg, w = (1 if c > 0 else -1), abs(c)
                if w != 1:
                    # stride w (interleaved components): the argument becomes w*$k + constant
                    free = free - free.const() % w
                    if any(v % w for v in free.t.values()):
                        continue
                    free = Poly({m: v // w for m, v in free.t.items()}, "I")
                key = (a.args[0], n, -sg, repr(free.const()), len(free.t))
                if best is None or key < best[0]:
                    best = (key, sg, free)
    return None if best is None else (best[1], best[2])


def count_real(lo, hi, sort):
    n = ite((hi - lo).ge(0), hi - lo, I(0))
    return lift(n, sort)


def sum_body(a, k):
    """the body of sum atom a at index polynomial k"""
    s = _skel_list[a.args[2]]
    mp = {_BOUND: k}
    for i, q in enumerate(a.args[3:]):
        mp[atom("var", ("$p%d%s" % (i, q.sort),), q.sort)] = q
    return subst(s.body, mp)


def mk_sum_like(a, lo, hi):
    d = hi - lo
    if d.is_const() and d.const() <= 16:
        r = lift(0, a.sort)
        for i in range(max(0, d.const())):
            r = r + sum_body(a, lo + i)
        return r
    return poly_of(atom("sum", (lo, hi) + a.args[2:], a.sort))


# ----------------------------------------------------------------------------- substitution
def subst(x, mp, memo=None):
    """mp: Atom -> Poly"""
    if memo is None:
        memo = {}
    keys = mp.keys()
    return _subst(x, mp, keys, memo)


class NonIntegral(Exception):
    pass


def _subst(x, mp, keys, memo):
    if isinstance(x, B):
        if x in memo:
            return memo[x]
        at = x.atoms()
        if not any(k in at for k in keys):
            return x
        a = [_subst(y, mp, keys, memo) if isinstance(y, (Poly, B)) else y for y in x.args]
        if x.op == "le":
            r = le0(a[0])
        elif x.op == "eq":
            r = eq0(a[0])
        elif x.op == "not":
            r = Not(a[0])
        elif x.op == "and":
            r = And(*a)
        elif x.op == "or":
            r = Or(*a)
        elif x.op == "iff":
            r = Iff(*a)
        elif x.op == "bapp":
            r = bapp(a[0], a[1:])
        else:
            r = x
        memo[x] = r
        return r
    at = x.atoms()
    if not any(k in at for k in keys):
        return x
    if x in memo:
        return memo[x]
    r = lift(0, x.sort)
    for m, c in x.t.items():
        t = lift(c, x.sort)
        for a in m:
            t = t * _subst_atom(a, mp, keys, memo)
        r = r + t
    memo[x] = r
    return r


def _subst_atom(a, mp, keys, memo):
    if a in mp:
        return mp[a]
    at = atom_atoms(a)
    if not any(k in at for k in keys):
        return poly_of(a)
    if a in memo:
        return memo[a]
    args = tuple(_subst(y, mp, keys, memo) if isinstance(y, (Poly, B)) else y for y in a.args)
    for y in args:
        if isinstance(y, Poly) and y.sort == "I":
            for c in y.t.values():
                if not isinstance(c, int):
                    raise NonIntegral()
    r = rebuild(a, args)
    memo[a] = r
    return r


def rebuild(a, args):
    if a.op == "ite":
        return ite(*args)
    if a.op == "div":
        return idiv(*args)
    if a.op == "mod":
        return imod(*args)
    if a.op == "toreal":
        return to_real(args[0])
    if a.op == "inv":
        return rinv(args[0])
    if a.op == "sum":
        return mk_sum_like(atom(a.op, args, a.sort), args[0], args[1])
    if a.op == "app" and args[0] in ("m_cos", "m_sin"):
        return app(args[0], args[1:], a.sort)
    return poly_of(atom(a.op, args, a.sort))


# ----------------------------------------------------------------------------- z3 translation
_zfun = {}


def zsort(s):
    return z3.IntSort() if s == "I" else z3.RealSort()


def zf(name, dom, rng):
    key = (name, tuple(dom), rng)
    f = _zfun.get(key)
    if f is None:
        f = z3.Function(name, *[zsort(d) for d in dom], z3.BoolSort() if rng == "B" else zsort(rng))
        _zfun[key] = f
    return f


_RMUL = z3.Function("rmul", z3.RealSort(), z3.RealSort(), z3.RealSort())


def z(x):
    if isinstance(x, Poly):
        if x._z is None:
            x._z = _zpoly(x)
        return x._z
    if isinstance(x, B):
        if x._z is None:
            x._z = _zbool(x)
        return x._z
    if isinstance(x, Atom):
        return z_atom(x)
    raise TypeError(x)


def z_atom(a):
    if a._z is None:
        op = a.op
        if op == "var":
            a._z = z3.Int(a.args[0]) if a.sort == "I" else z3.Real(a.args[0])
        elif op == "app":
            args = a.args[1:]
            if not args:
                a._z = z3.Const(a.args[0], zsort(a.sort))
            else:
                a._z = zf(a.args[0], [q.sort for q in args], a.sort)(*[z(q) for q in args])
        elif op == "ite":
            a._z = z3.If(z(a.args[0]), z(a.args[1]), z(a.args[2]))
        elif op == "div":
            a._z = z(a.args[0]) / z(a.args[1])
        elif op == "mod":
            a._z = z(a.args[0]) % z(a.args[1])
        elif op == "toreal":
            a._z = z3.ToReal(z(a.args[0]))
        elif op == "inv":
            a._z = zf("rinv", ["R"], "R")(z(a.args[0]))
        elif op == "sum":
            ps = a.args[3:]
            a._z = zf("sum%d" % a.args[2], ["I", "I"] + [q.sort for q in ps], a.sort)(z(a.args[0]), z(a.args[1]), *[z(q) for q in ps])
        else:
            raise TypeError(op)
    return a._z


NATIVE_REAL_MUL = [False]


def zmono(m, sort):
    if len(m) == 1:
        return z_atom(m[0])
    if sort == "I":
        r = z_atom(m[0])
        for a in m[1:]:
            r = r * z_atom(a)
        return r
    r = z_atom(m[-1])
    for a in reversed(m[:-1]):
        r = _RMUL(z_atom(a), r)
    return r


def _zpoly(p):
    ts = []
    for m, c in p.t.items():
        if p.sort == "I":
            if not isinstance(c, int):
                raise NonIntegral()
            cz = z3.IntVal(c)
        else:
            f = Fraction(c)
            cz = z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
        if m == ():
            ts.append(cz)
        elif c == 1:
            ts.append(zmono(m, p.sort))
        else:
            ts.append(cz * zmono(m, p.sort))
    if not ts:
        return z3.IntVal(0) if p.sort == "I" else z3.RealVal(0)
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


def split_pos_neg(p):
    pos = Poly({m: c for m, c in p.t.items() if c > 0}, p.sort)
    neg = Poly({m: -c for m, c in p.t.items() if c < 0}, p.sort)
    return pos, neg


def _zbool(b):
    op = b.op
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op == "le":
        pos, neg = split_pos_neg(b.args[0])
        return z(pos) <= z(neg)
    if op == "eq":
        pos, neg = split_pos_neg(b.args[0])
        return z(pos) == z(neg)
    if op == "not":
        return z3.Not(z(b.args[0]))
    if op == "and":
        return z3.And(*[z(x) for x in b.args])
    if op == "or":
        return z3.Or(*[z(x) for x in b.args])
    if op == "iff":
        return z(b.args[0]) == z(b.args[1])
    if op == "bvar":
        return z3.Bool(b.args[0])
    if op == "bapp":
        args = b.args[1:]
        if not args:
            return z3.Bool(b.args[0])
        return zf(b.args[0], [q.sort for q in args], "B")(*[z(q) for q in args])
    raise TypeError(op)


# ----------------------------------------------------------------------------- printing
def show_atom(a):
    if a.op == "var":
        return a.args[0]
    if a.op == "app":
        return "%s(%s)" % (a.args[0], ", ".join(map(repr, a.args[1:])))
    if a.op == "ite":
        return "ite(%r, %r, %r)" % a.args
    if a.op == "sum":
        return "SUM[%r..%r)(%r)" % (a.args[0], a.args[1], sum_body(a, BOUND))
    if a.op == "toreal":
        return repr(a.args[0])
    return "%s(%s)" % (a.op, ", ".join(map(repr, a.args)))


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t.items():
        s = "*".join(show_atom(a) for a in m)
        if m == ():
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c, s))
    return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]


def show_b(b):
    if b.op == "le":
        pos, neg = split_pos_neg(b.args[0])
        return "%s <= %s" % (show(pos), show(neg))
    if b.op == "eq":
        pos, neg = split_pos_neg(b.args[0])
        return "%s == %s" % (show(pos), show(neg))
    if b.op in ("bvar",):
        return b.args[0]
    if b.op == "bapp":
        return "%s(%s)" % (b.args[0], ", ".join(map(repr, b.args[1:])))
    if b.op in ("true", "false"):
        return b.op
    return "%s(%s)" % (b.op, ", ".join(map(repr, b.args)))
