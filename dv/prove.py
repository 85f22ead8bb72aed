"""Discharging of obligations: z3 over LIA/LRA/EUF plus instantiated lemma schemas
(finite sums, products of ites, registered facts about uninterpreted functions)."""
import time
from fractions import Fraction
import z3
import terms as T
from terms import Poly, B, I, R, TRUE, FALSE, And, Or, Not, Implies, poly_of

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class Prover:
    def __init__(self, timeout_ms=8000):
        self.dscan = {}
        self.timeout = timeout_ms
        self.cache = {}
        self.stack = []          # list of B pushed
        self.s = None
        self.time = 0.0
        self.queries = 0
        self.fact_gens = {}      # app name -> fn(atom) -> [B]
        self.pair_gens = []      # fn(list of atoms) -> [B]
        self.log = None          # when a list: (pc, goal, status) of discharged obligations
        self.cex_vars = []
        self.last_model = None
        self.cex = None
        self.axioms = []         # closed z3 facts, always present

    def model_values(self, m):
        out = {}
        for n in self.cex_vars:
            v = m.eval(z3.Int(n), model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
        return out

    def reset(self):
        self.s = None
        self.stack = []

    # ------------------------------------------------------------------ facts on atoms
    def atom_facts(self, at, done):
        out = []
        work = list(at)
        while work:
            a = work.pop()
            if a in done:
                continue
            done.add(a)
            new = []
            if a.op == "app":
                g = self.fact_gens.get(a.args[0])
                if g:
                    new = g(a)
            elif a.op == "sum":
                lo, hi = a.args[0], a.args[1]
                new = [Implies(hi.le(lo), poly_of(a).eq(0))]
            elif a.op == "mod" or a.op == "div":
                x, d = a.args
                if not d.is_const():
                    q = poly_of(T.atom("div", (x, d), "I"))
                    r = poly_of(T.atom("mod", (x, d), "I"))
                    new = [Implies(d.ge(1), And((q * d + r).eq(x), r.ge(0), r.lt(d)))]
            elif a.op == "inv":
                # p * inv(p) == 1 for p != 0
                pass
            for f in new:
                out.append(f)
                work.extend(f.atoms())
        return out

    def mono_facts(self, b, done):
        """facts about products: commutativity, zero, ite distribution"""
        out = []
        work = []
        self._collect_monos(b, work, set())
        n = 0
        while work and n < 400:
            m, sort = work.pop()
            if m in done:
                continue
            done.add(m)
            n += 1
            if sort == "R":
                if len(m) == 2:
                    x, y = T.z_atom(m[0]), T.z_atom(m[1])
                    out.append(T._RMUL(x, y) == T._RMUL(y, x))
                    if m[0] is m[1]:
                        out.append(T._RMUL(x, x) >= 0)
                        out.append((T._RMUL(x, x) == 0) == (x == 0))
                iz = [a for a in m if a.op == "ite"]
                if iz:
                    a = iz[0]
                    rest = list(m)
                    rest.remove(a)
                    rp = Poly({tuple(rest): 1}, "R")
                    c, p, q = a.args
                    zz = T.zmono(m, "R")
                    for cond, br in ((c, p), (Not(c), q)):
                        e = br * rp
                        out.append(z3.Implies(T.z(cond), zz == T.z(e)))
                        self._collect_poly(e, work, set())
                for a in m:
                    out.append(z3.Implies(T.z_atom(a) == 0, T.zmono(m, "R") == 0)) if len(m) == 2 else None
            out = [o for o in out if o is not None]
        return out

    def _collect_monos(self, b, work, seen):
        st = [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if isinstance(x, B):
                st.extend(y for y in x.args if isinstance(y, (Poly, B)))
            else:
                self._collect_poly(x, work, seen)
                for m in x.t:
                    for a in m:
                        for y in a.args:
                            if isinstance(y, (Poly, B)):
                                st.append(y)

    def _collect_poly(self, x, work, seen):
        for m in x.t:
            if len(m) > 1:
                work.append((m, x.sort))

    # ------------------------------------------------------------------ sum lemmas
    def sum_lemmas(self, bools, level):
        sums = set()
        for b in bools:
            for a in b.atoms():
                if a.op == "sum" and T._BOUND not in T.atom_atoms(a):
                    sums.add(a)
        sums = sorted(sums, key=lambda a: a.id)
        out = []
        extra = []
        for i, s in enumerate(sums):
            for t in sums[i + 1:]:
                if s.args[2:] != t.args[2:]:
                    continue
                out += self.sum_pair(s, t, extra, level)
        return out, sums, extra

    def sum_pair(self, s, t, extra, level):
        out = []
        l1, h1, l2, h2 = s.args[0], s.args[1], t.args[0], t.args[1]
        S, Tt = poly_of(s), poly_of(t)

        def mk(lo, hi):
            p = T.mk_sum_like(s, lo, hi)
            for a in p.atoms():
                if a.op == "sum":
                    extra.append(a)
            return p
        if l1 == l2:
            d = h2 - h1
            if d.is_const() and abs(d.const()) <= 16:
                if d.const() < 0:
                    S, Tt, h1, h2 = Tt, S, h2, h1
                out.append(Implies(l1.le(h1), Tt.eq(S + mk(h1, h2))))
            elif level >= 1:
                out.append(Implies(And(l1.le(h1), h1.le(h2)), Tt.eq(S + mk(h1, h2))))
                out.append(Implies(And(l1.le(h2), h2.le(h1)), S.eq(Tt + mk(h2, h1))))
            return out
        if h1 == h2:
            d = l2 - l1
            if d.is_const() and abs(d.const()) <= 16:
                if d.const() < 0:
                    S, Tt, l1, l2 = Tt, S, l2, l1
                out.append(Implies(l2.le(h1), S.eq(Tt + mk(l1, l2))))
            elif level >= 1:
                out.append(Implies(And(l1.le(l2), l2.le(h2)), S.eq(Tt + mk(l1, l2))))
                out.append(Implies(And(l2.le(l1), l1.le(h1)), Tt.eq(S + mk(l2, l1))))
            return out
        if h1 == l2 or h2 == l1:
            if h2 == l1:
                l1, h1, l2, h2 = l2, h2, l1, h1
            if level >= 1:
                out.append(Implies(And(l1.le(h1), l2.le(h2)), (S + Tt).eq(mk(l1, h2))))
            return out
        if level >= 1:
            # nested either way
            out.append(Implies(And(l1.le(l2), l2.le(h2), h2.le(h1)), S.eq(mk(l1, l2) + Tt + mk(h2, h1))))
            out.append(Implies(And(l2.le(l1), l1.le(h1), h1.le(h2)), Tt.eq(mk(l2, l1) + S + mk(h1, h2))))
        return out

    # ------------------------------------------------------------------ main entry
    def check(self, pc, extra, timeout=None):
        """satisfiability of pc and extra (list of B): 'sat' | 'unsat' | 'unknown'"""
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        self.s.set("timeout", int(timeout or self.timeout))
        done_a, done_m = set(self.pc_atoms), set(self.pc_monos)
        for b in extra:
            self.assert_with_facts(b, done_a, done_m)
        for b in self.div_lemmas(list(pc) + list(extra)):
            self.assert_with_facts(b, done_a, done_m)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.time += time.time() - t0
        self.queries += 1
        return str(r)

    def div_lemmas(self, bools):
        """d >= 1  ->  (x >= d*y <-> div(x,d) >= y)   for symbolic divisors d and the products d*y that occur"""
        divs, monos = {}, {}
        for b in bools:
            dv, mo = self.div_scan(b)
            divs.update(dv)
            monos.update(mo)
        if not divs:
            return []
        out = []
        for key in divs:
            x, d = key
            (m, c), = d.t.items() if len(d.t) == 1 else ((None, None),)
            ys = [I(0), I(1)]
            if c == 1 and m is not None and len(m) == 1:
                for mm in monos:
                    if m[0] in mm:
                        r = list(mm)
                        r.remove(m[0])
                        y = Poly({tuple(r): 1}, "I")
                        if any(a.op == "div" and a.args == (x, d) for a in r):
                            continue
                        for z in (y, y + 1, y - 1):
                            if z not in ys:
                                ys.append(z)
            q = poly_of(T.atom("div", (x, d), "I"))
            for y in ys[:24]:
                out.append(Implies(d.ge(1), T.Iff(x.ge(d * y), q.ge(y))))
        return out

    def div_scan(self, b):
        r = self.dscan.get(b)
        if r is None:
            divs, monos = {}, {}
            for a in b.atoms():
                if a.op in ("div", "mod") and not a.args[1].is_const():
                    divs[a.args] = True
            w = []
            self._collect_monos(b, w, set())
            for m, sort in w:
                if sort == "I" and len(m) == 2:
                    monos[m] = True
            r = self.dscan[b] = (divs, monos)
        return r

    def assert_with_facts(self, b, done_a, done_m):
        for f in [b] + self.atom_facts(b.atoms(), done_a):
            self.s.add(T.z(f))
            for zf_ in self.mono_facts(f, done_m):
                self.s.add(zf_)

    def sync(self, pc):
        if self.s is None:
            self.s = z3.Solver()
            self.stack = []
            self.pcstate = [(set(), set())]
            for a in self.axioms:
                self.s.add(a)
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] is pc[n]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.s.pop(k)
            del self.stack[n:]
            del self.pcstate[n + 1:]
        for b in pc[n:]:
            self.s.push()
            da, dm = self.pcstate[-1]
            da, dm = set(da), set(dm)
            self.assert_with_facts(b, da, dm)
            self.stack.append(b)
            self.pcstate.append((da, dm))
        self.pc_atoms, self.pc_monos = self.pcstate[-1]

    def feasible(self, pc, extra=()):
        key = ("f", tuple(pc), tuple(extra))
        r = self.cache.get(key)
        if r is None:
            for e in extra:
                if e is FALSE:
                    self.cache[key] = False
                    return False
            r = self.check(pc, list(extra), 3000) != "unsat"
            self.cache[key] = r
        return r

    def quick(self, pc, goal):
        """cheap validity check without lemma search"""
        if goal is TRUE:
            return True
        if goal is FALSE and not pc:
            return False
        if goal in pc:
            return True
        key = ("q", tuple(pc), goal)
        r = self.cache.get(key)
        if r is None:
            r = self.check(pc, [Not(goal)], 3000) == "unsat"
            self.cache[key] = r
        return r

    def prove(self, pc, goal, timeout=None):
        """'proved' | 'refuted' (model found for the weakened lemma set) | 'unknown'"""
        if goal is TRUE:
            return "proved"
        if goal in pc:
            return "proved"
        key = ("p", tuple(pc), goal)
        r = self.cache.get(key)
        if r is not None:
            return r
        r = self._prove(pc, goal, timeout)
        self.cache[key] = r
        return r

    def solved(self, pc, goal):
        """the goal with the variables the path conditions determine replaced by their values (products are not congruent otherwise)"""
        if goal.op != "eq" or goal.args[0].sort != "R":
            return None
        vs = {a for m in goal.args[0].t if len(m) > 1 for a in m if a.op == "var"}
        mp = {}
        for b in pc:
            if b.op != "eq" or b.args[0].sort != "R":
                continue
            p = b.args[0]
            for a in vs:
                c = p.t.get((a,))
                if a in mp or c is None or sum(a in m for m in p.t) != 1:
                    continue
                rest = (p - poly_of(a) * c) * (-1 / Fraction(c))
                if a not in rest.atoms() and not any(x.op == "var" and x in vs for x in rest.atoms()):
                    mp[a] = rest
        return T.subst(goal, mp) if mp else None

    def _prove(self, pc, goal, timeout):
        if goal.op == "and":
            res = "proved"
            for g in goal.args:
                r = self.prove(pc, g, timeout)
                if r != "proved":
                    res = r
                    if r == "refuted":
                        break
            return res
        r = self.check(pc, [Not(goal)], timeout)
        if r == "unsat":
            return "proved"
        if r == "sat":
            self.last_model = self.model_values(self.model)
        g2 = self.solved(pc, goal)
        if g2 is not None:
            r2 = self.prove(pc, g2, timeout)
            if r2 == "proved":
                return r2
        has_sum = any(a.op == "sum" for b in list(pc) + [goal] for a in b.atoms())
        if has_sum and goal.op in ("eq", "le"):
            # case split on the outermost conditional terms of the goal
            p = goal.args[0]
            its = [a for m in p.t for a in m if a.op == "ite" and any(x.op == "sum" for x in T.atom_atoms(a))]
            if its:
                a = its[0]
                c, x, y = a.args
                res = "proved"
                for cond, br in ((c, x), (Not(c), y)):
                    if not self.feasible(pc, (cond,)):
                        continue
                    q = T.lift(0, p.sort)
                    for m, co in p.t.items():
                        t = T.lift(co, p.sort)
                        for z_ in m:
                            t = t * (br if z_ is a else poly_of(z_))
                        q = q + t
                    g2 = T.eq0(q) if goal.op == "eq" else T.le0(q)
                    r2 = self.prove(list(pc) + [cond], g2, timeout)
                    if r2 != "proved":
                        res = r2
                        break
                return res
        if goal.op == "eq" and goal.args[0].sort == "R" and not has_sum:
            r2 = self.prove_cases(pc, goal, timeout)
            if r2 is not None:
                return r2
        if goal.op == "le" and goal.args[0].sort == "R" and not has_sum:
            r2 = self.prove_le(pc, goal, timeout)
            if r2 is not None:
                return r2
        if goal.op == "eq" and goal.args[0].sort == "R":
            # clear denominators (x * inv(x) = 1)
            p = goal.args[0]
            q = clear_inv(p)
            if q is not None and q != p:
                if self.prove(pc, T.eq0(q), timeout) == "proved":
                    return "proved"
            # polynomial in parameters: it is enough that every coefficient vanishes
            fam = families(p)
            if fam is not None:
                if all(self.prove(pc, T.eq0(f), timeout) == "proved" for f in fam):
                    return "proved"
        if has_sum and goal.op == "eq":
            p = goal.args[0]
            ms = list(p.t.items())
            # a common factor:  f*q == 0  follows from  q == 0
            common = [a for a in dict.fromkeys(ms[0][0]) if all(a in m for m, _ in ms)]
            if common and len(ms) > 1:
                a = common[0]
                q = {}
                for m, c in ms:
                    l = list(m)
                    l.remove(a)
                    q[tuple(l)] = c
                return self.prove(pc, T.eq0(Poly(q, p.sort)), timeout)
            # congruence:  c*f(x) - c*f(y) == 0  follows from  x == y
            if len(ms) == 2 and ms[0][1] == -ms[1][1] and len(ms[0][0]) == len(ms[1][0]) == 1:
                a, b = ms[0][0][0], ms[1][0][0]
                if a.op == b.op == "app" and a.args[0] == b.args[0] and len(a.args) == len(b.args) and a is not b:
                    g = And(*[x.eq(y) if isinstance(x, Poly) else T.bconst(x == y) for x, y in zip(a.args[1:], b.args[1:])])
                    if self.prove(pc, g, timeout) == "proved":
                        return "proved"
        if has_sum and goal.op == "eq" and len(sum_groups(goal.args[0])) > 1:
            # sums over different functions cannot cancel each other: prove them group by group
            if all(self.prove(pc, T.eq0(g), timeout) == "proved" for g in sum_groups(goal.args[0])):
                return "proved"
        if has_sum:
            r2 = self.prove_sums(pc, goal, timeout)
            if r2 == "proved":
                return r2
        if has_sum and goal.op == "eq" and not self.splitting:
            self.splitting = True
            try:
                if self.prove_split(list(pc), goal.args[0], timeout, 0) == "proved":
                    return "proved"
            finally:
                self.splitting = False
        for tactic in self.pair_gens:
            fs = tactic(self, pc, goal)
            if fs:
                r3 = self.check(pc, [Not(goal)] + fs, timeout)
                if r3 == "unsat":
                    return "proved"
        return "refuted" if r == "sat" else "unknown"

    def prove_cases(self, pc, goal, timeout):
        """sum-free real equation: split on conditional terms, substitute integer equations, unify equal arguments.
        None: no rule applies"""
        p = goal.args[0]
        for m in p.t:
            for a in m:
                if a.op == "ite":
                    c, x, y = a.args
                    res = "proved"
                    for cond, br in ((c, x), (Not(c), y)):
                        if not self.feasible(pc, (cond,)):
                            continue
                        r = self.prove(list(pc) + [cond], T.eq0(T.subst(p, {a: br})), timeout)
                        if r != "proved":
                            return r
                    return res
        mp = int_equations(pc, p)
        if mp:
            try:
                q = T.subst(p, mp)
                if q != p:
                    return self.prove(pc, T.eq0(q), timeout)
            except T.NonIntegral:
                pass
        apps = []
        for m in p.t:
            for a in m:
                if a.op in ("app", "inv") and a.sort == "R" and a not in apps and len(a.args) > (a.op == "app"):
                    apps.append(a)
        for i, a in enumerate(apps[:8]):
            for b in apps[i + 1:8]:
                if a.op == b.op and len(a.args) == len(b.args) and (a.op == "inv" or a.args[0] == b.args[0]):
                    k = 1 if a.op == "app" else 0
                    if all(isinstance(x, Poly) and isinstance(y, Poly) and x.sort == y.sort for x, y in zip(a.args[k:], b.args[k:])):
                        if all(self.prove(pc, x.eq(y), min(timeout or self.timeout, 500)) == "proved" for x, y in zip(a.args[k:], b.args[k:])):
                            return self.prove(pc, T.eq0(T.subst(p, {b: poly_of(a)})), timeout)
        # conditional terms inside arguments
        for a in sorted(p.atoms(), key=lambda a: a.id):
            if a.op == "ite":
                res = "proved"
                c, x, y = a.args
                for cond, br in ((c, x), (Not(c), y)):
                    if not self.feasible(pc, (cond,)):
                        continue
                    try:
                        g = T.eq0(T.subst(p, {a: br}))
                    except T.NonIntegral:
                        return None
                    r = self.prove(list(pc) + [cond], g, timeout)
                    if r != "proved":
                        return r
                return res
        return None

    def prove_le(self, pc, goal, timeout):
        """real inequation: split on conditional terms, multiply by denominators of known sign"""
        p = goal.args[0]
        for a in sorted(p.atoms(), key=lambda a: a.id):
            if a.op == "ite":
                c, x, y = a.args
                for cond, br in ((c, x), (Not(c), y)):
                    if not self.feasible(pc, (cond,)):
                        continue
                    try:
                        g = T.le0(T.subst(p, {a: br}))
                    except T.NonIntegral:
                        return None
                    r = self.prove(list(pc) + [cond], g, timeout)
                    if r != "proved":
                        return r
                return "proved"
        for m in p.t:
            for a in m:
                if a.op == "inv" and all(mm.count(a) <= 1 for mm in p.t):
                    x = a.args[0]
                    for sgn in (1, -1):
                        if self.prove(pc, (x * sgn).gt(0), timeout) == "proved":
                            q = T.lift(0, p.sort)
                            for mm, c in p.t.items():
                                t = T.lift(c, p.sort)
                                for y in mm:
                                    if y is not a:
                                        t = t * poly_of(y)
                                q = q + (t if a in mm else t * x)
                            return self.prove(pc, T.le0(q * sgn), timeout)
        return None

    splitting = False

    def prove_split(self, pc, p, timeout, depth):
        """split every sum where a condition on its index changes (k < t / k >= t), then prove the equation of the pieces"""
        if depth > 14:
            return "unknown"
        for a in sorted({a for m in p.t for a in m if a.op == "sum"}, key=lambda a: a.id):
            lo, hi = a.args[0], a.args[1]
            kv = T.ivar("k?sp")
            ka = next(iter(kv.atoms()))
            body = T.sum_body(a, kv)
            c = index_condition(body, ka)
            if c is None:
                if self.quick(pc, hi.le(lo)):
                    return self.prove_split(pc, T.subst(p, {a: T.lift(0, p.sort)}), timeout, depth)
                continue
            q = c.args[0]
            f = q - kv * q.t[(ka,)]
            if c.op == "eq":
                cuts = [(-f if q.t[(ka,)] == 1 else f), (-f if q.t[(ka,)] == 1 else f) + 1]
                vals = [T.FALSE, T.TRUE, T.FALSE]
            elif q.t[(ka,)] == 1:
                cuts, vals = [1 - f], [T.TRUE, T.FALSE]
            else:
                cuts, vals = [f], [T.FALSE, T.TRUE]

            def piece(l, h, v):
                return T.Sum(l, h, lambda k: T.subst(body, {ka: k}, {c: v}), a.sort)
            r = T.lift(0, a.sort)
            l, skip = lo, False
            for t, v in zip(cuts, vals):
                if skip:
                    continue
                if self.quick(pc, t.le(lo)):
                    continue
                if self.quick(pc, t.ge(hi)):
                    r = r + piece(l, hi, v)
                    skip = True
                    continue
                if self.quick(pc, And(lo.le(t), t.le(hi))):
                    r = r + piece(l, t, v)
                    l = t
                    continue
                for cond in (t.le(lo), And(t.ge(hi), t.gt(lo)), And(t.gt(lo), t.lt(hi))):
                    if self.feasible(pc, (cond,)) and self.prove_split(pc + [cond], p, timeout, depth + 1) != "proved":
                        return "unknown"
                return "proved"
            if not skip:
                r = r + piece(l, hi, vals[-1])
            return self.prove_split(pc, T.subst(p, {a: r}), timeout, depth)
        if p.is_const():
            return "proved" if p.const() == 0 else "unknown"
        return self.prove(pc, T.eq0(p), timeout)

    def prove_prefix(self, pc, goal, timeout):
        """finite sums as differences of prefix sums P(h) - P(l)"""
        bools = [b for b in pc if any(a.op == "sum" for a in b.atoms())] + [goal]
        sums = sorted({a for b in bools for a in b.atoms() if a.op == "sum" and T._BOUND not in T.atom_atoms(a)}, key=lambda a: a.id)
        if not sums or len(sums) > 40:
            return "unknown"
        # classes of equal skeleton and (provably) equal parameters
        classes = []          # (representative params atom, [sums])
        for s in sums:
            for c in classes:
                r = c[0]
                if r.args[2] != s.args[2]:
                    continue
                g = And(*[x.eq(y) for x, y in zip(r.args[3:], s.args[3:])])
                if self.quick(pc, g):
                    c[1].append(s)
                    break
            else:
                classes.append((s, [s]))

        def P(c, x):
            return T.app("P%d" % c[0].args[2], (x,) + c[0].args[3:], c[0].sort)

        def body(c, k):
            return T.sum_body(c[0], k)
        facts = []
        pts = {}
        for i, c in enumerate(classes):
            ps = []
            for s in c[1]:
                lo, hi = s.args[0], s.args[1]
                facts.append(Implies(lo.le(hi), poly_of(s).eq(P(c, hi) - P(c, lo))))
                facts.append(Implies(hi.le(lo), poly_of(s).eq(0)))
                for x in (lo, hi):
                    if x not in ps:
                        ps.append(x)
            pts[i] = ps

        def steps():
            out = []
            for i, c in enumerate(classes):
                ps = pts[i]
                for a in range(len(ps)):
                    for b in range(a + 1, len(ps)):
                        d = ps[b] - ps[a]
                        x = ps[a]
                        if d.is_const() and abs(d.const()) <= 16:
                            d = d.const()
                            if d < 0:
                                x, d = ps[b], -d
                            t = P(c, x)
                            for j in range(d):
                                t = t + body(c, x + j)
                            out.append(P(c, x + d).eq(t))
            return out
        st1 = steps()
        # bounds a constant apart only under the path condition: the model of the failed query says which constant
        for _ in range(4):
            r0 = self.check(pc, [Not(goal)] + facts + st1, timeout)
            if r0 == "unsat":
                return "proved"
            if r0 != "sat" or self.model is None:
                break
            mdl, more = self.model, []
            for i, c in enumerate(classes):
                ps = pts[i]
                for a in range(len(ps)):
                    for b in range(a + 1, len(ps)):
                        d = ps[b] - ps[a]
                        if d.is_const():
                            continue
                        try:
                            val = mdl.eval(T.z(d), model_completion=True).as_long()
                        except Exception:
                            continue
                        if val == 0 or abs(val) > 8:
                            continue
                        x, y, n = (ps[a], ps[b], val) if val > 0 else (ps[b], ps[a], -val)
                        t = P(c, x)
                        for j in range(n):
                            t = t + body(c, x + j)
                        f = Implies(d.eq(val), P(c, y).eq(t))
                        if f not in st1 and f not in more:
                            more.append(f)
            if not more or len(more) > 30:
                break
            st1 = st1 + more
        # the same sum written with another body (possibly scaled, possibly in the opposite direction)
        k = T.ivar("k?ov")
        scaled = []
        for s in sums:
            ci = [i for i, c in enumerate(classes) if s in c[1]][0]
            scaled.append((s, ci, R(1) if s.sort == "R" else I(1), poly_of(s)))
        for bb in bools:
            for m in _monos(bb):
                sm = [x for x in m if x.op == "sum"]
                if len(sm) == 1 and len(m) > 1 and sm[0] in sums:
                    rest = list(m)
                    rest.remove(sm[0])
                    co = Poly({tuple(rest): 1}, sm[0].sort)
                    ci = [i for i, c in enumerate(classes) if sm[0] in c[1]][0]
                    it = (sm[0], ci, co, co * poly_of(sm[0]))
                    if it not in scaled:
                        scaled.append(it)
        for s, ci, co, whole in scaled:
            lo, hi = s.args[0], s.args[1]
            for j, d in enumerate(classes):
                if ci == j:
                    continue
                npc = list(pc) + [lo.le(k), k.lt(hi)]
                key = ("ov", tuple(pc), whole, d[0])
                r = self.cache.get(key)
                if r is None:
                    r = False
                    lhs = co * body(classes[ci], k)
                    if self.check(npc, [lhs.ne(body(d, k))], 3000) == "unsat":
                        r = (1, I(0))
                    else:
                        for q in dict.fromkeys(x for x in d[0].args[3:] if x.sort == "I" and not x.is_const()):
                            for e in (0, -1, 1):
                                if self.check(npc, [lhs.ne(body(d, q + e - k))], 3000) == "unsat":
                                    r = (-1, q + e)
                                    break
                            if r:
                                break
                    self.cache[key] = r
                if r:
                    sg, q = r
                    l2, h2 = (lo, hi) if sg == 1 else (q - hi + 1, q - lo + 1)
                    facts.append(Implies(lo.le(hi), whole.eq(P(d, h2) - P(d, l2))))
                    facts.append(Implies(hi.le(lo), whole.eq(0)))
                    for x in (l2, h2):
                        if x not in pts[j]:
                            pts[j].append(x)
        st1 = steps()
        # bounds a constant apart only under the path condition: the model of the failed query says which constant
        for _ in range(4):
            r0 = self.check(pc, [Not(goal)] + facts + st1, timeout)
            if r0 == "unsat":
                return "proved"
            if r0 != "sat" or self.model is None:
                break
            mdl, more = self.model, []
            for i, c in enumerate(classes):
                ps = pts[i]
                for a in range(len(ps)):
                    for b in range(a + 1, len(ps)):
                        d = ps[b] - ps[a]
                        if d.is_const():
                            continue
                        try:
                            val = mdl.eval(T.z(d), model_completion=True).as_long()
                        except Exception:
                            continue
                        if val == 0 or abs(val) > 8:
                            continue
                        x, y, n = (ps[a], ps[b], val) if val > 0 else (ps[b], ps[a], -val)
                        t = P(c, x)
                        for j in range(n):
                            t = t + body(c, x + j)
                        f = Implies(d.eq(val), P(c, y).eq(t))
                        if f not in st1 and f not in more:
                            more.append(f)
            if not more or len(more) > 30:
                break
            st1 = st1 + more
        # pieces that vanish
        n = 0
        for i, c in enumerate(classes):
            ps = pts[i]
            for x in ps:
                for y in ps:
                    if x is y or n > 120:
                        continue
                    if self.quick(pc, y.le(x)):
                        continue
                    n += 1
                    npc = list(pc) + [x.le(k), k.lt(y)]
                    if self.check(npc, [body(c, k).ne(0)], 2000) == "unsat":
                        facts.append(Implies(x.le(y), P(c, x).eq(P(c, y))))
        # a few terms only
        for i, c in enumerate(classes):
            for s in c[1]:
                lo, hi = s.args[0], s.args[1]
                for w in range(1, 5):
                    t = R(0) if s.sort == "R" else I(0)
                    for j in range(w):
                        t = t + body(c, lo + j)
                    facts.append(Implies((hi - lo).eq(w), poly_of(s).eq(t)))
        if self.check(pc, [Not(goal)] + facts + st1, timeout) == "unsat":
            return "proved"
        return "unknown"

    def prove_sums(self, pc, goal, timeout):
        if self.prove_prefix(pc, goal, timeout) == "proved":
            return "proved"
        bools = [b for b in pc if any(a.op == "sum" for a in b.atoms())] + [goal]
        lem, sums, extra = self.sum_lemmas(bools, 0)
        if lem and self.check(pc, [Not(goal)] + lem, timeout) == "unsat":
            return "proved"
        # normalise parameters that are provably equal
        lem1, sums, extra = self.sum_lemmas(bools, 1)
        allsums = list(dict.fromkeys(sums + extra))
        lem1 += self.param_eq(pc, allsums)
        for s in sums:
            lo, hi = s.args[0], s.args[1]
            for c in range(1, 9):
                lem1.append(Implies((hi - lo).eq(c), poly_of(s).eq(T.mk_sum_like(s, lo, lo + c))))
        # second round over remainders
        lem2 = list(lem1)
        if self.check(pc, [Not(goal)] + lem2, timeout) == "unsat":
            return "proved"
        extra2 = []
        ss = allsums
        for i, s in enumerate(ss):
            for t in ss[i + 1:]:
                if s.args[2:] == t.args[2:] and not (s in sums and t in sums):
                    lem2 += self.sum_pair(s, t, extra2, 0)
        # pointwise lemmas: zero sums and equal bodies
        allsums = list(dict.fromkeys(allsums + extra2))[:60]
        for s in allsums:
            if self.pointwise_zero(pc, s):
                lem2.append(poly_of(s).eq(0))
        if self.check(pc, [Not(goal)] + lem2, timeout) == "unsat":
            return "proved"
        for i, s in enumerate(sums):
            for t in sums[i + 1:]:
                if s.args[2:] != t.args[2:]:
                    lem2 += self.pointwise_eq(pc, s, t)
        if self.check(pc, [Not(goal)] + lem2, timeout) == "unsat":
            return "proved"
        return "unknown"

    def param_eq(self, pc, sums):
        out = []
        byskel = {}
        for s in sums:
            byskel.setdefault(s.args[2], []).append(s)
        for ss in byskel.values():
            ps = list(dict.fromkeys(s.args[3:] for s in ss))
            for i in range(len(ps)):
                for j in range(i + 1, len(ps)):
                    g = And(*[x.eq(y) for x, y in zip(ps[i], ps[j])])
                    if self.quick(pc, g):
                        for s in ss:
                            if s.args[3:] == ps[j]:
                                s2 = T.atom("sum", s.args[:3] + ps[i], s.sort)
                                out.append(poly_of(s).eq(poly_of(s2)))
                                ex = []
                                for t in ss:
                                    if t.args[3:] == ps[i]:
                                        out += self.sum_pair(s2, t, ex, 1)
        return out

    def pointwise_zero(self, pc, s):
        key = ("z", tuple(pc), s)
        r = self.cache.get(key)
        if r is None:
            k = T.ivar("k?pz")
            b = T.sum_body(s, k)
            npc = list(pc) + [s.args[0].le(k), k.lt(s.args[1])]
            r = self.check(npc, [Not(b.eq(0))], 3000) == "unsat"
            self.cache[key] = r
        return r

    def pointwise_eq(self, pc, s, t):
        key = ("e", tuple(pc), s, t)
        r = self.cache.get(key)
        if r is None:
            r = []
            k = T.ivar("k?pe")
            # same range
            g = And(s.args[0].eq(t.args[0]), s.args[1].eq(t.args[1]))
            if self.quick(pc, g):
                npc = list(pc) + [s.args[0].le(k), k.lt(s.args[1])]
                if self.check(npc, [T.sum_body(s, k).ne(T.sum_body(t, k))], 3000) == "unsat":
                    r.append(poly_of(s).eq(poly_of(t)))
            if not r:
                # shifted range
                d = t.args[0] - s.args[0]
                if self.quick(pc, (t.args[1] - s.args[1]).eq(d)):
                    npc = list(pc) + [s.args[0].le(k), k.lt(s.args[1])]
                    if self.check(npc, [T.sum_body(s, k).ne(T.sum_body(t, k + d))], 3000) == "unsat":
                        r.append(poly_of(s).eq(poly_of(t)))
            if not r:
                # reflected range: t(k) with k -> lo_s + hi_t - 1 - k
                c = s.args[0] + t.args[1] - 1
                if self.quick(pc, (t.args[1] - t.args[0]).eq(s.args[1] - s.args[0])):
                    npc = list(pc) + [s.args[0].le(k), k.lt(s.args[1])]
                    if self.check(npc, [T.sum_body(s, k).ne(T.sum_body(t, c - k))], 3000) == "unsat":
                        r.append(poly_of(s).eq(poly_of(t)))
            self.cache[key] = r
        return r


def sum_groups(p):
    """the terms of p, grouped by the functions (and parity of their arguments) their sums run over"""
    out = {}
    for m, c in p.t.items():
        sig = tuple(sorted(sum_signature(a) for a in m if a.op == "sum"))
        out.setdefault(sig, {})[m] = c
    return [Poly(t, p.sort) for t in out.values()]


_sig = {}


def sum_signature(a):
    r = _sig.get(a)
    if r is None:
        seen, names = set(), set()

        def walk(x):
            if x in seen:
                return
            seen.add(x)
            if isinstance(x, B):
                ats = x.args
            elif isinstance(x, Poly):
                ats = [at for m in x.t for at in m]
            else:
                if x.op == "app" and x.sort == "R":
                    if str(x.args[0]).startswith(("undef_", "hv_")):
                        return
                    y = x.args[1] if len(x.args) > 1 else None
                    par = y.t.get((), 0) % 2 if isinstance(y, Poly) and y.sort == "I" and all(v % 2 == 0 for k, v in y.t.items() if k) else 0
                    names.add("%s/%d" % (x.args[0], par))
                    return
                ats = x.args
            for y in ats:
                if isinstance(y, (B, Poly)) or hasattr(y, "op"):
                    walk(y)
        walk(T.sum_body(a, T.ivar("k?sg")))
        r = _sig[a] = " ".join(sorted(names))
    return r


def index_condition(body, ka):
    """a comparison in the body that changes its value at one point of the index"""
    seen = set()

    def walk(x):
        if x in seen:
            return None
        seen.add(x)
        if isinstance(x, B):
            if ka not in x.atoms():
                return None
            if x.op in ("le", "eq") and isinstance(x.args[0], Poly) and x.args[0].sort == "I":
                q = x.args[0]
                if abs(q.t.get((ka,), 0)) == 1 and ka not in (q - poly_of(ka) * q.t[(ka,)]).atoms():
                    return x
            for y in x.args:
                if isinstance(y, (Poly, B)):
                    r = walk(y)
                    if r is not None:
                        return r
            return None
        for m in x.t:
            for at in m:
                if at in seen or ka not in T.atom_atoms(at):
                    continue
                seen.add(at)
                if at.op == "sum":
                    continue
                for y in at.args:
                    if isinstance(y, (Poly, B)):
                        r = walk(y)
                        if r is not None:
                            return r
        return None
    return walk(body)


def int_equations(pc, p):
    """integer equations of the path condition solved for a variable of p"""
    at = p.atoms()
    mp = {}
    for b in reversed(list(pc)):
        if b.op == "eq" and b.args[0].sort == "I" and not mp:
            q = b.args[0]
            for m, c in q.t.items():
                if len(m) == 1 and abs(c) == 1 and m[0].op == "var" and m[0] in at:
                    a = m[0]
                    rest = poly_of(a) * c - q
                    if any(y.id >= a.id for y in rest.atoms()):
                        continue
                    mp[a] = rest * c
                    break
    return mp


def clear_inv(p):
    """multiply by the denominators of the outermost level"""
    for _ in range(6):
        invs = [a for m in p.t for a in m if a.op == "inv"]
        if not invs:
            return p
        a = invs[0]
        x = a.args[0]
        E = max(m.count(a) for m in p.t)
        q = T.lift(0, p.sort)
        for m, c in p.t.items():
            t = T.lift(c, p.sort)
            for y in m:
                if y is not a:
                    t = t * poly_of(y)
            for _i in range(E - m.count(a)):
                t = t * x
            q = q + t
        p = q
        if len(p.t) > 4000:
            return None
    return p


def families(p):
    """split by the real parameters that occur in no sum body"""
    sums = [a for a in p.atoms() if a.op == "sum"]
    if not sums:
        return None
    inner, names = set(), set()
    for s in sums:
        for x in list(s.args) + [T.sum_body(s, T.ivar("k?fam"))]:
            if isinstance(x, Poly):
                for y in x.atoms():
                    inner.add(y)
                    if y.op == "app":
                        names.add(y.args[0])

    def param(a):
        return a.sort == "R" and a not in inner and (a.op == "var" or (a.op == "app" and a.args[0] not in names) or (a.op == "inv" and not any(x in inner or x.op == "sum" for x in T.atom_atoms(a))))
    r = {}
    for m, c in p.t.items():
        k = tuple(a for a in m if param(a))
        rest = tuple(a for a in m if not param(a))
        r.setdefault(k, {})
        r[k][rest] = c
    if len(r) < 2:
        return None
    return [Poly(f, p.sort) for f in r.values()]


def _monos(b):
    out, st, seen = [], [b], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, B):
            st.extend(y for y in x.args if isinstance(y, (Poly, B)))
        else:
            for m in x.t:
                out.append(m)
                for a in m:
                    if a.op != "sum":
                        st.extend(y for y in a.args if isinstance(y, (Poly, B)))
    return out
