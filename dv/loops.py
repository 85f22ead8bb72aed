"""Inductive treatment of one natural loop (see engine.py)."""
import terms as T
from terms import (Poly, B, I, R, TRUE, FALSE, And, Or, Not, Implies, poly_of, ite, fresh, fresh_b, app, subst, Sum, imod)


class Ctx:
    """a point of the loop at which a contract's memory invariant is evaluated: entry, header, or end of an iteration"""

    def __init__(self, run, k, vals):
        self.run, self.k, self.vals = run, k, vals

    def of(self, p):
        """the value of p (over the header symbols and the ghost counter) at this point"""
        if self.vals is None:
            return subst(p, {self.run.katom: self.k}) if self.k is not self.run.k else p
        return self.run.at(p, self.k, self.vals)


class LoopRun:
    def __init__(self, eng, f, st, header, prev):
        self.e, self.f, self.entry, self.header, self.prev = eng, f, st, header, prev
        self.body = f.loops[header]

    # ---------------------------------------------------------------- helpers
    def mk_header_state(self, hdr, memc, facts):
        s = self.entry.fork()
        for n, v in hdr.items():
            s.env[n] = v
        for o, c in memc.items():
            s.mem[o] = c
        for b in facts:
            s.assume(b)
        return s

    def run_body(self, s):
        return self.e.run(self.f, s.fork(), self.header, None, self.header)

    def next_vals(self, back):
        _, s, frm = back
        out = {}
        for ins in self.f.blocks[self.header]:
            if ins.op != "phi":
                break
            for v, b in ins.a:
                if b == frm:
                    out[ins.res] = self.e.val(s, v, ins.ty)
        return out

    # ---------------------------------------------------------------- main
    def go(self):
        e = self.e
        from engine import Ptr, Unsupported, Opaque, LoopInfo, FnPtr
        phis = [i for i in self.f.blocks[self.header] if i.op == "phi"]
        init = {}
        for ins in phis:
            for v, b in ins.a:
                if b == self.prev:
                    init[ins.res] = e.val(self.entry, v, ins.ty)
        k = fresh("k")
        katom = next(iter(k.atoms()))
        self.k, self.katom = k, katom
        hdr = {}
        fresh_of = {}            # atom -> (phi name, lane or 'off')
        for ins in phis:
            v0 = init[ins.res]
            nm = ins.res[1:].split(".")[0]
            if isinstance(v0, Ptr):
                if v0.obj is None:
                    # pointer starting at null: allow only when it never moves to an object
                    o = fresh(nm)
                    hdr[ins.res] = Ptr(None, o)
                else:
                    o = fresh(nm)
                    hdr[ins.res] = Ptr(v0.obj, o)
                fresh_of[next(iter(o.atoms()))] = (ins.res, "off")
            elif isinstance(v0, Poly):
                o = fresh(nm, v0.sort)
                hdr[ins.res] = o
                fresh_of[next(iter(o.atoms()))] = (ins.res, None)
            elif isinstance(v0, B):
                hdr[ins.res] = fresh_b(nm)
            elif isinstance(v0, tuple):
                lanes = []
                for l, x in enumerate(v0):
                    if isinstance(x, Poly):
                        o = fresh(nm, x.sort)
                        fresh_of[next(iter(o.atoms()))] = (ins.res, l)
                        lanes.append(o)
                    else:
                        lanes.append(e.fresh_val(ins.ty[2]))
                hdr[ins.res] = tuple(lanes)
            elif isinstance(v0, FnPtr):
                hdr[ins.res] = v0
            elif isinstance(v0, Opaque):
                hdr[ins.res] = e.fresh_val(ins.ty)
            else:
                raise Unsupported("phi value %r" % (v0,))
        self.hdr, self.init, self.phis = hdr, init, phis
        base_facts = [k.ge(0)]
        emit, e.emit = e.emit, False
        try:
            # ---- probe: modified objects, affine variables
            memc = {}
            modified = set()
            havoc_name = {}
            sub_done = {}
            for rnd in range(12):
                s = self.mk_header_state(hdr, memc, base_facts)
                outs = self.run_body(s)
                backs = [o for o in outs if o[0] == "back"]
                grew = False
                for o in outs:
                    st2 = o[1]
                    for ob, c in st2.mem.items():
                        if ob in self.entry.mem and c is not s_mem(self.entry, memc, ob):
                            if ob not in modified:
                                modified.add(ob)
                                nm = "hv_%s_%d" % (ob.name, T._fresh[0])
                                T._fresh[0] += 1
                                from engine import Content
                                havoc_name[ob] = nm
                                memc[ob] = Content(None, "base", e.uf_base(nm, ob.elt))
                                grew = True
                if grew:
                    continue
                if not backs:
                    break
                # affine?
                nexts = [self.next_vals(b) for b in backs]
                new_aff = {}
                for a, (pn, lane) in list(fresh_of.items()):
                    ds = []
                    for nx in nexts:
                        v = nx[pn]
                        if lane == "off":
                            if not isinstance(v, Ptr):
                                if isinstance(v, Poly) and v.is_const():
                                    v = Ptr(None, v)
                                else:
                                    raise Unsupported("pointer phi %s" % pn)
                            if v.obj is not hdr[pn].obj:
                                raise Unsupported("pointer phi changes object %s" % pn)
                            v = v.off
                        elif lane is not None:
                            v = v[lane]
                        ds.append(v)
                    if not all(isinstance(d, Poly) for d in ds):
                        continue
                    if a.sort == "I":
                        d0 = ds[0] - poly_of(a)
                        if all(d - poly_of(a) == d0 for d in ds) and self.invariant_term(d0, fresh_of, havoc_name):
                            i0 = self.lane(init[pn], lane)
                            new_aff[a] = i0 + d0 * k
                if not new_aff:
                    break
                self.apply_subst(hdr, new_aff)
                for a in new_aff:
                    del fresh_of[a]
                sub_done.update(new_aff)
            self.modified, self.havoc_name, self.memc = modified, havoc_name, memc
            li = LoopInfo(e, self.entry, self.f, self.header, k, [p.res for p in phis], init, hdr)
            li.back_outs = [o for o in outs if o[0] == "back"]
            li.fresh_of, li.modified = fresh_of, modified
            if not li.back_outs:
                # the body never comes back: not a loop on this path
                e.emit = emit
                s = self.entry.fork()
                e.do_phis(self.f, s, self.header, self.prev)
                return self.run_body(s)
            # ---- loop variables tied to one another, or constant
            self.relate(li, outs, base_facts)
            s = self.mk_header_state(hdr, self.header_mem(), base_facts)
            outs = self.run_body(s)
            # ---- linear candidates
            facts = self.linear_candidates(outs, s)
            facts = self.houdini_lin(facts, base_facts)
            # ---- accumulators
            facts2, changed = self.accumulators(li, facts, base_facts)
            self.facts = base_facts + facts + facts2
            # ---- memory effects (with invariants known so far)
            self.memory(li)
            # memory closed forms may make more accumulators / facts provable
            if self.mem_cf:
                extra, ch = self.accumulators(li, self.facts[len(base_facts):], base_facts)
                self.facts += extra
            # ---- contract supplied scalar invariants
            cands = []
            for g in e.loop_cands:
                cands += [c for c in g(li) if c not in self.facts]
            if cands:
                good = self.houdini_lin(cands, self.facts)
                self.facts = self.facts + good
                if good and any(o not in self.mem_cf for o in self.modified):
                    self.memory(li)
            # ---- contract supplied scalar invariants that hold only together with a memory invariant
            if e.joint_cands and any(o not in self.mem_cf for o in self.modified):
                self.joint(li)
        finally:
            e.emit = emit
        # ---- final pass with obligations
        memc = self.header_mem()
        s = self.mk_header_state(hdr, memc, self.facts)
        e.loops_done.add((self.f.name, self.header))
        for o in self.modified:
            if o not in self.mem_cf and o.kind != "alloca":
                e.loops_havoc.add((self.f.name, self.header, o.name))
        outs = self.run_body(s)
        for o in outs:
            if o[0] == "exit":
                self.solve_counter(o[1])
        return [o for o in outs if o[0] != "back"]

    def joint(self, li):
        """facts and memory that are inductive together, neither alone"""
        e = self.e
        cands = [c for g in e.joint_cands for c in g(li) if c not in self.facts]
        cands = [c for c in cands if e.pv.quick(self.entry.pc, self.at(c, I(0), self.init))]
        facts, cf = self.facts, dict(self.mem_cf)
        for c in cands:
            self.facts = facts + [c]
            self.memory(li)
            if len(self.mem_cf) > len(cf) and self.houdini_lin([c], facts):
                return
            self.facts, self.mem_cf = facts, dict(cf)

    def solve_counter(self, st):
        """when the path condition of an exit fixes the iteration count, name it: values become terms of the entry state"""
        from engine import Ptr
        ka = self.katom

        def has(v):
            if isinstance(v, Poly):
                return ka in v.atoms()
            if isinstance(v, Ptr):
                return ka in v.off.atoms()
            if isinstance(v, tuple):
                return any(has(x) for x in v)
            return False
        names = [n for n, v in st.env.items() if has(v)]
        if not names:
            return
        tried = []
        for b in reversed(st.pc):
            ps = [b.args[0]] if b.op in ("le", "eq") else [b.args[0].args[0] + 1] if b.op == "not" and b.args[0].op == "le" else []
            for p in ps:
                c = p.t.get((ka,), 0) if isinstance(p, Poly) and p.sort == "I" else 0
                if c not in (1, -1):
                    continue
                rest = p - self.k * c
                if ka in rest.atoms() or any(a.op == "var" and self.is_body_fresh(a) for a in rest.atoms()):
                    continue
                for t in ([rest * -c] if b.op == "eq" else [rest * -c, rest * -c + 1, rest * -c - 1]):
                    if t in tried:
                        continue
                    tried.append(t)
                    if len(tried) > 8:
                        return
                    if self.e.pv.quick(st.pc, self.k.eq(t)):
                        mp = {ka: t}

                        def sub(v):
                            if isinstance(v, Poly):
                                return subst(v, mp)
                            if isinstance(v, Ptr):
                                return Ptr(v.obj, subst(v.off, mp))
                            if isinstance(v, tuple):
                                return tuple(sub(x) for x in v)
                            return v
                        try:
                            new = {n: sub(st.env[n]) for n in names}
                        except T.NonIntegral:
                            return
                        st.env.update(new)
                        return

    def lane(self, v, lane):
        if lane == "off":
            return v.off
        if lane is not None:
            return v[lane]
        return v

    def apply_subst(self, hdr, mp):
        from engine import Ptr
        for n, v in list(hdr.items()):
            if isinstance(v, Ptr):
                hdr[n] = Ptr(v.obj, subst(v.off, mp))
            elif isinstance(v, Poly):
                hdr[n] = subst(v, mp)
            elif isinstance(v, tuple):
                hdr[n] = tuple(subst(x, mp) if isinstance(x, Poly) else x for x in v)

    def invariant_term(self, p, fresh_of, havoc_name):
        if not p.t:
            return True
        names = set(havoc_name.values())
        for a in p.atoms():
            if a in fresh_of or a is self.katom:
                return False
            if a.op == "app" and any(a.args[0].startswith(n) for n in names):
                return False
            if a.op == "var" and "!" in a.args[0] and self.is_body_fresh(a):
                return False
        return True

    def is_body_fresh(self, a):
        # created after the loop started
        if "!" not in a.args[0]:
            return False
        return int(a.args[0].rsplit("!", 1)[1]) > int(self.katom.args[0].rsplit("!", 1)[1]) and not a.args[0].startswith("?")

    # ---------------------------------------------------------------- related variables
    def free_phis(self, sort):
        """(atom, phi name, lane) of the header symbols which have no closed form yet"""
        out = []
        for n, v in self.hdr.items():
            for lane, p in enumerate(flat(v)):
                if isinstance(p, Poly) and p.sort == sort and len(p.t) == 1:
                    (m, c), = p.t.items()
                    if c == 1 and len(m) == 1 and m[0].op == "var" and m[0] is not self.katom and self.is_body_fresh(m[0]):
                        if isinstance(flat(self.init[n])[lane], Poly):
                            out.append((m[0], n, lane))
        return out

    def relate(self, li, outs, base):
        e = self.e
        # variables that keep their initial value (e.g. the carry of a compensated sum, a real-number zero)
        cand = {}
        for sort in ("R", "I"):
            for a, n, lane in self.free_phis(sort):
                cand[a] = (n, lane, flat(self.init[n])[lane])
        backs = [o for o in outs if o[0] == "back"]
        first = True
        while cand:
            mp = {a: i0 for a, (n, lane, i0) in cand.items()}
            if not first:
                hdr2 = dict(self.hdr)
                self.apply_subst(hdr2, mp)
                s = self.mk_header_state(hdr2, self.header_mem(), base)
                backs = [o for o in self.run_body(s) if o[0] == "back"]
            bad = set()
            for b in backs:
                nx = self.next_vals(b)
                for a, (n, lane, i0) in cand.items():
                    v = flat(nx[n])[lane]
                    if not isinstance(v, Poly):
                        bad.add(a)
                        continue
                    if first:
                        # quick syntactic filter under the hypothesis
                        v = subst(v, mp)
                    if v != i0 and (first or not e.pv.quick(b[1].pc, v.eq(i0))):
                        if first and (v - i0).sort == "R" and not (v - i0).is_const() and any(x in cand for x in v.atoms()):
                            continue
                        bad.add(a)
            first_done = first
            first = False
            for a in bad:
                del cand[a]
            if not bad and not first_done:
                break
        if cand:
            self.apply_subst(self.hdr, {a: i0 for a, (n, lane, i0) in cand.items()})
        # pairs of integer variables that move together
        fr = self.free_phis("I")
        if len(fr) < 2:
            return
        s = self.mk_header_state(self.hdr, self.header_mem(), base)
        backs = [o for o in self.run_body(s) if o[0] == "back"]
        if not backs:
            return
        nexts = [self.next_vals(b) for b in backs]
        gone = set()
        for i, (x, nx_, lx) in enumerate(fr):
            if x in gone:
                continue
            for (y, ny_, ly) in fr[i + 1:]:
                if y in gone:
                    continue
                for cx, cy in ((1, 1), (1, -1), (8, 1), (1, 8), (-8, 1), (1, -8), (4, 1), (1, 4), (16, 1), (1, 16)):
                    # (x - x0) * cx == (y - y0) * cy
                    ok = True
                    for b, nv in zip(backs, nexts):
                        dx = flat(nv[nx_])[lx]
                        dy = flat(nv[ny_])[ly]
                        if not isinstance(dx, Poly) or not isinstance(dy, Poly):
                            ok = False
                            break
                        g = ((dx - poly_of(x)) * cx).eq((dy - poly_of(y)) * cy)
                        if not e.pv.quick(b[1].pc, g):
                            ok = False
                            break
                    if ok:
                        x0, y0 = flat(self.init[nx_])[lx], flat(self.init[ny_])[ly]
                        # eliminate the coarser one: y = y0 + (x-x0)*cx/cy
                        if abs(cy) == 1:
                            self.apply_subst(self.hdr, {y: y0 + (poly_of(x) - x0) * cx * cy})
                            gone.add(y)
                        else:
                            self.apply_subst(self.hdr, {x: x0 + (poly_of(y) - y0) * cy * cx})
                            gone.add(x)
                        break
                if x in gone:
                    break

    # ---------------------------------------------------------------- linear invariants
    def header_symbols(self):
        syms = {self.katom}
        for v in self.hdr.values():
            for p in flat(v):
                if isinstance(p, Poly):
                    syms |= {a for a in p.atoms() if a.op == "var"}
        return syms

    def linear_candidates(self, outs, hs):
        """bounds suggested by the branch conditions of the loop"""
        n0 = len(self.entry.pc)
        polys = []
        freshs = {a for v in self.hdr.values() for p in flat(v) if isinstance(p, Poly) and p.sort == "I" for a in p.atoms()
                  if a.op == "var" and a.sort == "I" and (a is self.katom or self.is_body_fresh(a))}
        cur = set(freshs) | {self.katom}

        def conds(b):
            if b.op in ("le", "eq"):
                yield b
            elif b.op in ("not", "and", "or"):
                for x in b.args:
                    yield from conds(x)
        seen = set()
        for o in outs:
            for b in o[1].pc:
                if b in self.entry.pc:
                    continue
                for c in conds(b):
                    p = c.args[0]
                    if p.sort != "I" or c in seen:
                        continue
                    seen.add(c)
                    at = p.atoms()
                    if not (at & cur):
                        continue
                    if any(self.is_body_fresh(a) and a not in cur for a in at if a.op == "var" and "!" in a.args[0]):
                        continue
                    polys.append((p, c.op))
        cands = []
        kk = {self.katom: self.k - 1}
        for p, op in polys:
            for q in (p, subst(p, kk) if self.katom in p.atoms() else None):
                if q is None:
                    continue
                for c in (q.le(0), q.ge(0), q.lt(0), q.gt(0), q.ne(0)):
                    cands.append(c)
                for cst in (1, -1):
                    cands.append((q + cst).le(0))
                    cands.append((q + cst).ge(0))
                # divisibility for strides
                g = [abs(c) for m, c in q.t.items() if self.katom in m]
                if g and max(g) > 1:
                    cands.append(imod(q, max(g)).eq(0))
        # the raw stride of != loops is hidden when the condition is normalised: use every affine integer phi pair
        for a in freshs - {self.katom}:
            for nme, v in self.hdr.items():
                for lane, p in enumerate(flat(v)):
                    if isinstance(p, Poly) and p == poly_of(a):
                        i0 = flat(self.init[nme])[lane]
                        cands += [p.le(i0), p.ge(i0)]
        out = []
        for c in cands:
            if c not in (TRUE, FALSE) and c not in out:
                out.append(c)
        return out

    def at(self, c, kval, vals):
        """candidate c with the header symbols replaced by kval / vals (phi name -> value)"""
        mp = {self.katom: kval}
        for n, v in self.hdr.items():
            hv, nv = flat(v), flat(vals[n])
            for p, q in zip(hv, nv):
                if isinstance(p, Poly) and len(p.t) == 1:
                    (m, co), = p.t.items()
                    if co == 1 and len(m) == 1 and m[0].op == "var" and m[0] is not self.katom and self.is_body_fresh(m[0]):
                        if isinstance(q, Poly):
                            mp[m[0]] = q
        return subst(c, mp)

    def houdini_lin(self, cands, base):
        e = self.e
        good = []
        for c in cands:
            c0 = self.at(c, I(0), self.init)
            if e.pv.quick(self.entry.pc, c0):
                good.append(c)
        while good:
            s = self.mk_header_state(self.hdr, self.header_mem(), base + good)
            try:
                outs = self.run_body(s)
            except Exception:
                raise
            bad = set()
            for o in outs:
                if o[0] != "back":
                    continue
                nx = self.next_vals(o)
                for c in good:
                    if c in bad:
                        continue
                    c1 = self.at(c, self.k + 1, nx)
                    if c1 in o[1].pc:
                        continue
                    if e.pv.prove(o[1].pc, c1, 3000) != "proved":
                        bad.add(c)
            if not bad:
                break
            good = [c for c in good if c not in bad]
        # drop what is implied syntactically
        return good

    mem_cf = {}

    def header_mem(self):
        out = {}
        for o in self.modified:
            cf = self.mem_cf.get(o)
            out[o] = cf(Ctx(self, self.k, None)) if cf else self.memc[o]
        return out

    # ---------------------------------------------------------------- accumulators
    def acc_atoms(self):
        out = []
        for n, v in self.hdr.items():
            for lane, p in enumerate(flat(v)):
                if isinstance(p, Poly) and p.sort == "R" and len(p.t) == 1:
                    (m, c), = p.t.items()
                    if c == 1 and len(m) == 1 and m[0].op == "var" and self.is_body_fresh(m[0]):
                        out.append((m[0], n, lane))
        return out

    def accumulators(self, li, facts, base):
        """closed forms  acc = init + SUM t(j)  for real loop variables"""
        e = self.e
        new_facts = []
        changed = False
        accs = self.acc_atoms()
        if not accs:
            return [], False
        s = self.mk_header_state(self.hdr, self.header_mem(), base + facts)
        outs = self.run_body(s)
        backs = [o for o in outs if o[0] == "back"]
        if not backs:
            return [], False
        nexts = [self.next_vals(b) for b in backs]
        freshs = {a for a, _, _ in accs}
        hn = tuple(n for o, n in self.havoc_name.items() if o not in self.mem_cf)
        delta = {}
        for a, n, lane in accs:
            ds = []
            for b, nx in zip(backs, nexts):
                v = flat(nx[n])[lane]
                if not isinstance(v, Poly):
                    ds = None
                    break
                ds.append((b, v))
            if not ds:
                continue
            d = self.merge_paths(ds)
            if d is None:
                continue
            d = d - poly_of(a)
            delta[a] = d

        def clean(d):
            for x in d.atoms():
                if x in freshs:
                    return False
                if x.op == "app" and x.args[0].startswith(hn) and hn:
                    return False
                if x.op == "var" and x is not self.katom and "!" in x.args[0] and self.is_body_fresh(x):
                    return False
            return True
        mp = {}
        used = set()
        clean_accs = [(a, n, lane) for a, n, lane in accs if a in delta and clean(delta[a])]
        # grouped by contract hints: Sum of a group of accumulators is a contiguous sum of g
        for g in e.hints:
            grp = self.match_hint(g, [(a, delta[a]) for a, _, _ in clean_accs if a not in used], s)
            for (members, b0, W) in grp:
                inits = R(0)
                for a in members:
                    inits = inits + self.init_of(a)
                tot = inits + Sum(b0, b0 + self.k * W, g)
                rest = R(0)
                for a in members[1:]:
                    rest = rest + poly_of(a)
                mp[members[0]] = tot - rest
                used.update(members)
        for a, n, lane in clean_accs:
            if a in used:
                continue
            d = delta[a]
            ka = self.katom
            i0 = self.init_of(a)
            if not d.t:
                mp[a] = i0
                continue
            mp[a] = i0 + self.unrolled_sum(d)
        if mp:
            self.apply_subst(self.hdr, mp)
            changed = True
        # constant accumulators that stay equal to their initial value (e.g. a compensation carry)
        return new_facts, changed

    def unrolled_sum(self, d):
        """SUM over j<k of d(j); recognises a body that adds W consecutive terms g(W*j .. W*j+W-1)"""
        ka = self.katom
        for W in (16, 8, 4, 2):
            if len(d.t) < W:
                continue
            for m, c in d.t.items():
                g0 = Poly({m: c}, "R")
                if ka not in g0.atoms():
                    continue
                try:
                    def g(i, W=W, g0=g0):
                        return subst(g0, {ka: scale_frac(i, W)})
                    tot = R(0)
                    for t in range(W):
                        tot = tot + g(self.k * W + t)
                    if tot == d:
                        return Sum(I(0), self.k * W, g)
                except T.NonIntegral:
                    continue
        return Sum(I(0), self.k, lambda j: subst(d, {ka: j}))

    def init_of(self, a):
        for n, v in self.hdr.items():
            for lane, p in enumerate(flat(v)):
                if isinstance(p, Poly) and p == poly_of(a):
                    return flat(self.init[n])[lane]
        raise KeyError

    def merge_paths(self, ds):
        n0 = len(self.entry.pc)
        v = ds[-1][1]
        if all(d[1] == v for d in ds):
            return v
        for b, w in reversed(ds[:-1]):
            conds = [c for c in b[1].pc if c not in self.entry.pc]
            common = set(ds[-1][0][1].pc)
            conds = [c for c in conds if c not in common]
            v = ite(And(*conds), w, v)
        return v

    def match_hint(self, g, accs, s):
        """find groups of accumulators whose per-iteration increments are W consecutive terms g(b..b+W-1)"""
        e = self.e
        gi = fresh("?i")
        ga = next(iter(gi.atoms()))
        pat = g(gi)
        # one representative application atom of the pattern, used to solve for the index
        found = []
        per = {}
        coef = None
        for a, d in accs:
            idxs = []
            for i in self.solve_index(pat, ga, d):
                idxs.append(i)
            per[a] = idxs
        exact = {a: [i for i in per[a] if all(d.t.get(m) == c for m, c in g(i).t.items())] for a, d in accs}
        if any(exact.values()):
            per = exact
        allidx = {}
        for a, ids in per.items():
            for i in ids:
                allidx.setdefault(i, a)
        if not allidx:
            return []
        # constant stride in k
        W = None
        ka = self.katom
        bases = {}
        for i in allidx:
            c = i.t.get((ka,), 0)
            rest = i - self.k * c
            if ka in rest.atoms():
                return []
            bases.setdefault(c, []).append(rest)
        for c, rs in bases.items():
            if c == 0:
                continue
            n = abs(c)
            # look for n consecutive bases
            for r0 in rs:
                ok = all(any((r - r0) == I(j) for r in rs) for j in range(n))
                if not ok:
                    continue
                idx = [r0 + self.k * c + j for j in range(n)]
                members = []
                for x in idx:
                    for a, ids in per.items():
                        if x in ids and a not in members:
                            members.append(a)
                total = R(0)
                for a in members:
                    total = total + dict(accs)[a]
                want = R(0)
                for x in idx:
                    want = want + g(x)
                diff = (total - want)
                if diff.t == {} or e.pv.prove(s.pc, diff.eq(0), 4000) == "proved":
                    if c > 0:
                        return [(members, r0, n)]
                    # descending: indices r0 - n*k .. ; total sum over [r0 - n*(k-1), r0+n)
                    return [(members, None, (r0, n))] if False else []
        return []

    def solve_index(self, pat, ga, d):
        """indices i with g(i) occurring as part of d (by matching application atoms)"""
        pats = [a for a in pat.atoms() if a.op == "app" and ga in T.atom_atoms(a)]
        out = []
        for p in pats:
            for a in d.atoms():
                if a.op == "app" and a.args[0] == p.args[0] and len(a.args) == len(p.args):
                    for x, y in zip(p.args[1:], a.args[1:]):
                        if isinstance(x, Poly) and ga in x.atoms():
                            c = x.t.get((ga,), 0)
                            if c in (1, -1):
                                rest = x - poly_of(ga) * c
                                if ga in rest.atoms():
                                    continue
                                i = (y - rest) * c
                                if i not in out:
                                    out.append(i)
                            elif c:
                                rest = x - poly_of(ga) * c
                                q = (y - rest).divides_exact(c)
                                if q is not None and q not in out:
                                    out.append(q)
            if out:
                break
        return out

    # ---------------------------------------------------------------- memory effects
    def memory(self, li):
        e = self.e
        if self.mem_cf is LoopRun.mem_cf:
            self.mem_cf = {}
        todo = [o for o in self.modified if o not in self.mem_cf]
        if not todo:
            return
        for rnd in range(3):
            s = self.mk_header_state(self.hdr, self.header_mem(), self.facts)
            outs = self.run_body(s)
            backs = [o for o in outs if o[0] == "back"]
            cands = {}
            for o in todo:
                if o in self.mem_cf:
                    continue
                cs = []
                for g in e.mem_inv:
                    cs += g(li, o, self.entry.mem[o])
                cs += self.auto_effect(o, backs, s)
                cands[o] = cs
            # try contract/auto candidates: jointly the first of each, then individually
            done = False
            if cands:
                import itertools
                lists = {o: c for o, c in cands.items() if c}
                combos = list(itertools.islice(itertools.product(*lists.values()), 64)) if lists else []
                for combo in combos:
                    trial = dict(zip(lists.keys(), combo))
                    if self.check_mem(trial):
                        self.mem_cf.update(trial)
                        done = True
                        break
                if not done and len(lists) > 1:
                    for o, cs in lists.items():
                        for c in cs:
                            if self.check_mem({o: c}):
                                self.mem_cf[o] = c
                                done = True
                                break
            if not done:
                break
            if all(o in self.mem_cf for o in todo):
                break

    def check_mem(self, trial):
        from engine import Unsupported
        try:
            return self.check_mem_(trial)
        except (Unsupported, TypeError, AttributeError, T.NonIntegral) as ex:
            if self.e.trace_on:
                print("    mem cand error: %r" % ex)
            return False

    def check_mem_(self, trial):
        """is content = cf(k) inductive?"""
        e = self.e
        from engine import Unsupported, Content
        cfs = dict(self.mem_cf)
        cfs.update(trial)
        # entry: cf(0) equals the entry content
        for o, cf in trial.items():
            if not self.same_content(self.entry, o, self.entry.mem[o], cf(Ctx(self, I(0), self.init))):
                return False
        memc = {o: (cfs[o](Ctx(self, self.k, None)) if o in cfs else self.memc[o]) for o in self.modified}
        s = self.mk_header_state(self.hdr, memc, self.facts)
        outs = self.run_body(s)
        for b in outs:
            if b[0] != "back":
                continue
            for o, cf in trial.items():
                if not self.same_content(b[1], o, b[1].mem[o], cf(Ctx(self, self.k + 1, self.next_vals(b)))):
                    return False
        return True

    def same_content(self, st, o, c1, c2):
        e = self.e
        lanes = getattr(o, "lanes", 1)      # consecutive elements treated alike (real and imaginary parts)
        base, own = getattr(c2, "grid", (I(0), lanes))     # a grid of its own: elements counted from an offset
        from engine import tsize
        record = getattr(o, "record", None)     # (size, [(offset, type)]): an array of records
        if record:
            slots = [(ty, tsize(ty), None, at) for at, ty in record[1]]
        else:
            slots = [(t[0], t[1], l, None) for t in self.elt_types(o, c1) for l in range(own)]
        for ty, sz, lane, at in slots:
            j = fresh("j")
            if lane is None:
                off = j * record[0] + at
            elif base.divides_exact(sz) is None:
                return False
            else:
                off = base + (j * own + lane) * sz
            s = st.fork()
            s.assume(And(off.ge(0), (off + sz).le(o.size)))
            if not e.pv.feasible(s.pc):
                continue
            v1 = e.read(s, o, off, ty, content=c1)
            v2 = e.read(s, o, off, ty, content=c2)
            if isinstance(v1, Poly) and isinstance(v2, Poly):
                if v1 == v2:
                    continue
                if v1.sort != v2.sort:
                    return False
                if e.pv.prove(s.pc, v1.eq(v2), 6000) != "proved":
                    if e.trace_on:
                        print("    mem cand fails: ", o, v1, " vs ", v2)
                    return False
            else:
                from engine import Ptr, Opaque
                if isinstance(v1, Opaque) and isinstance(v2, Opaque) and isinstance(v1.val, Poly) and v1.val == v2.val:
                    continue
                return False
        return True

    def elt_types(self, o, c):
        """element types used for this object"""
        tys = []
        n = 0
        while c is not None and n < 200:
            if c.kind == "cell":
                t = c.d[1]
                if t not in tys:
                    tys.append(t)
            c = c.parent
            n += 1
        if o.elt and not tys:
            tys.append(("f", 8 * o.elt))
        if not tys:
            tys = [("f", 64)]
        from engine import tsize
        return [(t, tsize(t)) for t in tys if t[0] in ("f", "i")] or [(("f", 64), 8)]

    def auto_effect(self, o, backs, s):
        """the loop writes a block of w contiguous elements per iteration, values depend on the iteration only"""
        e = self.e
        from engine import Content, tsize
        per_back = []
        base = s.mem[o]
        for b in backs:
            cells = []
            c = b[1].mem[o]
            while c is not base:
                if c is None or c.kind != "cell":
                    return []
                cells.append(c.d)
                c = c.parent
            per_back.append((b, cells))
        if not per_back:
            return []
        offs0 = [d[0] for d in per_back[0][1]]
        if not offs0:
            # nothing is written on some path
            if any(cells for _, cells in per_back):
                return []
            return []
        for b, cells in per_back[1:]:
            if set(d[0] for d in cells) != set(offs0):
                return []
        ty = per_back[0][1][0][1]
        if any(d[1] != ty for _, cells in per_back for d in cells):
            return []
        if ty[0] not in ("i", "f"):
            return []
        sz = tsize(ty)
        vals = {}
        for off in offs0:
            ds = []
            for b, cells in per_back:
                v = [d[2] for d in cells if d[0] == off][0]
                if not isinstance(v, Poly):
                    return []
                ds.append((b, v))
            vals[off] = self.merge_paths(ds)
        # order offsets
        ka = self.katom
        o0 = offs0[0]
        for x in offs0:
            if not (x - o0).is_const():
                return []
        offs = sorted(offs0, key=lambda x: (x - o0).const())
        w = len(offs)
        c = offs[0].t.get((ka,), 0)
        rest = offs[0] - self.k * c
        if ka in rest.atoms():
            return []
        lo0 = rest
        contiguous = all((offs[i + 1] - offs[i]).const() == sz for i in range(w - 1))
        names = {n: ob for ob, n in self.havoc_name.items() if ob not in self.mem_cf}
        entry = self.entry

        # values may only depend on k, invariants and old content of objects (ahead of the cursor)
        def old_reads(v):
            for a in v.atoms():
                if a.op == "var" and a is not ka and "!" in a.args[0] and self.is_body_fresh(a):
                    return None
            mp = {}
            for a in v.atoms():
                if a.op == "app":
                    for n, ob in names.items():
                        if a.args[0] == n or a.args[0].startswith(n + "_"):
                            if ob is not o:
                                return None
                            mp[a] = a
            return mp
        for v in vals.values():
            if old_reads(v) is None:
                return []
        ent = entry.mem[o]
        nm = self.havoc_name[o]

        def resolve(v, rst, kpoly_of_read=None):
            """replace reads of the havocked own content by reads of the entry content"""
            mp = {}
            for a in v.atoms():
                if a.op == "app" and (a.args[0] == nm or a.args[0].startswith(nm + "_")):
                    idx = a.args[1]
                    mp[a] = e.read(rst, o, idx * sz, ty, content=ent)
            return subst(v, mp) if mp else v

        out = []
        if contiguous and abs(c) == sz * w and lo0.divides_exact(sz) is not None:
            n = w
            ks = self.k

            def lane_fn(lane, g_k):
                v = vals[offs[lane]]
                return subst(v, {ka: g_k})
            # unified element function g(i): k -> (i - base - lane)/n with exact rational substitution
            def uni(lane):
                def f(rst, off, ty_):
                    i = off.divides_exact(sz)
                    if i is None:
                        q = e.fresh_val(ty_)
                        return q
                    b = lo0.divides_exact(sz)
                    kk = (i - b - lane)
                    if c < 0:
                        kk = -kk
                    from fractions import Fraction
                    kk = Poly({m: T.norm(Fraction(x) / n) for m, x in kk.t.items()}, "I")
                    v = subst(vals[offs[lane]], {ka: kk})
                    return resolve(v, rst)
                return f
            for lane in range(n if n <= 2 else 1):
                try:
                    # test integrality
                    t = fresh("?t")
                    uni(lane)(entry, t * sz, ty)
                except T.NonIntegral:
                    continue
                out.append(self.range_cf(o, ent, lo0, c, n * sz, uni(lane)))
            if n > 1:
                def perlane(rst, off, ty_):
                    i = off.divides_exact(sz)
                    b = lo0.divides_exact(sz)
                    if i is None or b is None:
                        return e.fresh_val(ty_)
                    q = T.idiv(i - b, n)
                    kk = q if c > 0 else -q
                    v = None
                    for lane in range(n - 1, -1, -1):
                        x = resolve(subst(vals[offs[lane]], {ka: kk}), rst)
                        v = x if v is None else ite(imod(i - b, n).eq(lane), x, v)
                    return v
                out.append(self.range_cf(o, ent, lo0, c, n * sz, perlane))
        return out

    def range_cf(self, o, ent, lo0, c, block, f):
        from engine import Content

        def cf(ctx):
            kp = ctx.k
            if c > 0:
                return Content(ent, "fn", (lo0, lo0 + kp * c, f))
            return Content(ent, "fn", (lo0 + kp * c + block, lo0 + block, f))
        return cf


def scale_frac(i, W):
    from fractions import Fraction
    return Poly({m: T.norm(Fraction(x) / W) for m, x in i.t.items()}, "I")


def s_mem(entry, memc, ob):
    return memc[ob] if ob in memc else entry.mem[ob]


def flat(v):
    from engine import Ptr
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Ptr):
        return [v.off]
    return [v]
