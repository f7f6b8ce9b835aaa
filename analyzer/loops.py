"""Loop summaries.

For every location a loop body changes, a closed form in the iteration number is derived from the symbolic effect of one
iteration (recurrence solving), and then checked to be inductive: the body, evaluated abstractly on the closed form for
iteration i, must produce the closed form for iteration i+1.  Locations without such a form become unknown (Poison)."""
import term as T
from term import (Poly, Cond, P, ZERO, ONE, TRUE, FALSE, Undecided, sym, subst, fresh, declare, ite, ind, mk_eq, mk_leq,
                  mk_lt, mk_bool, c_and, c_or, c_not, mk_all, mk_ex, mksum, mkprod, mk_first, poly_pow, names_of)
from facts import Facts, simp, equal
from values import *

UNROLL = 8


def _mods():
    import interp
    return interp


# ------------------------------------------------------------------ entry points
def run_seq(I, st, seq, step, e, labels, default=None):
    """for-loop over a sequence; step(elem, state).  default(state): value when no break is taken"""
    nb = len(st.pc)
    base = st.copy()
    outs = []
    alive = _run(I, st, seq, step, e, labels, outs)
    return _finish(I, st, base, outs, alive, nb, default)


def run_sym(I, st, n, step, e, labels):
    """loop of n iterations (n None: until an exit); step(i, state)"""
    nb = len(st.pc)
    base = st.copy()
    outs = []
    if T.SMALL and n is None:
        alive = unroll(I, st, step, labels, outs)
        if alive is not None:
            return _finish(I, st, base, outs, alive, nb)
    alive = sym_loop(I, st, n, step, e, labels, outs)
    return _finish(I, st, base, outs, alive, nb)


def unroll(I, st, step, labels, outs):
    """the iterations one by one when the exit is decided after each; None when it is not"""
    old, snap = st.copy(), snapshot(I)
    nc = len(I.coll[-1])
    for t in range(unroll_limit()):
        if not one_iter(I, st, P(t), step, labels, outs):
            return False
        if outs or len(I.coll[-1]) > nc:
            break
    st.take(old)
    restore(I, snap)
    del outs[:]
    del I.coll[-1][nc:]
    return None


def unroll_limit():
    return 20 if T.SMALL else UNROLL


def _finish(I, st, base, outs, alive, nb, default=None):
    if not outs:
        if not alive:
            raise _mods().Dead()
        return default(st) if default else UNIT
    if alive:
        outs.append((default(st) if default else UNIT, st.copy()))
    v = I.join_exits(base, outs, nb)
    st.take(base)
    return v


def _run(I, st, seq, step, e, labels, outs):
    for k, g in enumerate(seq.segs):
        I.path.append(('sg', k))
        try:
            ok = _run_seg(I, st, g, step, e, labels, outs)
        finally:
            I.path.pop()
        if not ok:
            return False
    return True


def _run_seg(I, st, g, step, e, labels, outs):
    n = simp(g.n, st.f)
    c = n.cval()
    if g.flat:
        def body(i, s):
            o = []
            alive = _run(I, s, g.at(i), step, e, labels, o)
            for v, so in o:
                I.coll[-1].append(_mods().Exit('break', labels[0] if labels else None, v, so))
            if not alive:
                raise _mods().Dead()
    else:
        def body(i, s):
            step(g.at(i), s)
    if c is not None and c <= unroll_limit():
        for t in range(max(c, 0)):
            if not one_iter(I, st, P(t), body, labels, outs):
                return False
        return True
    return sym_loop(I, st, n, body, e, labels, outs)


def one_iter(I, st, i, body, labels, outs):
    """one concrete iteration; False when no state continues"""
    M = _mods()
    nb = len(st.pc)
    s = st.copy()
    I.coll.append([])
    I.path.append(('it', i))
    try:
        try:
            body(i, s)
            norm = [(UNIT, s)]
        except M.Dead:
            norm = []
    finally:
        exits = I.coll.pop()
        I.path.pop()
    conts = []
    for x in exits:
        if x.kind == 'continue' and x.label in labels:
            conts.append((UNIT, x.st))
        elif x.kind == 'break' and x.label in labels:
            outs.append((x.value, x.st))
        else:
            I.coll[-1].append(x)
    live = conts + norm
    if not live:
        return False
    anyexit = len(exits) > len(conts)
    cond = c_or(*[c_and(*o[1].pc[nb:]) for o in live])
    if len(live) == 1:
        st.take(live[0][1])
    else:
        base_pc = st.pc
        I.join_exits(st, live, nb)
        st.pc = base_pc
        if anyexit:
            cond = simp(cond, Facts())
            if cond.kind != 'T':
                st.branch(cond)
    return True


# ------------------------------------------------------------------ descriptors of loop-carried values
class Bad(Exception):
    pass


class Same:
    def build(self, v0, fn, idx):
        return v0

    def refine(self, v0, cur, v1, L):
        return guess(v0, v1, L)

    def eqs(self, v0, cur, v1, idx, L):
        pass


SAME = Same()


class Leaf:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def build(self, v0, fn, idx):
        return fn(self, v0, idx)

    def refine(self, v0, cur, v1, L):
        if isinstance(v1, Poly if self.kind == 'p' else Cond):
            return self
        raise Bad('value changes its type')

    def eqs(self, v0, cur, v1, idx, L):
        if self.name not in L.solved:
            L.eq[self.name] = (self.kind, idx, v0, v1)


class StructD:
    def __init__(self, subs):
        self.subs = subs

    def build(self, v0, fn, idx):
        return Struct(v0.ty, v0.variant, [(n, self.subs[n].build(v, fn, idx)) for n, v in v0.fields])

    def refine(self, v0, cur, v1, L):
        if isinstance(v1, Gate) or (isinstance(v1, Struct) and v1.variant != v0.variant):
            return gate_guess(v0, v1, L)
        if not isinstance(v1, Struct) or v1.ty != v0.ty:
            raise Bad('record changes')
        ch = False
        subs = {}
        for (n, a), (_, c), (_, b) in zip(v0.fields, cur.fields, v1.fields):
            d = self.subs[n]
            d2 = d if b is c or b == c else d.refine(a, c, b, L)
            ch = ch or d2 is not d
            subs[n] = d2
        return StructD(subs) if ch else self

    def eqs(self, v0, cur, v1, idx, L):
        for (n, a), (_, c), (_, b) in zip(v0.fields, cur.fields, v1.fields):
            self.subs[n].eqs(a, c, b, idx, L)


class GateD:
    """alternatives between record variants: boolean selectors plus one record per variant"""

    def __init__(self, shapes, tags, subs):
        self.shapes, self.tags, self.subs = shapes, tags, subs   # shapes: list of sample Structs

    def inits(self, v0):
        alts = v0.alts if isinstance(v0, Gate) else ((TRUE, v0),)
        out = []
        for sh in self.shapes:
            sel = [(c, a) for c, a in alts if a.variant == sh.variant]
            cond = c_or(*[c for c, _ in sel])
            if sel:
                v = sel[-1][1]
                for c, a in reversed(sel[:-1]):
                    v = vmerge(c, a, v)
            else:
                v = sh
            out.append((cond, v))
        return out

    def build(self, v0, fn, idx):
        ins = self.inits(v0)
        alts = []
        rest = TRUE
        for k, ((c, v), d) in enumerate(zip(ins, self.subs)):
            val = d.build(v, fn, idx)
            if k < len(self.tags):
                t = self.tags[k].build(c, fn, idx)
                alts.append((c_and(rest, t), val))
                rest = c_and(rest, c_not(t))
            else:
                alts.append((rest, val))
        return mk_gate(alts)

    def refine(self, v0, cur, v1, L):
        alts = v1.alts if isinstance(v1, Gate) else ((TRUE, v1),)
        for _, a in alts:
            if not isinstance(a, Struct):
                raise Bad('alternatives change type')
            if a.variant not in [s.variant for s in self.shapes]:
                return gate_guess(mk_gate([(TRUE, v0)]) if False else v0, v1, L, self.shapes)
        ch = False
        subs = []
        curm = dict((a.variant, a) for _, a in (cur.alts if isinstance(cur, Gate) else ((TRUE, cur),)))
        for sh, d, (_, i0) in zip(self.shapes, self.subs, self.inits(v0)):
            sel = [(c, a) for c, a in alts if a.variant == sh.variant]
            if sel and sh.variant in curm:
                v = sel[-1][1]
                for c, a in reversed(sel[:-1]):
                    v = vmerge(c, a, v)
                d2 = d.refine(i0, curm[sh.variant], v, L) if v != curm[sh.variant] else d
                ch = ch or d2 is not d
                d = d2
            subs.append(d)
        return GateD(self.shapes, self.tags, subs) if ch else self

    def eqs(self, v0, cur, v1, idx, L):
        alts = v1.alts if isinstance(v1, Gate) else ((TRUE, v1),)
        curm = dict((a.variant, a) for _, a in (cur.alts if isinstance(cur, Gate) else ((TRUE, cur),)))
        rest = []
        for k, (sh, d, (c0, i0)) in enumerate(zip(self.shapes, self.subs, self.inits(v0))):
            sel = [(c, a) for c, a in alts if a.variant == sh.variant]
            cond = c_or(*[c for c, _ in sel])
            if k < len(self.tags):
                self.tags[k].eqs(c0, None, simp(cond, L.facts), idx, L)
            v = curm.get(sh.variant, i0)
            if sel:
                v = sel[-1][1]
                for c, a in reversed(sel[:-1]):
                    v = vmerge(c, a, v)
            d.eqs(i0, curm.get(sh.variant, i0), v, idx, L)


def gate_guess(v0, v1, L, extra=()):
    alts = list(v0.alts if isinstance(v0, Gate) else ((TRUE, v0),)) + \
        list(v1.alts if isinstance(v1, Gate) else ((TRUE, v1),)) + [(TRUE, s) for s in extra]
    shapes, seen = [], {}
    for _, a in alts:
        if not isinstance(a, Struct):
            raise Bad('mixed alternatives')
        if a.variant not in seen:
            seen[a.variant] = len(shapes)
            shapes.append(a)
    subs = []
    ins = GateD(shapes, [], [])
    for (c, i0), sh in zip(ins.inits(v0), shapes):
        d = SAME
        for _, a in alts:
            if a.variant == sh.variant and a != i0:
                d = guess(i0, a, L) if d is SAME else d
        if d is SAME and c.kind == 'F':
            # never present initially: every field is written when the variant appears
            d = all_leaves(sh, L)
        subs.append(d)
    tags = [Leaf('c', L.newname('t')) for _ in shapes[:-1]]
    return GateD(shapes, tags, subs)


def all_leaves(v, L):
    if isinstance(v, Poly):
        return Leaf('p', L.newname('v', v.isint))
    if isinstance(v, Cond):
        return Leaf('c', L.newname('t'))
    if isinstance(v, Struct):
        return StructD({n: all_leaves(x, L) for n, x in v.fields})
    return SAME


class AppD:
    """sequence growing at its end"""

    def __init__(self, cnt, elem):
        self.cnt, self.elem = cnt, elem

    def build(self, v0, fn, idx):
        return fn(self, v0, idx)

    def phi(self, v0, idx, cnt):
        nme = fresh('e')
        declare(nme, int=True)
        k = sym(nme, int=True)
        if v0.segs and all(isinstance(g.b, Poly) and not g.flat for g in v0.segs):
            return Seq([mk_seg(cnt + seq_len(v0), nme, sym(self.elem, *idx, k))])
        return concat(v0, Seq([mk_seg(cnt, nme, sym(self.elem, *idx, k + seq_len(v0)))]))

    def split(self, cur, v1):
        n = len(cur.segs)
        if not isinstance(v1, Seq) or v1.segs[:n] != cur.segs:
            raise Bad('sequence is not only extended')
        return Seq(v1.segs[n:])

    def refine(self, v0, cur, v1, L):
        self.split(cur, v1)
        return self

    def eqs(self, v0, cur, v1, idx, L):
        if ('app', self.cnt) in L.solved:
            return
        add = self.split(cur, v1)
        L.apps[self.cnt] = (self, idx, v0, add)
        L.eq[self.cnt] = ('p', idx, ZERO, sym(self.cnt, *idx) + seq_len(add))


class DropD:
    """sequence (iterator) consumed from its front, one element per iteration"""

    def build(self, v0, fn, idx):
        return fn(self, v0, idx)

    def at(self, v0, i, f):
        n = seq_len(v0)
        if len(v0.segs) == 1 and not v0.segs[0].flat:
            g = v0.segs[0]
            return seq_fn(n - i, lambda j: g.at(j + i))
        return seq_fn(n - i, lambda j: seq_get(v0, j + i, f.add(mk_leq(0, j), mk_lt(j + i, n), mk_leq(0, i))))

    def refine(self, v0, cur, v1, L):
        return self

    def eqs(self, v0, cur, v1, idx, L):
        pass


class ElemD:
    """sequence of fixed layout whose elements change"""

    def __init__(self, subs):
        self.subs = subs

    def build(self, v0, fn, idx):
        out = []
        for g, d in zip(v0.segs, self.subs):
            if d is SAME:
                out.append(g)
                continue
            nme = fresh('e')
            declare(nme, int=True)
            j = sym(nme, int=True)
            out.append(mk_seg(g.n, nme, d.build(g.at(j), fn, idx + (j,)), False))
        return Seq(out)

    def elems(self, v0, cur, v1, L):
        """(descriptor, j name, j, v0 elem, cur elem, v1 elem) per segment"""
        if not isinstance(v1, Seq) or not equal(seq_len(v1), seq_len(v0), L.facts):
            raise Bad('sequence length changes')
        off = ZERO
        same_layout = len(v1.segs) == len(v0.segs) and all(a.n is b.n and a.flat == b.flat
                                                           for a, b in zip(v1.segs, v0.segs))
        for k, (g, gc) in enumerate(zip(v0.segs, cur.segs)):
            nme = fresh('e')
            declare(nme, int=True)
            j = sym(nme, int=True)
            f = L.facts.add(mk_leq(0, j), mk_lt(j, g.n))
            if g.flat:
                if not (same_layout and v1.segs[k] == g):
                    raise Bad('nested sequence changes')
                yield k, nme, j, None, None, None
            else:
                v = v1.segs[k].at(j) if same_layout else seq_get(v1, off + j, f)
                yield k, nme, j, g.at(j), gc.at(j), vsimp(v, f)
            off = off + seg_len(g)

    def refine(self, v0, cur, v1, L):
        subs = list(self.subs)
        ch = False
        for k, nme, j, a, c, b in self.elems(v0, cur, v1, L):
            if a is None or b == c:
                continue
            d2 = subs[k].refine(a, c, b, L)
            ch = ch or d2 is not subs[k]
            subs[k] = d2
        return ElemD(subs) if ch else self

    def eqs(self, v0, cur, v1, idx, L):
        for k, nme, j, a, c, b in self.elems(v0, cur, v1, L):
            if a is not None and self.subs[k] is not SAME:
                self.subs[k].eqs(a, c, b, idx + (j,), L)


def guess(v0, v1, L):
    if v0 is v1 or v0 == v1:
        return SAME
    if isinstance(v0, Poly) and isinstance(v1, Poly):
        if equal(v0, v1, L.facts):
            return SAME
        return Leaf('p', L.newname('v', v0.isint and v1.isint))
    if isinstance(v0, Cond) and isinstance(v1, Cond):
        return Leaf('c', L.newname('t'))
    if isinstance(v0, Struct) and isinstance(v1, Struct) and v0.ty == v1.ty and v0.variant == v1.variant and \
            len(v0.fields) == len(v1.fields):
        return StructD({n: guess(a, b, L) for (n, a), (_, b) in zip(v0.fields, v1.fields)})
    if isinstance(v0, (Struct, Gate)) and isinstance(v1, (Struct, Gate)):
        return gate_guess(v0, v1, L)
    if isinstance(v0, Seq) and isinstance(v1, Seq):
        n = len(v0.segs)
        if len(v1.segs) > n and v1.segs[:n] == v0.segs:
            return AppD(L.newname('c', True), L.newname('e', False))
        l0, l1 = seq_len(v0), seq_len(v1)
        if equal(l0, l1, L.facts):
            d = ElemD([SAME] * n)
            return d.refine(v0, v0, v1, L)
        if equal(l0 - 1, l1, L.facts):
            return DropD()
        raise Bad('sequence changes irregularly')
    if isinstance(v0, MutRef) and isinstance(v1, MutRef):
        raise Bad('reference changes')
    raise Bad('%s becomes %s' % (type(v0).__name__, type(v1).__name__))


# ------------------------------------------------------------------ the loop engine
class Loop:
    def __init__(self, I, st, iname, n):
        self.I = I
        self.iname = iname
        self.i = sym(iname)
        self.n = n
        self.eq = {}
        self.apps = {}
        self.cnt = 0
        rng = [mk_leq(0, self.i)]
        if n is not None:
            rng.append(mk_lt(self.i, n))
        self.range = rng
        self.facts = st.f.add(*rng)
        self.solved = {}
        self.getters = {}

    def newname(self, k, isint=False):
        self.cnt += 1
        n = '%s.%s%d' % (self.iname, k, self.cnt)
        if k == 'c':
            declare(n, int=True, rng=lambda idx: (0, None))
        else:
            declare(n, int=isint)
        return n

    # ---- phi values
    def phi(self, d, v0, idx):
        if isinstance(d, Leaf):
            if d.name in self.solved:
                return self.solved[d.name](idx)
            s = sym(d.name, *idx)
            return s if d.kind == 'p' else mk_bool(s)
        if isinstance(d, AppD):
            if ('app', d.cnt) in self.solved:
                return self.solved[('app', d.cnt)](idx)
            cnt = self.solved[d.cnt](idx) if d.cnt in self.solved else sym(d.cnt, *idx)
            return d.phi(v0, idx, cnt)
        return d.at(v0, self.i, self.facts)

    def closed(self, d, v0, idx):
        if isinstance(d, Leaf):
            f = self.solved.get(d.name)
            if f is None:
                raise Bad('no closed form')
            return f(idx)
        if isinstance(d, AppD):
            f = self.solved.get(('app', d.cnt))
            if f is None:
                raise Bad('no closed form')
            return f(idx)
        return d.at(v0, self.i, self.facts)

    # ---- solving
    def solve(self):
        todo = {k: v for k, v in self.eq.items() if k not in self.solved}
        apps = {k: v for k, v in self.apps.items() if ('app', k) not in self.solved}
        sub = {k: v for k, v in self.solved.items() if isinstance(k, str) and v is not True}
        sub.update(self.getters)
        n0 = len(self.solved)
        progress = True
        while progress and (todo or apps):
            progress = False
            unsolved = set(todo) | {d.elem for d, _, _, _ in apps.values()}
            for name in list(todo):
                kind, idx, v0, v1 = todo[name]
                try:
                    nx = subst(v1, sub) if sub else v1
                    f = self.facts
                    for j in idx:
                        f = f.add(mk_leq(0, j))
                    nx = simp(nx, f)
                except Undecided:
                    continue
                if (nx.names & unsolved) - {name}:
                    continue
                try:
                    r = solve_poly(self, name, idx, v0, nx) if kind == 'p' else solve_cond(self, name, idx, v0, nx)
                except Undecided:
                    r = None
                if r is None:
                    continue
                fn = make_fn(r, idx)
                self.solved[name] = fn
                sub[name] = fn
                del todo[name]
                progress = True
            for cn in list(apps):
                d, idx, v0, add = apps[cn]
                if cn in todo:
                    continue
                add2 = subst(add, sub) if sub else add
                if add2.names & (unsolved - {d.elem}):
                    continue
                if d.elem in add2.names:
                    r = self.prev_rec(d, idx, v0, add2, sub)
                    if r is None:
                        continue
                    add2 = r
                val = self.close_app(v0, vsimp(add2, self.facts))
                fn = make_fn(val, idx)
                self.solved[('app', cn)] = fn
                self.solved[d.elem] = True

                def getter(ix, val=val, idx=idx):
                    v = make_fn(val, idx)(ix[:-1])
                    x = seq_get(v, ix[-1], self.facts.add(mk_leq(0, ix[-1]), mk_lt(ix[-1], seq_len(v))))
                    if not isinstance(x, (Poly, Cond)):
                        raise Undecided('element kind')
                    return x
                sub[d.elem] = getter
                self.getters[d.elem] = getter
                del apps[cn]
                progress = True
        return len(self.solved) > n0, bool(todo or apps)

    def close_app(self, v0, add):
        i = self.i
        nme = fresh('k')
        declare(nme, int=True)
        k = sym(nme, int=True)
        b = subst(add, {self.iname: k})
        if len(b.segs) == 1 and not b.segs[0].flat and b.segs[0].n is ONE:
            return concat(v0, Seq([mk_seg(i, nme, b.segs[0].at(ZERO))]))
        return concat(v0, Seq([mk_seg(i, nme, b, True)]))

    def prev_rec(self, d, idx, v0, add, sub):
        """each new element computed from the previous one"""
        if idx or len(add.segs) != 1 or add.segs[0].flat or add.segs[0].n is not ONE:
            return None
        x = add.segs[0].at(ZERO)
        if not isinstance(x, Poly) or not v0.segs:
            return None
        last = simp(subst(sym(d.cnt), sub) + seq_len(v0) - 1, self.facts)
        at = sym(d.elem, last).single()
        ph = self.newname('v', x.isint)
        x2 = T.subst_atom(x, at, sym(ph))
        if d.elem in x2.names:
            return None
        init = seq_get(v0, seq_len(v0) - 1, self.facts)
        if not isinstance(init, Poly):
            return None
        r = solve_poly(self, ph, (), init, x2)
        if r is None:
            return None
        return seq_of(subst(r, {self.iname: self.i + 1}))


def make_fn(val, idx):
    names = [j.single().args[0] for j in idx]

    def fn(ix):
        if not names:
            return val
        return subst(val, {n: P(x) for n, x in zip(names, ix)})
    return fn


def shift(x, iname, k):
    return subst(x, {iname: P(k)})


def solve_poly(L, name, idx, v0, nx):
    i, iname = L.i, L.iname
    phi = sym(name, *idx).single()
    if any(a is not phi and a.kind == 'sym' and a.args[0] == name for m in nx.terms for a, e in m):
        nx = at_index(L, name, idx, phi, nx)
    A, B = {}, {}
    for m, c in nx.terms.items():
        hit = [e for a, e in m if a is phi]
        rest = tuple(t for t in m if t[0] is not phi)
        if any(name in a.names or (isinstance(e, Poly) and name in e.names) for a, e in rest):
            return solve_guarded(L, name, idx, v0, nx)
        if hit:
            if hit[0] != 1:
                return None
            A[rest] = c
        else:
            B[m] = c
    A, B = Poly.make(A), Poly.make(B)
    return solve_lin(L, name, idx, v0, nx, A, B)


def at_index(L, name, idx, phi, nx):
    """phi at another index under a condition which makes that index this one: phi at this index"""
    out = ZERO
    for m, c in nx.terms.items():
        other = {a for a, e in m if a is not phi and a.kind == 'sym' and a.args[0] == name}
        conds = [a.args[0] for a, e in m if a.kind == 'ind' and a.args[0].kind == 'eq']
        if other and conds:
            f = L.facts.add(*conds)
            other = {a for a in other if all(f.prove(mk_eq(x - j)) for x, j in zip(a.args[1], idx))}
        r = P(c)
        for a, e in m:
            r = r * poly_pow(Poly.of(phi if a in other and conds else a), P(e))
        out = out + r
    return out


def solve_lin(L, name, idx, v0, nx, A, B):
    i, iname = L.i, L.iname
    if A.is_zero():
        if iname not in B.names:
            return ite(mk_eq(i), v0, B)
        return ite(mk_eq(i), v0, shift(B, iname, i - 1))
    nme = fresh('k')
    declare(nme, int=True)
    k = sym(nme, int=True)
    if A is ONE:
        return v0 + mksum(i, nme, shift(B, iname, k))
    # single hit: ind(i == K) is a common factor of A - 1 and of B
    K = common_hit(A - 1, B, iname)
    if K is not None:
        fK = shift(A, iname, K) * v0 + shift(B, iname, K)
        return ite(c_and(mk_leq(0, K), mk_lt(K, i)), fK, v0)
    if iname not in A.names:
        r = v0 * poly_pow(A, i)
        if not B.is_zero():
            r = r + mksum(i, nme, shift(B, iname, k) * poly_pow(A, i - 1 - k))
        return r
    r = first_hit(L, A, B, v0)
    if r is not None:
        return r
    if B.is_zero():
        return v0 * mkprod(i, nme, shift(A, iname, k))
    r = last_hit(L, A, B, v0)
    return r


def solve_guarded(L, name, idx, v0, nx):
    """phi' = (phi + c) mod 2^k"""
    i, iname = L.i, L.iname
    phi = sym(name, *idx).single()
    hit = [(m, c) for m, c in nx.terms.items() if len(m) == 1 and m[0][0].kind == 'fl' and m[0][1] == 1 and name in m[0][0].names]
    if len(hit) != 1:
        return None
    (m, c), = hit
    x, k = m[0][0].args
    if not isinstance(k, int) or c != -(1 << k):
        return None
    x = P(x)
    if nx + T.floor2(x, k).scale(1 << k) != x:
        return None
    step = x - Poly.of(phi)
    if name in step.names:
        return None
    nme = fresh('k')
    declare(nme, int=True)
    r = T.low_bits(v0 + mksum(i, nme, shift(step, iname, sym(nme, int=True))), k)
    f = L.facts
    if f.prove(mk_leq(0, v0)) and f.prove(mk_lt(v0, 1 << k)):
        return r
    return ite(mk_eq(i), v0, r)


def common_hit(D, B, iname):
    common = None
    for p in (D, B):
        for m in p.terms:
            s = {a for a, e in m if a.kind == 'ind' and a.args[0].kind == 'eq' and iname in a.names}
            common = s if common is None else common & s
            if not common:
                return None
    if not common:
        return None
    for a in sorted(common, key=lambda a: a.id):
        K = T.solve_index(a.args[0], iname)
        if K is not None:
            return K
    return None


def guard_cond(D):
    """condition c with D == -ind(c), or None"""
    atoms = sorted({a for m in D.terms for a, e in m}, key=lambda a: a.id)
    if not atoms or any(a.kind != 'ind' for a in atoms):
        return None
    d = -D
    if len(d.terms) == 1:
        (m, c), = d.terms.items()
        if c == 1:
            return c_and(*[a.args[0] for a, _ in m])
    if len(d.terms) == 2 and d.terms.get(()) == 1:
        m = [x for x in d.terms if x][0]
        if d.terms[m] == -1:
            return c_not(c_and(*[a.args[0] for a, _ in m]))
    # general: product of literals
    for neg in range(1 << len(atoms)) if len(atoms) <= 5 else []:
        lits = [c_not(a.args[0]) if neg >> k & 1 else a.args[0] for k, a in enumerate(atoms)]
        if ind(c_and(*lits)) is d:
            return c_and(*lits)
    return None


def first_hit(L, A, B, v0):
    """value written only at the first iteration satisfying a condition"""
    i, iname = L.i, L.iname
    c = guard_cond(A - 1)
    if c is None or c.kind != 'and':
        return None
    for a in c.args:
        if a.kind == 'all' and a.args[0] is i:
            h = c_and(*[x for x in c.args if x is not a])
            nme = fresh('k')
            declare(nme, int=True)
            if mk_all(i, nme, c_not(shift(h, iname, sym(nme, int=True)))) == a:
                ex = c_not(a)
                K = mk_first(i, iname, h)
                g = {m: x for m, x in B.terms.items()}
                b = simp(Poly.make(g), L.facts.add(c))
                return ite(ex, shift(b, iname, K), v0)
    return None


def last_hit(L, A, B, v0):
    i, iname = L.i, L.iname
    c = guard_cond(A - 1)
    if c is None:
        return None
    b = simp(B, L.facts.add(*(c.args if c.kind == 'and' else [c])))
    nme = fresh('k')
    declare(nme, int=True, rng=lambda idx: (0, None))
    k = sym(nme, int=True)
    ck = shift(c, iname, i - 1 - k)
    back = mk_first(i, nme, ck)
    return ite(mk_ex(i, nme, ck), shift(b, iname, i - 1 - back), v0)


def solve_cond(L, name, idx, v0, nx):
    i, iname = L.i, L.iname
    a = sym(name, *idx).single()
    n1 = simp(subst(nx, {name: lambda ix: TRUE}), L.facts)
    n0 = simp(subst(nx, {name: lambda ix: FALSE}), L.facts)
    nme = fresh('k')
    declare(nme, int=True)
    k = sym(nme, int=True)
    if n1 == n0:
        return c_or(c_and(mk_eq(i), v0), c_and(c_not(mk_eq(i)), shift(n1, iname, i - 1)))
    if n1.kind == 'T':
        return c_or(v0, mk_ex(i, nme, shift(n0, iname, k)))
    if n0.kind == 'F':
        return c_and(v0, mk_all(i, nme, shift(n1, iname, k)))
    if c_not(n1) == n0:
        # phi xor n0: the parity of the number of hits
        return mk_eq(T.low_bits(ind(v0) + mksum(i, nme, ind(shift(n0, iname, k))), 1) - 1)
    return None


def one_pass(I, st, L, body, labels, mem, extra):
    M = _mods()
    f = L.facts.add(*extra) if extra else L.facts
    s = M.St(dict(mem), f, st.pc)
    base = s.copy()
    I.coll.append([])
    I.idx.append(L.i)
    I.path.append('L')
    try:
        try:
            body(L.i, s)
            live = [(UNIT, s)]
        except M.Dead:
            live = []
    finally:
        exits = I.coll.pop()
        I.idx.pop()
        I.path.pop()
    conts = [(UNIT, x.st) for x in exits if x.kind == 'continue' and x.label in labels]
    others = [x for x in exits if not (x.kind == 'continue' and x.label in labels)]
    live = conts + live
    if not live:
        return None, others
    nb = len(st.pc)
    if len(live) == 1:
        return live[0][1], others
    I.join_exits(base, live, nb)
    return base, others


def snapshot(I):
    return (len(I.panics), dict(I.draws), len(I.notes))


def restore(I, s):
    del I.panics[s[0]:]
    I.draws = dict(s[1])
    del I.notes[s[2]:]


def discover(I, st, L, body, labels, mem0, mem_with, snap, descs, bad, loc):
    M = _mods()
    for rnd in range(12):
        mem = mem_with(L.phi)
        restore(I, snap)
        s, others = one_pass(I, st, L, body, labels, mem, ())
        if s is None:
            return None, mem
        changed = False
        for c, v0 in mem0.items():
            if c in bad:
                continue
            v1 = s.mem.get(c)
            cur = mem[c]
            if v1 is cur or v1 is None or v1 == cur:
                continue
            try:
                if isinstance(v1, M.Poison) or isinstance(v0, M.Poison):
                    if isinstance(v0, M.Poison) and isinstance(v1, M.Poison):
                        continue
                    raise Bad(v1.why if isinstance(v1, M.Poison) else v0.why)
                if M.is_limbs(v1) and isinstance(v0, Poly):
                    mem0[c] = M.prims_().as_limbs(v0)
                    changed = True
                    continue
                d = descs.get(c, SAME)
                d2 = d.refine(v0, cur, v1, L)
                if d2 is not d:
                    descs[c] = d2
                    changed = True
            except (Bad, Undecided) as b:
                if DEBUG:
                    print('LOOPBAD', loc, c, b, '\n  was ', cur, '\n  now ', v1)
                bad[c] = 'loop-carried value not summarised (%s) at %s' % (b, loc)
                descs.pop(c, None)
                changed = True
        if not changed:
            return s, mem
    raise Undecided('loop does not stabilise at %s' % loc)


def sym_loop(I, st, n, body, e, labels, outs):
    M = _mods()
    iname = I.name('i', (e or {}).get('u', 0) if isinstance(e, dict) else 0)
    declare(iname, int=True, rng=lambda idx: (0, None))
    L = Loop(I, st, iname, n)
    if n is not None and n.cval() is None and st.f.prove(mk_leq(n, 0)):
        return True
    mem0 = dict(st.mem)
    snap = snapshot(I)
    descs = {}
    bad = {}

    def mem_with(fn):
        mem = dict(mem0)
        for c, d in descs.items():
            mem[c] = d.build(mem0[c], fn, ())
        for c, why in bad.items():
            mem[c] = M.Poison(why)
        return mem

    loc = e.get('l') if isinstance(e, dict) else '?'
    s = None
    for stage in range(6):
        s, mem = discover(I, st, L, body, labels, mem0, mem_with, snap, descs, bad, loc)
        if s is None:
            break
        L.eq, L.apps = {}, {}
        for c, d in list(descs.items()):
            if d is SAME:
                del descs[c]
                continue
            try:
                d.eqs(mem0[c], mem[c], s.mem[c], (), L)
            except (Bad, Undecided) as b:
                bad[c] = 'loop-carried value not summarised (%s) at %s' % (b, loc)
                del descs[c]
        prog, left = L.solve()
        if not left or not prog:
            break
    if s is not None:
        for c, d in list(descs.items()):
            try:
                d.build(mem0[c], L.closed, ())
            except Bad as b:
                if DEBUG:
                    print('LOOPEQ', loc, c, L.eq, L.apps)
                bad[c] = 'loop-carried value without closed form at %s' % loc
                del descs[c]
    # verification: the closed forms are inductive
    E = None
    for rnd in range(8):
        mem = mem_with(L.closed)
        restore(I, snap)
        extra = ()
        if E is not None and E.kind != 'F':
            k = fresh('k')
            declare(k, int=True)
            extra = (mk_all(L.i, k, c_not(shift(E, iname, sym(k, int=True)))),)
        s, others = one_pass(I, st, L, body, labels, mem, extra)
        nb = len(st.pc)
        if others:
            E2 = c_or(*[c_and(*x.st.pc[nb:]) for x in others])
            E2 = simp(E2, L.facts)
            if E is None or not (E2 == E):
                first = E is None
                E = E2
                if first:
                    continue
        failed = False
        if s is not None:
            for c, v0 in mem0.items():
                if c in bad:
                    continue
                want = mem[c]
                v1 = s.mem.get(c)
                if v1 is None or (v1 is want and iname not in names_of(want)):
                    continue
                if c in descs:
                    want = subst(want, {iname: L.i + 1})
                if isinstance(want, M.Poison):
                    continue
                ok = False
                if not isinstance(v1, M.Poison):
                    try:
                        ok = v1 == want or same_value(v1, want, s.f)
                        if ok and c in descs:
                            z = subst(mem[c], {iname: ZERO})
                            ok = z == v0 or same_value(z, v0, st.f)
                    except Undecided:
                        ok = False
                if not ok:
                    if DEBUG:
                        print('LOOP', loc, c, '\n  got ', v1, '\n  want', want)
                    bad[c] = 'loop-carried value not inductive at %s' % loc
                    descs.pop(c, None)
                    failed = True
        if not failed:
            break
    else:
        raise Undecided('loop summary not inductive at %s' % loc)
    return finish_sym(I, st, L, n, s, others, mem, mem0, outs, labels, loc)


import os
DEBUG = bool(os.environ.get("LOOPDEBUG"))


def same_value(a, b, f):
    if isinstance(a, Closure) or isinstance(b, Closure) or isinstance(a, MutRef) or isinstance(b, MutRef):
        return a == b
    if type(a) is not type(b) and not (isinstance(a, (Struct, Gate)) and isinstance(b, (Struct, Gate))):
        return False
    if isinstance(a, Seq):
        a, b = vsimp(a, f), vsimp(b, f)
        if a == b:
            return True
    return vequal(a, b, f)


def finish_sym(I, st, L, n, s, others, mem, mem0, outs, labels, loc):
    """derive the states after the loop; returns whether a normally-completed state exists"""
    M = _mods()
    iname, i = L.iname, L.i
    nb = len(st.pc)
    f0, pc0 = st.f, st.pc
    hoist = []
    if s is not None:
        known = set(L.facts.conds) | set(s.pc)
        for c in s.f.conds:
            if c not in known and c.kind in ('le', 'eq', 'not', 'b') and len(hoist) < 12:
                hoist.append(c)
    conds = [simp(c_and(*x.st.pc[nb:]), L.facts) for x in others]
    guard = None
    bound = n
    if n is None:
        for k, c in enumerate(conds):
            r = le_bound(c, iname)
            if r is not None:
                guard = (k, r, FALSE)
                break
            if c.kind == 'or':
                for d in c.args:
                    r = le_bound(d, iname)
                    if r is not None:
                        guard = (k, r, c_or(*[x for x in c.args if x is not d]))
                        break
                if guard:
                    break
        if guard:
            b = guard[1]
            if not f0.prove(mk_leq(0, b)):
                b = simp(ite(mk_leq(0, b), b, ZERO), f0)
            bound = b
    E = c_or(*[c for k, c in enumerate(conds) if not (guard and k == guard[0])] + ([guard[2]] if guard else []))
    if bound is not None:
        E = simp(E, L.facts.add(mk_lt(i, bound)))
    EX = mk_ex(bound, iname, E) if bound is not None else TRUE
    if bound is None and E.kind == 'F':
        raise Undecided('loop without exit at %s' % loc)
    EX = simp(EX, f0)
    allfacts = []
    kn = fresh('k')
    declare(kn, int=True)
    kv = sym(kn, int=True)

    def state(memsrc, f, at):
        m = {}
        for c in mem0:
            v = memsrc.get(c)
            if v is None:
                continue
            if iname in names_of(v):
                v = subst(v, {iname: at})
            m[c] = v
        return m

    if EX.kind != 'F':
        K = mk_first(bound, iname, E) if E.kind != 'T' else ZERO
        if bound is not None and len(EX.names) == 0 and False:
            pass
        fK = [mk_leq(0, K)]
        if bound is not None:
            fK.append(mk_lt(K, bound))
        fK.append(mk_all(K, kn, c_not(shift(E, iname, kv))))
        for c in hoist:
            fK.append(mk_all(K, kn, shift(c, iname, kv)))
        fE = simp(shift(E, iname, K), f0) if False else shift(E, iname, K)
        many = sum(1 for k, c in enumerate(conds) if not (guard and k == guard[0])) + (1 if guard and guard[2].kind != 'F' else 0)
        for k, x in enumerate(others):
            c = conds[k]
            if guard and k == guard[0]:
                if guard[2].kind == 'F':
                    continue
                c = guard[2]
            cK = shift(c, iname, K)
            s2 = M.St(state(x.st.mem, f0, K), f0, pc0)
            s2.branch(EX)
            s2.fact(*fK)
            s2.fact(fE)
            if many > 1:
                cK2 = simp(cK, s2.f)
                if cK2.kind == 'F':
                    continue
                s2.branch(cK2)
            else:
                s2.fact(cK)
            # the facts of the path to this exit (only after its branch condition was recorded)
            s2.fact(*[shift(y, iname, K) for y in x.st.f.conds if y not in f0.set and iname in y.names and
                      y not in L.range and y.kind in ('le', 'eq', 'not', 'b')])
            if s2.f.inconsistent():
                continue
            v = x.value
            if v is not None and iname in names_of(v):
                v = subst(v, {iname: K})
            v = vsimp(v, s2.f) if isinstance(v, (Poly, Cond, Struct, Gate)) and not has_ref(v) else v
            if x.kind == 'break' and x.label in labels:
                outs.append((v, s2))
            else:
                I.coll[-1].append(M.Exit(x.kind, x.label, v, s2))
    nEX = c_not(EX)
    if nEX.kind == 'F':
        return False
    if guard:
        x = others[guard[0]]
        s2 = M.St(state(x.st.mem, f0, bound), f0, pc0)
        s2.branch(nEX)
        for c in hoist:
            s2.fact(mk_all(bound, kn, shift(c, iname, kv)))
        v = x.value
        if v is not None and iname in names_of(v):
            v = subst(v, {iname: bound})
        if x.kind == 'break' and x.label in labels:
            outs.append((v, s2))
        else:
            I.coll[-1].append(M.Exit(x.kind, x.label, v, s2))
        return False
    if bound is None:
        return False
    if s is None and simp(mk_leq(1, bound), f0).kind == 'T':
        return False
    st.mem = state(mem, f0, bound) if s is not None else dict(mem0)
    st.branch(nEX)
    for c in hoist:
        st.fact(mk_all(bound, kn, shift(c, iname, kv)))
    return True


def has_ref(v):
    if isinstance(v, (MutRef, Closure, FnRef)):
        return True
    if isinstance(v, Struct):
        return any(has_ref(x) for _, x in v.fields)
    if isinstance(v, Gate):
        return any(has_ref(x) for _, x in v.alts)
    if isinstance(v, Seq):
        return any(has_ref(g.b) for g in v.segs)
    return False


def le_bound(c, iname):
    """c is  bound - i <= 0  (the loop index reached a bound): returns the bound"""
    if c.kind == 'eq':
        r = T.lin_coef(c.args[0], iname)
        return None
    if c.kind != 'le':
        return None
    r = T.lin_coef(c.args[0], iname)
    if r is None or r[0] != -1:
        return None
    return r[1]


# ------------------------------------------------------------------ functional iteration
def map_seq(I, st, seq, fn, e):
    """sequence of fn(elem, state); effects of fn on the state are summarised like a loop body"""
    out = seq_each(I, st, seq, lambda x, s: seq_of(fn(x, s)), e)
    return out


def seq_each(I, st, seq, fn, e):
    """concatenation of fn(elem, state) over the elements"""
    I.tmpn += 1
    cell = 'out%d' % I.tmpn
    st.mem[cell] = EMPTY_SEQ

    def step(x, s):
        v = fn(x, s)
        s.mem[cell] = concat(s.mem[cell], v)
    run_seq(I, st, seq, step, e, [])
    r = st.mem.pop(cell)
    if isinstance(r, _mods().Poison):
        raise Undecided(r.why)
    return r
