"""Facts: a conjunction of conditions known on a path, with a decision procedure for integer side
conditions (Fourier-Motzkin elimination over linear inequalities - the polyhedral abstract domain),
equalities between terms, and instantiation of bounded universal facts."""
from fractions import Fraction
from term import *
import term as T

MAXC = 220


def fm_unsat(cons):
    """cons: list of dict var->coef, key None for the constant; each means sum <= 0.  True if unsatisfiable."""
    work = []
    seen = set()
    for c in cons:
        c = {k: v for k, v in c.items() if v}
        vs = [k for k in c if k is not None]
        if not vs:
            if c.get(None, 0) > 0:
                return True
            continue
        key = frozenset(c.items())
        if key not in seen:
            seen.add(key)
            work.append(c)
    while work:
        vars = {}
        for c in work:
            for k, v in c.items():
                if k is not None:
                    p, n = vars.get(k, (0, 0))
                    vars[k] = (p + 1, n) if v > 0 else (p, n + 1)
        if not vars:
            return False
        best = min(vars, key=lambda k: (vars[k][0] * vars[k][1] - vars[k][0] - vars[k][1], _vk(k)))
        pos = [c for c in work if c.get(best, 0) > 0]
        neg = [c for c in work if c.get(best, 0) < 0]
        rest = [c for c in work if not c.get(best, 0)]
        seen = {frozenset(c.items()) for c in rest}
        for a in pos:
            for b in neg:
                x, y = a[best], -b[best]
                g = gcd(x, y)
                x, y = x // g, y // g
                d = {}
                for k, v in a.items():
                    d[k] = d.get(k, 0) + v * y
                for k, v in b.items():
                    d[k] = d.get(k, 0) + v * x
                d = {k: v for k, v in d.items() if v}
                vs = [k for k in d if k is not None]
                if not vs:
                    if d.get(None, 0) > 0:
                        return True
                    continue
                g = 0
                for k in vs:
                    g = gcd(g, d[k])
                if g > 1:
                    kk = d.get(None, 0)
                    d = {k: v // g for k, v in d.items() if k is not None}
                    kk = -((-kk) // g)
                    if kk:
                        d[None] = kk
                key = frozenset(d.items())
                if key not in seen:
                    seen.add(key)
                    rest.append(d)
        if len(rest) > MAXC:
            return False
        work = rest
    return False


def _vk(m):
    return tuple(a.id for a, _ in m)


def linear(p):
    """poly -> constraint dict (integer coefficients)"""
    p = clear_den(p)
    return {(m if m else None): c for m, c in p.terms.items()}


class Facts:
    __slots__ = ('conds', 'set', 'les', 'diseqs', 'alls', 'ors', 'eqs', 'memo', 'parent', 'bools', '_neg')

    def __init__(self, conds=()):
        self.conds = tuple(conds)
        self.set = frozenset(self.conds)
        self.les, self.diseqs, self.alls, self.ors, self.eqs, self.bools = [], [], [], [], [], []
        self._neg = []
        for c in self.conds:
            k = c.kind
            if k == 'le':
                self.les.append(c.args[0])
            elif k == 'eq':
                self.eqs.append(c.args[0])
                if c.args[0].isint:
                    self.les.append(c.args[0])
                    self.les.append(-c.args[0])
            elif k == 'not' and c.args[0].kind == 'eq':
                self.diseqs.append(c.args[0].args[0])
            elif k == 'all':
                self.alls.append(c)
            elif k == 'or':
                self.ors.append(c)
        self.memo = {}

    def add(self, *cs):
        new = []
        for c in cs:
            for x in (sorted(c.args, key=lambda x: x.id) if c.kind == 'and' else [c]):
                if x.kind != 'T' and x not in self.set and x not in new:
                    new.append(x)
        if not new:
            return self
        conds = self.conds + tuple(new)
        if any(c.kind == 'or' for c in conds):
            # unit propagation
            for _ in range(8):
                known = set(conds)
                out = []
                changed = False
                for c in conds:
                    if c.kind == 'or':
                        d = TRUE if any(x in known for x in c.args) else T._resolve(c, known, 'and')
                        if d is not c:
                            changed = True
                            for x in (sorted(d.args, key=lambda x: x.id) if d.kind == 'and' else [d]):
                                if x.kind != 'T' and x not in known and x not in out:
                                    out.append(x)
                            continue
                    out.append(c)
                conds = tuple(out)
                if not changed:
                    break
        return Facts(conds)

    def assuming(self, *cs):
        """add conditions, simplified by the facts and by each other (simple ones first)"""
        f = self
        todo = list(cs)
        while todo:
            flat = []
            for c in todo:
                c = simp(c, f)
                flat += sorted(c.args, key=lambda x: x.id) if c.kind == 'and' else [c]
            flat.sort(key=lambda c: (c.kind == 'or', c.kind == 'all', c.kind == 'eq' and not c.args[0].isint))
            f = f.add(flat[0])
            todo = flat[1:]
        return f

    def __repr__(self):
        return ' && '.join(map(repr, self.conds))

    # ---- proving
    def prove(self, c, depth=0):
        if c.kind == 'T' or c in self.set:
            return True
        if c.kind == 'F':
            return self.inconsistent() if depth == 0 else False
        r = self.memo.get(c)
        if r is None:
            self.memo[c] = False
            r = self._prove(c, depth) or depth < 2 and self._by_cases(c, depth)
            self.memo[c] = r
        return r

    def _by_cases(self, c, depth):
        """case distinction over a single 0/1 indicator in an integer (in)equality"""
        if c.kind == 'all':
            return False
        ic = ind_conds(c, {})
        if not ic or len(ic) > 2 or c.h:
            return False
        d = max(ic, key=lambda x: (ic[x], -x.id))
        for x in (d, c_not(d)):
            f = self.add(x)
            if f.inconsistent():
                continue
            y = Simp(f).cond(c)
            if y.kind != 'T' and not f.prove(y, depth + 1):
                return False
        return True

    def decide(self, c):
        """True / False / None"""
        if self.prove(c):
            return True
        if self.prove(c_not(c)):
            return False
        return None

    def inconsistent(self):
        r = self.memo.get('F')
        if r is None:
            if FALSE in self.set:
                r = True
            else:
                r = False
                for c in self.conds:
                    if c_not(c) in self.set:
                        r = True
                if not r:
                    self.memo['F'] = False
                    r = self._unsat([])
                    if not r:
                        for d in self.diseqs:
                            if d.isint and self._prove_le(d) and self._prove_le(-d):
                                r = True
                                break
                    if not r and self.alls:
                        more = self.instances(frozenset(x for x in self.conds if x.kind != 'all'))
                        if any(x.kind != 'T' and x not in self.set for x in more):
                            f = self.add(*more)
                            r = Facts(tuple(x for x in f.conds if x.kind != 'all')).inconsistent()
            self.memo['F'] = r
        return r

    def _prove(self, c, depth):
        k = c.kind
        if k == 'and':
            return all(self.prove(x, depth) for x in c.args)
        if k == 'or':
            for x in c.args:
                if self.prove(x, depth):
                    return True
            if depth < 3:
                for x in c.args:
                    others = [c_not(y) for y in c.args if y is not x]
                    if self.add(*others).prove(x, depth + 1):
                        return True
                if self.add(*[c_not(y) for y in c.args]).inconsistent():
                    return True
            return False
        if k == 'le':
            return self._prove_le(c.args[0], depth)
        if k == 'eq':
            p = c.args[0]
            if p.isint:
                if self._prove_le(p, depth) and self._prove_le(-p, depth):
                    return True
            q = self.rewrite(p)
            if q is not p and mk_eq(q).kind == 'T':
                return True
            if not p.isint and self._eq_modulo(p, depth):
                return True
            return self._by_all(c, depth)
        if k == 'not':
            d = c.args[0]
            if d.kind == 'eq':
                p = d.args[0]
                if p.isint and (self._prove_le(p + 1, depth) or self._prove_le(ONE - p, depth)):
                    return True
                q = self.rewrite(p)
                if q is not p:
                    e = mk_eq(q)
                    if e.kind == 'F':
                        return True
                    if e is not d and self.prove(c_not(e), depth + 1):
                        return True
                # contradiction with facts
                if p.isint and depth < 2 and self.add(d).inconsistent():
                    return True
            if d.kind == 'all':
                # exists: try witnesses? not needed
                return False
            if d.kind == 'b' and self._small_bit(d.args[0], depth):
                return True
            if d.kind == 'all' and depth < 2:
                hi, b = d.args
                cand = set()
                find_inst(b, frozenset(x for x in self.conds if x.kind != 'all'), d.h, cand)
                if depthlimit(cand):
                    for v in cand:
                        if not contains_bv(v) and self.prove(c_and(mk_leq(0, v), mk_lt(v, hi)), depth + 1) \
                                and self.prove(c_not(T.Subst({}, {d.h: v}).cond(b)), depth + 1):
                            return True
            return self._by_all(c, depth)
        if k == 'all':
            hi, b = c.args
            nm = fresh('q')
            declare(nm, int=True, rng=None)
            v = sym(nm, int=True)
            body = T.Subst({}, {c.h: v}).cond(b)
            return self.add(mk_leq(0, v), mk_lt(v, hi)).prove(body, depth + 1)
        if k == 'b':
            return self._by_all(c, depth)
        return False

    def _small_bit(self, p, depth):
        """bit k of a non-negative integer below 2^j is clear for k >= j"""
        a = p.single() if isinstance(p, Poly) else p
        if a is None or a.kind != 'app' or a.args[0] != 'r1bit' or not a.args[1].isint:
            return False
        lo, hi = int_range(a.args[1])
        if lo is None or hi is None or lo < 0:
            return False
        return self._prove_le(P(int(hi).bit_length()) - a.args[2], depth)

    def _eq_modulo(self, p, depth):
        """p == 0 is a known equation up to the integer facts"""
        fs = [e for e in self.eqs if not e.isint and e.names & p.names]
        if not fs or depth > 1:
            return False
        base = self.memo.get('ints')
        if base is None:
            base = Facts(tuple(c for c in self.conds if c.kind != 'eq' or c.args[0].isint))
            self.memo['ints'] = base
        if len(base.conds) == 0:
            return False
        if base.alls:
            base = base.add(*base.instances(frozenset([mk_eq(p)] + [mk_eq(e) for e in fs])))
        g = mk_eq(simp(p, base))
        if g.kind == 'T':
            return True
        for e in fs:
            if mk_eq(simp(e, base)) is g:
                return True
        return False

    def rewrite(self, p):
        """apply equality facts oriented as rewrites of atoms"""
        if 'rw' not in self.memo:
            rw = {}
            for e in self.eqs:
                o = orient_eq(subst(e, {}, None, dict(rw)) if rw else e)
                if o is None or o[0].kind in ('bv',):
                    continue
                a, v = o
                rw = {k: subst(x, {}, None, {a: v}) for k, x in rw.items()}
                rw[a] = v
            self.memo['rw'] = rw
        rw = self.memo['rw']
        if not rw:
            return p
        for _ in range(3):
            q = subst(p, {}, None, dict(rw))
            if q is p:
                return p
            p = q
        return p

    def _constraints(self, polys):
        """linear constraints relevant for the given polys"""
        cons = []
        monos = set()
        for p in polys:
            monos |= {m for m in p.terms if m}
        pend = list(monos)
        used = set()
        facts = list(self.les)
        rounds = 0
        while rounds < 4:
            rounds += 1
            new = []
            for m in pend:
                for q in mono_facts(m):
                    new.append(q)
                if len(m) == 1 and m[0][0].kind == 'first' and m[0][1] == 1:
                    hi = m[0][0].args[0]
                    if hi is not None and hi.cval() is None and self._positive(hi):
                        new.append(Poly.of(m[0][0]) - hi + 1)
            pend = []
            for i, f in enumerate(facts):
                if i in used:
                    continue
                if any(m in monos for m in f.terms if m):
                    used.add(i)
                    new.append(f)
            for f in new:
                cons.append(f)
                for m in f.terms:
                    if m and m not in monos:
                        monos.add(m)
                        pend.append(m)
            if not new:
                break
        return cons

    def _positive(self, n):
        """n >= 1, shown by the inequalities or by an index below n that is known to exist"""
        k = ('pos', n)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = False
            r = any(c.kind == 'not' and c.args[0].kind == 'all' and c.args[0].args[0] == n for c in self.conds) or self._unsat([n])
            self.memo[k] = r
        return r

    def _unsat(self, extra):
        cons = self._constraints(list(extra) + (list(self.les) if not extra else []))
        allc = [linear(x) for x in list(extra) + cons]
        return fm_unsat(allc)

    def _prove_le(self, p, depth=0):
        p = clear_den(P(p))
        c = p.cval()
        if c is not None:
            return c <= 0
        if not p.isint:
            return False
        key = ('le', p)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = False
        lo, hi = int_range(p)
        r = hi is not None and hi <= 0
        if not r:
            r = self._unsat([ONE - p])
        if not r:
            r = self._tighten(p)
        if not r:
            q = self.rewrite(p)
            if q is not p:
                r = self._prove_le(q, depth)
        if not r and depth < 2 and self.ors:
            ns = p.names
            for o in self.ors:
                if o.names & ns or len(self.ors) <= 2:
                    if all(self._minus(o).add(x)._prove_le(p, depth + 1) or self._minus(o).add(x).inconsistent() for x in o.args):
                        r = True
                        break
        if not r and self.alls and depth < 3:
            r = self._by_all(mk_le(p), depth)
        self.memo[key] = r
        return r

    def _minus(self, o):
        return Facts(tuple(c for c in self.conds if c is not o))

    def _tighten(self, p):
        """use disequalities: x != 0 and x >= 0 gives x >= 1"""
        ds = [d for d in self.diseqs if d.isint]
        if not ds:
            return False
        extra = []
        changed = True
        used = set()
        while changed:
            changed = False
            for i, d in enumerate(ds):
                if i in used:
                    continue
                d = clear_den(d)
                if self._unsat(extra + [d + 1]):         # d >= 0
                    extra.append(ONE - d)
                    used.add(i)
                    changed = True
                elif self._unsat(extra + [ONE - d]):     # d <= 0
                    extra.append(d + 1)
                    used.add(i)
                    changed = True
        return bool(extra) and self._unsat(extra + [ONE - p])

    def _by_all(self, c, depth):
        if depth >= 3:
            return False
        insts = self.instances(c)
        if not insts:
            return False
        f = self.add(*insts)
        if f is self:
            return False
        g = Facts(tuple(x for x in f.conds if x.kind != 'all'))
        if g.prove(c, depth + 1):
            return True
        # instances suggested by the other facts
        more = self.memo.get('more')
        if more is None:
            more = self.instances(frozenset(x for x in self.conds if x.kind != 'all'))
            self.memo['more'] = more
        if all(x in insts for x in more):
            return False
        f = self.add(*(insts + more))
        g = Facts(tuple(x for x in f.conds if x.kind != 'all'))
        return g.prove(c, depth + 1)

    def instances(self, c):
        out = []
        work = [(a, 0) for a in self.alls]
        while work:
            a, level = work.pop()
            hi, b = a.args
            cand = set()
            find_inst(b, c, a.h, cand)
            if depthlimit(cand):
                for v in cand:
                    if contains_bv(v):
                        continue
                    f = Facts(tuple(x for x in self.conds if x.kind not in ('all', 'or')))
                    if f.prove(c_and(mk_leq(0, v), mk_lt(v, hi))):
                        x = T.Subst({}, {a.h: v}).cond(b)
                        out.append(x)
                        if x.kind == 'all' and level < 2:
                            work.append((x, level + 1))
        return out


def depthlimit(s):
    return len(s) <= 12


def contains_bv(p):
    def rec(x):
        if isinstance(x, Poly):
            return any(rec(a) or (isinstance(e, Poly) and rec(e)) for m in x.terms for a, e in m)
        if isinstance(x, Atom):
            if x.kind == 'bv':
                return True
            if x.kind in ('sum', 'first', 'prod'):
                return False
            return any(rec(y) for y in x.args)
        if isinstance(x, tuple):
            return any(rec(y) for y in x)
        return False
    return rec(p)


_cs = {}


def collect_syms(x):
    """the symbols and applications in a term, without repetition (a dict used as an ordered set)"""
    if isinstance(x, (Atom, Cond)):
        r = _cs.get(x)
        if r is not None:
            return r
        out = {}
        if isinstance(x, Atom) and x.kind in ('sym', 'app'):
            out[x] = 1
        for y in x.args:
            if isinstance(y, (Atom, Cond, Poly, tuple, frozenset)):
                out.update(collect_syms(y))
        _cs[x] = out
        return out
    out = {}
    if isinstance(x, Poly):
        for m in x.terms:
            for a, e in m:
                out.update(collect_syms(a))
                if isinstance(e, Poly):
                    out.update(collect_syms(e))
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            if isinstance(y, (Atom, Cond, Poly, tuple, frozenset)):
                out.update(collect_syms(y))
    return out


_fi = {}


def find_inst(pattern, goal, n, cand):
    k = (pattern, goal, n)
    r = _fi.get(k)
    if r is None:
        r = set()
        _find_inst(pattern, goal, n, r)
        if len(_fi) > 200000:
            _fi.clear()
        _fi[k] = r
    cand |= r


def _find_inst(pattern, goal, n, cand):
    bvn = bv(n)
    a0 = bvn.single()
    by = {}
    for g in collect_syms(goal):
        by.setdefault((g.kind, g.args[0]), []).append(g)
    for p in collect_syms(pattern):
        for g in by.get((p.kind, p.args[0]), ()):
            if p.kind == 'sym':
                if p.args[1]:
                    for x, y in zip(p.args[1], g.args[1]):
                        m = match_index(x, y, bvn)
                        if m is not None:
                            cand.add(m)
            else:
                for x, y in zip(p.args[1:], g.args[1:]):
                    if isinstance(x, Poly) and isinstance(y, Poly):
                        m = match_index(x, y, bvn)
                        if m is not None:
                            cand.add(m)


def match_index(x, y, bvn):
    """x is linear in the bound variable with coefficient 1: return y - (x - bv)"""
    a = bvn.single()
    c = x.terms.get(((a, 1),), 0)
    if c not in (1, -1):
        return None
    rest = x - bvn.scale(c)
    if contains_atom(rest, a):
        return None
    return y - rest if c == 1 else rest - y


MONO_FACTS_EXTRA = {}


_mf = {}


def mono_facts(m):
    """list of polys q with q <= 0 known for this monomial"""
    r = _mf.get(m)
    if r is not None:
        return r
    out = []
    pm = Poly.make({m: 1})
    if len(m) == 1 and m[0][1] == 1:
        a = m[0][0]
        if a.kind == 'sym':
            inf = SYM_INFO.get(a.args[0])
            if inf and inf['rng']:
                lo, hi = inf['rng'](a.args[1])
                if lo is not None:
                    out.append(P(lo) - pm)
                if hi is not None:
                    out.append(pm - P(hi))
        elif a.kind == 'sum':
            if T.atom_range(a)[0] == 0:
                out.append(-pm)
        elif a.kind == 'ind':
            out.append(-pm)
            out.append(pm - 1)
        elif a.kind == 'fl':
            x, k = a.args
            out.append(-pm)
            out.append(pm.scale(1 << k) - x)
            out.append(x - pm.scale(1 << k) - ((1 << k) - 1))
        elif a.kind == 'first':
            out.append(-pm)
            if a.args[0] is not None:
                n = a.args[0].cval()
                # where no index qualifies the value is taken to be any number below the bound; that needs a positive bound
                if n is None:
                    out.append(pm - a.args[0])
                elif n >= 1:
                    out.append(pm - (n - 1))
        elif a.kind == 'app':
            f = APP_FACTS.get(a.args[0])
            if f:
                out.extend(f(pm, *a.args[1:]))
            else:
                g = APP_RANGE.get(a.args[0])
                if g:
                    lo, hi = g(*a.args[1:])
                    if lo is not None:
                        out.append(P(lo) - pm)
                    if hi is not None:
                        out.append(pm - P(hi))
    elif all(isinstance(e, int) for a, e in m) or any(a.kind == 'two' for a, e in m):
        lo, hi = mono_range(m)
        if lo is not None:
            out.append(P(lo) - pm)
        if hi is not None:
            out.append(pm - P(hi))
    if len(m) == 1 and m[0][0].kind == 'two':
        lo, hi = mono_range(m)
        if lo is not None:
            out.append(P(lo) - pm)
        if hi is not None:
            out.append(pm - P(hi))
    _mf[m] = out
    return out


APP_FACTS = {}


# ------------------------------------------------------------------ simplification under facts
class Simp(T.Subst):
    """rewrites a value using facts: decided conditions become constants, equal lengths are merged"""

    def __init__(self, facts):
        super().__init__({})
        self.facts = facts
        self.done = {}

    def touches(self, x):
        return True

    def atom_touch(self, a):
        return True

    def poly(self, p):
        r = self.done.get(p)
        if r is None:
            q = self.facts.rewrite(p)
            self.done[p] = q
            r = super().poly(q) if q.names or q.h else q
            r = reduce_inds(r)
            self.done[p] = r
        return r

    def _atom(self, a):
        if a.kind == 'sum':
            his, body = a.args
            base = a.h - len(his)
            nms = [fresh('s') for _ in his]
            for nm in nms:
                declare(nm, int=True)
            op = T.Subst({}, {base + 1 + i: sym(nms[i], int=True) for i in range(len(his))})
            b = op.poly(body)
            nh = tuple(self.poly(op.poly(x)) for x in his)
            f = self.facts
            for nm, h in zip(nms, nh):
                v = sym(nm, int=True)
                f = f.add(mk_leq(0, v), mk_lt(v, h))
            b = Simp(f).poly(b)
            return msum_poly(list(zip(nms, nh)), b)
        if a.kind == 'first':
            hi, c = a.args
            nm = fresh('s')
            declare(nm, int=True)
            v = sym(nm, int=True)
            b = T.Subst({}, {a.h: v}).cond(c)
            h2 = self.poly(hi) if hi is not None else None
            f = self.facts.add(mk_leq(0, v))
            if h2 is not None:
                f = f.add(mk_lt(v, h2))
            b = Simp(f).cond(b)
            if b.kind == 'T':
                return ZERO
            if b.kind == 'or':
                for x in b.args:
                    K = T.solve_index(x, nm)
                    le = x.args[0] if x.kind == 'le' else None
                    if le is not None and le.isint and T.lin_coef(le, nm) and T.lin_coef(le, nm)[0] == -1:
                        K = T.lin_coef(le, nm)[1]          # K - i <= 0
                    if K is None or not self.facts.prove(mk_leq(0, K)) or h2 is not None and not self.facts.prove(mk_lt(K, h2)):
                        continue
                    g = self.facts.add(mk_leq(0, v), mk_lt(v, K))
                    if g.inconsistent() or g.prove(c_not(b)):
                        return K
            return mk_first(h2, nm, b)
        return super()._atom(a)

    def cond(self, c):
        if c.kind in 'TF':
            return c
        r = self.memo.get(c)
        if r is not None:
            return r
        d = self.facts.decide(c)
        if d is True:
            r = TRUE
        elif d is False:
            r = FALSE
        elif c.kind == 'all':
            hi, b = c.args
            nm = fresh('s')
            declare(nm, int=True)
            v = sym(nm, int=True)
            bb = T.Subst({}, {c.h: v}).cond(b)
            h2 = self.poly(hi)
            bb = Simp(self.facts.add(mk_leq(0, v), mk_lt(v, h2))).cond(bb)
            r = mk_all(h2, nm, bb)
        else:
            r = super().cond(c)
            if r is not c:
                d = self.facts.decide(r)
                if d is not None:
                    r = TRUE if d else FALSE
        if r.kind == 'le':
            # a bound that can only be met with equality
            p = r.args[0]
            if p.isint and p.h == 0:
                if self.facts._prove_le(-p):
                    r = mk_eq(p)
                elif self.facts._prove_le(p - 1):
                    r = c_not(mk_eq(p - 1))
        self.memo[c] = r
        return r


def simp(x, facts):
    return Simp(facts).any(x)


def equal(a, b, facts):
    """decide a == b for polynomials under facts (True when the difference normalises to zero)"""
    d = P(a) - P(b)
    if d.is_zero():
        return True
    d = T.recompose(simp(d, facts))
    if d.is_zero():
        return True
    if d.isint and facts.prove(mk_eq(d)):
        return True
    h = halve(d)
    if h is not d:
        d = T.recompose(simp(h, facts))
        if d.is_zero():
            return True
    return split_zero(d, facts, 7)


def halve(d):
    """sums over 2*m indices split into even and odd ones where d also has sums over m indices"""
    for _ in range(3):
        sums = [a for m in d.terms for a, e in m if a.kind == 'sum']
        his = {h for a in sums for h in a.args[0]}
        n = next((h for h in sorted(his, key=T.show) for m in his if h is m.scale(2) and not h.is_zero()), None)
        if n is None:
            return d
        rep = {}
        for a in set(sums):
            if n not in a.args[0]:
                continue
            hi, body = a.args
            base = a.h - len(hi)
            nms = [fresh('s') for _ in hi]
            for x in nms:
                declare(x, int=True)
            op = T.Subst({}, {base + 1 + i: sym(nms[i], int=True) for i in range(len(hi))})
            b = op.poly(body)
            bounds = [op.poly(x) for x in hi]
            k = hi.index(n)
            v = sym(nms[k], int=True)
            half = Poly.make({m: c // 2 for m, c in n.terms.items()})
            two = T.subst(b, {nms[k]: v.scale(2)}) + T.subst(b, {nms[k]: v.scale(2) + 1})
            if any(nms[k] in x.names for x in bounds):
                continue
            rep[a] = msum_poly([(x, half if i == k else y) for i, (x, y) in enumerate(zip(nms, bounds))], two)
        if not rep:
            return d
        r = T.subst(d, {}, None, rep)
        if r is d:
            return d
        d = r
    return d


def parity(c):
    """(k, rest, 1) if the condition says that the integer k + rest (k a variable) is odd; None otherwise"""
    if c.kind != 'eq' or not c.args[0].isint:
        return None
    p = c.args[0]
    for m in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fl' and m[0][0].args[1] == 1:
            x = m[0][0].args[0]
            if mk_eq(T.low_bits(x, 1) - 1) is c:
                for mm, cc in x.terms.items():
                    if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == 'sym' and not mm[0][0].args[1]:
                        rest = x - Poly.make({mm: 1})
                        nm = mm[0][0].args[0]
                        if nm not in rest.names:
                            return nm, rest
    return None


def parity_cases(c, facts, x):
    """x and the facts with k replaced by 2*h + 1 - rest and 2*h - rest, if c is a parity condition"""
    r = parity(c)
    if r is None:
        return None
    nm, rest = r
    out = []
    for bit in (1, 0):
        h = fresh('h')
        declare(h, int=True)
        v = sym(h, int=True)
        s = {nm: v.scale(2) + bit - rest}
        lo = T.int_range(sym(nm, int=True))[0]
        f = Facts()
        f = f.add(*[T.subst(y, s) for y in facts.conds])
        if facts.prove(mk_leq(0, sym(nm, int=True) + rest)):
            f = f.add(mk_leq(0, v))
        out.append((f, T.subst(x, s)))
    return out


def split_zero(d, facts, depth):
    """d == 0 by case distinction over the 0/1 indicators of d"""
    if d.is_zero():
        return True
    conds = {}
    for m in d.terms:
        for a, e in m:
            if a.kind == 'ind':
                conds[a.args[0]] = conds.get(a.args[0], 0) + 1
    if not conds or depth <= 0:
        if mk_eq(d) in facts.set:
            return True
        if depth >= 0:
            g = witnesses(facts, mk_eq(d))
            if g is not facts:
                d = simp(d, g)
                return d.is_zero() or g.prove(mk_eq(d))
        return False
    c = max(conds, key=lambda c: (c.kind == 'eq', conds[c], -c.id))
    for x in conds:
        pc = parity_cases(x, facts, d)
        if pc is not None:
            return all(f.inconsistent() or split_zero(simp(x, f), f, depth - 1) for f, x in pc)
    for x in (c, c_not(c)):
        f = facts.add(x)
        if f.inconsistent():
            continue
        if not split_zero(simp(d, f), f, depth - 1):
            return False
    return True


def witnesses(f, goal):
    """instances of the known universals suggested by the goal, and facts about the least witness of every known existential"""
    f0 = f
    if f.alls:
        f = f.add(*f.instances(frozenset([goal])))
    out = []
    for c in f.conds:
        if c.kind == 'not' and c.args[0].kind == 'all':
            hi, b = c.args[0].args
            nm = fresh('w')
            declare(nm, int=True)
            v = T.mk_first(hi, nm, c_not(T.Subst({}, {c.args[0].h: sym(nm, int=True)}).cond(b)))
            out += [mk_leq(0, v), mk_lt(v, hi), c_not(T.Subst({}, {c.args[0].h: v}).cond(b))]
    out += first_facts(f.add(*out) if out else f, goal)
    return f.add(*out) if out else f0 if len(f.conds) == len(f0.conds) else f


def firsts(x, out, seen):
    if isinstance(x, (Atom, Cond)):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, Atom) and x.kind == 'first' and x.args[0] is not None:
            out[x] = 1
        if x.kind in ('all', 'sum', 'prod', 'first'):
            return                     # what is below may depend on the bound variable
        for y in x.args:
            firsts(y, out, seen)
    elif isinstance(x, Poly):
        for m in x.terms:
            for a, e in m:
                firsts(a, out, seen)
                firsts(e, out, seen)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            firsts(y, out, seen)


def first_facts(f, goal):
    """the first index satisfying a condition does satisfy it, once some index known to the facts does"""
    fs = {}
    firsts(f.conds, fs, set())
    firsts(goal, fs, set())
    if not fs or len(fs) > 8:
        return []
    g = Facts(tuple(c for c in f.conds if c.kind != 'all'))
    out = []
    idx = {}
    for a in collect_syms(f.conds):
        if a.kind == 'sym':
            for x in a.args[1]:
                if isinstance(x, Poly) and not contains_bv(x):
                    idx[x] = 1
    if len(idx) > 24:
        return []
    for F in fs:
        hi, c = F.args
        v = Poly.of(F)
        for k in idx:
            if k == v or F in collect_firsts(k):
                continue
            ck = T.Subst({}, {F.h: k}).cond(c)
            if ck.kind == 'F' or not g.prove(c_and(mk_leq(0, k), mk_lt(k, hi))) or not f.prove(ck):
                continue
            out += [mk_leq(0, v), mk_leq(v, k), T.Subst({}, {F.h: v}).cond(c)]
            break
    return out


def collect_firsts(x):
    d = {}
    firsts(x, d, set())
    return d


def ind_conds(x, out):
    if isinstance(x, Poly):
        for m in x.terms:
            for a, e in m:
                if a.kind == 'ind':
                    out[a.args[0]] = out.get(a.args[0], 0) + 1
    elif isinstance(x, Cond) and x.kind != 'all':
        for y in (x.args if x.kind != 'b' else ()):
            ind_conds(y, out)
    return out


def split_prove(c, f, depth=6):
    """prove a condition by case distinction over the 0/1 indicators it contains"""
    c = simp(c, f)
    if c.kind == 'T' or f.prove(c) or f.inconsistent():
        return True
    if depth <= 0:
        return False
    if c.kind == 'all':
        nm = fresh('s')
        declare(nm, int=True)
        v = sym(nm, int=True)
        hi = c.args[0]
        if split_prove(T.Subst({}, {c.h: v}).cond(c.args[1]), f.add(mk_leq(0, v), mk_lt(v, hi)), depth - 1):
            return True
    q = c.args[0] if c.kind == 'not' else c
    if q.kind == 'eq' and not q.args[0].isint:
        h = halve(q.args[0])
        if h is not q.args[0]:
            h = mk_eq(T.recompose(h))
            h = simp(h if q is c else c_not(h), f)
            if h.kind == 'T' or f.prove(h):
                return True
            c = h
    conds = ind_conds(c, {})
    for x in conds:
        pc = parity_cases(x, f, c)
        if pc is not None:
            return all(g.inconsistent() or split_prove(y, g, depth - 1) for g, y in pc)
    if not conds:
        g = witnesses(f, c)
        if g is not f and (g.prove(simp(c, g)) or g.inconsistent()):
            return True
        # indicators of the facts that speak about the quantities of the goal
        conds = fact_inds(g, c)
        if not conds or depth < 4:
            return False
        d = max(conds, key=lambda x: (conds[x], -x.id))
        return all(split_prove(c, with_case(g, x), min(depth, 6) - 1) for x in (d, c_not(d)))
    d = max(conds, key=lambda x: (x.kind == 'eq', conds[x], -x.id))
    return all(split_prove(c, f.assuming(x), depth - 1) for x in (d, c_not(d)))


def fact_inds(f, goal):
    """0/1 indicators in (in)equality facts, numbered by how often they occur; for a false goal all facts count"""
    out = {}
    for c in f.conds:
        if c.kind in ('le', 'eq', 'not') and not c.h and (goal.kind == 'F' or not c.names.isdisjoint(goal.names)):
            ind_conds(c, out)
    out = {d: n for d, n in out.items() if d not in f.set and c_not(d) not in f.set}
    return out if len(out) <= 6 else {}


def with_case(f, x):
    """f with x assumed, and the indicator of x resolved in the (in)equality facts"""
    out = []
    for d, v in ((x, ONE), (c_not(x), ZERO)):
        i = T.ind(d)
        a = i.single()
        if a is None or a.kind != 'ind':
            continue
        for c in f.conds:
            if c.kind in ('le', 'eq', 'not') and not c.h:
                r = T.Subst({}, None, {a: v}).cond(c)
                if r is not c:
                    out.append(r)
    return f.add(x, *out)


def refuted(f, depth=3):
    """the facts contradict each other (with case distinctions)"""
    if f.inconsistent() or split_prove(FALSE, f):
        return True
    if depth <= 0:
        return False
    for o in sorted(f.ors, key=lambda o: (len(o.args), o.id))[:1]:
        return all(refuted(f._minus(o).add(*(sorted(x.args, key=lambda y: y.id) if x.kind == 'and' else [x])), depth - 1) for x in o.args)
    return False
