"""Term domain of the analysis: multivariate polynomials over interned atoms.

Scalars, integers, group elements (G1, G2, GT) and 0/1 conditions all live in one commutative ring:
scalar multiplication and pairings are products, group additions are sums.  Normal forms are canonical
for the ring laws, for indicator (boolean) algebra and for finite sums over symbolic ranges.
Nothing here executes or samples the program: terms are compared by normal form, integer side conditions
(ranges of indices and lengths) by a linear-inequality domain.
"""
from math import gcd
from fractions import Fraction
from itertools import permutations

_atoms = {}
_polys = {}
_conds = {}
_ctr = [0]


class Undecided(Exception):
    """The analysis met a construct it cannot interpret precisely."""


def fresh(prefix='i'):
    _ctr[0] += 1
    return '%s#%d' % (prefix, _ctr[0])


EMPTY = frozenset()


def names_of(x):
    if isinstance(x, (Atom, Poly, Cond)):
        return x.names
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            r = r | names_of(y)
        return r
    n = getattr(x, 'names', None)
    return n if n is not None else EMPTY


def height_of(x):
    if isinstance(x, (Atom, Poly, Cond)):
        return x.h
    if isinstance(x, tuple):
        return max([height_of(y) for y in x], default=0)
    return getattr(x, 'h', 0) or 0


class Atom:
    __slots__ = ('id', 'kind', 'args', 'names', 'h', 'isint', 'nz', 'cat')

    def __repr__(self):
        return show_atom(self)


INT_KINDS = {'bv', 'ind', 'fl', 'first', 'two'}


def mk_atom(kind, args, isint=False, nz=False):
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_atoms) + 1
    a.kind = kind
    a.args = args
    n = names_of(args)
    if kind == 'sym':
        n = n | frozenset([args[0]])
    a.names = n
    h = height_of(args)
    if kind == 'sum':
        h += len(args[0])
    elif kind in ('first', 'prod'):
        h += 1
    a.h = h
    a.isint = isint or kind in INT_KINDS
    a.nz = nz or kind == 'two'
    a.cat = None
    _atoms[key] = a
    return a


SYM_INFO = {}   # name -> dict(int=bool, nz=bool, rng=callable(idx)->(lo,hi))


def declare(name, int=False, nz=False, rng=None, cat=None):
    if isinstance(rng, tuple):
        r = rng
        rng = lambda idx: r
    SYM_INFO[name] = dict(int=int, nz=nz, rng=rng, cat=cat)


def sym(name, *idx, int=False, nz=False, rng=None, cat=None):
    """Poly consisting of one symbol (possibly indexed)."""
    if name not in SYM_INFO:
        declare(name, int=int, nz=nz, rng=rng, cat=cat)
    inf = SYM_INFO[name]
    a = mk_atom('sym', (name, tuple(P(i) for i in idx)), isint=inf['int'], nz=inf['nz'])
    a.cat = inf['cat']
    return Poly.of(a)


def bv(n):
    return Poly.of(mk_atom('bv', (n,)))


class Cond:
    __slots__ = ('kind', 'args', 'names', 'h', 'id')

    def __repr__(self):
        return show_cond(self)

    def __and__(self, o):
        return c_and(self, o)

    def __or__(self, o):
        return c_or(self, o)

    def __invert__(self):
        return c_not(self)


class Poly:
    __slots__ = ('terms', 'names', 'h', 'isint', '_hash')

    @staticmethod
    def make(terms):
        """terms: dict mono -> int"""
        key = frozenset(terms.items())
        p = _polys.get(key)
        if p is not None:
            return p
        p = Poly()
        p.terms = terms
        p._hash = hash(key)
        n = set()
        h = 0
        isint = True
        for m in terms:
            for a, e in m:
                n |= a.names
                if a.h > h:
                    h = a.h
                if not a.isint:
                    isint = False
                if isinstance(e, Poly):
                    n |= e.names
                    if e.h > h:
                        h = e.h
        p.names = frozenset(n)
        p.h = h
        p.isint = isint
        _polys[key] = p
        return p

    @staticmethod
    def of(a):
        return Poly.make({((a, 1),): 1})

    @staticmethod
    def const(c):
        return Poly.make({(): c} if c else {})

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def is_zero(self):
        return not self.terms

    def cval(self):
        """int value if constant else None"""
        t = self.terms
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def __add__(self, o):
        o = P(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        d = dict(self.terms)
        for m, c in o.terms.items():
            x = cnorm(d.get(m, 0) + c)
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        return Poly.make(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly.make({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly.make({m: cnorm(c * k) for m, c in self.terms.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.terms or not o.terms:
            return ZERO
        c = o.cval()
        if c is not None:
            return self.scale(c)
        c = self.cval()
        if c is not None:
            return o.scale(c)
        if len(self.terms) * len(o.terms) > 60000:
            raise Undecided('polynomial too large')
        d = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                k, m = mono_mul(m1, m2)
                if not k:
                    continue
                x = cnorm(d.get(m, 0) + c1 * c2 * k)
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        return Poly.make(d)
    __rmul__ = __mul__

    def single(self):
        """the atom if this is exactly one atom, else None"""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        return show(self)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, Atom):
        return Poly.of(x)
    raise TypeError(type(x))


def exp_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = P(a) + P(b)
    c = r.cval()
    return c if c is not None else r


_mm_cache = {}


def mono_mul(m1, m2):
    """(coefficient, mono)"""
    if not m1:
        return 1, m2
    if not m2:
        return 1, m1
    key = (m1, m2)
    r = _mm_cache.get(key)
    if r is not None:
        return r
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            if a.kind == 'ind':
                continue
            d[a] = exp_add(d[a], e)
        else:
            d[a] = e
    r = mono_norm(d)
    if len(_mm_cache) < 400000:
        _mm_cache[key] = r
    return r


def mono_norm(d):
    k = 1
    for a in list(d):
        e = d[a]
        if e == 0 and isinstance(e, int):
            del d[a]
            continue
        if a.kind == 'two':
            if isinstance(e, int):
                if e >= 0:
                    k *= 1 << e
                else:
                    k = k * Fraction(1, 1 << -e)
                del d[a]
            else:
                c = e.terms.get((), 0)
                if c > 0:
                    k *= 1 << c
                    d[a] = _e(e - c)
                elif c < 0:
                    k = k * Fraction(1, 1 << -c)
                    d[a] = _e(e - c)
                if isinstance(d[a], int) and d[a] == 0:
                    del d[a]
    if isinstance(k, Fraction) and k.denominator == 1:
        k = k.numerator
    return k, tuple(sorted(d.items(), key=lambda t: t[0].id))


def cnorm(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c


def clear_den(p):
    l = 1
    for c in p.terms.values():
        if isinstance(c, Fraction):
            l = l * c.denominator // gcd(l, c.denominator)
    return p if l == 1 else p.scale(l)


ZERO = Poly.make({})
ONE = Poly.make({(): 1})
TWO_ATOM = mk_atom('two', ())


def pow2(e):
    e = P(e)
    c = e.cval()
    if c is not None and c >= 0:
        return P(1 << c)
    k, m = mono_norm({TWO_ATOM: e})
    return Poly.make({m: k})


def poly_pow(b, e):
    """b ** e for a poly b and exponent (int/Poly)"""
    b, e = P(b), P(e)
    ec = e.cval()
    if ec is not None and 0 <= ec <= 64:
        r = ONE
        for _ in range(ec):
            r = r * b
        return r
    if b.is_zero():
        return ind(mk_eq(e))
    if len(b.terms) == 1:
        (m, c), = b.terms.items()
        r = ONE
        if c != 1:
            cc = abs(c)
            if cc & (cc - 1) == 0:
                r = pow2(e * (cc.bit_length() - 1))
            else:
                r = Poly.make({((mk_atom('num', (cc,), isint=True, nz=True), e),): 1})
            if c < 0:
                r = r * Poly.make({((mk_atom('num', (-1,), isint=True, nz=True), e),): 1})
        for a, x in m:
            k, mm = mono_norm({a: _e(P(x) * e)})
            r = r * Poly.make({mm: k})
        return r
    return Poly.make({((mk_atom('app', ('polybase', b), isint=b.isint), e),): 1})


def _e(p):
    c = p.cval()
    return c if c is not None else p


# ------------------------------------------------------------------ conditions
def _mkc(kind, args):
    key = (kind, args)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.kind = kind
        c.args = args
        c.names = names_of(tuple(args)) if not isinstance(args, frozenset) else frozenset().union(*[x.names for x in args])
        h = max([x.h for x in args], default=0) if isinstance(args, frozenset) else height_of(tuple(args))
        c.h = h + (1 if kind == 'all' else 0)
        c.id = len(_conds)
        _conds[key] = c
    return c


TRUE = _mkc('T', ())
FALSE = _mkc('F', ())


def poly_lead(p):
    return max(p.terms, key=lambda m: [(a.id, str(e)) for a, e in m])


def mk_eq(p):
    p = clear_den(P(p))
    c = p.cval()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # divide by atoms known to be non-zero that occur in every monomial
    common = None
    for m in p.terms:
        s = {a: e for a, e in m if a.nz}
        if common is None:
            common = s
        else:
            common = {a: e for a, e in common.items() if a in s and (s[a] == e or (isinstance(s[a], int) and isinstance(e, int)))}
            for a in common:
                if common[a] != s[a]:
                    common[a] = min(common[a], s[a])
        if not common:
            break
    if common:
        d = {}
        for m, c in p.terms.items():
            dd = dict(m)
            for a, e in common.items():
                x = exp_add(dd[a], -e if isinstance(e, int) else -e)
                dd[a] = x
            k, mm = mono_norm({a: e for a, e in dd.items()})
            d[mm] = d.get(mm, 0) + c * k
        p = clear_den(Poly.make({a: cnorm(b) for a, b in d.items() if b}))
        c = p.cval()
        if c is not None:
            return TRUE if c == 0 else FALSE
    g = 0
    for c in p.terms.values():
        g = gcd(g, c)
    if g > 1:
        p = Poly.make({m: c // g for m, c in p.terms.items()})
    if p.terms[poly_lead(p)] < 0:
        p = -p
    # 0/1-valued atoms
    a = p.single()
    if a is not None and a.kind == 'ind':
        return c_not(a.args[0])
    if len(p.terms) == 2 and p.terms.get(()) == -1:
        q = p + 1
        a = q.single()
        if a is not None and a.kind == 'ind':
            return a.args[0]
    return _mkc('eq', (p,))


def mk_le(p):
    """p <= 0 over the integers"""
    p = clear_den(P(p))
    c = p.cval()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    g = 0
    for m, c in p.terms.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        k = p.terms.get((), 0)
        d = {m: c // g for m, c in p.terms.items() if m}
        kk = -((-k) // g)   # ceil
        if kk:
            d[()] = kk
        p = Poly.make(d)
    return _mkc('le', (p,))


def mk_lt(a, b):
    return mk_le(P(a) - P(b) + 1)


def mk_leq(a, b):
    return mk_le(P(a) - P(b))


def mk_bool(atom_poly):
    """boolean-valued opaque atom"""
    a = atom_poly.single() if isinstance(atom_poly, Poly) else atom_poly
    return _mkc('b', (a,))


def c_not(c):
    if c.kind == 'T':
        return FALSE
    if c.kind == 'F':
        return TRUE
    if c.kind == 'not':
        return c.args[0]
    if c.kind == 'le':
        return mk_le(ONE - c.args[0])
    if c.kind == 'and':
        return c_or(*[c_not(x) for x in c.args])
    if c.kind == 'or':
        return c_and(*[c_not(x) for x in c.args])
    return _mkc('not', (c,))


def c_and(*cs):
    s = set()
    for c in cs:
        if c.kind == 'F':
            return FALSE
        if c.kind == 'T':
            continue
        if c.kind == 'and':
            s |= c.args
        else:
            s.add(c)
    for c in s:
        if c_not(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    # absorption
    s = {c for c in s if not (c.kind == 'or' and any(d in s for d in c.args))}
    if len(s) == 1:
        return next(iter(s))
    for c in s:
        if c.kind == 'or':
            d = _resolve(c, s, 'and')
            if d is not c:
                return c_and(*[x for x in s if x is not c], d)
    r = _merge_pair(s, 'or')
    if r is not None:
        return c_and(*r[0], c_or(*r[1]))
    return _mkc('and', frozenset(s))


def _merge_pair(s, kind):
    """(a | x) & (a | !x) is a (kind 'or'), and dually: the rest and the arguments of the merged member"""
    cl = [c for c in s if c.kind == kind]
    if not 2 <= len(cl) <= 16:
        return None
    for i, c in enumerate(cl):
        for d in cl[i + 1:]:
            if abs(len(c.args) - len(d.args)) > 1:
                continue
            # c = a | x, d = a | !x | b  gives d = a | b
            for p, q in ((c, d), (d, c)):
                r = p.args - q.args
                if len(r) == 1:
                    x = next(iter(r))
                    n = c_not(x)
                    if n in q.args:
                        return [y for y in s if y is not q], [y for y in q.args if y is not n]
    return None


def _resolve(c, s, inner):
    """unit resolution: the members of s hold (fail, for inner == 'or') next to c; drop what they decide in c"""
    out = []
    changed = False
    for d in c.args:
        if c_not(d) in s:
            changed = True
            continue
        if d.kind == inner:
            keep = []
            dead = False
            for x in d.args:
                if x in s:
                    continue
                if c_not(x) in s:
                    dead = True
                    break
                keep.append(x)
            if dead:
                changed = True
                continue
            if len(keep) < len(d.args):
                changed = True
                d = (c_and if inner == 'and' else c_or)(*keep)
        out.append(d)
    if not changed:
        return c
    return (c_or if inner == 'and' else c_and)(*out)


def c_or(*cs):
    s = set()
    for c in cs:
        if c.kind == 'T':
            return TRUE
        if c.kind == 'F':
            continue
        if c.kind == 'or':
            s |= c.args
        else:
            s.add(c)
    for c in s:
        if c_not(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    s = {c for c in s if not (c.kind == 'and' and any(d in s for d in c.args))}
    if len(s) == 1:
        return next(iter(s))
    for c in s:
        if c.kind == 'and':
            d = _resolve(c, s, 'or')
            if d is not c:
                return c_or(*[x for x in s if x is not c], d)
    r = _merge_pair(s, 'and')
    if r is not None:
        return c_or(*r[0], c_and(*r[1]))
    return _mkc('or', frozenset(s))


def mk_all(hi, name, body):
    """for all 0 <= name < hi: body"""
    hi = P(hi)
    if body.kind == 'T' or hi.is_zero():
        return TRUE
    n = hi.cval()
    if n is not None and n <= 4:
        return c_and(*[subst(body, {name: P(k)}) for k in range(max(n, 0))])
    if name not in body.names:
        c = mk_le(hi)
        return c_or(c, body)
    if body.kind == 'and':
        return c_and(*[mk_all(hi, name, b) for b in body.args])
    k = solve_index(body, name, neg=True)
    if k is not None:
        # body is  not(idx == k): fails only at idx = k
        return c_not(c_and(mk_leq(0, k), mk_lt(k, hi)))
    d = hi.terms.get((), 0)
    if n is None and 0 < d <= 4:
        h0 = hi - d
        lo = int_range(h0)[0]
        if lo is not None and lo >= 0:
            return c_and(mk_all(h0, name, body), *[subst(body, {name: h0 + j}) for j in range(d)])
    h = max(body.h, hi.h)
    b = subst(body, {name: bv(h + 1)})
    if b.kind in 'TF' or b.kind == 'and':
        return TRUE if b.kind == 'T' else c_not(mk_leq(1, hi)) if b.kind == 'F' else _all_node(hi, b, h)
    return _all_node(hi, b, h)


def _all_node(hi, b, h):
    c = _mkc('all', (hi, b))
    # the height of the condition must match the name used
    c.h = h + 1
    return c


def solve_index(body, name, neg=False):
    """If body is eq(±idx + rest) (or its negation when neg) return the value of idx, else None."""
    c = body
    if neg:
        if c.kind != 'not':
            return None
        c = c.args[0]
    if c.kind != 'eq' or not c.args[0].isint:
        return None
    r = lin_coef(c.args[0], name)
    if r is None:
        return None
    k, rest = r
    if k == 1:
        return -rest
    if k == -1:
        return rest
    return None


def lin_coef(p, name):
    """p = k*idx + rest with integer k and rest free of idx; else None."""
    k = 0
    d = {}
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][0].kind == 'sym' and m[0][0].args[0] == name and m[0][1] == 1:
            k = c
            continue
        for a, e in m:
            if name in a.names or (isinstance(e, Poly) and name in e.names):
                return None
        d[m] = c
    if k == 0:
        return None
    return k, Poly.make(d)


def mk_ex(hi, name, body):
    return c_not(mk_all(hi, name, c_not(body)))


def open_all(c, name):
    hi, b = c.args
    return hi, subst(b, {}, {b_h(c): sym(name, int=True)})


def b_h(c):
    return c.h


def ind(c):
    """0/1 polynomial of a condition (canonical multilinear form)."""
    k = c.kind
    if k == 'T':
        return ONE
    if k == 'F':
        return ZERO
    if k == 'not':
        return ONE - ind(c.args[0])
    if k == 'and':
        r = ONE
        for x in sorted(c.args, key=lambda x: x.id):
            r = r * ind(x)
        return r
    if k == 'or':
        r = ONE
        for x in sorted(c.args, key=lambda x: x.id):
            r = r * (ONE - ind(x))
        return ONE - r
    if k == 'le':
        p = c.args[0]
        lead = max([m for m in p.terms if m], key=lambda m: [(a.id, str(e)) for a, e in m])
        if p.terms[lead] < 0:
            return ONE - Poly.of(mk_atom('ind', (c_not(c),)))
    return Poly.of(mk_atom('ind', (c,)))


def ite(c, a, b):
    if c.kind == 'T':
        return a
    if c.kind == 'F':
        return b
    if a is b:
        return a
    d = a - b
    for x in (c.args if c.kind == 'and' else (c,)):
        if x.kind == 'eq' and _multiple(d, x.args[0]):
            return b                    # equal whenever c holds
        if c is x and x.kind == 'not' and x.args[0].kind == 'eq' and _multiple(d, x.args[0].args[0]):
            return a
    return reduce_inds(b + ind(c) * d)


def _multiple(d, e):
    """d is a rational multiple of e"""
    if len(d.terms) != len(e.terms) or not e.terms:
        return False
    k = None
    for m, c in e.terms.items():
        x = d.terms.get(m)
        if x is None:
            return False
        r = Fraction(x) / Fraction(c)
        if k is None:
            k = r
        elif k != r:
            return False
    return True


def reduce_inds(p):
    """apply [x == e] * f(x) = [x == e] * f(e) for integer x; drop contradictory products"""
    changed = True
    n = 0
    while changed and n < 6:
        changed = False
        n += 1
        acc = None
        for m, c in p.terms.items():
            inds = [a for a, e in m if a.kind == 'ind']
            if not inds:
                continue
            new = None
            for a in inds:
                cc = a.args[0]
                if cc.kind != 'eq':
                    continue
                t = orient_eq(cc.args[0])
                if t is None:
                    continue
                at, val = t
                rest = tuple((b, e) for b, e in m if b is not a)
                if not any(_occurs(b, e, at) for b, e in rest):
                    continue
                q = Poly.make({rest: 1})
                q2 = subst_atom(q, at, val)
                if q2 is q:
                    continue
                new = (q2 * Poly.of(a)).scale(c)
                break
            if new is not None:
                p = p - Poly.make({m: c}) + new
                changed = True
                break
    return p


def _occurs(b, e, at):
    nm = at.args[0] if at.kind == 'sym' else None
    if nm is not None:
        if not (nm in b.names or (isinstance(e, Poly) and nm in e.names)):
            return False
    return True


def orient_eq(p):
    """integer equation p == 0 solved for one atom: (atom, poly) or None"""
    if not p.isint:
        return None
    best = None
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].kind in ('sym', 'app', 'first', 'bv'):
            a = m[0][0]
            rest = p - Poly.make({m: c})
            if contains_atom(rest, a):
                continue
            key = (a.kind == 'sym', len(a.args[1]) if a.kind == 'sym' else 0, a.id)
            if best is None or key > best[0]:
                best = (key, a, rest.scale(-c))
    return None if best is None else (best[1], best[2])


def contains_atom(x, at):
    if isinstance(x, Poly):
        for m in x.terms:
            for a, e in m:
                if a is at or (isinstance(e, Poly) and contains_atom(e, at)):
                    return True
                if at.kind == 'sym' and at.args[0] not in a.names:
                    continue
                if contains_atom(a, at):
                    return True
        return False
    if isinstance(x, Atom):
        if x is at:
            return True
        return any(contains_atom(y, at) for y in x.args)
    if isinstance(x, Cond):
        return any(contains_atom(y, at) for y in x.args)
    if isinstance(x, (tuple, frozenset)):
        return any(contains_atom(y, at) for y in x)
    kids = getattr(x, 'children', None)
    if kids is not None:
        return any(contains_atom(y, at) for y in kids())
    return False


# ------------------------------------------------------------------ substitution
class Subst:
    """names: name -> Poly | Cond | callable(idx tuple) ; bvs: n -> Poly; atom: exact atoms -> Poly"""
    __slots__ = ('names', 'bvs', 'keys', 'memo', 'atoms')

    def __init__(self, names, bvs=None, atoms=None):
        self.names = names
        self.bvs = bvs or {}
        self.atoms = atoms or {}
        self.keys = frozenset(names)
        self.memo = {}

    def touches(self, x):
        if self.bvs:
            return True
        if self.atoms:
            return True
        return not self.keys.isdisjoint(x.names)

    def poly(self, p):
        if not self.touches(p):
            return p
        r = self.memo.get(p)
        if r is not None:
            return r
        r = ZERO
        const = {}
        for m, c in p.terms.items():
            hit = False
            for a, e in m:
                if self.atom_touch(a) or (isinstance(e, Poly) and self.touches(e)):
                    hit = True
                    break
            if not hit:
                const[m] = c
                continue
            t = P(c)
            keep = {}
            for a, e in m:
                ta = self.atom_touch(a)
                e2 = self.poly(e) if isinstance(e, Poly) else e
                if not ta:
                    if isinstance(e2, Poly):
                        e2 = _e(e2)
                    keep[a] = exp_add(keep[a], e2) if a in keep else e2
                    continue
                b = self.atom(a)
                if e2 == 1:
                    t = t * b
                else:
                    t = t * poly_pow(b, e2) if not (isinstance(e2, int) and e2 < 0) else t * inv_pow(b, e2)
            if keep:
                k, mm = mono_norm(keep)
                t = t * Poly.make({mm: k})
            r = r + t
        if const:
            r = r + Poly.make(const)
        self.memo[p] = r
        return r

    def atom_touch(self, a):
        if self.atoms and a in self.atoms:
            return True
        if self.bvs:
            return a.kind == 'bv' or bool(a.args) and a.kind != 'num'
        if self.atoms:
            return bool(a.args)
        return not self.keys.isdisjoint(a.names)

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self._atom(a)
            self.memo[a] = r
        return r

    def _atom(self, a):
        if a in self.atoms:
            return self.atoms[a]
        k = a.kind
        if k == 'bv':
            return self.bvs.get(a.args[0], Poly.of(a))
        if k in ('two', 'num'):
            return Poly.of(a)
        if k == 'sym':
            name, idx = a.args
            idx2 = tuple(self.poly(i) for i in idx)
            if name in self.names:
                v = self.names[name]
                if callable(v):
                    v = v(idx2)
                return ind(v) if isinstance(v, Cond) else v
            if idx2 == idx:
                return Poly.of(a)
            b = mk_atom('sym', (name, idx2), isint=a.isint, nz=a.nz)
            b.cat = a.cat
            return Poly.of(b)
        if k == 'ind':
            return ind(self.cond(a.args[0]))
        if k == 'sum':
            his, body = a.args
            nh = tuple(self.poly(x) for x in his)
            h = a.h
            if not self.bvs or min(self.bvs) > h:
                pass
            nms = [fresh('s') for _ in his]
            for nm in nms:
                declare(nm, int=True)
            base = h - len(his)
            op = Subst({}, {base + 1 + i: sym(nms[i], int=True) for i in range(len(his))})
            b = op.poly(body)
            b = self.poly(b)
            # his may refer to bound variables of the same sum
            nh = tuple(self.poly(op.poly(x)) for x in his)
            return msum_poly(list(zip(nms, nh)), b)
        if k == 'prod':
            hi, body = a.args
            nm = fresh('s')
            b = Subst({}, {a.h: sym(nm, int=True)}).poly(body)
            return mkprod(self.poly(hi), nm, self.poly(b))
        if k == 'first':
            hi, c = a.args
            nm = fresh('s')
            b = Subst({}, {a.h: sym(nm, int=True)}).cond(c)
            return mk_first(self.poly(hi) if hi is not None else None, nm, self.cond(b))
        if k == 'fl':
            return floor2(self.poly(a.args[0]), a.args[1])
        if k == 'app':
            return rebuild_app(a, tuple(self.any(x) for x in a.args[1:]))
        raise AssertionError(k)

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, Atom):
            return self.atom(x).single()
        f = getattr(x, 'subst', None)
        if f is not None:
            return f(self)
        return x

    def cond(self, c):
        if c.kind in 'TF' or not self.touches(c):
            return c
        r = self.memo.get(c)
        if r is not None:
            return r
        k = c.kind
        if k == 'not':
            r = c_not(self.cond(c.args[0]))
        elif k == 'and':
            r = c_and(*[self.cond(x) for x in c.args])
        elif k == 'or':
            r = c_or(*[self.cond(x) for x in c.args])
        elif k == 'le':
            r = mk_le(self.poly(c.args[0]))
        elif k == 'eq':
            r = mk_eq(self.poly(c.args[0]))
        elif k == 'b':
            a = c.args[0]
            if a.kind == 'sym' and a.args[0] in self.names:
                v = self.names[a.args[0]]
                if callable(v):
                    v = v(tuple(self.poly(i) for i in a.args[1]))
                r = v if isinstance(v, Cond) else mk_bool(v)
            else:
                p = self.atom(a)
                s = p.single()
                if s is None:
                    cv = p.cval()
                    if cv is not None:
                        r = TRUE if cv else FALSE
                    else:
                        r = c_not(mk_eq(p))
                elif s.kind == 'ind':
                    r = s.args[0]
                else:
                    r = mk_bool(s)
        elif k == 'all':
            hi, b = c.args
            nm = fresh('s')
            declare(nm, int=True)
            bb = Subst({}, {c.h: sym(nm, int=True)}).cond(b)
            r = mk_all(self.poly(hi), nm, self.cond(bb))
        else:
            raise AssertionError(k)
        self.memo[c] = r
        return r


def inv_pow(b, e):
    """b ** e for negative int e; only for single monomials"""
    if len(b.terms) == 1:
        (m, c), = b.terms.items()
        if c in (1, -1):
            return Poly.make({tuple((a, (-x if isinstance(x, int) else -x)) for a, x in m): c}) if e == -1 else poly_pow(Poly.make({tuple((a, -x) for a, x in m): c}), -e)
    return Poly.make({((mk_atom('app', ('polybase', b)), e),): 1})


def subst(x, names, bvs=None, atoms=None):
    s = Subst(names, bvs, atoms)
    return s.any(x)


def subst_atom(p, at, val):
    return Subst({}, None, {at: val}).any(p)


REBUILD = {}   # fname -> callable(args)->Poly


def rebuild_app(a, args):
    f = REBUILD.get(a.args[0])
    if f is not None:
        return f(*args)
    b = mk_atom('app', (a.args[0],) + args, isint=a.isint, nz=a.nz)
    b.cat = a.cat
    return Poly.of(b)


def app(fname, *args, int=False, nz=False, cat=None):
    a = mk_atom('app', (fname,) + args, isint=int, nz=nz)
    if cat:
        a.cat = cat
    return Poly.of(a)


# ------------------------------------------------------------------ sums
def mksum(hi, name, body):
    """sum_{0 <= name < hi} body"""
    hi, body = P(hi), P(body)
    c = hi.cval()
    if c is not None and 0 <= c <= 8:
        r = ZERO
        for i in range(c):
            r = r + subst(body, {name: P(i)})
        return r
    return msum_poly([(name, hi)], body)


_ms_cache = {}


def msum_poly(vars, body):
    r = ZERO
    for m, c in body.terms.items():
        r = r + msum_mono(vars, m).scale(c)
    return r


def mono_names(f):
    a, e = f
    n = a.names
    if isinstance(e, Poly):
        n = n | e.names
    return n


def msum_mono(vars, m):
    """vars: list of (name, hi); m: mono. Returns Poly."""
    vars = list(vars)
    vn = set(v for v, _ in vars)
    # open inner sums that depend on the bound variables
    work = list(m)
    fac = []
    while work:
        a, e = work.pop()
        if a.kind == 'sum' and not vn.isdisjoint(a.names):
            if isinstance(e, int) and 0 < e <= 3:
                for _ in range(e):
                    his, body = a.args
                    base = a.h - len(his)
                    nms = [fresh('s') for _ in his]
                    for nm in nms:
                        declare(nm, int=True)
                    op = Subst({}, {base + 1 + i: sym(nms[i], int=True) for i in range(len(his))})
                    b = op.poly(body)
                    for nm, hh in zip(nms, his):
                        vars.append((nm, op.poly(hh)))
                        vn.add(nm)
                    if len(b.terms) != 1:
                        # open a non-monomial body: distribute
                        rest = tuple(work) + tuple(fac)
                        if e > 1:
                            raise Undecided('power of sum')
                        q = b
                        for f in rest:
                            q = q * Poly.make({(f,): 1})
                        return msum_poly(vars, q)
                    (bm, bc), = b.terms.items()
                    if bc != 1:
                        raise AssertionError('sum body coefficient')
                    work.extend(bm)
                continue
        fac.append((a, e))
    # multiply factors together again (same atoms may repeat)
    d = {}
    for a, e in fac:
        if a in d:
            if a.kind != 'ind':
                d[a] = exp_add(d[a], e)
        else:
            d[a] = e
    k, mono = mono_norm(d)
    return _msum(vars, mono).scale(k)


def _msum(vars, mono):
    vn = {v for v, _ in vars}
    # Kronecker deltas
    for a, e in mono:
        if a.kind == 'ind' and a.args[0].kind == 'eq' and not vn.isdisjoint(a.names):
            for v, hi in vars:
                if v in a.names:
                    kx = solve_index(a.args[0], v)
                    if kx is not None and not any(v in h2.names for _, h2 in vars):
                        rest = tuple(f for f in mono if f[0] is not a)
                        q = subst(Poly.make({rest: 1}), {v: kx})
                        q = q * ind(mk_leq(0, kx)) * ind(mk_lt(kx, hi))
                        rv = [(v2, h2) for v2, h2 in vars if v2 != v]
                        return msum_poly(rv, q) if rv else q
    # factors free of all variables
    out = tuple(f for f in mono if vn.isdisjoint(mono_names(f)))
    inn = [f for f in mono if not vn.isdisjoint(mono_names(f))]
    res = Poly.make({out: 1})
    used = set()
    for f in inn:
        used |= mono_names(f) & vn
    for v, h in vars:
        used |= h.names & vn
    rest = []
    for v, h in vars:
        if v not in used:
            res = res * h
        else:
            rest.append((v, h))
    if not rest:
        return res
    # connected components
    comp = {v: v for v, _ in rest}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for f in inn:
        ns = sorted(mono_names(f) & vn)
        for y in ns[1:]:
            comp[find(ns[0])] = find(y)
    for v, h in rest:
        for y in h.names & vn:
            comp[find(v)] = find(y)
    roots = sorted({find(v) for v, _ in rest})
    for r in roots:
        vs = [(v, h) for v, h in rest if find(v) == r]
        ns = {v for v, _ in vs}
        fs = tuple(f for f in inn if not ns.isdisjoint(mono_names(f)))
        res = res * _msum_conn(vs, fs)
    return res


def index_occ(x, v, out):
    """collect index polynomials (arguments of indexed symbols) that mention v"""
    if isinstance(x, Poly):
        if v not in x.names:
            return
        for m in x.terms:
            for a, e in m:
                index_occ(a, v, out)
                if isinstance(e, Poly):
                    index_occ(e, v, out)
    elif isinstance(x, Atom):
        if v not in x.names:
            return
        if x.kind == 'sym':
            for i in x.args[1]:
                if v in i.names:
                    s = i.single()
                    if s is None or s.kind == 'sym' and s.args[0] == v:
                        out.append(i)
                    index_occ_inner(i, v, out)
        else:
            for y in x.args:
                index_occ(y, v, out)
    elif isinstance(x, Cond):
        if v in x.names:
            for y in x.args:
                index_occ(y, v, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            index_occ(y, v, out)
    else:
        kids = getattr(x, 'children', None)
        if kids:
            for y in kids():
                index_occ(y, v, out)


def index_occ_inner(i, v, out):
    for m in i.terms:
        for a, e in m:
            if a.kind == 'sym' and a.args[0] == v and not a.args[1]:
                continue
            index_occ(a, v, out)


def fl_occ(x, v, out):
    """exponents k of the floors (v + ...)>>k in x whose argument has an odd-ish coefficient of v"""
    if isinstance(x, (Atom, Poly, Cond)) and v not in x.names:
        return
    if isinstance(x, Poly):
        for m in x.terms:
            for a, e in m:
                fl_occ(a, v, out)
                if isinstance(e, Poly):
                    fl_occ(e, v, out)
    elif isinstance(x, Atom):
        if x.kind == 'fl':
            r = lin_coef(x.args[0], v)
            if r is not None and isinstance(r[0], int) and r[0] % (1 << x.args[1]):
                out.append(x.args[1])
        for y in x.args:
            fl_occ(y, v, out)
    elif isinstance(x, Cond):
        for y in x.args:
            fl_occ(y, v, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            fl_occ(y, v, out)


def _msum_conn(vs, fs, noflip=False, depth=0):
    mono = tuple(sorted(fs, key=lambda t: t[0].id))
    if depth > 12:
        return _close(vs, mono)
    # residues: v = 2^k u + r
    for v, hi in vs:
        if any(v in h.names or w in hi.names for w, h in vs):
            continue
        ks = []
        for a, e in mono:
            fl_occ(a, v, ks)
            fl_occ(e, v, ks)
        if ks and min(ks) <= 3:
            k = min(ks)
            d = hi.terms.get((), 0) % (1 << k)
            if d and hi.cval() is None and all(c % (1 << k) == 0 for m, c in hi.terms.items() if m):
                body = Poly.make({mono: 1})
                o = [(w, h) for w, h in vs if w != v]
                r = msum_poly([(v, hi - d)] + o, body)
                for j in range(d):
                    t = subst(body, {v: hi - d + j})
                    r = r + (msum_poly(o, t) if o else t)
                return r
            if all(c % (1 << k) == 0 for c in hi.terms.values()):
                q = Poly.make({m: c >> k for m, c in hi.terms.items()})
                body = Poly.make({mono: 1})
                r = ZERO
                for j in range(1 << k):
                    b = subst(body, {v: sym(v, int=True).scale(1 << k) + j})
                    r = r + msum_poly([(w, q if w == v else h) for w, h in vs], b)
                return r
    dep = set()
    for v, h in vs:
        dep |= h.names
    body = Poly.make({mono: 1})
    for vi, (v, hi) in enumerate(vs):
        if v in dep or any(w in hi.names for w, _ in vs):
            continue
        occ = []
        for a, e in mono:
            index_occ(a, v, occ)
            if isinstance(e, Poly):
                index_occ(e, v, occ)
        pos, neg, other = [], [], 0
        for i in occ:
            r = lin_coef(i, v)
            if r is None:
                other += 1
            elif r[0] > 0:
                pos.append(r[1].terms.get((), 0) // r[0])
            else:
                neg.append(r[1])
        if neg and not pos and not other and not noflip:
            b = subst(body, {v: hi - 1 - sym(v, int=True)})
            return msum_poly([(w, h) for w, h in vs], b)
        if pos and not neg and not other:
            c = min(pos)
            if c != 0:
                b = subst(body, {v: sym(v, int=True) - c})
                # sum over v in [c, hi+c)
                o = [(w, h) for w, h in vs if w != v]
                r = msum_poly([(v, hi + c)] + o, b)
                if c > 0:
                    for j in range(c):
                        t = subst(b, {v: P(j)})
                        r = r - (msum_poly(o, t) if o else t)
                else:
                    for j in range(c, 0):
                        t = subst(b, {v: P(j)})
                        r = r + (msum_poly(o, t) if o else t)
                return r
        # constant part of the upper bound
        d = hi.terms.get((), 0)
        if hi.cval() is None and d:
            h0 = hi - d
            o = [(w, h) for w, h in vs if w != v]
            r = msum_poly([(v, h0)] + o, body)
            for j in (range(d) if d > 0 else range(d, 0)):
                t = subst(body, {v: h0 + j})
                t = msum_poly(o, t) if o else t
                r = r + t if d > 0 else r - t
            return r
        if hi.cval() is not None and 0 <= hi.cval() <= 8:
            o = [(w, h) for w, h in vs if w != v]
            r = ZERO
            for j in range(hi.cval()):
                t = subst(body, {v: P(j)})
                r = r + (msum_poly(o, t) if o else t)
            return r
    if not noflip:
        # mixed orientations: canonical choice between the two directions of each such variable
        for v, hi in vs:
            if v in dep or any(w in hi.names for w, _ in vs):
                continue
            occ = []
            for a, e in mono:
                index_occ(a, v, occ)
                if isinstance(e, Poly) and v in e.names:
                    r = lin_coef(e, v)
                    if r is not None:
                        occ.append(e)
                    else:
                        index_occ(e, v, occ)
            signs = set()
            for i in occ:
                r = lin_coef(i, v)
                signs.add(r[0] if r else 0)
            if any(s < 0 for s in signs):
                key = (tuple(sorted((w, h._hash) for w, h in vs)), mono)
                b = subst(body, {v: hi - 1 - sym(v, int=True)})
                p1 = _close(vs, mono)
                p2 = ZERO
                for m2, c2 in b.terms.items():
                    fr = tuple(f for f in m2 if not ({w for w, _ in vs} & mono_names(f)))
                    inn = tuple(f for f in m2 if f not in fr)
                    p2 = p2 + (Poly.make({fr: 1}) * _msum_conn(vs, inn, True, depth + 1)).scale(c2)
                # pick the canonical one by comparing the atom ids of the sums involved
                k1 = _sumkey(p1)
                k2 = _sumkey(p2)
                return p1 if k1 <= k2 else p2
    return _close(vs, mono)


def _sumkey(p):
    return min([a.id for m in p.terms for a, e in m if a.kind == 'sum'], default=0)


def _close(vs, mono):
    body = Poly.make({mono: 1})
    best = None
    perms = list(permutations(vs)) if len(vs) <= 4 else [tuple(vs)]
    for pm in perms:
        h = body.h
        for _, hh in pm:
            h = max(h, hh.h)
        mp = {v: bv(h + 1 + i) for i, (v, _) in enumerate(pm)}
        b = subst(body, mp)
        his = tuple(subst(hh, mp) for _, hh in pm)
        if len(b.terms) != 1:
            multi = (h, his, b, body.isint)
            continue
        (bm, bc), = b.terms.items()
        a = mk_atom('sum', (his, Poly.make({bm: 1})), isint=body.isint)
        # the height of the atom must match the names used
        a.h = h + len(pm)
        if best is None or a.id < best[0].id:
            best = (a, bc)
    if best is None:
        # an indicator changed orientation under renaming: sum the resulting terms separately
        h, his, b, isint = multi
        r = ZERO
        for bm, bc in b.terms.items():
            if len(his) == 1:
                dep = [t for t in bm if _has_bv(t, h + 1)]
                if not dep:
                    r = r + (his[0] * Poly.make({bm: 1})).scale(bc)
                    continue
                out = tuple(t for t in bm if t not in dep)
            else:
                for i in range(len(his)):
                    if not any(_has_bv(t, h + 1 + i) for t in bm):
                        raise Undecided('sum over an unused index')
                dep, out = list(bm), ()
            a = mk_atom('sum', (his, Poly.make({tuple(dep): 1})), isint=isint)
            a.h = h + len(his)
            r = r + (Poly.make({out: 1}) * Poly.of(a)).scale(bc)
        return r
    return Poly.of(best[0]).scale(best[1])


def _has_bv(x, n):
    if isinstance(x, Poly):
        return any(_has_bv(t, n) for m in x.terms for t in m)
    if isinstance(x, Atom):
        if x.kind == 'bv':
            return x.args[0] == n
        return any(_has_bv(y, n) for y in x.args)
    if isinstance(x, (tuple, frozenset)):
        return any(_has_bv(y, n) for y in x)
    if isinstance(x, Cond):
        return any(_has_bv(y, n) for y in x.args)
    kids = getattr(x, 'children', None)
    return any(_has_bv(y, n) for y in kids()) if kids is not None else False


def mkprod(hi, name, body):
    hi, body = P(hi), P(body)
    if name not in body.names:
        return poly_pow(body, hi)
    h = body.h
    h = max(h, hi.h)
    b = subst(body, {name: bv(h + 1)})
    a = mk_atom('prod', (hi, b), isint=body.isint)
    a.h = h + 1
    return Poly.of(a)


def mk_first(hi, name, cond):
    """first index 0 <= k < hi satisfying cond (meaningful only when one exists)"""
    if name not in cond.names:
        return ZERO
    k = solve_index(cond, name)
    if k is not None:
        return k
    if cond.kind == 'and':
        for c in cond.args:
            k = solve_index(c, name)
            if k is not None:
                return k
    h = max(cond.h, hi.h if hi is not None else 0)
    c = subst(cond, {name: bv(h + 1)})
    a = mk_atom('first', (hi, c))
    a.h = h + 1
    return Poly.of(a)


# ------------------------------------------------------------------ bit fields
_ir = {}


def int_range(p):
    """constant interval (lo, hi) of an integer polynomial, None for unknown ends"""
    p = P(p)
    c = p.cval()
    if c is not None:
        return c, c
    r = _ir.get(p)
    if r is None:
        r = _int_range_cases(p)
        if len(_ir) > 300000:
            _ir.clear()
        _ir[p] = r
    return r


def _int_range_cases(p):
    """best interval over a case distinction on the 0/1 indicators that occur in several terms"""
    cnt = {}
    for m in p.terms:
        for a, e in m:
            if a.kind == 'ind':
                cnt[a] = cnt.get(a, 0) + 1
    inds = sorted((a for a in cnt if cnt[a] > 1), key=lambda a: (-cnt[a], a.id))[:3]
    if not inds:
        return _int_range(p)
    lo = hi = None
    first = True
    for bits in range(1 << len(inds)):
        val = {a: bits >> i & 1 for i, a in enumerate(inds)}
        acc = {}
        for m, c in p.terms.items():
            m2 = []
            for a, e in m:
                v = val.get(a)
                if v is None:
                    m2.append((a, e))
                elif v == 0:
                    break
            else:
                m2 = tuple(m2)
                acc[m2] = acc.get(m2, 0) + c
        l, h = _int_range(Poly.make({m: c for m, c in acc.items() if c}))
        if first:
            lo, hi, first = l, h, False
        else:
            lo = min(lo, l) if lo is not None and l is not None else None
            hi = max(hi, h) if hi is not None and h is not None else None
    return lo, hi


def _int_range(p):
    c = p.cval()
    if c is not None:
        return c, c
    # group floor atoms over the same base
    groups = {}
    lo = hi = 0
    for m, c in p.terms.items():
        if not m:
            lo = lo + c if lo is not None else None
            hi = hi + c if hi is not None else None
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == 'fl':
                groups.setdefault(a.args[0], {})[a.args[1]] = c
                continue
            groups.setdefault(Poly.of(a), {})[0] = c
            continue
        l2, h2 = mono_range(m)
        l2, h2 = _sc(l2, h2, c)
        lo = lo + l2 if lo is not None and l2 is not None else None
        hi = hi + h2 if hi is not None and h2 is not None else None
    for base, cs in groups.items():
        a = base.single()
        bl, bh = atom_range(a) if a is not None else int_range(base)
        if len(cs) == 1:
            (lv, c), = cs.items()
            l2 = bl >> lv if bl is not None else None
            h2 = bh >> lv if bh is not None else None
            l2, h2 = _sc(l2, h2, c)
        else:
            lv = sorted(cs)
            l2 = h2 = 0
            if bl is None or bl < 0:
                l2 = h2 = None
            else:
                acc = {}
                for i, l in enumerate(lv):
                    coef = sum(cs[l2_] * (1 << (l - l2_)) for l2_ in lv[:i + 1])
                    if i + 1 < len(lv):
                        fh = (1 << (lv[i + 1] - l)) - 1
                    else:
                        fh = bh >> l if bh is not None else None
                    a1, b1 = _sc(0, fh, coef)
                    l2 = l2 + a1 if l2 is not None and a1 is not None else None
                    h2 = h2 + b1 if h2 is not None and b1 is not None else None
        lo = lo + l2 if lo is not None and l2 is not None else None
        hi = hi + h2 if hi is not None and h2 is not None else None
    return lo, hi


def _sc(l, h, c):
    if c >= 0:
        return (l * c if l is not None else None, h * c if h is not None else None)
    return (h * c if h is not None else None, l * c if l is not None else None)


def mono_range(m):
    lo, hi = 1, 1
    for a, e in m:
        if a.kind == 'two':
            el, eh = int_range(P(e))
            l = 1 << el if el is not None and 0 <= el < 512 else (0 if el is None or el < 0 else None)
            h = 1 << eh if eh is not None and 0 <= eh < 512 else None
            if l is None:
                l = 1
        else:
            l, h = atom_range(a)
            if not isinstance(e, int):
                l, h = None, None
            elif e > 1:
                if l is None or l < 0:
                    return None, None
                l, h = l ** e, (h ** e if h is not None else None)
            elif e < 0:
                return None, None
        if l is None or l < 0:
            return None, None
        lo = lo * l
        hi = hi * h if hi is not None and h is not None else None
    return lo, hi


def atom_range(a):
    if a.kind == 'ind':
        return 0, 1
    if a.kind == 'num':
        return a.args[0], a.args[0]
    if a.kind == 'fl':
        l, h = int_range(a.args[0])
        return (l >> a.args[1] if l is not None else None, h >> a.args[1] if h is not None else None)
    if a.kind == 'first':
        n = a.args[0].cval() if a.args[0] is not None else None
        return 0, n - 1 if isinstance(n, int) and n >= 1 else None
    if a.kind == 'sum' and a.isint:
        return _sum_range(a), None
    if a.kind == 'sym':
        inf = SYM_INFO.get(a.args[0])
        if inf and inf['rng']:
            l, h = inf['rng'](a.args[1])
            l = int_range(P(l))[0] if l is not None else None
            h = int_range(P(h))[1] if h is not None else None
            return l, h
        return None, None
    if a.kind == 'app':
        f = APP_RANGE.get(a.args[0])
        if f:
            return f(*a.args[1:])
    return None, None


_sr = {}


def _sum_range(a):
    if a in _sr:
        return _sr[a]
    else:
        _sr[a] = None
        lo = int_range(a.args[1])[0]
        _sr[a] = 0 if lo is not None and lo >= 0 else None
    return _sr[a]


APP_RANGE = {}


def floor2(x, k):
    """floor(x / 2^k) for a non-negative integer polynomial"""
    x = P(x)
    if k == 0:
        return x
    c = x.cval()
    if c is not None:
        return P(c >> k)
    s = x.single()
    if s is not None and s.kind == 'fl':
        return floor2(s.args[0], s.args[1] + k)
    lo, hi = int_range(x)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << k):
        return ZERO
    # split off multiples of 2^k
    q, r = {}, {}
    for m, c in x.terms.items():
        if c % (1 << k) == 0:
            q[m] = c >> k
        else:
            r[m] = c
    if q and r:
        rp = Poly.make(r)
        lo, hi = int_range(rp)
        if lo is not None and lo >= 0 or rp.cval() is not None:
            return Poly.make(q) + floor2(rp, k)
    elif q:
        return Poly.make(q)
    return Poly.of(mk_atom('fl', (x, k), isint=True))


def low_bits(x, k):
    x = P(x)
    return x - floor2(x, k).scale(1 << k)


# ------------------------------------------------------------------ printing
def show_atom(a):
    k = a.kind
    if k == 'sym':
        n, idx = a.args
        return n + ('[' + ','.join(show(i) for i in idx) + ']' if idx else '')
    if k == 'bv':
        return '_%d' % a.args[0]
    if k == 'two':
        return '2'
    if k == 'num':
        return str(a.args[0])
    if k == 'ind':
        return '[' + show_cond(a.args[0]) + ']'
    if k == 'sum':
        his, b = a.args
        base = a.h - len(his)
        return 'Σ{' + ','.join('_%d<%s' % (base + 1 + i, show(h)) for i, h in enumerate(his)) + '}(' + show(b) + ')'
    if k == 'prod':
        return 'Π{_%d<%s}(%s)' % (a.h, show(a.args[0]), show(a.args[1]))
    if k == 'fl':
        return '(%s>>%d)' % (show(a.args[0]), a.args[1])
    if k == 'first':
        return 'first{_%d<%s}(%s)' % (a.h, a.args[0], show_cond(a.args[1]))
    if k == 'app':
        return a.args[0] + '(' + ', '.join(show_any(x) for x in a.args[1:]) + ')'
    return k + str(a.args)


def show_any(x):
    if isinstance(x, Poly):
        return show(x)
    return repr(x)


def show(p):
    if not p.terms:
        return '0'
    r = []
    for m, c in sorted(p.terms.items(), key=lambda t: [a.id for a, _ in t[0]]):
        s = '*'.join(show_atom(a) + ('' if e == 1 else '^' + (str(e) if isinstance(e, int) else '(' + show(e) + ')')) for a, e in m)
        if not m:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        r.append(s)
    return ' + '.join(r).replace('+ -', '- ')


def show_cond(c):
    k = c.kind
    if k in 'TF':
        return 'true' if k == 'T' else 'false'
    if k == 'le':
        return '%s <= 0' % show(c.args[0])
    if k == 'eq':
        return '%s == 0' % show(c.args[0])
    if k == 'b':
        return show_atom(c.args[0])
    if k == 'not':
        return '!(%s)' % show_cond(c.args[0])
    if k in ('and', 'or'):
        return '(' + (' && ' if k == 'and' else ' || ').join(show_cond(x) for x in sorted(c.args, key=lambda x: x.id)) + ')'
    if k == 'all':
        return '∀_%d<%s: %s' % (c.h, show(c.args[0]), show_cond(c.args[1]))
    return k


# ------------------------------------------------------------------ the scalar field of the analysed scenario
# the canonical representation has 8*L bytes (L 64-bit limbs) and the modulus has 64*L - gap bits
declare('LIMBS', int=True, rng=(1, 15))
FIELD = {}
SMALL = {}                             # sizes fixed to constants when a small instance of a scenario is analysed


def set_field(gap, limbs=None):
    l = sym('LIMBS', int=True) if limbs is None else P(limbs)
    FIELD['limbs'] = l
    FIELD['gap'] = gap
    FIELD['bytes'] = l * 8
    FIELD['bits'] = l * 64 - gap


set_field(1)


# ------------------------------------------------------------------ recomposition of base-256 digits
def recompose(p):
    """replaces complete byte expansions  sum_k byte(x, k)*256^k  by x"""
    groups = {}
    for m, c in p.terms.items():
        for j, (a, e) in enumerate(m):
            if a.kind != 'sum' or e != 1 or len(a.args[0]) != 1:
                continue
            r = _byte_sum(a, c)
            if r is None:
                continue
            x, n, low, stride, k = r
            rest = tuple(y for i, y in enumerate(m) if i != j)
            groups.setdefault((x, stride, rest, k), []).append((n, low, m))
            break
    for (x, stride, rest, k), parts in groups.items():
        if len(parts) != stride or any(not (P(n) * stride - FIELD['bytes']).is_zero() for n, _, _ in parts):
            continue
        lows = [l.cval() for _, l, _ in parts]
        if sorted(v for v in lows if v is not None) != list(range(stride)):
            continue
        t = dict(p.terms)
        for _, _, m in parts:
            del t[m]
        p = Poly.make(t) + P(x) * Poly.make({rest: k})
    return p


def _byte_sum(a, coef):
    """sum atom  coef*Σ_{k<n} 2^(A-Bk)*byte(x, C-Dk)  ->  (x, n, lowest position, stride, factor)"""
    (n,), body = a.args
    if len(body.terms) != 1:
        return None
    (m, c), = body.terms.items()
    h = a.h
    two = byte = None
    for at, e in m:
        if at.kind == 'two':
            two = P(e)
        elif at.kind == 'app' and at.args[0] == 'byte' and e == 1 and byte is None:
            byte = at
        else:
            return None
    if byte is None or two is None:
        return None
    x, pos = byte.args[1], P(byte.args[2])
    if x.h >= h:
        return None
    nme = fresh('s')
    declare(nme, int=True)
    v = sym(nme, int=True)
    pos = Subst({}, {h: v}).poly(pos)
    two = Subst({}, {h: v}).poly(two)
    r = lin_coef(pos, nme)
    if r is None:
        return None
    d, base = r
    k = two - pos * 8                  # the weight must be 256^pos up to a constant factor
    k = k.cval()
    if k is None or d == 0 or d != int(d):
        return None
    d = int(d)
    low = base if d > 0 else base + (P(n) - 1) * d
    f = Fraction(coef) * Fraction(c) * (Fraction(2) ** k)
    return x, n, low, abs(d), (int(f) if f.denominator == 1 else f)
