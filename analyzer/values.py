"""Abstract values of the analysis: terms (Poly), conditions (Cond), records, sequences of symbolic length,
guarded alternatives, closures and references.  All values are immutable."""
import term as T
from term import (Poly, Cond, Atom, P, ZERO, ONE, TRUE, FALSE, Undecided, sym, bv, subst, names_of, height_of, fresh,
                  declare, ite, ind, mk_eq, mk_leq, mk_lt, mk_le, c_and, c_or, c_not, mk_all, mk_ex, EMPTY)
from facts import Facts, simp, equal

_fresh_names = []


def hname(h):
    """reusable bound index names for opening binders at a given height"""
    while len(_fresh_names) <= h:
        n = '$b%d' % len(_fresh_names)
        declare(n, int=True)
        _fresh_names.append(n)
    return _fresh_names[h]


class Val:
    __slots__ = ()

    def children(self):
        return ()


class Struct(Val):
    __slots__ = ('ty', 'variant', 'fields', 'names', 'h', '_hash')

    def __init__(self, ty, variant, fields):
        self.ty = ty
        self.variant = variant
        self.fields = tuple(fields)
        self.names = EMPTY.union(*[nm(v) for _, v in self.fields]) if self.fields else EMPTY
        self.h = max([ht(v) for _, v in self.fields], default=0)
        self._hash = hash((ty, variant, self.fields))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, Struct) and self._hash == o._hash and self.ty == o.ty and
                             self.variant == o.variant and self.fields == o.fields)

    def __repr__(self):
        t = (self.ty or '').split('::')[-1] + ('::' + self.variant if self.variant else '')
        return '%s{%s}' % (t, ', '.join('%s:%r' % f for f in self.fields))

    def children(self):
        return tuple(v for _, v in self.fields)

    def subst(self, s):
        return Struct(self.ty, self.variant, [(n, s.any(v)) for n, v in self.fields])

    def get(self, name):
        for n, v in self.fields:
            if n == name:
                return v
        raise Undecided('no field %s in %s' % (name, self.ty))

    def has(self, name):
        return any(n == name for n, _ in self.fields)

    def with_field(self, name, v):
        if not self.has(name):
            raise Undecided('no field %s in %s' % (name, self.ty))
        return Struct(self.ty, self.variant, [(n, v if n == name else x) for n, x in self.fields])


def nm(v):
    return names_of(v)


def ht(v):
    return height_of(v)


def tup(*vs):
    return Struct('()', None, [(str(i), v) for i, v in enumerate(vs)])


UNIT = tup()


def Some(v):
    return Struct('Option', 'Some', [('0', v)])


NONE = Struct('Option', 'None', [])


def Ok(v):
    return Struct('Result', 'Ok', [('0', v)])


def Err(v):
    return Struct('Result', 'Err', [('0', v)])


class Gate(Val):
    """guarded alternatives: exclusive and exhaustive (under the path condition)"""
    __slots__ = ('alts', 'names', 'h', '_hash')

    def __init__(self, alts):
        self.alts = tuple(alts)
        self.names = EMPTY.union(*[c.names | nm(v) for c, v in self.alts])
        self.h = max([max(c.h, ht(v)) for c, v in self.alts], default=0)
        self._hash = hash(self.alts)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, Gate) and self._hash == o._hash and self.alts == o.alts)

    def __repr__(self):
        return 'Gate[%s]' % '; '.join('%r => %r' % a for a in self.alts)

    def children(self):
        r = []
        for c, v in self.alts:
            r += [c, v]
        return tuple(r)

    def subst(self, s):
        return mk_gate([(s.cond(c), s.any(v)) for c, v in self.alts])


def mk_gate(alts):
    out = []
    for c, v in alts:
        if c.kind == 'F':
            continue
        if isinstance(v, Gate):
            for c2, v2 in v.alts:
                _gadd(out, c_and(c, c2), v2)
        else:
            _gadd(out, c, v)
    if not out:
        raise Undecided('empty gate')
    if len(out) == 1:
        return out[0][1]
    return Gate(out)


def _gadd(out, c, v):
    if c.kind == 'F':
        return
    for i, (c0, v0) in enumerate(out):
        if v0 == v:
            out[i] = (c_or(c0, c), v0)
            return
        m = None
        if same_shape(v0, v):
            # exclusive alternatives of one shape are merged leafwise
            try:
                m = vmerge(c0, v0, v) if has_eq(c0) and not has_eq(c) else vmerge(c, v, v0)
            except Undecided:
                m = None
        if m is not None:
            out[i] = (c_or(c0, c), m)
            return
    out.append((c, v))


def has_eq(c):
    return c.kind == 'eq' or c.kind == 'and' and any(x.kind == 'eq' for x in c.args)


def same_shape(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return True
    if isinstance(a, Cond) and isinstance(b, Cond):
        return True
    if isinstance(a, Struct) and isinstance(b, Struct):
        return a.ty == b.ty and a.variant == b.variant and len(a.fields) == len(b.fields) and \
            all(x[0] == y[0] for x, y in zip(a.fields, b.fields))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return True
    return False


class Closure(Val):
    __slots__ = ('key', 'env', 'names', 'h', '_hash')

    def __init__(self, key, env):
        self.key = key          # body key (or ('fn', callee dict))
        self.env = tuple(env)   # (var id, ('cell', id) | ('val', v))
        self.names = EMPTY.union(*[nm(v) for k, (t, v) in self.env if t == 'val']) if self.env else EMPTY
        self.h = max([ht(v) for k, (t, v) in self.env if t == 'val'], default=0)
        self._hash = hash((str(key), self.env))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, Closure) and self._hash == o._hash and self.key == o.key and self.env == o.env)

    def subst(self, s):
        return Closure(self.key, [(k, (t, s.any(v) if t == 'val' else v)) for k, (t, v) in self.env])

    def __repr__(self):
        return 'Closure(%s)' % (self.key,)


class FnRef(Val):
    """a function item used as a value"""
    __slots__ = ('callee', 'names', 'h', 'extra')

    def __init__(self, callee, extra=None):
        self.callee = callee
        self.extra = extra
        self.names = EMPTY
        self.h = 0

    def subst(self, s):
        return self

    def __repr__(self):
        return 'Fn(%s)' % (self.callee.get('callee'))


class MutRef(Val):
    __slots__ = ('cell', 'path', 'names', 'h', '_hash')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)    # ('f', name) | ('i', Poly) | ('v', variant)
        self.names = EMPTY.union(*[nm(x[1]) for x in self.path if x[0] in ('i', 'r')]) if self.path else EMPTY
        self.h = max([ht(x[1]) for x in self.path if x[0] in ('i', 'r')], default=0)
        self._hash = hash((cell, self.path))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, MutRef) and self.cell == o.cell and self.path == o.path)

    def subst(self, s):
        return MutRef(self.cell, [(x[0], s.any(x[1])) if x[0] == 'i' else ((x[0], s.any(x[1])) if x[0] == 'r' else x)
                                  for x in self.path])

    def __repr__(self):
        return '&mut %s%r' % (self.cell, self.path)


class Opaque(Val):
    """a value without structure of interest (rng handles, string literals, markers, errors of libraries)"""
    __slots__ = ('kind', 'args', 'names', 'h', '_hash')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args
        self.names = names_of(tuple(a for a in args if hasattr(a, 'names') or isinstance(a, tuple)))
        self.h = height_of(tuple(a for a in args if hasattr(a, 'names') or isinstance(a, tuple)))
        self._hash = hash((kind, args))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, Opaque) and self.kind == o.kind and self.args == o.args)

    def subst(self, s):
        return Opaque(self.kind, *[s.any(a) for a in self.args])

    def children(self):
        return tuple(a for a in self.args if isinstance(a, (Poly, Cond, Val, tuple)))

    def __repr__(self):
        return '<%s %s>' % (self.kind, ', '.join(map(repr, self.args)))


# ------------------------------------------------------------------ sequences
class Seg(Val):
    __slots__ = ('n', 'b', 'flat', 'bh', 'names', 'h', '_hash')

    def __init__(self, n, b, flat, bh):
        self.n, self.b, self.flat, self.bh = n, b, flat, bh
        self.names = n.names | nm(b)
        self.h = max(n.h, ht(b), bh)
        self._hash = hash((n, b, flat))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, Seg) and self._hash == o._hash and self.n is o.n and self.flat == o.flat and
                             self.b == o.b)

    def at(self, i):
        if not self.bh:
            return self.b
        return subst(self.b, {}, {self.bh: P(i)})

    def subst(self, s):
        if not self.bh:
            return mk_seg(s.poly(self.n), None, s.any(self.b), self.flat)
        name = fresh('g')
        declare(name, int=True)
        b = s.any(self.at(sym(name, int=True)))
        return mk_seg(s.poly(self.n), name, b, self.flat)

    def children(self):
        return (self.n, self.b)

    def __repr__(self):
        return '[%s%r | #%d<%r]' % ('flat ' if self.flat else '', self.b, self.bh, self.n)


def mk_seg(n, name, body, flat=False):
    n = P(n)
    if name is None or name not in nm(body):
        return Seg(n, body, flat, 0)
    if n is ONE:
        return Seg(n, subst(body, {name: ZERO}), flat, 0)
    h = ht(body) + 1
    b = subst(body, {name: bv(h)})
    return Seg(n, b, flat, h)


class Seq(Val):
    __slots__ = ('segs', 'names', 'h', '_hash')

    def __init__(self, segs):
        out = []
        for s in segs:
            c = s.n.cval()
            if c == 0:
                continue
            if s.flat and isinstance(s.b, Seq):
                if c == 1:
                    out.extend(s.at(ZERO).segs)
                    continue
                if not s.b.segs:
                    continue
            out.append(s)
        self.segs = tuple(out)
        self.names = EMPTY.union(*[s.names for s in self.segs]) if self.segs else EMPTY
        self.h = max([s.h for s in self.segs], default=0)
        self._hash = hash(self.segs)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self._hash == o._hash and self.segs == o.segs)

    def subst(self, s):
        return Seq([x.subst(s) for x in self.segs])

    def children(self):
        return self.segs

    def __repr__(self):
        return 'Seq%s' % (list(self.segs),)


def seg_len(s):
    if not s.flat:
        return s.n
    inner = s.b
    if not isinstance(inner, Seq):
        raise Undecided('flat segment of unknown length')
    if not s.bh:
        return s.n * seq_len(inner)
    name = fresh('l')
    declare(name, int=True)
    return T.mksum(s.n, name, seq_len(s.at(sym(name, int=True))))


def seq_len(v):
    r = ZERO
    for s in v.segs:
        r = r + seg_len(s)
    return r


def seq_of(*vs):
    return Seq([Seg(ONE, v, False, 0) for v in vs])


EMPTY_SEQ = Seq([])


def seq_fn(n, f, name=None):
    """sequence of length n with elements f(i)"""
    nme = fresh('e')
    declare(nme, int=True)
    return Seq([mk_seg(P(n), nme, f(sym(nme, int=True)))])


def concat(*ss):
    segs = []
    for s in ss:
        segs.extend(s.segs)
    return Seq(segs)


def seq_get(s, idx, f):
    """element at idx (assumed within bounds)"""
    idx = P(idx)
    off = ZERO
    cand = []
    for k, g in enumerate(s.segs):
        n = seg_len(g)
        end = off + n
        last = k == len(s.segs) - 1
        inside_lo = f.prove(mk_leq(off, idx))
        if inside_lo and (last or f.prove(mk_lt(idx, end))):
            v = _seg_get(g, idx - off, f)
            cand.append((None, v))
            break
        if f.prove(mk_leq(end, idx)) or n.is_zero():
            off = end
            continue
        if not inside_lo and f.prove(mk_lt(idx, off)):
            break
        cand.append((mk_lt(idx, end), _seg_get(g, idx - off, f.add(mk_lt(idx, end), mk_leq(off, idx)))))
        off = end
    if not cand:
        raise Undecided('index into empty sequence')
    r = cand[-1][1]
    for c, v in reversed(cand[:-1]):
        r = vmerge(c, v, r)
    return r


def _seg_get(g, j, f):
    if not g.flat:
        return g.at(j)
    inner = g.b
    m = seq_len(inner)
    mc = m.cval()
    if mc is None:
        raise Undecided('index into flattened sequence')
    if mc == 1:
        return seq_get(g.at(j), ZERO, f)
    # j = m*q + r
    q, r = divmod_poly(j, mc, f)
    if mc == 2 and r.cval() is None and q.single() is not None and q.single().kind == 'fl':
        # entry j of pairs (a(h), b(h)): 2*h is j or j - 1
        nme = fresh('h')
        declare(nme, int=True)
        e = g.at(sym(nme, int=True))
        odd = mk_eq(r - 1)
        return vmerge(odd, Half(nme, q, j - 1).any(seq_get(e, ONE, f)), Half(nme, q, j).any(seq_get(e, ZERO, f)))
    return seq_get(g.at(q), r, f)


class Half(T.Subst):
    """replaces the variable by q where 2*q is known to be `two`"""
    __slots__ = ('var', 'two', 'mono')

    def __init__(self, var, q, two):
        super().__init__({var: q})
        self.var, self.two = var, two
        (self.mono, _), = sym(var, int=True).terms.items()

    def poly(self, p):
        c = p.terms.get(self.mono) if p.isint else None
        if c is not None and c % 2 == 0:
            rest = p - Poly.make({self.mono: c})
            if self.var not in rest.names:
                return rest + self.two.scale(c // 2)
        return super().poly(p)


def divmod_poly(p, m, f):
    q, r = {}, {}
    for mo, c in p.terms.items():
        qq, rr = divmod(c, m) if not mo else (c // m, c % m)
        if qq:
            q[mo] = qq
        if rr:
            r[mo] = rr
    qp, rp = Poly.make(q), Poly.make(r)
    if f.prove(mk_leq(0, rp)) and f.prove(mk_lt(rp, P(m))):
        return qp, rp
    if m & (m - 1) == 0:
        k = m.bit_length() - 1
        return T.floor2(p, k), T.low_bits(p, k)
    a = T.app('divc', p, P(m), int=True)
    return a, p - a * m


def seq_split(s, k, f):
    """(first k elements, rest)"""
    k = P(k)
    out = []
    off = ZERO
    for i, g in enumerate(s.segs):
        n = seg_len(g)
        end = off + n
        if f.prove(mk_leq(end, k)):
            out.append(g)
            off = end
            continue
        if f.prove(mk_eq(k - off)):
            return Seq(out), Seq(s.segs[i:])
        if f.prove(mk_leq(off, k)) and f.prove(mk_leq(k, end)):
            if g.flat:
                mc = seq_len(g.b).cval()
                if mc is None:
                    raise Undecided('split of flattened sequence')
                q, r = divmod_poly(k - off, mc, f)
                if not f.prove(mk_eq(r)):
                    q1 = q
                    mid = g.at(q1)
                    a, b = seq_split(mid, r, f)
                    return (Seq(out + [_slice_seg(g, ZERO, q1)] + list(a.segs)),
                            Seq(list(b.segs) + [_slice_seg(g, q1 + 1, g.n - q1 - 1)] + list(s.segs[i + 1:])))
                return (Seq(out + [_slice_seg(g, ZERO, q)]),
                        Seq([_slice_seg(g, q, g.n - q)] + list(s.segs[i + 1:])))
            return (Seq(out + [_slice_seg(g, ZERO, k - off)]),
                    Seq([_slice_seg(g, k - off, end - k)] + list(s.segs[i + 1:])))
        # fallback: generic elementwise form
        tot = seq_len(s)
        return (seq_fn(k, lambda j: seq_get(s, j, f.add(mk_leq(0, j), mk_lt(j, k)))),
                seq_fn(tot - k, lambda j: seq_get(s, j + k, f.add(mk_leq(0, j), mk_lt(j, tot - k)))))
    return Seq(out), EMPTY_SEQ


def _slice_seg(g, off, n):
    if not g.bh or off.is_zero():
        return Seg(n, g.b, g.flat, g.bh) if n.h < (g.bh or 10 ** 9) else _reseg(g, ZERO, n)
    return _reseg(g, off, n)


def _reseg(g, off, n):
    nme = fresh('e')
    declare(nme, int=True)
    return mk_seg(n, nme, g.at(sym(nme, int=True) + off), g.flat)


def seq_slice(s, lo, hi, f):
    a, _ = seq_split(s, hi, f)
    _, b = seq_split(a, lo, f)
    return b


def seq_set(s, idx, v, f):
    """replace element idx"""
    idx = P(idx)
    off = ZERO
    for i, g in enumerate(s.segs):
        n = seg_len(g)
        end = off + n
        if f.prove(mk_leq(end, idx)):
            off = end
            continue
        last = i == len(s.segs) - 1
        if f.prove(mk_leq(off, idx)) and (last or f.prove(mk_lt(idx, end))):
            if g.n.cval() == 1 and not g.flat:
                return Seq(s.segs[:i] + (Seg(ONE, v, False, 0),) + s.segs[i + 1:])
            if g.flat:
                a, b = seq_split(s, idx, f)
                _, c = seq_split(b, ONE, f)
                return concat(a, seq_of(v), c)
            nme = fresh('e')
            declare(nme, int=True)
            j = sym(nme, int=True)
            return Seq(s.segs[:i] + (mk_seg(g.n, nme, vmerge(mk_eq(j - (idx - off)), v, g.at(j))),) + s.segs[i + 1:])
        break
    # generic form over the whole sequence
    tot = seq_len(s)
    return seq_fn(tot, lambda j: vmerge(mk_eq(j - idx), v, seq_get(s, j, f.add(mk_leq(0, j), mk_lt(j, tot)))))


def seq_rev(s):
    out = []
    for g in reversed(s.segs):
        if not g.bh and not g.flat:
            out.append(g)
            continue
        nme = fresh('e')
        declare(nme, int=True)
        b = g.at(g.n - 1 - sym(nme, int=True))
        if g.flat:
            b = seq_rev(b)
        out.append(mk_seg(g.n, nme, b, g.flat))
    return Seq(out)


def align(seqs, f):
    """split equal-length prefixes of several sequences at common boundaries.
    Returns list of (n, [elem functions]) covering min length; flat segments are kept whole when identical layouts."""
    seqs = [list(s.segs) for s in seqs]
    out = []
    while all(seqs):
        heads = [s[0] for s in seqs]
        ns = [seg_len(h) for h in heads]
        # choose the smallest head
        best = None
        for i, n in enumerate(ns):
            if all(j == i or n is m or f.prove(mk_leq(n, m)) for j, m in enumerate(ns)):
                best = i
                break
        if best is None:
            # generic: single segment over the rest
            rests = [Seq(s) for s in seqs]
            lens = [seq_len(r) for r in rests]
            n = min_len(lens, f)
            out.append((n, [lambda i, r=r, n=n: seq_get(r, i, f.add(mk_leq(0, i), mk_lt(i, n))) for r in rests], None))
            return out
        n = ns[best]
        fns, flats = [], []
        for k, s in enumerate(seqs):
            h = s[0]
            if ns[k] is n or f.prove(mk_eq(ns[k] - n)):
                s.pop(0)
                g = h
            else:
                a, b = seq_split(Seq([h]), n, f)
                s[0:1] = list(b.segs)
                if len(a.segs) == 1:
                    g = a.segs[0]
                else:
                    g = ('seq', a)
            if isinstance(g, tuple):
                fns.append(lambda i, a=g[1], n=n: seq_get(a, i, f.add(mk_leq(0, i), mk_lt(i, n))))
                flats.append(None)
            else:
                fns.append(lambda i, g=g, n=n: _seg_get(g, P(i), f.add(mk_leq(0, i), mk_lt(i, n))))
                flats.append(g if g.flat else None)
        out.append((n, fns, flats))
    return out


def min_len(lens, f):
    r = lens[0]
    for n in lens[1:]:
        if n is r or f.prove(mk_leq(r, n)):
            continue
        if f.prove(mk_leq(n, r)):
            r = n
            continue
        r = ite(mk_lt(r, n), r, n)
    return r


def zip_seqs(seqs, f, mk=None):
    mk = mk or (lambda vs: tup(*vs))
    if len(seqs) == 2 and any(g.flat for s in seqs for g in s.segs):
        # same flat layout on both sides
        a, b = seqs
        if len(a.segs) == len(b.segs):
            out = []
            ok = True
            for x, y in zip(a.segs, b.segs):
                if x.flat and y.flat and (x.n is y.n) and seq_len(x.b).cval() is not None and \
                        seq_len(x.b).cval() == seq_len(y.b).cval():
                    nme = fresh('e')
                    declare(nme, int=True)
                    i = sym(nme, int=True)
                    out.append(mk_seg(x.n, nme, zip_seqs([x.at(i), y.at(i)], f, mk), True))
                elif not x.flat and not y.flat and (x.n is y.n):
                    nme = fresh('e')
                    declare(nme, int=True)
                    i = sym(nme, int=True)
                    out.append(mk_seg(x.n, nme, mk([x.at(i), y.at(i)])))
                else:
                    ok = False
                    break
            if ok:
                return Seq(out)
    g = _zip_grouped(seqs, f, mk)
    if g is not None:
        return g
    segs = []
    for n, fns, _ in align(seqs, f):
        nme = fresh('e')
        declare(nme, int=True)
        i = sym(nme, int=True)
        segs.append(mk_seg(n, nme, mk([fn(i) for fn in fns])))
    return Seq(segs)


def _drop(g, q):
    """a segment without its first q entries (groups, for flat segments)"""
    nme = fresh('e')
    declare(nme, int=True)
    return mk_seg(g.n - q, nme, g.at(sym(nme, int=True) + q), g.flat)


def _groups(n, k):
    """(q, r) with n = k*q + r and 0 <= r < k, when n is such a polynomial"""
    r = n.terms.get((), 0)
    if not isinstance(r, int):
        return None
    r %= k
    q = {}
    for m, c in (n - r).terms.items():
        if not isinstance(c, int) or c % k:
            return None
        q[m] = c // k
    return Poly.make(q), r


def _zip_grouped(seqs, f, mk):
    """zip where some segments are concatenations of groups of constant size k: keep the groups"""
    seqs = [list(s.segs) for s in seqs]
    if not any(g.flat for s in seqs for g in s):
        return None
    out = []
    while all(seqs):
        heads = [s[0] for s in seqs]
        ks = [seq_len(h.b).cval() for h in heads if h.flat]
        if not ks:
            ns = [seg_len(h) for h in heads]
            q = next((n for i, n in enumerate(ns) if all(j == i or n is m or f.prove(mk_leq(n, m)) for j, m in enumerate(ns))), None)
            if q is None:
                return None
            counts = [q] * len(heads)
            k = 1
        else:
            k = ks[0]
            if k is None or k < 1 or any(x != k for x in ks):
                return None
            gs = [(h.n, 0) if h.flat else _groups(h.n, k) for h in heads]
            if any(g is None for g in gs):
                return None
            ns = [g[0] for g in gs]
            q = next((n for i, n in enumerate(ns) if all(j == i or n is m or f.prove(mk_leq(n, m)) for j, m in enumerate(ns))), None)
            if q is None:
                return None
            if q.cval() == 0:
                # unroll one group
                for s, h in zip(seqs, heads):
                    if h.flat:
                        if not f.prove(mk_leq(1, h.n)):
                            return None
                        x = h.at(ZERO)
                        s[0:1] = [Seg(ONE, seq_get(x, P(j), f), False, 0) for j in range(k)] + \
                            ([] if (h.n - 1).cval() == 0 else [_drop(h, ONE)])
                continue
            counts = [q if h.flat else q * k for h in heads]
        nme = fresh('e')
        declare(nme, int=True)
        i = sym(nme, int=True)
        if ks:
            parts = [h.at(i) if h.flat else Seq([Seg(ONE, h.at(i * k + j), False, 0) for j in range(k)]) for h in heads]
            out.append(mk_seg(q, nme, zip_seqs(parts, f, mk), True))
        else:
            out.append(mk_seg(q, nme, mk([h.at(i) for h in heads])))
        for s, h, c in zip(seqs, heads, counts):
            left = h.n - c
            if left.cval() == 0 or (left.cval() is None and f.prove(mk_eq(left))):
                s.pop(0)
            else:
                s[0] = _drop(h, c)
    return Seq(out)


# ------------------------------------------------------------------ merging
def vmerge(c, a, b):
    """value equal to a when c holds and to b otherwise"""
    if c.kind == 'T':
        return a
    if c.kind == 'F':
        return b
    if a is b or (type(a) is type(b) and a == b):
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, Struct) and isinstance(b, Struct) and a.ty == b.ty and a.variant == b.variant and \
            [x for x, _ in a.fields] == [x for x, _ in b.fields]:
        return Struct(a.ty, a.variant, [(n, vmerge(c, v, w)) for (n, v), (_, w) in zip(a.fields, b.fields)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        return merge_seq(c, a, b)
    if isinstance(a, (Struct, Gate)) and isinstance(b, (Struct, Gate)):
        aa = a.alts if isinstance(a, Gate) else ((TRUE, a),)
        bb = b.alts if isinstance(b, Gate) else ((TRUE, b),)
        if all(isinstance(v, (Struct, Opaque)) for _, v in aa + bb):
            nc = c_not(c)
            return mk_gate([(c_and(c, x), v) for x, v in aa] + [(c_and(nc, x), v) for x, v in bb])
    return mk_gate([(c, a), (c_not(c), b)]) if not isinstance(a, (Closure, MutRef, FnRef)) and \
        not isinstance(b, (Closure, MutRef, FnRef)) else _nomerge(a, b)


def _nomerge(a, b):
    raise Undecided('cannot merge %s with %s' % (type(a).__name__, type(b).__name__))


def merge_seq(c, a, b):
    out = []
    i = 0
    A, B = a.segs, b.segs
    while i < len(A) and i < len(B) and A[i] == B[i]:
        out.append(A[i])
        i += 1
    j = i
    # same layout: merge elementwise
    rest = []
    ok = len(A) - i == len(B) - i
    if ok:
        for x, y in zip(A[i:], B[i:]):
            if x.n is y.n and x.flat == y.flat:
                if not x.bh and not y.bh:
                    rest.append(Seg(x.n, vmerge(c, x.b, y.b), x.flat, 0)) if not _bad(x, y, c) else None
                    if _bad(x, y, c):
                        ok = False
                        break
                else:
                    nme = fresh('m')
                    declare(nme, int=True)
                    i_ = sym(nme, int=True)
                    rest.append(mk_seg(x.n, nme, vmerge(c, x.at(i_), y.at(i_)), x.flat))
            else:
                ok = False
                break
    if ok:
        return Seq(out + rest)
    la = [seg_len(x) for x in A[i:]]
    lb = [seg_len(x) for x in B[i:]]
    ta, tb = sum(la, ZERO), sum(lb, ZERO)
    if ta is tb and not any(x.flat for x in A[i:] + B[i:]):
        ra, rb = Seq(A[i:]), Seq(B[i:])
        f = Facts()
        try:
            return Seq(out + list(seq_fn(ta, lambda k: vmerge(c, seq_get(ra, k, f), seq_get(rb, k, f))).segs))
        except Undecided:
            pass
    g, ng = ind(c), ind(c_not(c))
    for x in A[i:]:
        out.append(_scale_seg(x, g))
    for x in B[i:]:
        out.append(_scale_seg(x, ng))
    return Seq(out)


def _bad(x, y, c):
    return x.flat and not isinstance(x.b, Seq)


def _scale_seg(x, g):
    if g.h >= (x.bh or 10 ** 9):
        return Seg(x.n * g, x.b, x.flat, x.bh) if False else _reseg(x, ZERO, x.n * g)
    return Seg(x.n * g, x.b, x.flat, x.bh)


# ------------------------------------------------------------------ comparison / simplification
def vsimp(v, f):
    if isinstance(v, (Poly, Cond)):
        return simp(v, f)
    if isinstance(v, Struct):
        if not v.fields:
            return v
        return Struct(v.ty, v.variant, [(n, vsimp(x, f)) for n, x in v.fields])
    if isinstance(v, Gate):
        alts = []
        for c, x in v.alts:
            c = simp(c, f)
            if c.kind == 'F':
                continue
            alts.append((c, x))
            if c.kind == 'T':
                break
        if len(alts) == 1:
            return vsimp(alts[0][1], f.add(alts[0][0]) if alts[0][0].kind != 'T' else f)
        return mk_gate([(c, vsimp(x, f.add(c))) for c, x in alts])
    if isinstance(v, Seq):
        out = []
        for g in v.segs:
            n = simp(g.n, f)
            if n.is_zero():
                continue
            nme = fresh('v')
            declare(nme, int=True)
            i = sym(nme, int=True)
            b = vsimp(g.at(i), f.add(mk_leq(0, i), mk_lt(i, n)))
            out.append(mk_seg(n, nme, b, g.flat))
        return Seq(out)
    return v


def vequal(a, b, f):
    """True if provably equal; False otherwise (not necessarily different)"""
    r = veq_cond(a, b, f)
    return r.kind == 'T' or f.prove(r)


def veq_cond(a, b, f):
    """condition under which the two values are equal"""
    if a is b:
        return TRUE
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a is b or equal(a, b, f):
            return TRUE
        return simp(mk_eq(a - b), f)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return simp(c_or(c_and(a, b), c_and(c_not(a), c_not(b))), f)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.variant != b.variant or len(a.fields) != len(b.fields):
            return FALSE
        return c_and(*[veq_cond(x, y, f) for (_, x), (_, y) in zip(a.fields, b.fields)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(a, b, f)
    if isinstance(a, Gate) or isinstance(b, Gate):
        aa = a.alts if isinstance(a, Gate) else ((TRUE, a),)
        bb = b.alts if isinstance(b, Gate) else ((TRUE, b),)
        r = FALSE
        for c1, v1 in aa:
            for c2, v2 in bb:
                c = c_and(c1, c2)
                if c.kind == 'F':
                    continue
                g = f.add(c)
                if g.inconsistent():
                    continue
                r = c_or(r, c_and(c, veq_cond(v1, v2, g)))
        return simp(r, f)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return TRUE if a == b else FALSE
    raise Undecided('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def seq_eq(a, b, f):
    la, lb = seq_len(a), seq_len(b)
    lc = TRUE if equal(la, lb, f) else simp(mk_eq(la - lb), f)
    if lc.kind == 'F':
        return FALSE
    g = f.add(lc)
    if len(a.segs) == len(b.segs):
        out = []
        ok = True
        for x, y in zip(a.segs, b.segs):
            if not equal(x.n, y.n, g) or x.flat != y.flat:
                ok = False
                break
            nme = fresh('q')
            declare(nme, int=True)
            i = sym(nme, int=True)
            h = g.add(mk_leq(0, i), mk_lt(i, x.n))
            c = veq_cond(x.at(i), y.at(i), h)
            out.append(mk_all(x.n, nme, c))
        if ok:
            return c_and(lc, *out)
    out = [lc]
    for n, fns, _ in align([a, b], g):
        nme = fresh('q')
        declare(nme, int=True)
        i = sym(nme, int=True)
        h = g.add(mk_leq(0, i), mk_lt(i, n))
        out.append(mk_all(n, nme, veq_cond(fns[0](i), fns[1](i), h)))
    return c_and(*out)
