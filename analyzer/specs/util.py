"""C12, C13, C20, C21: decomposition, chunked commitment, generators, fixed-base tables."""
from specs.common import *

UNSUPPORTED = 'a size other than 4, 8, 16'


def other_size(s, name='b'):
    b = s.int(name, 0, 255)
    for w in CBS:
        s.assume(c_not(mk_eq(b - w)))
    return b


# ------------------------------------------------------------------ C12
def nibble(m, i, n):
    """big-endian 4-bit digit i of n: high nibble of a byte first"""
    byte = lambda k: T.app('byte', P(m), k, int=True)
    return byte(n.exact_div(2) if False else n)


def c12(new, w):
    s = new('decompose into %d-bit chunks' % w)
    m = s.field('m')
    v = s.ok('utils::decompose', m, w)
    n = chunks(w)
    cnt = s.value('utils::chunks_count', w)
    s.eq('number of chunks', s.length(v), cnt)
    s.eq('chunks_count', cnt, n)
    byte = lambda k: T.app('byte', m, P(k), int=True)
    i = s.int('i', 0)
    nb = T.FIELD['bytes']
    if w == 4:
        s.assume(mk_lt(i, nb))
        b = byte(nb - 1 - i)
        hi, lo = s.get(v, i * 2), s.get(v, i * 2 + 1)
        s.eq('both digits of a byte make up the byte', hi * 16 + lo, b)
        for k, x in (('high', hi), ('low', lo)):
            s.holds('%s digit in range' % k, c_and(mk_leq(0, x), mk_leq(x, 15)))
    else:
        s.assume(mk_lt(i, n))
        x = s.get(v, i)
        s.eq('chunk i is the i-th big-endian digit', x, digit(m, i, w))
        s.holds('chunk in range', c_and(mk_leq(0, x), mk_leq(x, (1 << w) - 1)))
    r = s.ok('utils::compose', v, w)
    s.eq('recombining gives the element back', r, m)
    # any digit sequence
    s = new('compose of any %d-bit digits' % w)
    L = s.int('L', 0, 300)
    d = s.vec('d', L, 'i', (0, (1 << w) - 1))
    if w == 4:
        s.assume(mk_eq(L - s.int('half', 0) * 2))
    r = s.ok('utils::compose', d, w)
    if w == 4:
        h = sym('half', int=True)
        s.eq('value', r, s.sum(h, lambda k: (sym('d', k * 2) * 16 + sym('d', k * 2 + 1)) * T.pow2((h - 1 - k) * 8)))
    else:
        s.eq('value', r, s.sum(L, lambda k: sym('d', k) * T.pow2((L - 1 - k) * w)))


def c12_bad(new):
    s = new('decompose with any other chunk size')
    b = other_size(s)
    co, vo, ce, ve = s.result('utils::decompose', s.field('m'), b)
    s.no_panic('for any chunk size')
    s.holds('is an error', c_not(co))
    if ve is not None:
        s.eq('error', ve, err('UnexpectedBase', b))
    s = new('compose with any other chunk size')
    b = other_size(s)
    L = s.int('L', 0, 70000)
    co, vo, ce, ve = s.result('utils::compose', s.vec('d', L, 'i'), b)
    s.no_panic('for any chunk size')
    s.holds('is an error', c_not(co))
    if ve is not None:
        s.eq('error', ve, err('UnexpectedBase', b))
    s = new('compose of an odd number of 4-bit digits')
    L = s.int('L', 0, 70000)
    s.assume(mk_eq(L - s.int('half', 0) * 2 - 1))
    co, vo, ce, ve = s.result('utils::compose', s.vec('d', L, 'i'), 4)
    s.no_panic('for any digits')
    s.holds('is an error', c_not(co))
    for w in CBS:
        s = new('compose of any %d-bit digits' % w)
        L = s.int('L', 0, 70000)
        co, vo, ce, ve = s.result('utils::compose', s.vec('d', L, 'i', (0, (1 << w) - 1)), w)
        s.no_panic('for any digits')
        if w != 4:
            s.holds('succeeds', co)


def err(variant, *args):
    return Struct('error::SaverError', variant, [(str(i), P(a)) for i, a in enumerate(args)])


# ------------------------------------------------------------------ C13
CC = 'commitment::ChunkedCommitment::<G>::'


def cgens(s):
    nz('G', 'H')
    return s.struct('setup::ChunkedCommitmentGens', G=s.field('G', True), H=s.field('H', True))


def c13(new, w):
    s = new('chunked commitment (%d-bit chunks)' % w)
    g = cgens(s)
    m, r = s.field('m'), s.field('r')
    n = chunks(w)
    c = s.ok(CC + 'new', m, r, w, g)
    s.eq('commitment = m*G + r*H', c.get('0'), m * g.get('G') + r * g.get('H'))
    key = s.value(CC + 'commitment_key', g, w)
    s.eq('number of elements of the key', s.length(key), n + 1)
    s.seq('key', seq_slice(key, ZERO, n, s.f), n, lambda i: g.get('G') * T.pow2((n - 1 - i) * w))
    s.eq('last element of the key', s.get(key, n), g.get('H'))
    s.seq('key stored in the commitment', c.get('1'), s.length(key), lambda i, f: seq_get(key, i, f))
    c2 = s.ok(CC + 'get_commitment_given_commitment_key', m, r, w, key)
    s.eq('commitment with a ready-made key', c2, c.get('0'))


def c13_radix(new, w):
    s = new('both builders of the commitment key (%s-bit chunks)' % (w or 'any number of'))
    nz('g')
    g = s.field('g', True)
    cnt = s.int('cnt', 1, 255)
    w = w or s.int('w', 1, 63)
    a = s.value(CC + 'commitment_key_for_radix_power_of_2', g, cnt, T.pow2(P(w)))
    b = s.value(CC + 'commitment_key_for_radix_non_power_of_2', g, cnt, T.pow2(P(w)))
    s.seq('doubling', a, cnt, lambda i: g * T.pow2((cnt - 1 - i) * w))
    s.seq('scalar multiples', b, cnt, lambda i: g * T.pow2((cnt - 1 - i) * w))


def c13_any(new):
    s = new('commitment to a message with a given key of any length')
    L = s.int('L', 0, 70000)
    key = s.vec('key', L)
    b = other_size(s)
    for f, k in ((CC + 'new', cgens(s)), (CC + 'get_commitment_given_commitment_key', key)):
        co, vo, ce, ve = s.result(f, s.field('m'), s.field('r'), b, k)
        s.no_panic('for any chunk size')
        s.holds('unsupported chunk size is an error', c_not(co))


# ------------------------------------------------------------------ C20
def walk(x, seen=None):
    """every atom occurring in a term, condition or value"""
    seen = set() if seen is None else seen
    if isinstance(x, T.Poly):
        for m in x.terms:
            for a, e in m:
                yield from walk(a, seen)
                if isinstance(e, T.Poly):
                    yield from walk(e, seen)
        return
    if isinstance(x, T.Atom):
        if x.id in seen:
            return
        seen.add(x.id)
        yield x
        for y in x.args:
            yield from walk(y, seen)
        return
    if isinstance(x, T.Cond):
        if x in seen:
            return
        seen.add(x)
        for y in x.args:
            yield from walk(y, seen)
        return
    if isinstance(x, (tuple, list, frozenset, set)):
        for y in x:
            yield from walk(y, seen)
        return
    if isinstance(x, Seq):
        for g in x.segs:
            yield from walk(g.n, seen)
            yield from walk(g.b, seen)
        return
    if isinstance(x, Struct):
        for _, y in x.fields:
            yield from walk(y, seen)
        return
    if isinstance(x, Gate):
        for c, y in x.alts:
            yield from walk(c, seen)
            yield from walk(y, seen)


def hash_of(data):
    return seq_fn(sym('HASHLEN', int=True), lambda j: T.app('hashb', data, j, int=True))


def const_bytes(t):
    return Seq([Seg(ONE, P(c), False, 0) for c in t])


def hashed(v):
    """the byte strings hashed for a value"""
    out = []
    for a in walk(v):
        if a.kind == 'app' and a.args[0] == 'hashb' and a.args[1] not in out:
            out.append(a.args[1])
    return out


def symbols(v):
    return {a.args[0] for a in walk(v) if a.kind == 'sym'}


HASHED = {'field': ('utils::field_elem_from_try_and_incr', 'field'), 'proj': ('utils::projective_group_elem_from_try_and_incr', 'point'),
          'aff': ('utils::affine_group_elem_from_try_and_incr', 'point')}


def draws(s):
    return dict(s.I.draws)


def only(s, v, allowed):
    """v is a function of the named inputs alone"""
    extra = {x for x in symbols(v) if x not in allowed}
    if draws(s):
        return s.ob('depends on the label and the hash alone', 'violated', 'draws from a random source: %r' % sorted(draws(s)))
    if extra:
        return s.ob('depends on the label and the hash alone', 'violated', 'depends on %r' % sorted(extra))
    return s.ob('depends on the label and the hash alone', 'proved')


def in_subgroup(s, name, v):
    """every alternative is a cofactor multiple"""
    cof = sym('COFACTOR', nz=True).single()
    z = T.subst(v, {'COFACTOR': ZERO})
    s.eq('%s lies in the prime-order subgroup (cofactor cleared)' % name, z, ZERO)


def retries(s, name, v, kind, first):
    """v is the first valid encoding among hash(first), hash(attempt 1), ...; attempts are pairwise different"""
    cof = sym('COFACTOR', nz=True) if kind == 'point' else ONE
    h0 = hash_of(first)
    ok0 = T.mk_bool(T.app('frb_ok:' + kind, h0))
    s.eq('%s: the hash of the bytes is used when it is a valid encoding' % name, v, T.app('frb:' + kind, h0, nz=True) * cof, (ok0,))
    # the search
    f = [a for a in walk(v) if a.kind == 'first']
    if not f:
        if any(a.kind == 'app' and a.args[0].startswith('frb') for a in walk(v)):
            s.ob('%s: retries until an encoding is valid' % name, 'undecided', 'no search found')
        return
    f = min(f, key=lambda a: a.h)
    idx = s.int('attempt', 1)
    c = T.Subst({}, {f.h: idx}).cond(f.args[1])
    data = [d for d in hashed(c) if 'attempt' in d.names]
    if not data:
        return s.ob('%s: the bytes hashed change from attempt to attempt' % name, 'violated', 'hashed bytes: %s' % cut(hashed(c)))
    s.ob('%s: the bytes hashed change from attempt to attempt' % name, 'proved')
    for d in data:
        pos = {}
        other = False
        for g in d.segs:
            b = g.b
            a = b.single() if isinstance(b, T.Poly) else None
            if a is not None and a.kind == 'app' and a.args[0] == 'byte' and a.args[2].cval() is not None:
                x, k = a.args[1:]
                pos.setdefault(x, set()).add(k.cval())
            elif 'attempt' in g.n.names or any('attempt' in y.names for y in walk(b) if isinstance(y, T.Atom)):
                other = True
        full = [x for x, ks in pos.items() if {0, 1, 2, 3} <= ks and (x - idx).cval() is not None]
        what = '%s: attempts hash pairwise different bytes' % name
        same = None if other or full else repeated(pos)
        if full:
            s.ob(what, 'proved')
        elif same:
            s.ob(what, 'violated', 'attempts %d and %d hash the same bytes %s' % (same + (cut(d),)))
        else:
            s.ob(what, 'undecided', cut(d))
        found = T.subst(d, {'attempt': T.Poly.of(f)})
        s.eq('%s: otherwise the first valid encoding found is used' % name, v, T.app('frb:' + kind, hash_of(found), nz=True) * cof, (c_not(ok0),))
        # the caller's bytes are all included
        n = seq_len(first)
        what = '%s: every attempt hashes the caller\'s bytes' % name
        mine = symbols(first)
        if not mine & symbols(d):
            s.ob(what, 'violated', 'hashed bytes: %s' % cut(d))
        elif any(g.n == n and not g.flat and len(first.segs) == 1 and g.b == first.segs[0].b for g in d.segs):
            s.ob(what, 'proved')
        elif d.segs and mine & symbols(Seq([d.segs[0]])):
            s.seq(what, seq_slice(d, ZERO, n, s.f), n, lambda i, g: seq_get(first, i, g))
        else:
            s.ob(what, 'undecided', cut(d))


def repeated(pos, upto=64):
    """two of the first attempts for which all bytes taken from the attempt number are the same"""
    seen = {}
    for k in range(1, upto + 1):
        row = []
        for x, ks in pos.items():
            y = T.subst(x, {'attempt': P(k)}).cval()
            if y is None:
                return None
            row += [(int(y) >> 8 * b) & 255 for b in sorted(ks)]
        row = tuple(row)
        if row in seen:
            return seen[row], k
        seen[row] = k
    return None


def c20_try(new, which):
    fn, kind = HASHED[which]
    s = new(fn.split('::')[-1])
    n = s.int('n', 0)
    data = s.vec('bytes', n, 'i', (0, 255))
    v = s.value(fn, data)
    only(s, v, {'n', 'bytes', 'HASHLEN', 'COFACTOR', 'LIMBS'})
    if kind == 'point':
        in_subgroup(s, 'result', v)
    retries(s, 'result', v, kind, data)


GENS = {'EncryptionGens': 'setup::EncryptionGens::<E>::', 'ChunkedCommitmentGens': 'setup::ChunkedCommitmentGens::<G>::'}


def c20_label(new, which):
    s = new('%s::new' % which)
    n = s.int('n', 0)
    label = s.vec('label', n, 'i', (0, 255))
    v = s.value(GENS[which] + 'new', label)
    only(s, v, {'n', 'label', 'HASHLEN', 'COFACTOR', 'LIMBS'})
    sfx = {}
    for k in 'GH':
        x = v.get(k)
        in_subgroup(s, k, x)
        cand = sorted((d for d in hashed(x)), key=lambda d: len(d.segs))
        if not cand:
            s.ob('%s is hashed from the label' % k, 'violated', cut(x))
            continue
        first = cand[0]
        s.seq('%s is hashed from the whole label' % k, seq_slice(first, ZERO, n, s.f), n, lambda i: sym('label', i))
        retries(s, k, x, 'point', first)
        sfx[k] = seq_slice(first, n, seq_len(first), s.f)
    if len(sfx) == 2:
        a, b = sfx['G'], sfx['H']
        s.holds('G and H are hashed with different suffixes', T.c_not(seq_eq(a, b, s.f)))
        if which == 'EncryptionGens':
            return


def seq_eq(a, b, f):
    return veq_cond(a, b, f)


def c20_rng(new, which):
    s = new('%s::new_using_rng' % which)
    v = s.value(GENS[which] + 'new_using_rng', s.rng)
    two_draws(s, v.get('G'), v.get('H'))


def two_draws(s, g, h):
    got = []
    for k, x in (('G', g), ('H', h)):
        d = symbols(x) & set(draws(s))
        if len(d) == 1 and all(draws(s)[y]['rng'] == s.rng for y in d):
            y = next(iter(d))
            z = T.subst(x, {y: ZERO})
            s.eq('%s is a random point' % k, z, ZERO)
            s.ob('%s is drawn from the caller\'s generator' % k, 'proved')
            got.append(y)
        else:
            s.ob('%s is drawn from the caller\'s generator' % k, 'violated', cut(x))
    if len(got) == 2:
        s.ob('G and H are independent draws', 'proved' if got[0] != got[1] else 'violated', repr(got))


# ------------------------------------------------------------------ C21
WT = 'utils::WindowTable::<G>::'


def c21(new):
    s = new('window table')
    nz('g')
    n = s.int('n', 0)
    g = s.field('g', True)
    t = s.value(WT + 'new', n, g)
    x = s.field('x')
    s.eq('multiply', s.value(WT + 'multiply', t, x), g * x)
    m = s.int('m', 0)
    v = s.value(WT + 'multiply_many', t, s.vec('xs', m))
    s.seq('multiply_many', v, m, lambda i: g * sym('xs', i))
    s = new('one base, many scalars')
    m = s.int('m', 0)
    g = s.field('g')
    v = s.value('utils::multiply_field_elems_with_same_group_elem', g, s.vec('xs', m))
    s.seq('results', v, m, lambda i: g * sym('xs', i))
    s = new('window_size')
    n = s.int('n', 0)
    a = s.value(WT + 'window_size', n)


SCENES = {
    'C12': [(c12, [(w,) for w in CBS]), (c12_bad, [()])],
    'C13': [(c13, [(w,) for w in CBS]), (c13_radix, [(w,) for w in CBS + (1, None)]), (c13_any, [()])],
    'C20': [(c20_try, [(k,) for k in HASHED]), (c20_label, [(k,) for k in GENS]), (c20_rng, [(k,) for k in GENS])],
    'C21': [(c21, [()])],
}
