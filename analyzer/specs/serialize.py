"""C18: stored objects round-trip and are validated when read."""
import re
from specs.common import *
from specs.secrecy import calls_of, expand
from specs.memory import impl_of
import serial

TYPES = ['keygen::SecretKey', 'keygen::SecretKeyST', 'keygen::P1share', 'keygen::FEncryptionKeyPartial', 'keygen::EncryptionKey', 'keygen::FEncryptionKeyDest',
         'keygen::DecryptionKey', 'encryption::Ciphertext', 'commitment::ChunkedCommitment', 'saver_groth16::ProvingKey', 'setup::EncryptionGens',
         'setup::PreparedEncryptionGens', 'setup::ChunkedCommitmentGens', 'utils::WindowTable']
CANON = {'CanonicalSerialize': 'serialize_with_mode', 'CanonicalDeserialize': 'deserialize_with_mode', 'Valid': 'check'}


def method(s, path, trait, name):
    items = impl_of(s.c, path, trait)
    if items is None:
        return None
    for it in items:
        if it.split('::')[-1] == name:
            return it
    return None


def c18_canon(new, path):
    s = new('canonical format of %s' % path)
    if path not in s.c.adts:
        raise Stop('type %s not found' % path)
    s.fnwhere = path
    fn = {}
    for t, m in CANON.items():
        fn[t] = method(s, path, t, m)
        if fn[t] is None:
            s.ob('%s implements %s' % (path, t), 'violated', 'no impl of %s for %s' % (t, path))
            return
    mode = Opaque('compress', 'any')
    for validate in ('Yes', 'No'):
        fields = s.c.adts[path]['variants'][0]['f']
        try:
            x = s.adt(path, 'x')
        except Undecided:
            x = s.struct(path, **{f['n']: sym('x.' + f['n']) for f in fields})
        s.I.ser = serial.Ser()
        w = s.I.tmp(s.st, EMPTY_SEQ)
        co, vo, ce, ve = s.result(fn['CanonicalSerialize'], x, Opaque('stream', w), mode)
        s.no_panic('when serializing')
        s.holds('serializing succeeds', co)
        data = s.I.load(s.st, w)
        val = Struct('ark_serialize::Validate', validate, [])
        rd = s.I.tmp(s.st, data)
        s.I.ser.reads = []
        co, vo, ce, ve = s.result(fn['CanonicalDeserialize'], Opaque('stream', rd), mode, val)
        s.no_panic('when reading back')
        s.holds('reading back succeeds', co)
        if vo is not None:
            for f in fields:
                a, b = x.get(f['n']), vo.get(f['n']) if isinstance(vo, Struct) else Opaque('?')
                same(s, 'field %s is read back in its place' % f['n'], b, a)
        left = s.I.load(s.st, rd)
        n = seq_len(left)
        s.eq('everything written is read', n, ZERO)
        bad = [r for r in s.I.ser.reads if serial.variant(r[2]) != validate and
               not (r[0] is not None and any(same_value(s.I.ser.table[r[0]][0], y) for y in s.I.ser.checks))]
        if validate == 'Yes':
            s.ob('every field is read with the validation the caller asked for', 'violated' if bad else 'proved',
                 'a field is read with validate=%s' % serial.variant(bad[0][2]) if bad else '', where='%s at %s' % (fn['CanonicalDeserialize'], bad[0][3]) if bad else None)
    s.I.ser.checks = []
    x = s.adt(path, 'x')
    co, vo, ce, ve = s.result(fn['Valid'], x)
    s.no_panic('when checking validity')
    for f in s.c.adts[path]['variants'][0]['f']:
        hit = any(same_value(c, x.get(f['n'])) for c in s.I.ser.checks)
        s.ob('validity of field %s is checked' % f['n'], 'proved' if hit else 'violated', 'Valid::check of %s does not check field %s' % (path, f['n']))


def same_value(a, b):
    return a is b or a == b or repr(a) == repr(b)


def same(s, name, got, want):
    if same_value(got, want):
        return s.ob(name, 'proved')
    if isinstance(got, Opaque) and got.kind == 'garbage':
        return s.ob(name, 'violated', got.args[0])
    # symbolic inputs are pairwise different, so a different term is a different value
    if isinstance(got, (T.Poly, Seq, Struct)) and type(got) == type(want) and not isinstance(got, Gate):
        if isinstance(got, T.Poly):
            return s.eq(name, got, want)
        if isinstance(got, Seq) and got.segs and want.segs and got.names and not (got.names & want.names - {'LIMBS'}):
            return s.ob(name, 'violated', 'read back as %s' % cut(got))
        return s.eq(name, got, want)
    return s.ob(name, 'undecided', 'read back as %s' % cut(got))


AS = 'serde_utils::AsCanonical'


def c18_adaptor(new):
    s = new('serde adaptor')
    x = s.field('x')
    S = s.I.ser = serial.Ser()
    co, vo, ce, ve = s.result(AS + '::serialize', x, Opaque('serializer', 'any'))
    s.no_panic('when serializing')
    s.holds('serializing succeeds', co)
    if len(S.out) != 1:
        s.ob('the bytes of the object are handed to the serializer', 'violated' if not S.out else 'undecided', '%d values are written' % len(S.out))
        return
    data = S.out[0]
    S.inp = Ok(data)
    co, vo, ce, ve = s.result(AS + '::deserialize', Opaque('deserializer', 'any'))
    s.no_panic('when reading back')
    s.holds('reading back succeeds', co)
    if vo is not None:
        same(s, 'the object is read back', vo, x)
    s = new('serde adaptor on any input')
    S = s.I.ser = serial.Ser()
    n = s.int('n', 1)
    data = s.vec('bytes', n, 'i', (0, 255))
    S.inp = Ok(data)
    co, vo, ce, ve = s.result(AS + '::deserialize', Opaque('deserializer', 'any'))
    s.no_panic('for any input')
    wf, va = (T.mk_bool(T.app(k, data, int=True)) for k in ('wellformed', 'valid'))
    s.iff('accepted exactly when the bytes are a well formed encoding of a valid object', co, c_and(wf, va))
    if vo is not None:
        s.eq('value', vo, T.app('decoded', data), (co,))
    s = new('serde adaptor when the deserializer fails')
    S = s.I.ser = serial.Ser()
    S.inp = Err(Opaque('serde error'))
    co, vo, ce, ve = s.result(AS + '::deserialize', Opaque('deserializer', 'any'))
    s.no_panic('for any input')
    s.holds('is an error', c_not(co))
    s = new('serde adaptor on empty input')
    S = s.I.ser = serial.Ser()
    S.inp = Ok(EMPTY_SEQ)
    co, vo, ce, ve = s.result(AS + '::deserialize', Opaque('deserializer', 'any'))
    s.no_panic('for any input')
    for t, m in (('serde_with::ser::SerializeAs', 'serialize_as'), ('serde_with::de::DeserializeAs', 'deserialize_as')):
        s = new('%s of the adaptor' % m)
        S = s.I.ser = serial.Ser()
        it = method(s, AS, t.split('::')[-1], m)
        if it is None:
            s.ob('exists', 'violated', 'AsCanonical does not implement ' + t)
            continue
        if m == 'serialize_as':
            co, vo, ce, ve = s.result(it, s.field('x'), Opaque('serializer', 'any'))
            s.no_panic('when serializing')
            s.holds('serializing succeeds', co)
            k = serial.head(S.out[0])[0] if S.out else None
            s.ob('writes the compressed encoding of the object', 'proved' if k is not None and S.table[k][0] == sym('x') else 'undecided')
        else:
            data = s.vec('bytes', s.int('n', 1), 'i', (0, 255))
            S.inp = Ok(data)
            co, vo, ce, ve = s.result(it, Opaque('deserializer', 'any'))
            s.no_panic('for any input')
            wf, va = (T.mk_bool(T.app(k, data, int=True)) for k in ('wellformed', 'valid'))
            s.iff('accepted exactly when the bytes are a well formed encoding of a valid object', co, c_and(wf, va))


# ------------------------------------------------------------------ serde derives
def walk_json(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk_json(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk_json(v)


PRIM = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'bool')


def want_codec(c, t):
    """codec a field of type t must go through"""
    t = c.ty(t)
    d = 0
    while (t.get('p') or '').endswith('::Vec'):
        d += 1
        t = c.ty(t['a'][0])
    return ('plain' if t.get('s') in PRIM or t.get('n') in PRIM or t.get('k') in PRIM else 'canonical', d)


def codec_type(c, t):
    """codec named by the type argument of serde_with::As"""
    t = c.ty(t)
    d = 0
    while (t.get('p') or '').endswith('::Vec'):
        d += 1
        t = c.ty(t['a'][0])
    if (t.get('p') or '') == 'serde_utils::AsCanonical':
        return ('canonical', d)
    if (t.get('p') or '').endswith('serde_with::Same') and d == 0:
        return None
    return ('other', cut(t.get('p') or t))


def helper(c, t):
    """codec a value of type t goes through when serde is asked to read or write it; t is a type index"""
    k = c.ty(t)
    while k.get('k') == 'ref':
        t = k.get('t', k.get('a', [None])[0] if isinstance(k.get('a'), list) else k.get('a'))
        k = c.ty(t)
    p = k.get('p') or ''
    if p.split('@')[0].split('<')[0].endswith('_') or '__SerializeWith' in p or '__DeserializeWith' in p:
        at = p.split('@')[1] if '@' in p else None
        for b in c.bodies:
            if at is not None and b.endswith('@' + at) and b.split('@')[0].split('::')[-1] in ('serialize', 'deserialize'):
                for y in walk_json(c.bodies[b]['body']):
                    cal = y.get('callee') or ''
                    if cal.startswith('serde_with::As::<T>::'):
                        return codec_type(c, y['args_t'][0])
                    if cal.endswith(('::serialize', '::deserialize')) and not cal.startswith(('serde', '<')):
                        return ('other', cal)
        return None
    w = want_codec(c, t)
    return w if w[0] == 'plain' else ('other', cut(p or k))


def lit_str(x):
    for y in walk_json(x):
        if y.get('k') == 'lit' and y.get('lk') == 'str':
            return y.get('v')
    return None


def c18_serde(crates):
    obs, fns = [], []
    n = 0
    c = crates['default']

    def ob(path, what, good, detail='', where='', und=False):
        obs.append({'obligation': 'serde format of %s: %s' % (path, what), 'status': 'proved' if good else 'undecided' if und else 'violated', 'where': where or path,
                    'detail': '' if good else detail, 'key': 'serde format of %s: %s' % (path, what)})

    def codecs(path, what, got, want, where):
        names = [f['n'] for f in c.adts[path]['variants'][0]['f']]
        if len(got) != len(want):
            return ob(path, '%s: every field once' % what, False, 'fields %s, %d values' % (names, len(got)), where=where)
        for f, g, w in zip(names, got, want):
            ob(path, '%s: field %s goes through the %s codec' % (what, f, 'validating canonical' if w[0] == 'canonical' else 'plain integer'),
               g is not None and g[0] == w[0] and (g == w or w[0] == 'canonical' and g[1] <= w[1]), 'codec %s' % (g,), where=where, und=g is None)
    for path in TYPES:
        if path not in c.adts:
            ob(path, 'type exists', False, 'type not found', und=True)
            continue
        decl = c.adts[path]['variants'][0]['f']
        fields = [f['n'] for f in decl]
        want = [want_codec(c, f['t']) for f in decl]
        si, di = impl_of(c, path, 'Serialize'), impl_of(c, path, 'Deserialize')
        if si is None or di is None:
            ob(path, 'can be written and read', False, 'no impl of %s' % ('Serialize' if si is None else 'Deserialize'))
            continue
        sk, dk = si[0], di[0]
        fns += [sk, dk]
        derived = {(im.get('trait') or '').split('::')[-1]: im.get('derived') for im in c.impls if isinstance(im['self'], int) and c.ty(im['self']).get('p') == path}
        if not derived.get('Serialize') or not derived.get('Deserialize'):
            ob(path, 'implementation recognised', False, 'serde impl is not derived', und=True)
            continue
        # what is written
        written = []
        for y in walk_json(c.bodies[sk]['body']):
            last = (y.get('callee') or '').split('::')[-1]
            if last in ('serialize_field', 'serialize_newtype_struct', 'serialize_element', 'serialize_entry'):
                val = y['args'][-1]
                src = [z.get('n') for z in walk_json(val) if z.get('k') == 'field' and z.get('n') in fields and c.ty(peel(c, z['a']['t'])).get('p') == path]
                written.append((lit_str(y['args'][1]) if last == 'serialize_field' and len(y['args']) > 2 else None, src[0] if len(src) == 1 else None, helper(c, val['t']), y.get('l')))
        got = [w[1] for w in written]
        ob(path, 'every field is written exactly once, in declaration order', got == fields, 'fields %s, written %s' % (fields, got), where=sk, und=None in got)
        codecs(path, 'writing', [w[2] for w in written], want, sk)
        n += len(written)
        # what is read
        base = dk + '::'
        names = None
        for k in c.bodies:
            if k.startswith(dk + '::FIELDS'):
                names = [y.get('v') for y in walk_json(c.bodies[k]['body']) if y.get('k') == 'lit' and y.get('lk') == 'str']
        wn = [w[0] for w in written]
        if any(x is not None for x in wn):
            ob(path, 'fields are read under the names they are written with', names == wn, 'written %s, read %s' % (wn, names), where=dk)
            ob(path, 'fields are written under different names', len(set(wn)) == len(wn), 'names %s' % (wn,), where=sk, und=None in wn)
        vis = {}
        for k in c.bodies:
            if ('<' + base) in k and '__Visitor' in k and '@' in k and 'visit_' in k.split('@')[0].split('::')[-1]:
                vis[k.split('@')[0].split('::')[-1]] = k
        for m in ('visit_seq', 'visit_map', 'visit_newtype_struct'):
            if m not in vis:
                if m == 'visit_seq' or (m == 'visit_map' and wn and wn[0] is not None):
                    ob(path, 'reads with %s' % m, False, 'not found', und=True)
                continue
            k = vis[m]
            fns.append(k)
            b = c.bodies[k]['body']
            read = []
            for y in walk_json(b):
                cal = y.get('callee') or ''
                last = cal.split('::')[-1]
                if last in ('next_element', 'next_value'):
                    t = y['args_t'][-1]
                    if 'IgnoredAny' in (c.ty(t).get('p') or ''):
                        continue
                    read.append(helper(c, t))
                elif last == 'deserialize' and m == 'visit_newtype_struct':
                    read.append(codec_type(c, y['args_t'][0]) if cal.startswith('serde_with::As') else ('other', cal))
                elif cal.split('::')[-2:] == ['Default', 'default'] or last == 'unwrap_or_default':
                    if 'PhantomData' in expand(c, y['t']):
                        continue
                    ob(path, 'a missing field is an error (%s)' % m, False, 'a missing field is replaced by a default value', where='%s at %s' % (k.split('@')[0], y.get('l')))
            n += len(read)
            codecs(path, 'reading (%s)' % m, read, want, k.split('@')[0])
    return obs, fns, n, [], {'serde_items_inspected': n}


def peel(c, t):
    while c.ty(t).get('k') == 'ref':
        t = c.ty(t).get('t', c.ty(t).get('a'))
    return t


SCENES = {'C18': [(c18_canon, [(p,) for p in TYPES]), (c18_adaptor, [()])]}
LINTS = {'C18': [(c18_serde, [()])]}
META = {'C18': {'technique': 'abstract interpretation of the serialization code (write, then read the written blocks, for all values) and a query over the derived serde implementations (field order, names, codec, defaults)',
                'assumptions': ['ark_serialize round-trips field elements, points, vectors of them and Groth16 keys in each mode and rejects invalid ones when asked to validate',
                                'serde_derive and serde_with generate what they document for the fields and attributes found in the expansion']}}
