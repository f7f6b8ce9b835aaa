"""Axioms for ark_serialize and for the calls of serde that the crate's adaptor makes.

Serializing a value of a type that is not part of the crate appends a block of bytes that stands for the value and the mode;
reading takes the first block of the input.  Bytes that are not such a block decode to a function of the bytes, and are accepted
when they are well formed and, if validation is asked for, valid."""
import term as T
from term import *
from values import *

YES = Struct('ark_serialize::Compress', 'Yes', [])


class Ser:
    def __init__(self):
        self.table = []               # blocks written: (value, mode)
        self.reads = []               # (block or None, mode, validate, location)
        self.checks = []              # values whose validity was checked
        self.out = []                 # values handed to the serde serializer
        self.inp = None               # what the serde deserializer yields


def ser(I):
    if I.ser is None:
        I.ser = Ser()
    return I.ser


def variant(v):
    return v.variant if isinstance(v, Struct) else repr(v)


def place(I, st, a):
    """innermost reference and value of a writer or reader"""
    r, v = None, a
    n = 0
    while n < 20:
        if isinstance(v, Opaque) and v.kind == 'stream':
            v = v.args[0]
        if not isinstance(v, MutRef):
            break
        r, v = v, I.load(st, v)
        n += 1
    return r, v


def block(I, x, mode):
    s = ser(I)
    s.table.append((x, mode))
    k = len(s.table) - 1
    nm = 'sersize%d' % k
    declare(nm, int=True)
    return Seq([mk_seg_bytes(sym(nm, int=True), k)]), [mk_leq(1, sym(nm, int=True))]


def mk_seg_bytes(n, k):
    nme = fresh('b')
    declare(nme, int=True)
    return seq_fn(n, lambda i: T.app('serb', P(k), i, int=True)).segs[0]


def head(v):
    """index of the block a byte sequence starts with, and the rest"""
    if isinstance(v, Seq) and v.segs:
        g = v.segs[0]
        b = g.b
        if isinstance(b, Poly) and b.single() is not None and b.single().kind == 'app' and b.single().args[0] == 'serb':
            return b.single().args[1].cval(), Seq(list(v.segs[1:]))
    return None, v


def install(meth, full):
    import prims

    def write(I, e, st, x, w, mode):
        r, v = place(I, st, w)
        if not isinstance(v, Seq):
            I.und('writing to %s' % type(v).__name__, e)
        b, fs = block(I, I.val(st, x), mode)
        st.fact(*fs)
        if r is None:
            I.und('writing to a value', e)
        I.store(st, r, concat(v, b))
        return Ok(UNIT)

    def read(I, e, st, rd, mode, validate):
        r, v = place(I, st, rd)
        s = ser(I)
        k, rest = head(v)
        s.reads.append((k, mode, validate, e.get('l')))
        if k is not None:
            x, m = s.table[k]
            if r is not None:
                I.store(st, r, rest)
            if variant(m) != variant(mode):
                return Ok(Opaque('garbage', 'written with compress=%s, read with compress=%s' % (variant(m), variant(mode))))
            return Ok(x)
        if not isinstance(v, Seq):
            I.und('reading from %s' % type(v).__name__, e)
        if not v.segs:
            return Err(Opaque('SerializationError'))
        ok = mk_bool(T.app('wellformed', v, int=True))
        if variant(validate) == 'Yes':
            ok = c_and(ok, mk_bool(T.app('valid', v, int=True)))
        elif variant(validate) != 'No':
            I.und('validation mode %r' % (validate,), e)
        x = T.app('decoded', v)
        return mk_gate([(ok, Ok(x)), (c_not(ok), Err(Opaque('SerializationError')))])

    CM = 'ark_serialize::Compress'
    VM = 'ark_serialize::Validate'
    md = lambda y: Struct(CM, y, [])
    vd = lambda y: Struct(VM, y, [])

    @full('ark_serialize::CanonicalSerialize::serialize_with_mode')
    def swm(I, e, a, st):
        return write(I, e, st, a[0], a[1], I.val(st, a[2]))

    @full('ark_serialize::CanonicalSerialize::serialize_compressed')
    def sc(I, e, a, st):
        return write(I, e, st, a[0], a[1], md('Yes'))

    @full('ark_serialize::CanonicalSerialize::serialize_uncompressed')
    def su(I, e, a, st):
        return write(I, e, st, a[0], a[1], md('No'))

    @full('ark_serialize::CanonicalDeserialize::deserialize_with_mode')
    def dwm(I, e, a, st):
        return read(I, e, st, a[0], I.val(st, a[1]), I.val(st, a[2]))

    for nm, y, v in (('compressed', 'Yes', 'Yes'), ('compressed_unchecked', 'Yes', 'No'), ('uncompressed', 'No', 'Yes'), ('uncompressed_unchecked', 'No', 'No')):
        def d(I, e, a, st, y=y, v=v):
            return read(I, e, st, a[0], md(y), vd(v))
        full('ark_serialize::CanonicalDeserialize::deserialize_' + nm)(d)

    @full('serde_core::ser::Error::custom', 'serde_core::de::Error::custom', 'serde::ser::Error::custom', 'serde::de::Error::custom')
    def custom(I, e, a, st):
        return Opaque('serde error')

    @full('ark_serialize::CanonicalSerialize::serialized_size', 'ark_serialize::CanonicalSerialize::compressed_size', 'ark_serialize::CanonicalSerialize::uncompressed_size')
    def size(I, e, a, st):
        nm = I.name('serlen', e.get('u', 0))
        declare(nm, int=True)
        v = sym(nm, *I.idx, int=True)
        st.fact(mk_leq(0, v))
        return v

    @full('ark_serialize::Valid::check')
    def check(I, e, a, st):
        ser(I).checks.append(I.val(st, a[0]))
        return Ok(UNIT)

    @full('serde_core::ser::Serialize::serialize', 'serde::ser::Serialize::serialize', 'serde::Serialize::serialize')
    def sser(I, e, a, st):
        ser(I).out.append(I.val(st, a[0]))
        return Ok(Opaque('written'))

    @full('serde_core::de::Deserialize::deserialize', 'serde::de::Deserialize::deserialize', 'serde::Deserialize::deserialize')
    def sde(I, e, a, st):
        s = ser(I)
        if s.inp is None:
            I.und('deserializing', e)
        return s.inp
