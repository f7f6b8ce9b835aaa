"""Transfer functions for library operations (core/alloc, arkworks algebra, rayon, digest).

Every function is total on the shapes it understands and raises Undecided otherwise."""
import term as T
from term import (Poly, Cond, P, ZERO, ONE, TRUE, FALSE, Undecided, sym, subst, names_of, fresh, declare, ite, ind,
                  mk_eq, mk_leq, mk_lt, mk_bool, c_and, c_or, c_not, mk_all, mk_ex, mksum, mkprod, mk_first, pow2,
                  floor2, low_bits, app, poly_pow)
from facts import Facts, simp, equal
from values import *
import loops
import interp as M

M_ = {}      # method name -> fn
C_ = {}      # full callee -> fn
S_ = []      # (suffix, fn)


def meth(*names):
    def d(fn):
        for n in names:
            M_[n] = fn
        return fn
    return d


def full(*names):
    def d(fn):
        for n in names:
            C_[n] = fn
        return fn
    return d


class Prims:
    def lookup(self, callee, m):
        f = C_.get(callee)
        if f is not None:
            return f
        for p, fn in S_:
            if callee.startswith(p):
                return fn
        if callee.startswith(('core::fmt', 'alloc::fmt', 'std::io', 'alloc::string', 'std::fmt')) and m not in M_:
            return lambda I, e, a, st: Opaque('fmt')
        if callee.startswith('core::panicking'):
            return panic_
        return M_.get(m)


# ------------------------------------------------------------------ helpers
def V(I, st, a):
    return I.val(st, a)


def is_target(I, t):
    """is this type the (multiplicatively written) target field?"""
    if t is None or not isinstance(t, int):
        return False
    t = I.c.peel(t)
    s = str(t.get('n') or t.get('s') or '')
    return s.endswith('::TargetField')


def ty(I, t):
    return I.c.peel(t) if isinstance(t, int) else {'k': '?'}


def arg_t(e, k):
    a = e.get('args') or []
    return a[k].get('t') if k < len(a) and isinstance(a[k], dict) else None


def seqv(I, st, a, e=None):
    v = V(I, st, a)
    if isinstance(v, Gate) and all(isinstance(x, Seq) for _, x in v.alts):
        r = v.alts[-1][1]
        for c, x in reversed(v.alts[:-1]):
            r = vmerge(c, x, r)
        return r
    if not isinstance(v, Seq):
        I.und('expected a sequence, got %s' % type(v).__name__, e)
    return v


def polyv(I, st, a, e=None):
    v = V(I, st, a)
    if isinstance(v, Struct) and len(v.fields) == 1 and isinstance(v.fields[0][1], Poly):
        v = v.fields[0][1]
    if isinstance(v, Gate):
        v = I.gate_get(v, lambda x: x, ())
    if not isinstance(v, Poly):
        I.und('expected a scalar, got %s' % type(v).__name__, e)
    return v


def itv(I, st, a, e):
    """iterator argument -> Seq of items"""
    v = a
    if isinstance(v, MutRef):
        x = I.val(st, v)
        if isinstance(x, Seq) or isinstance(x, Struct):
            v = x
    return I.to_iter(v, st, e)


def is_variant_val(v):
    if isinstance(v, Struct):
        return v.variant is not None
    if isinstance(v, Gate):
        return all(is_variant_val(x) for _, x in v.alts)
    return False


def cases(I, st, v, table, e):
    """fork on the variant of an option/result"""
    alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
    br = []
    for c, a in alts:
        if not isinstance(a, Struct) or a.variant not in table:
            I.und('variant of %r' % (a,), e)
        br.append((c, (lambda a: (lambda s: table[a.variant](s, a)))(a)))
    if len(br) == 1:
        return br[0][1](st)
    return I.fork(st, br, e)


def variant_cond(v, names):
    alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
    for _, a in alts:
        if not isinstance(a, Struct) or a.variant is None:
            raise Undecided('variant test on %s' % type(a).__name__)
    return c_or(*[c for c, a in alts if a.variant in names])


def update(I, st, r, fn, e=None):
    """apply fn to the value behind a mutable reference"""
    if not isinstance(r, MutRef):
        I.und('mutation through a non-reference', e)
    v = I.load(st, r)
    while isinstance(v, MutRef):
        r = v
        v = I.load(st, r)
    I.store(st, r, fn(v))
    return UNIT


def opt(c, v):
    return mk_gate([(c, Some(v)), (c_not(c), NONE)])


def sseq(s, f=None):
    """sum of the elements of a sequence of scalars"""
    r = ZERO
    for g in s.segs:
        nme = fresh('s')
        declare(nme, int=True)
        x = g.at(sym(nme, int=True))
        if g.flat:
            x = sseq(x)
        if isinstance(x, Gate) or not isinstance(x, Poly):
            raise Undecided('sum of %s' % type(x).__name__)
        r = r + mksum(g.n, nme, x)
    return r


# ------------------------------------------------------------------ identity-like conversions
@meth('clone', 'to_owned', 'into_affine', 'into_group', 'into_bigint', 'deref', 'as_ref', 'as_slice', 'borrow', 'iter',
      'copied', 'cloned', 'to_vec', 'normalize_batch', 'batch_convert_to_affine', 'into_boxed_slice', 'into_vec',
      'as_bytes', 'to_string', 'as_str', 'box_assume_init_into_vec_unsafe', 'with_min_len', 'with_max_len', 'fuse',
      'as_limbs', 'to_affine', 'prepare', 'into_inner', 'assume_init', 'black_box', 'peekable', 'as_deref', 'to_bigint',
      'from_bigint_unchecked', 'into_string', 'chunks_vec', 'as_ptr', 'shrink_to_fit_', 'into_sorted_', 'by_value_')
def ident(I, e, a, st):
    v = V(I, st, a[0])
    if isinstance(v, Poly) and (e.get('callee') or '').endswith('as_ref') and is_bigint(I, arg_t(e, 0)):
        return limbs_of(v)
    if isinstance(v, Opaque) and v.kind == 'rng' and (e.get('callee') or '').endswith('clone'):
        return Opaque('rng', 'clone', v)
    return v


@meth('into_iter', 'into_par_iter', 'par_iter')
def into_iter(I, e, a, st):
    if isinstance(a[0], MutRef):
        x = I.val(st, a[0])
        if isinstance(x, Seq):
            # by-value or &mut iteration over something reached through a mutable place
            t = I.c.ty(arg_t(e, 0)) if arg_t(e, 0) is not None else {}
            if t.get('k') == 'ref' and t.get('m'):
                inner = I.c.peel(arg_t(e, 0))
                if inner.get('p', '').endswith('vec::Vec') or inner.get('k') in ('slice', 'array'):
                    return I.iter_mut(a[0], x)
                return a[0]
            return x
    return I.to_iter(V(I, st, a[0]), st, e)


@meth('by_ref', 'as_mut', 'deref_mut', 'as_mut_slice', 'borrow_mut', 'as_deref_mut')
def ref_ident(I, e, a, st):
    if isinstance(a[0], MutRef):
        r = a[0]
        v = I.load(st, r)
        while isinstance(v, MutRef):
            r = v
            v = I.load(st, r)
        if isinstance(v, (Struct, Gate)) and is_variant_val(v) and (e.get('callee') or '').endswith('as_mut'):
            alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
            return mk_gate([(c, Some(MutRef(r.cell, r.path + (('v', 'Some'), ('f', '0')))) if x.variant == 'Some' else x)
                            for c, x in alts])
        if isinstance(v, Poly) and (e.get('callee') or '').endswith('as_mut') and is_bigint(I, arg_t(e, 0)):
            # from here on the place holds the limbs; reading it as a number puts them together again
            I.store(st, r, as_limbs(v))
            return MutRef(r.cell, r.path + (('L',),))
        return r
    return a[0]


@meth('iter_mut', 'par_iter_mut')
def iter_mut(I, e, a, st):
    r = a[0]
    v = I.load(st, r)
    while isinstance(v, MutRef):
        r = v
        v = I.load(st, r)
    if not isinstance(v, Seq):
        I.und('iter_mut of %s' % type(v).__name__, e)
    return I.iter_mut(r, v)


@full('alloc::boxed::Box::<T>::new_uninit')
def new_uninit(I, e, a, st):
    return Opaque('uninit')


@full('alloc::intrinsics::write_box_via_move')
def write_box(I, e, a, st):
    return a[1]


@full('alloc::boxed::Box::<T>::new', 'core::cell::RefCell::<T>::new', 'alloc::rc::Rc::<T>::new', 'alloc::sync::Arc::<T>::new',
      'core::mem::ManuallyDrop::<T>::new', 'core::cell::Cell::<T>::new', 'alloc::slice::<impl [T]>::into_vec')
def box_new(I, e, a, st):
    return a[0]


@meth('from', 'into')
def from_(I, e, a, st):
    v = V(I, st, a[0])
    t = ty(I, e['t'])
    if t.get('k') == 'adt':
        p = t['p']
        if isinstance(v, Struct) and v.ty != p and v.variant is None and v.ty not in ('()',):
            k = I.find_from(v.ty, p)
            if k:
                return I.call_key(k, [v], st, e)
            if p.endswith(('Vec', 'Box')):
                return v
            I.und('conversion %s -> %s' % (v.ty, p), e)
        if p.endswith('option::Option') and not is_variant_val(v):
            return Some(v)
        if isinstance(v, Struct) and v.variant is not None and v.ty != p and p in I.c.adts:
            k = I.find_from(v.ty, p)
            if k:
                return I.call_key(k, [v], st, e)
        if isinstance(v, (Opaque, Gate)) and p in I.c.adts:
            for im in I.c.impls:
                pass
            ks = [it for im in I.c.impls if im.get('trait') == 'core::convert::From' and isinstance(im['self'], int)
                  and I.c.ty(im['self']).get('p') == p for it in im['items'] if it in I.c.bodies]
            if len(ks) == 1 and isinstance(v, Opaque):
                return I.call_key(ks[0], [v], st, e)
    if t.get('k') in ('int',) and isinstance(v, Cond):
        return ind(v)
    if isinstance(v, Cond):
        return ind(v)
    if isinstance(v, Seq) and t.get('k') not in ('adt', 'slice', 'array', 'ref', 'param'):
        I.und('conversion of a sequence', e)
    return v


@meth('try_from', 'try_into')
def try_from(I, e, a, st):
    v = V(I, st, a[0])
    t = ty(I, e['t'])
    if isinstance(v, Poly) and t.get('k') == 'adt' and t.get('a'):
        d = I.c.ty(t['a'][0]) if isinstance(t['a'][0], int) else {}
        if d.get('k') == 'int':
            lo, hi = M.int_bounds(d['n'])
            c = simp(c_and(mk_leq(lo, v), mk_leq(v, hi)), st.f)
            return mk_gate([(c, Ok(v)), (c_not(c), Err(Opaque('try_from_int')))])
    if isinstance(v, Seq) and t.get('k') == 'adt' and t.get('a'):
        d = I.c.ty(t['a'][0]) if isinstance(t['a'][0], int) else {}
        n = I.const_int(d.get('n')) if d.get('k') == 'array' else None
        if n is not None:
            c = simp(mk_eq(seq_len(v) - n), st.f)
            return mk_gate([(c, Ok(v)), (c_not(c), Err(Opaque('try_from_slice')))])
    I.und('try_from', e)


# ------------------------------------------------------------------ panics
@meth('panic_fmt', 'panic', 'assert_failed', 'unreachable_display', 'unwrap_failed', 'expect_failed', 'panic_display',
      'panic_explicit', 'begin_panic', 'abort', 'exit')
def panic_(I, e, a, st):
    I.panic(st, (e.get('callee') or '').split('::')[-1], e)
    raise M.Dead()


# ------------------------------------------------------------------ arithmetic
def arith(op):
    def f(I, e, a, st):
        x, y = V(I, st, a[0]), V(I, st, a[1])
        return binop(I, e, op, x, y, arg_t(e, 0), st)
    return f


def binop(I, e, op, x, y, t, st):
    tt = ty(I, t)
    if any(isinstance(z, Struct) and z.ty == 'R1Var' for z in (x, y)) and op in ('Add', 'Sub', 'Mul'):
        x, y = [z.get('v') if isinstance(z, Struct) and z.ty == 'R1Var' else z for z in (x, y)]
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            I.und('gadget arithmetic', e)
        return Struct('R1Var', None, [('v', {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op])])
    if isinstance(x, Struct) and len(x.fields) == 1 and isinstance(x.fields[0][1], Poly):
        x = x.fields[0][1]
    if isinstance(y, Struct) and len(y.fields) == 1 and isinstance(y.fields[0][1], Poly):
        y = y.fields[0][1]
    if isinstance(x, Cond) and isinstance(y, Cond):
        return I.arith(op, x, y, t, st, e)
    if not (isinstance(x, Poly) and isinstance(y, Poly)):
        I.und('arithmetic on %s and %s' % (type(x).__name__, type(y).__name__), e)
    if tt.get('k') == 'int':
        return I.arith(op, x, y, t, st, e)
    if is_target(I, t):
        op = {'Mul': 'Add', 'Div': 'Sub'}.get(op, 'T' + op)
    if op == 'Add':
        return x + y
    if op == 'Sub':
        return x - y
    if op == 'Mul':
        return x * y
    if op == 'Div':
        I.require(st, c_not(mk_eq(y)), 'division by zero', e)
        return x * inverse(y)
    if op in ('Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor', 'Rem'):
        return I.arith(op, x, y, t, st, e)
    I.und('operation %s' % op, e)


def inverse(y):
    if len(y.terms) == 1:
        (m, c), = y.terms.items()
        if c in (1, -1):
            return T.inv_pow(y, -1)
    return app('inv', y, nz=True)


for _m, _o in [('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem'), ('shl', 'Shl'),
               ('shr', 'Shr'), ('bitand', 'BitAnd'), ('bitor', 'BitOr'), ('bitxor', 'BitXor')]:
    M_[_m] = arith(_o)


@meth('mul_bigint')
def mul_bigint(I, e, a, st):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    if isinstance(y, Seq):
        y = from_limbs(y, ZERO)
    return binop(I, e, 'Mul', x, y, arg_t(e, 0), st)


def assign(op):
    def f(I, e, a, st):
        y = V(I, st, a[1])
        return update(I, st, a[0], lambda x: binop(I, e, op, x, y, arg_t(e, 0), st), e)
    return f


for _m, _o in [('add_assign', 'Add'), ('sub_assign', 'Sub'), ('mul_assign', 'Mul'), ('div_assign', 'Div'),
               ('rem_assign', 'Rem'), ('shl_assign', 'Shl'), ('shr_assign', 'Shr'), ('bitand_assign', 'BitAnd'),
               ('bitor_assign', 'BitOr'), ('bitxor_assign', 'BitXor')]:
    M_[_m] = assign(_o)


@meth('neg', 'inverse_target_')
def neg(I, e, a, st):
    x = polyv(I, st, a[0], e)
    if is_target(I, arg_t(e, 0)):
        I.und('negation in the target field', e)
    return -x


@meth('not')
def not_(I, e, a, st):
    x = V(I, st, a[0])
    if isinstance(x, Struct) and x.ty == 'R1Bool':
        return groth.R1Bool(c_not(x.get('c')))
    if isinstance(x, Cond):
        return c_not(x)
    I.und('not', e)


@meth('double')
def double(I, e, a, st):
    if is_target(I, arg_t(e, 0)):
        I.und('doubling in the target field', e)
    return polyv(I, st, a[0], e).scale(2)


@meth('double_in_place')
def double_ip(I, e, a, st):
    if is_target(I, arg_t(e, 0)):
        I.und('doubling in the target field', e)
    update(I, st, a[0], lambda x: x.scale(2), e)
    return a[0]


@meth('neg_in_place', 'negate')
def neg_ip(I, e, a, st):
    update(I, st, a[0], lambda x: -x, e)
    return a[0]


@meth('square')
def square(I, e, a, st):
    x = polyv(I, st, a[0], e)
    return x.scale(2) if is_target(I, arg_t(e, 0)) else x * x


@meth('square_in_place')
def square_ip(I, e, a, st):
    t = is_target(I, arg_t(e, 0))
    update(I, st, a[0], lambda x: x.scale(2) if t else x * x, e)
    return a[0]


@meth('inverse')
def inv(I, e, a, st):
    x = polyv(I, st, a[0], e)
    if is_target(I, arg_t(e, 0)):
        return Some(-x)
    c = simp(c_not(mk_eq(x)), st.f)
    if c.kind == 'F':
        return NONE
    return opt(c, inverse(x))


@meth('pow')
def pow_(I, e, a, st):
    x = polyv(I, st, a[0], e)
    k = V(I, st, a[1])
    if isinstance(k, Seq):
        if len(k.segs) != 1 or k.segs[0].n is not ONE:
            I.und('multi-limb exponent', e)
        k = k.segs[0].at(ZERO)
    if is_target(I, arg_t(e, 0)):
        return x * k
    if ty(I, arg_t(e, 0)).get('k') == 'int':
        r = poly_pow(x, k)
        lo, hi = M.int_bounds(ty(I, arg_t(e, 0))['n'])
        return r
    return poly_pow(x, k)


@meth('wrapping_add', 'saturating_add', 'wrapping_sub', 'wrapping_mul', 'saturating_sub', 'saturating_mul', 'checked_add',
      'checked_sub', 'checked_mul', 'checked_shl', 'overflowing_add', 'checked_div', 'checked_rem', 'wrapping_shl', 'abs_diff',
      'wrapping_neg')
def int_ops(I, e, a, st):
    m = (e.get('callee') or '').split('::')[-1]
    kind, _, op = m.partition('_')
    t = ty(I, arg_t(e, 0))
    if t.get('k') != 'int' or op not in ('add', 'sub', 'mul', 'shl', 'div', 'rem'):
        I.und(m, e)
    x, y = polyv(I, st, a[0], e), polyv(I, st, a[1], e)
    lo, hi = M.int_bounds(t['n'])
    if op in ('div', 'rem'):
        c = simp(c_not(mk_eq(y)), st.f)
        s2 = st.copy()
        s2.fact(c)
        return opt(c, I.arith(op.capitalize(), x, y, arg_t(e, 0), s2, e))
    if op == 'shl':
        c = simp(mk_lt(y, M.INT_BITS[t['n']]), st.f)
        if kind == 'checked':
            return opt(c, I.fit(x * pow2(y), t['n'], st))
        I.und(m, e)
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
    fits = simp(c_and(mk_leq(lo, r), mk_leq(r, hi)), st.f)
    if t['n'] in ('usize', 'u64', 'u128') and op in ('add', 'mul'):
        fits = TRUE
    if kind == 'checked':
        return opt(fits, r)
    if kind == 'saturating':
        if op == 'sub':
            return ite(simp(mk_leq(lo, r), st.f), r, P(lo))
        return ite(fits, r, P(hi))
    if fits.kind == 'T':
        return r
    return I.fit(r, t['n'], st)


@meth('eq')
def eq(I, e, a, st):
    return veq_cond(I.deepval(st, a[0]), I.deepval(st, a[1]), st.f)


@meth('ne')
def ne(I, e, a, st):
    return c_not(veq_cond(I.deepval(st, a[0]), I.deepval(st, a[1]), st.f))


def order(op):
    def f(I, e, a, st):
        return I.compare(op, V(I, st, a[0]), V(I, st, a[1]), st, e)
    return f


for _m, _o in [('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')]:
    M_[_m] = order(_o)


@meth('cmp')
def cmp_(I, e, a, st):
    x, y = polyv(I, st, a[0], e), polyv(I, st, a[1], e)
    if not (x.isint and y.isint):
        I.und('comparison', e)
    O = 'core::cmp::Ordering'
    return mk_gate([(simp(mk_lt(x, y), st.f), Struct(O, 'Less', [])), (simp(mk_eq(x - y), st.f), Struct(O, 'Equal', [])),
                    (simp(mk_lt(y, x), st.f), Struct(O, 'Greater', []))])


@meth('max')
def max_(I, e, a, st):
    if len(a) < 2:
        I.und('max of an iterator', e)
    x, y = polyv(I, st, a[0], e), polyv(I, st, a[1], e)
    return ite(simp(mk_lt(x, y), st.f), y, x)


@meth('min')
def min_(I, e, a, st):
    if len(a) < 2:
        I.und('min of an iterator', e)
    x, y = polyv(I, st, a[0], e), polyv(I, st, a[1], e)
    return ite(simp(mk_lt(y, x), st.f), y, x)


@meth('is_zero')
def is_zero(I, e, a, st):
    x = polyv(I, st, a[0], e)
    if is_target(I, arg_t(e, 0)):
        return FALSE
    return simp(mk_eq(x), st.f)


@meth('is_one')
def is_one(I, e, a, st):
    x = polyv(I, st, a[0], e)
    if is_target(I, arg_t(e, 0)):
        return simp(mk_eq(x), st.f)
    return simp(mk_eq(x - 1), st.f)


@meth('zero')
def zero(I, e, a, st):
    if is_target(I, e['t']):
        I.und('zero of the target field', e)
    return ZERO


@meth('one')
def one(I, e, a, st):
    return ZERO if is_target(I, e['t']) else ONE


@meth('set_zero')
def set_zero(I, e, a, st):
    return update(I, st, a[0], lambda x: ZERO, e)


@meth('mul_by_cofactor_to_group', 'mul_by_cofactor', 'clear_cofactor')
def cofactor(I, e, a, st):
    return polyv(I, st, a[0], e) * sym('COFACTOR', nz=True)


@meth('generator')
def generator(I, e, a, st):
    t = I.c.ty(e['t'])
    return sym('GEN:%s' % (t.get('n') or t.get('p')), nz=True)


@meth('is_power_of_two')
def is_pow2(I, e, a, st):
    x = polyv(I, st, a[0], e)
    if x.cval() is not None:
        c = x.cval()
        return TRUE if c > 0 and c & (c - 1) == 0 else FALSE
    if log2_of(x) is not None:
        return TRUE
    return mk_bool(app('is_pow2', x))


def log2_of(x):
    if len(x.terms) == 1:
        (m, c), = x.terms.items()
        if isinstance(c, int) and c > 0 and c & (c - 1) == 0 and all(a.kind == 'two' for a, _ in m):
            r = P(c.bit_length() - 1)
            for a, ex in m:
                r = r + P(ex)
            return r
    return None


@meth('trailing_zeros', 'ilog2')
def tz(I, e, a, st):
    x = polyv(I, st, a[0], e)
    c = x.cval()
    if c is not None and c > 0:
        return P((c & -c).bit_length() - 1 if not (e.get('callee') or '').endswith('ilog2') else c.bit_length() - 1)
    r = log2_of(x)
    if r is not None:
        return r
    return app('tz', x, int=True)


@meth('leading_zeros', 'count_ones')
def lz(I, e, a, st):
    x = polyv(I, st, a[0], e)
    c = x.cval()
    t = ty(I, arg_t(e, 0))
    if c is None or c < 0:
        return app((e.get('callee') or '').split('::')[-1], x, int=True)
    if e['callee'].endswith('leading_zeros'):
        return P(M.INT_BITS[t['n']] - c.bit_length())
    return P(bin(c).count('1'))


@meth('div_ceil')
def div_ceil(I, e, a, st):
    x, y = polyv(I, st, a[0], e), polyv(I, st, a[1], e)
    return I.arith('Div', x + y - 1, y, arg_t(e, 0), st, e)


@meth('next_multiple_of')
def next_mult(I, e, a, st):
    x, y = polyv(I, st, a[0], e), polyv(I, st, a[1], e)
    return I.arith('Div', x + y - 1, y, arg_t(e, 0), st, e) * y


# ------------------------------------------------------------------ bytes
T.APP_RANGE['byte'] = lambda x, p: (0, 255)
T.APP_RANGE['hashb'] = lambda *a: (0, 255)


def int_bytes(x, n):
    return [low_bits(floor2(x, 8 * k), 8) for k in range(n)]


def byte_len(I):
    """length in bytes of the canonical integer representation of a scalar"""
    return T.FIELD['bytes']


def byte_of(x, pos):
    c = x.cval()
    pc = pos.cval()
    if c is not None and pc is not None and c >= 0:
        return P(c >> (8 * pc) & 255)
    return app('byte', x, pos, int=True)


T.APP_RANGE['limb'] = lambda x, p: (0, 2 ** 64 - 1)


def limb_of(x, pos):
    c, pc = x.cval(), pos.cval()
    if c is not None and pc is not None and c >= 0:
        return P(c >> (64 * pc) & (2 ** 64 - 1))
    return app('limb', x, pos, int=True)


T.REBUILD['limb'] = lambda x, p: limb_of(P(x), P(p))


def limbs_of(v):
    """the 64-bit limbs, least significant first, of the integer representation of a scalar"""
    if isinstance(v, Struct) and len(v.fields) == 1:
        v = v.fields[0][1]
    if not isinstance(v, Poly):
        raise Undecided('limbs of %s' % type(v).__name__)
    return seq_fn(T.FIELD['limbs'], lambda k: limb_of(v, k))


def as_limbs(v):
    return v if isinstance(v, Struct) and v.ty == '$limbs' else Struct('$limbs', None, [('0', limbs_of(v)), ('1', v)])


def from_limbs(s, old):
    off = r = ZERO
    same = True
    for g in s.segs:
        nme = fresh('s')
        declare(nme, int=True)
        k = sym(nme, int=True)
        x = g.at(k)
        if isinstance(x, Gate):
            r0 = x.alts[-1][1]
            for c, y in reversed(x.alts[:-1]):
                r0 = vmerge(c, y, r0)
            x = r0
        if g.flat or not isinstance(x, Poly):
            raise Undecided('limbs')
        same = same and x == limb_of(old, off + k)
        r = r + mksum(g.n, nme, x * pow2((off + k) * 64))
        off = off + seg_len(g)
    return old if same and off == T.FIELD['limbs'] else r


def is_bigint(I, t):
    t = ty(I, t)
    s = str(t.get('n') or t.get('s') or t.get('p') or '')
    return s.endswith(('::BigInt', '::BigInt<N>', 'biginteger::BigInt'))


T.REBUILD['byte'] = lambda x, p: byte_of(P(x), P(p))


@meth('to_bytes_be', 'to_bytes_le')
def to_bytes(I, e, a, st):
    x = polyv(I, st, a[0], e)
    n = simp(byte_len(I), st.f)
    if e['callee'].endswith('be'):
        return seq_fn(n, lambda k: byte_of(x, n - 1 - k))
    return seq_fn(n, lambda k: byte_of(x, k))


@meth('to_le_bytes', 'to_be_bytes', 'to_ne_bytes')
def int_to_bytes(I, e, a, st):
    x = polyv(I, st, a[0], e)
    t = ty(I, arg_t(e, 0))
    if t.get('k') != 'int':
        I.und('to bytes', e)
    k = M.INT_BITS[t['n']] // 8
    bs = [byte_of(x, P(j)) for j in range(k)] if k > 1 else [x]
    if e['callee'].endswith('be_bytes'):
        bs.reverse()
    return seq_of(*bs)


@meth('from_be_bytes_mod_order')
def from_be(I, e, a, st):
    s = seqv(I, st, a[0], e)
    return bytes_be(s, st.f)


@meth('from_le_bytes_mod_order')
def from_le(I, e, a, st):
    return bytes_be(seq_rev(seqv(I, st, a[0], e)), st.f)


def bytes_be(s, f):
    """sum of byte_k * 256^(len-1-k)"""
    total = seq_len(s)
    off = ZERO
    r = ZERO
    for g in s.segs:
        nme = fresh('s')
        declare(nme, int=True)
        k = sym(nme, int=True)
        if g.flat:
            inner = g.b
            m = seq_len(inner).cval()
            if m is None:
                raise Undecided('bytes of a nested sequence')
            x = g.at(k)
            t = ZERO
            for j in range(m):
                t = t + seq_get(x, P(j), f.add(mk_leq(0, k), mk_lt(k, g.n))) * pow2((total - off - 1 - k * m - j) * 8)
        else:
            t = g.at(k)
            if not isinstance(t, Poly):
                raise Undecided('bytes')
            t = t * pow2((total - off - 1 - k) * 8)
        r = r + mksum(g.n, nme, t)
        off = off + seg_len(g)
    return r


@meth('from_be_bytes', 'from_le_bytes')
def int_from_bytes(I, e, a, st):
    s = seqv(I, st, a[0], e)
    if e['callee'].endswith('le_bytes'):
        s = seq_rev(s)
    return bytes_be(s, st.f)


@meth('from_random_bytes')
def from_random_bytes(I, e, a, st):
    s = seqv(I, st, a[0], e)
    t = I.c.ty(e['t'])
    d = I.c.ty(t['a'][0]) if t.get('a') and isinstance(t['a'][0], int) else {}
    k = 'field' if 'ark_ff' in e['callee'] else 'point'
    ok = mk_bool(app('frb_ok:' + k, s))
    return mk_gate([(simp(ok, st.f), Some(app('frb:' + k, s, nz=True))), (simp(c_not(ok), st.f), NONE)])


@meth('digest')
def digest(I, e, a, st):
    s = V(I, st, a[0])
    n = sym('HASHLEN', int=True)
    return seq_fn(n, lambda j: app('hashb', s, j, int=True))


@meth('from_bigint')
def from_bigint(I, e, a, st):
    x = polyv(I, st, a[0], e)
    return Some(x)


# ------------------------------------------------------------------ randomness
def rng_of(I, st, a):
    v = a
    n = 0
    while isinstance(v, MutRef):
        v = I.load(st, v)
        n += 1
        if n > 20:
            break
    return v


def draw(I, e, st, rng, kind=''):
    nme = I.name('rand', e.get('u', 0), kind)
    if nme not in T.SYM_INFO:
        t = I.c.ty(e['t'])
        tn = t.get('n') if t.get('k') == 'int' else None
        if tn and tn[0] == 'u':
            declare(nme, int=True, rng=lambda idx, tn=tn: (0, M.int_bounds(tn)[1]), cat='rng')
        else:
            declare(nme, nz=True, cat='rng')
    s = sym(nme, *I.idx)
    I.draws[nme] = {'rng': rng, 'loc': e.get('l'), 'fn': I.fnstack[-1] if I.fnstack else '', 'idx': len(I.idx),
                    'path': tuple(I.path)}
    return s


@meth('rand', 'gen', 'sample', 'random')
def rand(I, e, a, st):
    rng = rng_of(I, st, a[-1] if (e.get('callee') or '').endswith('::rand') else a[0])
    if not (isinstance(rng, Opaque) and rng.kind == 'rng'):
        if not isinstance(rng, (Opaque,)):
            I.und('random draw from %s' % type(rng).__name__, e)
    s = draw(I, e, st, rng)
    t = I.c.ty(e['t'])
    if t.get('k') == 'bool':
        return mk_bool(s)
    return s


@meth('next_u32', 'next_u64', 'gen_range')
def next_u(I, e, a, st):
    return draw(I, e, st, rng_of(I, st, a[0]))


@meth('fill_bytes', 'try_fill_bytes')
def fill_bytes(I, e, a, st):
    rng = rng_of(I, st, a[0])
    nme = I.name('rand', e.get('u', 0), 'fill')
    declare(nme, int=True, rng=lambda idx: (0, 255), cat='rng')
    I.draws[nme] = {'rng': rng, 'loc': e.get('l'), 'fn': I.fnstack[-1], 'idx': len(I.idx), 'path': tuple(I.path)}
    update(I, st, a[1], lambda s: seq_fn(seq_len(s), lambda k: sym(nme, *(list(I.idx) + [k]))), e)
    return UNIT if not e['callee'].endswith('try_fill_bytes') else Ok(UNIT)


@meth('seed_from_u64', 'from_seed', 'thread_rng', 'test_rng', 'from_entropy', 'from_rng', 'from_os_rng', 'default_rng')
def new_rng(I, e, a, st):
    m = e['callee'].split('::')[-1]
    r = Opaque('rng', m)
    if m == 'from_rng':
        return Ok(r)
    return r


# ------------------------------------------------------------------ pairings and multi-scalar multiplication
def to_iter_any(I, st, a, e):
    v = V(I, st, a)
    if isinstance(v, Poly):
        return seq_of(v)
    return I.to_iter(v, st, e)


@meth('multi_pairing', 'multi_miller_loop')
def multi_pairing(I, e, a, st):
    x, y = to_iter_any(I, st, a[0], e), to_iter_any(I, st, a[1], e)
    I.require(st, mk_eq(seq_len(x) - seq_len(y)), 'pairing of vectors of different lengths', e)
    return sseq(zip_seqs([x, y], st.f, lambda vs: pmul(I, st, vs, e)))


def pmul(I, st, vs, e):
    a, b = (I.val(st, v) for v in vs)
    if not (isinstance(a, Poly) and isinstance(b, Poly)):
        I.und('product of %s and %s' % (type(a).__name__, type(b).__name__), e)
    return a * b


@meth('pairing', 'miller_loop')
def pairing(I, e, a, st):
    return polyv(I, st, a[0], e) * polyv(I, st, a[1], e)


@meth('final_exponentiation')
def final_exp(I, e, a, st):
    return Some(polyv(I, st, a[0], e))


@meth('msm_bigint', 'msm_unchecked')
def msm_bigint(I, e, a, st):
    x, y = seqv(I, st, a[0], e), seqv(I, st, a[1], e)
    return sseq(zip_seqs([x, y], st.f, lambda vs: pmul(I, st, vs, e)))


def msm(I, e, a, st):
    x, y = seqv(I, st, a[0], e), seqv(I, st, a[1], e)
    lx, ly = seq_len(x), seq_len(y)
    c = simp(mk_eq(lx - ly), st.f)

    def good(s):
        return Ok(sseq(zip_seqs([x, y], s.f, lambda vs: pmul(I, s, vs, e))))
    if c.kind == 'T':
        return good(st)

    def bad(s):
        return Err(min_len([lx, ly], s.f))
    return I.fork(st, [(c, good), (c_not(c), bad)], e)


M_['msm'] = msm


@meth('sum_of_products')
def sum_of_products(I, e, a, st):
    x, y = seqv(I, st, a[0], e), seqv(I, st, a[1], e)
    return sseq(zip_seqs([x, y], st.f, lambda vs: pmul(I, st, vs, e)))


FB = 'ark_ec::scalar_mul::fixed_base::FixedBase::'
T.APP_RANGE['winsize'] = lambda n: (1, None)


@full(FB + 'get_mul_window_size')
def fb_ws(I, e, a, st):
    return app('winsize', polyv(I, st, a[0], e), int=True)


@full(FB + 'get_window_table')
def fb_table(I, e, a, st):
    return Struct('WTable', None, [('bits', polyv(I, st, a[0], e)), ('window', polyv(I, st, a[1], e)),
                                   ('g', polyv(I, st, a[2], e))])


def fb_check(I, st, e, t, bits, window):
    """rows of the table cover `bits` bits with the same window"""
    if not isinstance(t, Struct) or t.ty != 'WTable':
        I.und('window table', e)
    return simp(c_and(mk_eq(t.get('window') - window), mk_eq(t.get('bits') - bits)), st.f)


@full(FB + 'msm')
def fb_msm(I, e, a, st):
    bits, window, t, v = polyv(I, st, a[0], e), polyv(I, st, a[1], e), V(I, st, a[2]), seqv(I, st, a[3], e)
    c = fb_check(I, st, e, t, bits, window)
    full_ = simp(mk_leq(T.FIELD['bits'], bits), st.f)
    ok = c_and(c, full_)
    g = t.get('g')
    r = map_pure(v, lambda x: ite(ok, x * g, app('wtrunc', bits, window, t.get('bits'), t.get('window'), g, x)))
    return r


@full(FB + 'windowed_mul')
def fb_wm(I, e, a, st):
    outerc, window, t, x = polyv(I, st, a[0], e), polyv(I, st, a[1], e), V(I, st, a[2]), polyv(I, st, a[3], e)
    if not isinstance(t, Struct) or t.ty != 'WTable':
        I.und('window table', e)
    w = t.get('window')
    need = app('div', t.get('bits') + w - 1, w, int=True)
    c = simp(c_and(mk_eq(w - window), mk_eq(outerc - need), mk_leq(T.FIELD['bits'], t.get('bits'))), st.f)
    if c.kind != 'T':
        # fewer rows than the table has are enough if they cover the field
        need2 = app('div', T.FIELD['bits'] + w - 1, w, int=True)
        c = simp(c_and(mk_eq(w - window), c_or(mk_eq(outerc - need), mk_eq(outerc - need2)), mk_leq(T.FIELD['bits'], t.get('bits'))), st.f)
    g = t.get('g')
    return ite(c, x * g, app('wtrunc2', outerc, window, t.get('bits'), w, g, x))


def map_pure(s, fn):
    out = []
    for g in s.segs:
        nme = fresh('e')
        declare(nme, int=True)
        x = g.at(sym(nme, int=True))
        out.append(mk_seg(g.n, nme, map_pure(x, fn) if g.flat else fn(x), g.flat))
    return Seq(out)


# ------------------------------------------------------------------ vectors
@meth('new', 'with_capacity', 'default', 'empty')
def vec_new(I, e, a, st):
    t = ty(I, e['t'])
    c = e.get('callee') or ''
    if t.get('k') == 'adt':
        p = t['p']
        if p.endswith(('vec::Vec', 'VecDeque', 'SmallVec', 'string::String')):
            return EMPTY_SEQ
        if p.endswith('RangeInclusive'):
            return Struct('core::ops::range::RangeInclusive', None, [('start', a[0]), ('end', a[1])])
        if p.endswith('option::Option') and c.endswith('default'):
            return NONE
        if p.endswith(('boxed::Box', 'rc::Rc', 'sync::Arc', 'RefCell')) and a:
            return a[0]
        if p.endswith('PhantomData'):
            return Opaque('PhantomData')
        if p.endswith('PairingOutput') and c.endswith('default'):
            return ZERO
    if c.endswith('default'):
        if t.get('k') in ('int', 'alias', 'param') and not is_target(I, e['t']):
            return ZERO
        if t.get('k') == 'bool':
            return FALSE
        if t.get('k') == 'tuple' and not t.get('f') and not t.get('a'):
            return UNIT
    if c.endswith('empty'):
        return EMPTY_SEQ
    I.und('constructor %s' % c, e)


@full('core::ops::range::RangeInclusive::<Idx>::new')
def range_incl(I, e, a, st):
    return Struct('core::ops::range::RangeInclusive', None, [('start', a[0]), ('end', a[1])])


@full('alloc::vec::from_elem')
def from_elem(I, e, a, st):
    return Seq([Seg(polyv(I, st, a[1], e), V(I, st, a[0]), False, 0)])


@meth('len', 'count')
def len_(I, e, a, st):
    v = V(I, st, a[0])
    if isinstance(v, Opaque) and v.kind == 'str':
        return P(len(v.args[0]))
    if isinstance(v, Struct) and v.ty == 'WTable':
        w = v.get('window')
        return app('div', v.get('bits') + w - 1, w, int=True)
    if isinstance(v, Struct):
        return seq_len(I.to_iter(v, st, e))
    return simp(seq_len(seqv(I, st, a[0], e)), st.f)


@meth('is_empty')
def is_empty(I, e, a, st):
    v = V(I, st, a[0])
    if isinstance(v, Struct):
        v = I.to_iter(v, st, e)
    if isinstance(v, Seq):
        return simp(mk_leq(seq_len(v), 0), st.f)
    I.und('is_empty', e)


@meth('push', 'push_back')
def push(I, e, a, st):
    x = a[1]
    if isinstance(x, MutRef):
        t = arg_t(e, 1)
        if t is None or not I.is_mutref_ty(t):
            x = V(I, st, x)
    return update(I, st, a[0], lambda s: concat(need_seq(I, s, e), seq_of(x)), e)


def need_seq(I, s, e):
    if not isinstance(s, Seq):
        I.und('expected a sequence', e)
    return s


@meth('extend_from_slice', 'append', 'extend', 'par_extend')
def extend(I, e, a, st):
    y = itv(I, st, a[1], e)
    if (e.get('callee') or '').endswith('append'):
        update(I, st, a[1], lambda s: EMPTY_SEQ, e)
    return update(I, st, a[0], lambda s: concat(need_seq(I, s, e), y), e)


@meth('pop', 'pop_back')
def pop(I, e, a, st):
    s = seqv(I, st, a[0], e)
    n = seq_len(s)
    c = simp(mk_leq(1, n), st.f)
    if c.kind == 'F':
        return NONE
    if c.kind == 'T':
        x = seq_get(s, n - 1, st.f)
        update(I, st, a[0], lambda _: seq_split(s, n - 1, st.f)[0], e)
        return Some(x)

    def yes(s2):
        x = seq_get(s, n - 1, s2.f)
        update(I, s2, a[0], lambda _: seq_split(s, n - 1, s2.f)[0], e)
        return Some(x)
    return I.fork(st, [(c, yes), (c_not(c), lambda s2: NONE)], e)


@meth('remove', 'swap_remove_')
def remove(I, e, a, st):
    s = seqv(I, st, a[0], e)
    i = polyv(I, st, a[1], e)
    I.require(st, c_and(mk_leq(0, i), mk_lt(i, seq_len(s))), 'remove out of bounds', e)
    x = seq_get(s, i, st.f)
    p, q = seq_split(s, i, st.f)
    _, q = seq_split(q, ONE, st.f)
    update(I, st, a[0], lambda _: concat(p, q), e)
    return x


@meth('swap_remove')
def swap_remove(I, e, a, st):
    s = seqv(I, st, a[0], e)
    i = polyv(I, st, a[1], e)
    n = seq_len(s)
    I.require(st, c_and(mk_leq(0, i), mk_lt(i, n)), 'swap_remove out of bounds', e)
    x = seq_get(s, i, st.f)
    last = seq_get(s, n - 1, st.f)
    s2 = seq_set(s, i, last, st.f)
    update(I, st, a[0], lambda _: seq_split(s2, n - 1, st.f)[0], e)
    return x


@meth('insert')
def insert(I, e, a, st):
    s = V(I, st, a[0])
    if not isinstance(s, Seq):
        if is_variant_val(s):
            update(I, st, a[0], lambda _: Some(V(I, st, a[1])), e)
            return a[0]
        I.und('insert', e)
    i = polyv(I, st, a[1], e)
    I.require(st, c_and(mk_leq(0, i), mk_leq(i, seq_len(s))), 'insert out of bounds', e)
    p, q = seq_split(s, i, st.f)
    x = V(I, st, a[2])
    return update(I, st, a[0], lambda _: concat(p, seq_of(x), q), e)


@meth('truncate')
def truncate(I, e, a, st):
    s = seqv(I, st, a[0], e)
    k = polyv(I, st, a[1], e)
    n = seq_len(s)
    k = ite(simp(mk_leq(k, n), st.f), k, n)
    return update(I, st, a[0], lambda _: seq_split(s, k, st.f)[0], e)


@meth('retain')
def retain(I, e, a, st):
    def f(x, s):
        return Seq([Seg(ind(simp(I.callv(a[1], [x], s, e), s.f)), x, False, 0)])
    out = loops.seq_each(I, st, seqv(I, st, a[0], e), f, e)
    return update(I, st, a[0], lambda _: out, e)


@meth('zeroize', 'zeroize_or_on_drop', 'zeroize_iter')
def zeroize(I, e, a, st):
    def zero(v):
        if isinstance(v, Poly):
            return ZERO
        if isinstance(v, Seq):
            if I.erasing is None:
                return EMPTY_SEQ
            n = seq_len(v)
            v = seq_fn(n, lambda i: ZERO)
            return v
        if isinstance(v, Gate):
            return mk_gate([(c, zero(x)) for c, x in v.alts])
        if isinstance(v, Struct) and v.variant in ('Some', 'None', None):
            if v.variant is None and v.ty in I.c.adts:
                I.und('zeroize of %s' % v.ty, e)
            return Struct(v.ty, v.variant, [(n, zero(x)) for n, x in v.fields])
        I.und('zeroize of %s' % type(v).__name__, e)
    if I.erasing is not None:
        I.erasing.append('zeroize')
    return update(I, st, a[0], zero, e)


@meth('clear')
def clear(I, e, a, st):
    if I.erasing is not None:
        v = V(I, st, a[0])
        if isinstance(v, Seq) and any(n.startswith('secret') for n in v.names):
            I.erasing.append('clear')
    return update(I, st, a[0], lambda _: EMPTY_SEQ, e)


@meth('resize')
def resize(I, e, a, st):
    s = seqv(I, st, a[0], e)
    k = polyv(I, st, a[1], e)
    x = V(I, st, a[2])
    n = seq_len(s)
    c = simp(mk_leq(n, k), st.f)
    if c.kind == 'T':
        return update(I, st, a[0], lambda _: concat(s, Seq([Seg(k - n, x, False, 0)])), e)
    if c.kind == 'F':
        return update(I, st, a[0], lambda _: seq_split(s, k, st.f)[0], e)
    I.und('resize', e)


@meth('swap')
def swap(I, e, a, st):
    if len(a) == 2:
        x, y = V(I, st, a[0]), V(I, st, a[1])
        update(I, st, a[0], lambda _: y, e)
        update(I, st, a[1], lambda _: x, e)
        return UNIT
    s = seqv(I, st, a[0], e)
    i, j = polyv(I, st, a[1], e), polyv(I, st, a[2], e)
    n = seq_len(s)
    I.require(st, c_and(mk_leq(0, i), mk_lt(i, n), mk_leq(0, j), mk_lt(j, n)), 'swap out of bounds', e)
    x, y = seq_get(s, i, st.f), seq_get(s, j, st.f)
    return update(I, st, a[0], lambda _: seq_set(seq_set(s, i, y, st.f), j, x, st.f), e)


@meth('reverse')
def reverse(I, e, a, st):
    v = V(I, st, a[0])
    if isinstance(v, Struct):
        I.und('reverse', e)
    return update(I, st, a[0], lambda s: seq_rev(need_seq(I, s, e)), e)


@meth('fill')
def fill(I, e, a, st):
    x = V(I, st, a[1])
    return update(I, st, a[0], lambda s: Seq([Seg(seq_len(need_seq(I, s, e)), x, False, 0)]), e)


@meth('copy_from_slice', 'clone_from_slice', 'clone_from')
def copy_from(I, e, a, st):
    y = V(I, st, a[1])
    if isinstance(y, Seq):
        s = seqv(I, st, a[0], e)
        if not e['callee'].endswith('clone_from'):
            I.require(st, mk_eq(seq_len(s) - seq_len(y)), 'slice lengths differ', e)
    return update(I, st, a[0], lambda _: y, e)


@meth('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to')
def noop(I, e, a, st):
    return UNIT


@meth('index')
def index(I, e, a, st):
    s = V(I, st, a[0])
    i = V(I, st, a[1])
    return I.index(s, i, st, e)


@meth('index_mut')
def index_mut(I, e, a, st):
    r = a[0]
    if not isinstance(r, MutRef):
        r = I.tmp(st, r)
    v = I.load(st, r)
    while isinstance(v, MutRef):
        r = v
        v = I.load(st, r)
    i = V(I, st, a[1])
    if isinstance(i, Poly):
        I.bounds(st, i, need_seq(I, v, e), e)
        return MutRef(r.cell, r.path + (('i', i),))
    lo, hi = I.range_of(i, seq_len(v), st, e)
    I.require(st, c_and(mk_leq(lo, hi), mk_leq(hi, seq_len(v))), 'slice out of bounds', e)
    return MutRef(r.cell, r.path + (('r', (lo, hi)),))


@meth('get')
def get(I, e, a, st):
    s = seqv(I, st, a[0], e)
    i = V(I, st, a[1])
    n = seq_len(s)
    if not isinstance(i, Poly):
        lo, hi = I.range_of(i, n, st, e)
        c = simp(c_and(mk_leq(lo, hi), mk_leq(hi, n)), st.f)
        return mk_gate([(c, Some(seq_slice(s, lo, hi, st.f.add(c)))), (c_not(c), NONE)]) if c.kind != 'F' else NONE
    c = simp(c_and(mk_leq(0, i), mk_lt(i, n)), st.f)
    if c.kind == 'F':
        return NONE
    return opt(c, seq_get(s, i, st.f.add(c)))


@meth('get_mut')
def get_mut(I, e, a, st):
    r = a[0]
    v = I.load(st, r)
    while isinstance(v, MutRef):
        r = v
        v = I.load(st, r)
    i = polyv(I, st, a[1], e)
    c = simp(c_and(mk_leq(0, i), mk_lt(i, seq_len(v))), st.f)
    return opt(c, MutRef(r.cell, r.path + (('i', i),))) if c.kind != 'F' else NONE


@meth('first')
def first(I, e, a, st):
    s = seqv(I, st, a[0], e)
    c = simp(mk_leq(1, seq_len(s)), st.f)
    return opt(c, seq_get(s, ZERO, st.f.add(c))) if c.kind != 'F' else NONE


@meth('last')
def last(I, e, a, st):
    s = itv(I, st, a[0], e)
    n = seq_len(s)
    c = simp(mk_leq(1, n), st.f)
    return opt(c, seq_get(s, n - 1, st.f.add(c))) if c.kind != 'F' else NONE


@meth('first_mut', 'last_mut')
def first_mut(I, e, a, st):
    r = a[0]
    v = I.load(st, r)
    while isinstance(v, MutRef):
        r = v
        v = I.load(st, r)
    n = seq_len(v)
    c = simp(mk_leq(1, n), st.f)
    return opt(c, MutRef(r.cell, r.path + (('i', ZERO if e['callee'].endswith('first_mut') else n - 1),))) \
        if c.kind != 'F' else NONE


@meth('split_at')
def split_at(I, e, a, st):
    s = seqv(I, st, a[0], e)
    k = polyv(I, st, a[1], e)
    I.require(st, c_and(mk_leq(0, k), mk_leq(k, seq_len(s))), 'split_at out of bounds', e)
    return tup(*seq_split(s, k, st.f))


@meth('split_off')
def split_off(I, e, a, st):
    s = seqv(I, st, a[0], e)
    k = polyv(I, st, a[1], e)
    I.require(st, c_and(mk_leq(0, k), mk_leq(k, seq_len(s))), 'split_off out of bounds', e)
    x, y = seq_split(s, k, st.f)
    update(I, st, a[0], lambda _: x, e)
    return y


@meth('drain')
def drain(I, e, a, st):
    s = seqv(I, st, a[0], e)
    lo, hi = I.range_of(V(I, st, a[1]), seq_len(s), st, e)
    I.require(st, c_and(mk_leq(lo, hi), mk_leq(hi, seq_len(s))), 'drain out of bounds', e)
    x, y = seq_split(s, hi, st.f)
    x, m = seq_split(x, lo, st.f)
    update(I, st, a[0], lambda _: concat(x, y), e)
    return m


@meth('split_first', 'split_last')
def split_first(I, e, a, st):
    s = seqv(I, st, a[0], e)
    n = seq_len(s)
    c = simp(mk_leq(1, n), st.f)
    if c.kind == 'F':
        return NONE
    f = st.f.add(c)
    if e['callee'].endswith('first'):
        x, y = seq_split(s, ONE, f)
        return opt(c, tup(seq_get(s, ZERO, f), y))
    x, y = seq_split(s, n - 1, f)
    return opt(c, tup(seq_get(s, n - 1, f), x))


@meth('concat')
def concat_(I, e, a, st):
    s = seqv(I, st, a[0], e)
    out = []
    for g in s.segs:
        nme = fresh('e')
        declare(nme, int=True)
        x = g.at(sym(nme, int=True))
        if g.flat:
            I.und('concat', e)
        x = I.val(st, x)
        if not isinstance(x, Seq):
            I.und('concat of %s' % type(x).__name__, e)
        out.append(mk_seg(g.n, nme, x, True))
    return Seq(out)


@meth('contains')
def contains(I, e, a, st):
    v = V(I, st, a[0])
    x = V(I, st, a[1])
    if isinstance(v, Struct):
        s, n = None, None
        t = v.ty
        if not isinstance(x, Poly):
            I.und('contains', e)
        if t.endswith('RangeInclusive'):
            return simp(c_and(mk_leq(I.val(st, v.get('start')), x), mk_leq(x, I.val(st, v.get('end')))), st.f)
        if t.endswith('Range'):
            return simp(c_and(mk_leq(I.val(st, v.get('start')), x), mk_lt(x, I.val(st, v.get('end')))), st.f)
        I.und('contains', e)
    s = seqv(I, st, a[0], e)
    r = FALSE
    for g in s.segs:
        nme = fresh('q')
        declare(nme, int=True)
        if g.flat:
            I.und('contains', e)
        r = c_or(r, mk_ex(g.n, nme, veq_cond(g.at(sym(nme, int=True)), x, st.f)))
    return r


@meth('starts_with')
def starts_with(I, e, a, st):
    s, y = seqv(I, st, a[0], e), seqv(I, st, a[1], e)
    n, m = seq_len(s), seq_len(y)
    c = simp(mk_leq(m, n), st.f)
    if c.kind == 'F':
        return FALSE
    f = st.f.add(c)
    return c_and(c, seq_eq(seq_split(s, m, f)[0], y, f))


# ------------------------------------------------------------------ iterators
@meth('next')
def next_(I, e, a, st):
    s = V(I, st, a[0])
    if isinstance(s, Struct):
        s = I.to_iter(s, st, e)
    if not isinstance(s, Seq):
        I.und('next', e)
    n = seq_len(s)
    c = simp(mk_leq(1, n), st.f)
    if c.kind == 'F':
        return NONE
    f = st.f.add(c)
    x = seq_get(s, ZERO, f)
    rest = seq_split(s, ONE, f)[1]
    update(I, st, a[0], lambda _: rest, e)
    return opt(c, x) if c.kind != 'T' else Some(x)


@meth('nth')
def nth(I, e, a, st):
    s = itv(I, st, a[0], e)
    i = polyv(I, st, a[1], e)
    c = simp(mk_lt(i, seq_len(s)), st.f)
    if c.kind == 'F':
        return NONE
    f = st.f.add(c)
    x = seq_get(s, i, f)
    if isinstance(a[0], MutRef):
        rest = seq_split(s, i + 1, f)[1]
        update(I, st, a[0], lambda _: rest, e)
    return opt(c, x)


@meth('map')
def map_(I, e, a, st):
    v = a[0] if not isinstance(a[0], MutRef) else V(I, st, a[0])
    if is_variant_val(v):
        return cases(I, st, v, {
            'Some': lambda s, x: Some(I.callv(a[1], [x.get('0')], s, e)), 'None': lambda s, x: NONE,
            'Ok': lambda s, x: Ok(I.callv(a[1], [x.get('0')], s, e)), 'Err': lambda s, x: x}, e)
    if isinstance(v, Opaque) and v.kind == 'stream':
        return Opaque('stream', lambda I2, k, s, e2: I.callv(a[1], [v.args[0](I2, k, s, e2)], s, e))
    seq = itv(I, st, a[0], e)
    return loops.map_seq(I, st, seq, lambda x, s: own(I, s, I.callv(a[1], [x], s, e), e), e)


def own(I, s, v, e):
    return v


@meth('for_each')
def for_each(I, e, a, st):
    seq = itv(I, st, a[0], e)
    return loops.run_seq(I, st, seq, lambda x, s: I.callv(a[1], [x], s, e), e, [])


@meth('filter')
def filter_(I, e, a, st):
    v = V(I, st, a[0]) if isinstance(a[0], MutRef) else a[0]
    if is_variant_val(v):
        def some(s, x):
            c = I.callv(a[1], [x.get('0')], s, e)
            return opt(simp(c, s.f), x.get('0'))
        return cases(I, st, v, {'Some': some, 'None': lambda s, x: NONE}, e)
    seq = itv(I, st, a[0], e)

    def f(x, s):
        c = simp(I.callv(a[1], [x], s, e), s.f)
        return Seq([Seg(ind(c), x, False, 0)])
    return loops.seq_each(I, st, seq, f, e)


@meth('filter_map')
def filter_map(I, e, a, st):
    seq = itv(I, st, a[0], e)

    def f(x, s):
        v = I.callv(a[1], [x], s, e)
        alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
        out = EMPTY_SEQ
        for c, y in alts:
            if y.variant == 'Some':
                out = concat(out, Seq([Seg(ind(c), y.get('0'), False, 0)]))
        return out
    return loops.seq_each(I, st, seq, f, e)


@meth('flat_map', 'flat_map_iter')
def flat_map(I, e, a, st):
    seq = itv(I, st, a[0], e)
    return loops.seq_each(I, st, seq, lambda x, s: I.to_iter(I.callv(a[1], [x], s, e), s, e), e)


@meth('flatten')
def flatten(I, e, a, st):
    v = V(I, st, a[0]) if isinstance(a[0], MutRef) else a[0]
    if is_variant_val(v):
        return cases(I, st, v, {'Some': lambda s, x: x.get('0'), 'None': lambda s, x: NONE,
                                'Ok': lambda s, x: x.get('0'), 'Err': lambda s, x: x}, e)
    seq = itv(I, st, a[0], e)
    return loops.seq_each(I, st, seq, lambda x, s: I.to_iter(x, s, e), e)


@meth('enumerate')
def enumerate_(I, e, a, st):
    seq = itv(I, st, a[0], e)
    return zip_seqs([seq_fn(seq_len(seq), lambda i: i), seq], st.f)


@meth('zip', 'zip_eq')
def zip_(I, e, a, st):
    v = V(I, st, a[0]) if isinstance(a[0], MutRef) else a[0]
    if is_variant_val(v):
        w = V(I, st, a[1])
        return cases(I, st, v, {'Some': lambda s, x: cases(I, s, w, {
            'Some': lambda s2, y: Some(tup(x.get('0'), y.get('0'))), 'None': lambda s2, y: NONE}, e),
            'None': lambda s, x: NONE}, e)
    if isinstance(v, Opaque) and v.kind == 'stream' or isinstance(a[1], Opaque) and a[1].kind == 'stream':
        return zip_stream(I, e, v, a[1], st)
    if isinstance(v, Struct) and v.ty.endswith('RangeFrom') or isinstance(a[1], Struct) and a[1].ty.endswith('RangeFrom'):
        if isinstance(v, Struct) and v.ty.endswith('RangeFrom'):
            y = itv(I, st, a[1], e)
            return zip_seqs([seq_fn(seq_len(y), lambda i: v.get('start') + i), y], st.f)
        x = itv(I, st, a[0], e)
        return zip_seqs([x, seq_fn(seq_len(x), lambda i: a[1].get('start') + i)], st.f)
    x, y = itv(I, st, a[0], e), itv(I, st, a[1], e)
    if e['callee'].endswith('zip_eq'):
        I.require(st, mk_eq(seq_len(x) - seq_len(y)), 'zip_eq of different lengths', e)
    return zip_seqs([x, y], st.f)


def zip_stream(I, e, v, w, st):
    if isinstance(v, Opaque) and v.kind == 'stream':
        y = I.to_iter(w, st, e)
        x = take_stream(I, e, v, seq_len(y), st)
    else:
        x = I.to_iter(v, st, e)
        y = take_stream(I, e, w, seq_len(x), st)
    return zip_seqs([x, y], st.f)


def take_stream(I, e, v, n, st):
    seq = seq_fn(n, lambda i: i)
    return loops.map_seq(I, st, seq, lambda k, s: v.args[0](I, k, s, e), e)


@full('core::iter::sources::repeat::repeat', 'core::iter::sources::repeat_n::repeat_n', 'rayon::iter::repeat::repeatn',
      'rayon::iter::repeat_n', 'rayon::iter::repeat::repeat_n')
def repeat(I, e, a, st):
    x = V(I, st, a[0])
    if len(a) > 1:
        return Seq([Seg(polyv(I, st, a[1], e), x, False, 0)])
    return Opaque('stream', lambda I2, k, s, e2: x)


@full('core::iter::sources::repeat_with::repeat_with')
def repeat_with(I, e, a, st):
    return Opaque('stream', lambda I2, k, s, e2: I.callv(a[0], [], s, e))


@full('core::iter::sources::once::once')
def once(I, e, a, st):
    return seq_of(V(I, st, a[0]))


@full('core::iter::sources::successors::successors')
def successors(I, e, a, st):
    v = V(I, st, a[0])
    if not (isinstance(v, Struct) and v.variant == 'Some'):
        I.und('successors', e)
    I.tmpn += 1
    cell = 'succ%d' % I.tmpn
    st.mem[cell] = v.get('0')

    def nxt(I2, k, s, e2):
        cur = s.mem[cell]
        n = I.callv(a[1], [cur], s, e)
        if not (isinstance(n, Struct) and n.variant == 'Some'):
            I.und('successors that end', e)
        s.mem[cell] = n.get('0')
        return cur
    return Opaque('stream', nxt)


@meth('chain')
def chain(I, e, a, st):
    return concat(itv(I, st, a[0], e), itv(I, st, a[1], e))


@meth('rev')
def rev(I, e, a, st):
    return seq_rev(itv(I, st, a[0], e))


@meth('skip')
def skip(I, e, a, st):
    v = V(I, st, a[0]) if isinstance(a[0], MutRef) else a[0]
    k = polyv(I, st, a[1], e)
    if isinstance(v, Struct) and v.ty.endswith('RangeFrom'):
        return Struct(v.ty, None, [('start', v.get('start') + k)])
    s = itv(I, st, a[0], e)
    n = seq_len(s)
    c = simp(mk_leq(k, n), st.f)
    if c.kind == 'T':
        return seq_split(s, k, st.f)[1]
    if len(s.segs) == 1 and not s.segs[0].flat:
        # beyond the end nothing is left, so the elements may be counted from k in any case
        g = s.segs[0]
        return seq_fn(ite(c, n - k, ZERO), lambda j: g.at(j + k))
    k = ite(c, k, n)
    return seq_split(s, k, st.f)[1]


@meth('take')
def take(I, e, a, st):
    v = V(I, st, a[0]) if isinstance(a[0], MutRef) else a[0]
    if len(a) == 1 or (e.get('callee') or '').startswith('core::mem'):
        # Option::take / mem::take
        if is_variant_val(v):
            update(I, st, a[0], lambda _: NONE, e)
        elif isinstance(v, Seq):
            update(I, st, a[0], lambda _: EMPTY_SEQ, e)
        else:
            I.und('take', e)
        return v
    k = polyv(I, st, a[1], e)
    if isinstance(v, Opaque) and v.kind == 'stream':
        return take_stream(I, e, v, k, st)
    if isinstance(v, Struct) and v.ty.endswith('RangeFrom'):
        return seq_fn(k, lambda i: v.get('start') + i)
    s = itv(I, st, a[0], e)
    n = seq_len(s)
    c = simp(mk_leq(k, n), st.f)
    k2 = k if c.kind == 'T' else ite(c, k, n)
    x, y = seq_split(s, k2, st.f)
    if isinstance(a[0], MutRef):
        update(I, st, a[0], lambda _: y, e)
    return x


@meth('step_by')
def step_by(I, e, a, st):
    s = itv(I, st, a[0], e)
    k = polyv(I, st, a[1], e).cval()
    if k is None or k < 1:
        I.und('step_by', e)
    n = seq_len(s)
    q, r = divmod_poly(n + (k - 1), k, st.f)
    f = st.f
    return seq_fn(q, lambda i: seq_get(s, i * k, f.add(mk_leq(0, i), mk_lt(i, q), mk_lt(i * k, n))))


@meth('chunks', 'par_chunks', 'chunks_exact')
def chunks(I, e, a, st):
    s = seqv(I, st, a[0], e)
    k = polyv(I, st, a[1], e).cval()
    if k is None:
        I.und('chunk size', e)
    I.require(st, TRUE if k > 0 else FALSE, 'chunk size is zero', e)
    n = seq_len(s)
    f = st.f
    q, r = divmod_poly(n, k, f)
    r = simp(r, f)

    def piece(i):
        g = f.add(mk_leq(0, i), mk_lt(i, q))
        return seq_of(*[seq_get(s, i * k + j, g.add(mk_leq(0, i * k + j), mk_lt(i * k + j, n))) for j in range(k)])
    full_ = seq_fn(q, piece)
    if r.is_zero() or e['callee'].endswith('chunks_exact'):
        return full_
    # a last, shorter piece when the length is not a multiple
    has = simp(c_not(mk_eq(r)), f)
    if has.kind == 'F':
        return full_
    tail = seq_slice(s, q * k, n, f)
    return Seq(list(full_.segs) + [Seg(ind(has), tail, False, 0)])


@meth('windows')
def windows(I, e, a, st):
    s = seqv(I, st, a[0], e)
    k = polyv(I, st, a[1], e).cval()
    if k is None or k < 1:
        I.und('windows', e)
    n = seq_len(s)
    m = n - (k - 1)
    c = simp(mk_leq(0, m), st.f)
    if c.kind != 'T':
        m = ite(c, m, ZERO)
    f = st.f
    return seq_fn(m, lambda i: seq_of(*[seq_get(s, i + j, f.add(mk_leq(0, i), mk_lt(i, m), mk_lt(i + j, n)))
                                        for j in range(k)]))


def hidden(I, st, init):
    I.tmpn += 1
    cell = 'acc%d' % I.tmpn
    st.mem[cell] = init
    return cell


@meth('fold')
def fold(I, e, a, st):
    seq = itv(I, st, a[0], e)
    if (e.get('callee') or '').startswith('rayon'):
        I.und('parallel fold', e)
    cell = hidden(I, st, V(I, st, a[1]))

    def step(x, s):
        s.mem[cell] = V(I, s, I.callv(a[2], [s.mem[cell], x], s, e))
    loops.run_seq(I, st, seq, step, e, [])
    r = st.mem.pop(cell)
    if isinstance(r, M.Poison):
        I.und(r.why, e)
    return r


@meth('reduce')
def reduce(I, e, a, st):
    seq = itv(I, st, a[0], e)
    if (e.get('callee') or '').startswith('rayon'):
        init = I.callv(a[1], [], st, e)
        cell = hidden(I, st, V(I, st, init))

        def step(x, s):
            s.mem[cell] = V(I, s, I.callv(a[2], [s.mem[cell], x], s, e))
        loops.run_seq(I, st, seq, step, e, [])
        r = st.mem.pop(cell)
        if isinstance(r, M.Poison):
            I.und(r.why, e)
        return r
    n = seq_len(seq)
    c = simp(mk_leq(1, n), st.f)
    if c.kind == 'F':
        return NONE
    f = st.f.add(c)
    cell = hidden(I, st, V(I, st, seq_get(seq, ZERO, f)))

    def step(x, s):
        s.mem[cell] = V(I, s, I.callv(a[1], [s.mem[cell], x], s, e))
    loops.run_seq(I, st, seq_split(seq, ONE, f)[1], step, e, [])
    r = st.mem.pop(cell)
    if isinstance(r, M.Poison):
        I.und(r.why, e)
    return opt(c, r)


@meth('sum')
def sum_(I, e, a, st):
    seq = itv(I, st, a[0], e)
    if is_target(I, e['t']):
        I.und('sum in the target field', e)
    t = I.c.ty(e['t'])
    if t.get('k') == 'adt' and t['p'].endswith(('Option', 'Result')):
        I.und('sum of results', e)
    return sseq(deep(I, st, seq))


def deep(I, st, seq):
    out = []
    for g in seq.segs:
        nme = fresh('e')
        declare(nme, int=True)
        x = g.at(sym(nme, int=True))
        x = deep(I, st, x) if g.flat else I.val(st, x)
        out.append(mk_seg(g.n, nme, x, g.flat))
    return Seq(out)


@meth('product')
def product(I, e, a, st):
    seq = deep(I, st, itv(I, st, a[0], e))
    if is_target(I, e['t']):
        return sseq(seq)
    r = ONE
    for g in seq.segs:
        if g.flat:
            I.und('product', e)
        nme = fresh('s')
        declare(nme, int=True)
        r = r * mkprod(g.n, nme, g.at(sym(nme, int=True)))
    return r


def quant(I, e, a, st, stop):
    """any (stop=True) / all (stop=False) with short circuit"""
    seq = itv(I, st, a[0], e)
    lab = ('q', e.get('u', 0), id(a[1]))

    def step(x, s):
        c = simp(I.callv(a[1], [x], s, e), s.f)
        hit = c if stop else c_not(c)
        I.fork(s, [(hit, lambda s2: I.exit('break', lab, TRUE if stop else FALSE, s2)), (c_not(hit), lambda s2: UNIT)], e)
    return loops.run_seq(I, st, seq, step, e, [lab], lambda s: FALSE if stop else TRUE)


@meth('any')
def any_(I, e, a, st):
    return quant(I, e, a, st, True)


@meth('all')
def all_(I, e, a, st):
    return quant(I, e, a, st, False)


def search(I, e, a, st, val, none=NONE):
    seq = itv(I, st, a[0], e)
    lab = ('q', e.get('u', 0), id(a[1]))
    n = seq_len(seq)
    pairs = zip_seqs([seq_fn(n, lambda i: i), seq], st.f)

    def step(p, s):
        i, x = p.get('0'), p.get('1')
        v = I.callv(a[1], [x], s, e)
        if is_variant_val(v):
            c = variant_cond(v, ('Some',))
        else:
            c = v
        c = simp(c, s.f)
        I.fork(s, [(c, lambda s2: I.exit('break', lab, val(i, x, v, s2), s2)), (c_not(c), lambda s2: UNIT)], e)
    return loops.run_seq(I, st, pairs, step, e, [lab], lambda s: none)


@meth('find', 'find_first')
def find(I, e, a, st):
    return search(I, e, a, st, lambda i, x, v, s: Some(x))


@meth('position', 'position_first')
def position(I, e, a, st):
    return search(I, e, a, st, lambda i, x, v, s: Some(i))


@meth('find_map')
def find_map(I, e, a, st):
    def val(i, x, v, s):
        return Some(I.gate_get(v, lambda y: y.get('0'), (('v', 'Some'),)) if isinstance(v, Gate) else v.get('0'))
    return search(I, e, a, st, val)


@meth('skip_while')
def skip_while(I, e, a, st):
    seq = itv(I, st, a[0], e)
    n = seq_len(seq)
    k = search(I, e, [seq, M.PyFn(lambda I2, ar, s, e2: c_not(I2.callv(a[1], ar, s, e)))], st, lambda i, x, v, s: i, n)
    return seq_split(seq, k, st.f.add(mk_leq(0, k), mk_leq(k, n)))[1]


@meth('take_while', 'map_while')
def take_while(I, e, a, st):
    seq = itv(I, st, a[0], e)
    if e['callee'].endswith('map_while'):
        I.und('map_while', e)
    n = seq_len(seq)
    k = search(I, e, [seq, M.PyFn(lambda I2, ar, s, e2: c_not(I2.callv(a[1], ar, s, e)))], st, lambda i, x, v, s: i, n)
    return seq_split(seq, k, st.f.add(mk_leq(0, k), mk_leq(k, n)))[0]


@meth('inspect')
def inspect(I, e, a, st):
    seq = itv(I, st, a[0], e)
    return loops.map_seq(I, st, seq, lambda x, s: (I.callv(a[1], [x], s, e), x)[1], e)


@meth('scan')
def scan(I, e, a, st):
    seq = itv(I, st, a[0], e)
    cell = hidden(I, st, V(I, st, a[1]))

    def f(x, s):
        r = I.callv(a[2], [MutRef(cell), x], s, e)
        if not (isinstance(r, Struct) and r.variant == 'Some'):
            I.und('scan that ends early', e)
        return r.get('0')
    return loops.map_seq(I, st, seq, f, e)


@meth('unzip')
def unzip(I, e, a, st):
    seq = itv(I, st, a[0], e)
    return tup(map_pure(seq, lambda x: x.get('0')), map_pure(seq, lambda x: x.get('1')))


@meth('partition')
def partition(I, e, a, st):
    I.und('partition', e)


@meth('collect', 'collect_vec')
def collect(I, e, a, st):
    t = ty(I, e['t'])
    if t.get('k') == 'adt':
        p = t['p']
        if p.endswith('string::String'):
            return Opaque('fmt')
        if p.endswith(('result::Result', 'option::Option')):
            return collect_res(I, e, itv(I, st, a[0], e), st, p.endswith('option::Option'))
        if not p.endswith(('vec::Vec', 'Box', 'VecDeque')):
            I.und('collect into %s' % p, e)
    v = V(I, st, a[0]) if isinstance(a[0], MutRef) else a[0]
    if isinstance(v, (Poly, Cond)):
        return v
    return deep_refs(I, st, itv(I, st, a[0], e))


def deep_refs(I, st, s):
    return s


def collect_res(I, e, seq, st, isopt):
    lab = ('collect', e.get('u', 0))
    cell = hidden(I, st, EMPTY_SEQ)

    def step(x, s):
        def good(s2, v):
            s2.mem[cell] = concat(s2.mem[cell], seq_of(v.get('0')))
            return UNIT

        def bad(s2, v):
            I.exit('break', lab, v, s2)
        cases(I, s, V(I, s, x), {'Ok': good, 'Some': good, 'Err': bad, 'None': bad}, e)

    def fin(s):
        r = s.mem.get(cell)
        if isinstance(r, M.Poison):
            I.und(r.why, e)
        return Some(r) if isopt else Ok(r)
    r = loops.run_seq(I, st, seq, step, e, [lab], fin)
    st.mem.pop(cell, None)
    return r


@meth('try_for_each')
def try_for_each(I, e, a, st):
    lab = ('tryfe', e.get('u', 0), id(a[1]))
    seq = itv(I, st, a[0], e)
    t = ty(I, e['t'])

    def step(x, s):
        v = I.callv(a[1], [x], s, e)
        cases(I, s, v, {'Ok': lambda s2, y: UNIT, 'Some': lambda s2, y: UNIT,
                        'Err': lambda s2, y: I.exit('break', lab, y, s2),
                        'None': lambda s2, y: I.exit('break', lab, y, s2)}, e)
    return loops.run_seq(I, st, seq, step, e, [lab],
                         lambda s: Some(UNIT) if t.get('p', '').endswith('Option') else Ok(UNIT))


@meth('try_fold')
def try_fold(I, e, a, st):
    lab = ('tryf', e.get('u', 0), id(a[1]))
    seq = itv(I, st, a[0], e)
    cell = hidden(I, st, V(I, st, a[1]))
    t = ty(I, e['t'])

    def step(x, s):
        v = I.callv(a[2], [s.mem[cell], x], s, e)

        def good(s2, y):
            s2.mem[cell] = y.get('0')
            return UNIT
        cases(I, s, v, {'Ok': good, 'Some': good, 'Err': lambda s2, y: I.exit('break', lab, y, s2),
                        'None': lambda s2, y: I.exit('break', lab, y, s2)}, e)

    def fin(s):
        r = s.mem.get(cell)
        if isinstance(r, M.Poison):
            I.und(r.why, e)
        return Some(r) if t.get('p', '').endswith('Option') else Ok(r)
    r = loops.run_seq(I, st, seq, step, e, [lab], fin)
    st.mem.pop(cell, None)
    return r


@full('rayon_core::join::join', 'rayon::join')
def join(I, e, a, st):
    x = I.callv(a[0], [], st, e)
    y = I.callv(a[1], [], st, e)
    return tup(x, y)


# ------------------------------------------------------------------ options and results
def vt(names):
    def f(I, e, a, st):
        return simp(variant_cond(V(I, st, a[0]), names), st.f)
    return f


M_['is_some'] = vt(('Some',))
M_['is_none'] = vt(('None',))
M_['is_ok'] = vt(('Ok',))
M_['is_err'] = vt(('Err',))


@meth('is_some_and', 'is_ok_and', 'is_none_or')
def is_some_and(I, e, a, st):
    no = TRUE if e['callee'].endswith('none_or') else FALSE
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: I.callv(a[1], [x.get('0')], s, e), 'None': lambda s, x: no,
                                         'Ok': lambda s, x: I.callv(a[1], [x.get('0')], s, e), 'Err': lambda s, x: no}, e)


@meth('unwrap', 'expect')
def unwrap(I, e, a, st):
    v = V(I, st, a[0])
    if not is_variant_val(v):
        I.und('unwrap of %s' % type(v).__name__, e)
    c = simp(variant_cond(v, ('Some', 'Ok')), st.f)
    I.require(st, c, 'unwrap', e)
    alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
    good = [(c, x.get('0')) for c, x in alts if x.variant in ('Some', 'Ok')]
    if len(good) == 1:
        return good[0][1]
    return mk_gate(good)


@meth('unwrap_err', 'expect_err')
def unwrap_err(I, e, a, st):
    v = V(I, st, a[0])
    c = simp(variant_cond(v, ('Err',)), st.f)
    I.require(st, c, 'unwrap_err', e)
    alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
    return mk_gate([(c, x.get('0')) for c, x in alts if x.variant == 'Err'])


@meth('unwrap_or')
def unwrap_or(I, e, a, st):
    d = V(I, st, a[1])
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: x.get('0'), 'Ok': lambda s, x: x.get('0'),
                                         'None': lambda s, x: d, 'Err': lambda s, x: d}, e)


@meth('unwrap_or_else')
def unwrap_or_else(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: x.get('0'), 'Ok': lambda s, x: x.get('0'),
                                         'None': lambda s, x: I.callv(a[1], [], s, e),
                                         'Err': lambda s, x: I.callv(a[1], [x.get('0')], s, e)}, e)


@meth('unwrap_or_default')
def unwrap_or_default(I, e, a, st):
    t = ty(I, e['t'])
    d = vec_new(I, dict(e, callee='default'), [], st)
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: x.get('0'), 'Ok': lambda s, x: x.get('0'),
                                         'None': lambda s, x: d, 'Err': lambda s, x: d}, e)


@meth('ok_or')
def ok_or(I, e, a, st):
    d = V(I, st, a[1])
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: Ok(x.get('0')), 'None': lambda s, x: Err(d)}, e)


@meth('ok_or_else')
def ok_or_else(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: Ok(x.get('0')),
                                         'None': lambda s, x: Err(I.callv(a[1], [], s, e))}, e)


@meth('ok')
def ok(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Ok': lambda s, x: Some(x.get('0')), 'Err': lambda s, x: NONE}, e)


@meth('err')
def err(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Err': lambda s, x: Some(x.get('0')), 'Ok': lambda s, x: NONE}, e)


@meth('map_err')
def map_err(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Ok': lambda s, x: x, 'Err': lambda s, x: Err(I.callv(a[1], [x.get('0')], s, e))}, e)


@meth('and_then')
def and_then(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: I.callv(a[1], [x.get('0')], s, e), 'None': lambda s, x: NONE,
                                         'Ok': lambda s, x: I.callv(a[1], [x.get('0')], s, e), 'Err': lambda s, x: x}, e)


@meth('and')
def and_(I, e, a, st):
    y = V(I, st, a[1])
    v = V(I, st, a[0])
    if isinstance(v, Struct) and v.ty == 'R1Bool':
        return groth.r1_op(I, e, a, st, 'and')
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: y, 'None': lambda s, x: x, 'Ok': lambda s, x: y,
                                         'Err': lambda s, x: x}, e)


@meth('or_else')
def or_else(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: x, 'None': lambda s, x: I.callv(a[1], [], s, e),
                                         'Ok': lambda s, x: x, 'Err': lambda s, x: I.callv(a[1], [x.get('0')], s, e)}, e)


@meth('or')
def or_(I, e, a, st):
    y = V(I, st, a[1])
    v = V(I, st, a[0])
    if isinstance(v, Struct) and v.ty == 'R1Bool':
        return r1_or(I, e, a, st)
    return cases(I, st, v, {'Some': lambda s, x: x, 'None': lambda s, x: y, 'Ok': lambda s, x: x,
                            'Err': lambda s, x: y}, e)


@meth('map_or')
def map_or(I, e, a, st):
    d = V(I, st, a[1])
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: I.callv(a[2], [x.get('0')], s, e), 'None': lambda s, x: d,
                                         'Ok': lambda s, x: I.callv(a[2], [x.get('0')], s, e), 'Err': lambda s, x: d}, e)


@meth('map_or_else')
def map_or_else(I, e, a, st):
    return cases(I, st, V(I, st, a[0]), {'Some': lambda s, x: I.callv(a[2], [x.get('0')], s, e),
                                         'None': lambda s, x: I.callv(a[1], [], s, e),
                                         'Ok': lambda s, x: I.callv(a[2], [x.get('0')], s, e),
                                         'Err': lambda s, x: I.callv(a[1], [x.get('0')], s, e)}, e)


@meth('replace')
def replace(I, e, a, st):
    v = V(I, st, a[0])
    x = V(I, st, a[1])
    if (e.get('callee') or '').startswith('core::mem'):
        update(I, st, a[0], lambda _: x, e)
        return v
    if is_variant_val(v):
        update(I, st, a[0], lambda _: Some(x), e)
        return v
    I.und('replace', e)


@meth('then')
def then(I, e, a, st):
    c = V(I, st, a[0])
    if not isinstance(c, Cond):
        I.und('then', e)
    return I.fork(st, [(c, lambda s: Some(I.callv(a[1], [], s, e))), (c_not(c), lambda s: NONE)], e)


@meth('then_some')
def then_some(I, e, a, st):
    c = V(I, st, a[0])
    x = V(I, st, a[1])
    return opt(simp(c, st.f), x)


@meth('branch')
def branch(I, e, a, st):
    B = 'core::ops::control_flow::ControlFlow'
    return cases(I, st, V(I, st, a[0]), {
        'Ok': lambda s, x: Struct(B, 'Continue', [('0', x.get('0'))]), 'Err': lambda s, x: Struct(B, 'Break', [('0', x)]),
        'Some': lambda s, x: Struct(B, 'Continue', [('0', x.get('0'))]), 'None': lambda s, x: Struct(B, 'Break', [('0', x)])}, e)


@meth('from_residual', 'from_output')
def from_residual(I, e, a, st):
    if e['callee'].endswith('output'):
        return Ok(a[0])
    return V(I, st, a[0])


# ------------------------------------------------------------------ misc
@meth('drop', 'forget', '_print', '_eprint')
def drop(I, e, a, st):
    return UNIT


@meth('call', 'call_mut', 'call_once')
def call(I, e, a, st):
    args = V(I, st, a[1]) if len(a) > 1 else UNIT
    return I.callv(a[0], [x for _, x in args.fields], st, e)


@full('core::convert::identity', 'core::hint::must_use')
def identity(I, e, a, st):
    return a[0]


def r1_or(I, e, a, st):
    return groth.r1_or(I, e, a, st)


import groth  # noqa: E402
groth.install(meth, full)

import serial  # noqa: E402
serial.install(meth, full)
