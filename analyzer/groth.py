"""Axioms for the Groth16 implementation and the R1CS gadgets of the arkworks libraries.

Constraint system: a record of the instance assignments, the witness assignments and the conjunction of enforced
constraints.  Booleans of the gadget library are conditions over the bits of allocated variables."""
import term as T
from term import *
from facts import Facts, simp, equal
from values import *
import interp as M
from build import EXT

VK = 'ark_groth16::data_structures::VerifyingKey'
PK = 'ark_groth16::data_structures::ProvingKey'
PROOF = 'ark_groth16::data_structures::Proof'
R1 = 'R1CS'
CS = '$cs'


def R1Bool(c):
    return Struct('R1Bool', None, [('c', c)])


def new_cs(I, st, mode):
    I.tmpn += 1
    cell = '%s%d' % (CS, I.tmpn)
    st.mem[cell] = Struct(R1, None, [('inputs', EMPTY_SEQ), ('wits', EMPTY_SEQ), ('sat', TRUE), ('mode', Opaque(mode))])
    return cell, Opaque('cs', cell)


def cs_of(I, st, a):
    v = a
    n = 0
    while isinstance(v, MutRef):
        v = I.load(st, v)
        n += 1
    if not (isinstance(v, Opaque) and v.kind == 'cs'):
        I.und('constraint system handle')
    return v.args[0]


def r1b(I, st, a, e):
    v = I.val(st, a)
    if isinstance(v, Gate):
        v = I.gate_get(v, lambda x: x, ())
    if not (isinstance(v, Struct) and v.ty == 'R1Bool'):
        I.und('boolean gadget', e)
    return v.get('c')


def synth(I, st, circuit, e, mode):
    """run the circuit's generate_constraints: (result value, final constraint system)"""
    circ = I.val(st, circuit)
    key = None
    if isinstance(circ, Struct):
        for im in I.c.impls:
            if (im.get('trait') or '').endswith('ConstraintSynthesizer'):
                s = I.c.ty(im['self']) if isinstance(im['self'], int) else {}
                if s.get('p') == circ.ty:
                    for it in im['items']:
                        if it.split('::')[-1] == 'generate_constraints':
                            key = it
    if key is None:
        n = sym('CIRC_INPUTS', int=True)
        return Ok(UNIT), Struct(R1, None, [('inputs', seq_fn(n, lambda i: sym('CIRC_IN', i))), ('wits', EMPTY_SEQ),
                                           ('sat', mk_bool(sym('CIRC_SAT', int=True))), ('mode', Opaque(mode))])
    cell, h = new_cs(I, st, mode)
    r = I.call_key(key, [circ, h], st, e)
    return r, st.mem.pop(cell)


def install(meth, full):
    import prims

    @meth('new_variable', 'new_input', 'new_witness', 'new_constant')
    def new_variable(I, e, a, st):
        cell = cs_of(I, st, a[0])
        cs = st.mem[cell]
        m = e['callee'].split('::')[-1]
        if m == 'new_variable':
            mode = I.val(st, a[2])
        else:
            mode = Struct('AllocationMode', {'new_input': 'Input', 'new_witness': 'Witness', 'new_constant': 'Constant'}[m], [])
        where = I.name('r1v', e.get('u', 0))
        declare(where, int=False)
        free = sym(where, *I.idx)

        def alloc(s, v):
            def put(s2, md):
                cs = s2.mem[cell]
                f = {'Input': 'inputs', 'Witness': 'wits'}.get(md)
                if f and not getattr(I, 'blank', False):
                    s2.mem[cell] = cs.with_field(f, concat(cs.get(f), seq_of(v)))
                return Ok(Struct('R1Var', None, [('v', v)]))
            alts = mode.alts if isinstance(mode, Gate) else ((TRUE, mode),)
            return I.fork(s, [(c, (lambda mv: lambda s2: put(s2, mv))(x.variant)) for c, x in alts], e)
        if cs.get('mode').kind == 'setup':
            return alloc(st, free)
        if m == 'new_constant':
            return alloc(st, I.val(st, a[1]))
        r = I.callv(a[1], [], st, e)
        if isinstance(r, Poly):
            return alloc(st, r)
        return prims.cases(I, st, r, {'Ok': lambda s, x: alloc(s, I.val(s, x.get('0'))), 'Err': lambda s, x: x}, e)

    @meth('num_constraints', 'num_witness_variables', 'num_instance_variables')
    def num_constraints(I, e, a, st):
        n = I.name('r1count', e.get('u', 0))
        declare(n, int=True, rng=lambda idx: (ZERO, None))
        return sym(n, *I.idx, int=True)

    @meth('to_non_unique_bits_le', 'to_bits_le', 'to_bits_be', 'to_non_unique_bits_be')
    def to_bits(I, e, a, st):
        v = I.val(st, a[0])
        if isinstance(v, Gate):
            v = I.gate_get(v, lambda x: x, ())
        if not (isinstance(v, Struct) and v.ty == 'R1Var'):
            I.und('bits of %r' % (v,), e)
        x = v.get('v')
        if getattr(I, 'blank', False):
            return Ok(seq_fn(T.FIELD['bits'], lambda k: R1Bool(FALSE)))
        if isinstance(x, Poly) and any(k.startswith(CS) for k in st.mem):
            cell = [k for k in st.mem if k.startswith(CS)][0]
            cs = st.mem[cell]
            st.mem[cell] = cs.with_field('wits', concat(cs.get('wits'), seq_of(Struct('R1Bits', None, [('v', x)]))))
        s = seq_fn(T.FIELD['bits'], lambda k: R1Bool(mk_bool(app('r1bit', x, k, int=True))))
        if e['callee'].endswith('be'):
            s = prims.seq_rev(s)
        return Ok(s)

    @meth('constant')
    def constant(I, e, a, st):
        c = I.val(st, a[0])
        if isinstance(c, Cond):
            return R1Bool(c)
        return Struct('R1Var', None, [('v', c)])

    @meth('enforce_equal')
    def enforce_equal(I, e, a, st):
        x, y = I.val(st, a[0]), I.val(st, a[1])
        if isinstance(x, Struct) and x.ty == 'R1Var':
            c = var_eq(I, x, y, e)
        else:
            p, q = r1b(I, st, x, e), r1b(I, st, y, e)
            c = simp(c_or(c_and(p, q), c_and(c_not(p), c_not(q))), st.f)
        return enforce(I, st, c, e)

    @meth('conditional_enforce_equal')
    def cond_enforce_equal(I, e, a, st):
        x, y = I.val(st, a[0]), I.val(st, a[1])
        g = r1b(I, st, a[2], e)
        if isinstance(x, Struct) and x.ty == 'R1Var':
            c = var_eq(I, x, y, e)
        else:
            p, q = r1b(I, st, x, e), r1b(I, st, y, e)
            c = c_or(c_and(p, q), c_and(c_not(p), c_not(q)))
        return enforce(I, st, simp(c_or(c_not(g), c), st.f), e)

    @meth('is_eq', 'is_neq')
    def is_eq(I, e, a, st):
        x, y = I.val(st, a[0]), I.val(st, a[1])
        if isinstance(x, Struct) and x.ty == 'R1Var':
            c = var_eq(I, x, y, e)
        else:
            p, q = r1b(I, st, x, e), r1b(I, st, y, e)
            c = simp(c_or(c_and(p, q), c_and(c_not(p), c_not(q))), st.f)
        return Ok(R1Bool(c_not(c) if e['callee'].endswith('is_neq') else c))

    @meth('mul_equals')
    def mul_equals(I, e, a, st):
        x, y, z = [I.val(st, v) for v in a[:3]]
        if not all(isinstance(v, Struct) and v.ty == 'R1Var' and isinstance(v.get('v'), Poly) for v in (x, y, z)):
            I.und('multiplication constraint', e)
        return enforce(I, st, mk_eq(x.get('v') * y.get('v') - z.get('v')), e)

    @meth('xor')
    def xor(I, e, a, st):
        return r1_op(I, e, a, st, 'xor')

    @meth('kary_nand')
    def kary_nand(I, e, a, st):
        return Ok(R1Bool(exists(I, st, prims.seqv(I, st, a[0], e), e, True)))

    @meth('le_bits_to_fp_var')
    def le_bits(I, e, a, st):
        s = prims.seqv(I, st, a[0], e)
        if len(s.segs) == 1 and not s.segs[0].flat:
            g = s.segs[0]
            nme = fresh('k')
            declare(nme, int=True)
            k = sym(nme, int=True)
            c = g.at(k).get('c')
            x = bit_of(c, k)
            if x is not None:
                if getattr(I, 'blank', False):
                    return Ok(Struct('R1Var', None, [('v', ZERO)]))
                return Ok(Struct('R1Var', None, [('v', app('r1low', x, g.n)), ('low', (x, g.n))]))
        I.und('recomposition of bits', e)

    @meth('enforce_not_equal')
    def enforce_ne(I, e, a, st):
        p, q = r1b(I, st, a[0], e), r1b(I, st, a[1], e)
        return enforce(I, st, c_or(c_and(p, c_not(q)), c_and(c_not(p), q)), e)

    @meth('kary_or')
    def kary_or(I, e, a, st):
        return Ok(R1Bool(exists(I, st, prims.seqv(I, st, a[0], e), e)))

    @meth('kary_and')
    def kary_and(I, e, a, st):
        return Ok(R1Bool(c_not(exists(I, st, prims.seqv(I, st, a[0], e), e, True))))

    @meth('generate_parameters_with_qap')
    def gen_params(I, e, a, st):
        al, be, ga, de, g1, g2 = [prims.polyv(I, st, x, e) for x in a[1:7]]
        r, cs = synth(I, st, a[0], e, 'setup')
        prims.draw(I, dict(e, t=I.c.types.index(next(t for t in I.c.types if t['k'] == 'alias')) if False else e['t']),
                   st, prims.rng_of(I, st, a[7]), 'qap')

        def ok(s, x):
            n = seq_len(cs.get('inputs')) + 1
            gi = inv(ga)
            di = inv(de)
            vk = Struct(VK, None, [('alpha_g1', al * g1), ('beta_g2', be * g2), ('gamma_g2', ga * g2), ('delta_g2', de * g2),
                                   ('gamma_abc_g1', seq_fn(n, lambda i: sym('QAP', i) * gi * g1))])
            q = lambda nm, g: seq_fn(sym('len:' + nm, int=True), lambda i: sym(nm, i) * g)
            pk = Struct(PK, None, [('vk', vk), ('beta_g1', be * g1), ('delta_g1', de * g1), ('a_query', q('QAP_A', g1)),
                                   ('b_g1_query', q('QAP_B', g1)), ('b_g2_query', q('QAP_B', g2)),
                                   ('h_query', q('QAP_H', di * g1)), ('l_query', q('QAP_L', di * g1))])
            return Ok(pk)
        return prims.cases(I, st, r, {'Ok': ok, 'Err': lambda s, x: x}, e)

    @meth('create_proof_with_reduction')
    def create_proof(I, e, a, st):
        pk = I.val(st, a[1])
        rr, ss = prims.polyv(I, st, a[2], e), prims.polyv(I, st, a[3], e)
        if not isinstance(pk, Struct):
            I.und('proving key', e)
        r, cs = synth(I, st, a[0], e, 'prove')

        def ok(s, x):
            ins = cs.get('inputs')
            vk = pk.get('vk')
            A = sym('PROOF_A') + rr * pk.get('delta_g1')
            B = sym('PROOF_B') + ss * vk.get('delta_g2')
            abc = vk.get('gamma_abc_g1')
            D = seq_get(abc, ZERO, s.f)
            nme = fresh('k')
            declare(nme, int=True)
            k = sym(nme, int=True)
            D = D + dot(ins, abc, s.f)
            C = (A * B - vk.get('alpha_g1') * vk.get('beta_g2') - D * vk.get('gamma_g2')) * inv(vk.get('delta_g2'))
            C = C + ind(c_not(cs.get('sat'))) * sym('PROOF_UNSAT')
            return Ok(Struct(PROOF, None, [('a', A), ('b', B), ('c', C)]))
        return prims.cases(I, st, r, {'Ok': ok, 'Err': lambda s, x: x}, e)


def dot(ins, abc, f):
    r = ZERO
    off = ONE
    for g in ins.segs:
        if g.flat:
            m = seq_len(g.b).cval()
            if m is None:
                raise Undecided('nested inputs')
            nme = fresh('k')
            declare(nme, int=True)
            k = sym(nme, int=True)
            h = f.add(mk_leq(0, k), mk_lt(k, g.n))
            t = ZERO
            for j in range(m):
                t = t + seq_get(g.at(k), P(j), h) * seq_get(abc, off + k * m + j, h)
            r = r + mksum(g.n, nme, t)
            off = off + g.n * m
            continue
        nme = fresh('k')
        declare(nme, int=True)
        k = sym(nme, int=True)
        h = f.add(mk_leq(0, k), mk_lt(k, g.n))
        r = r + mksum(g.n, nme, g.at(k) * seq_get(abc, off + k, h))
        off = off + g.n
    return r


def inv(p):
    if len(p.terms) != 1:
        return Poly.of(mk_atom('app', ('inv', p), nz=True)) if False else app('inv', p, nz=True)
    return T.inv_pow(p, -1)


def parity(c):
    """S if the condition says that S is odd"""
    if c.kind == 'eq':
        for m in c.args[0].terms:
            for a, _ in m:
                if a.kind == 'fl' and a.args[1] == 1 and mk_eq(T.low_bits(a.args[0], 1) - 1) is c:
                    return a.args[0]
    return None


def bit_of(c, k):
    """x if the condition is bit k of the variable x"""
    if c.kind == 'b':
        y = c.args[0]
        if y.kind == 'app' and y.args[0] == 'r1bit' and y.args[2] is k and k.single() not in [y.args[1].single()]:
            return y.args[1]
    return None


def var_eq(I, x, y, e):
    """equality of two field variables; x = the recomposition of the n low bits of x: all higher bits are 0"""
    if not all(isinstance(v, Struct) and v.ty == 'R1Var' and isinstance(v.get('v'), Poly) for v in (x, y)):
        I.und('equality of gadget variables', e)
    for p, q in ((x, y), (y, x)):
        low = dict(q.fields).get('low')
        if low is not None and low[0] is p.get('v'):
            nme = fresh('k')
            declare(nme, int=True)
            k = sym(nme, int=True)
            n = P(T.FIELD['bits'])
            return mk_all(n - low[1], nme, c_not(mk_bool(app('r1bit', low[0], low[1] + k, int=True))))
    return mk_eq(x.get('v') - y.get('v'))


def exists(I, st, s, e, neg=False):
    out = []
    for g in s.segs:
        if g.flat:
            I.und('nested gadgets', e)
        nme = fresh('k')
        declare(nme, int=True)
        k = sym(nme, int=True)
        c = g.at(k).get('c')
        out.append(mk_ex(g.n, nme, c_not(c) if neg else c))
    return c_or(*out)


def enforce(I, st, c, e):
    if getattr(I, 'blank', False):
        return Ok(UNIT)
    cells = [k for k in st.mem if k.startswith(CS)]
    if len(cells) != 1:
        I.und('constraint system of a gadget', e)
    cs = st.mem[cells[0]]
    st.mem[cells[0]] = cs.with_field('sat', c_and(cs.get('sat'), c))
    return Ok(UNIT)


def r1_or(I, e, a, st):
    x, y = r1b(I, st, a[0], e), r1b(I, st, a[1], e)
    return Ok(R1Bool(simp(c_or(x, y), st.f)))


def r1_op(I, e, a, st, op):
    x, y = r1b(I, st, a[0], e), r1b(I, st, a[1], e)
    if op == 'xor':
        for p, q in ((x, y), (y, x)):
            s = parity(p)
            if s is not None:
                return Ok(R1Bool(mk_eq(T.low_bits(simp(s + ind(q), st.f), 1) - 1)))
    r = {'and': c_and(x, y), 'xor': c_or(c_and(x, c_not(y)), c_and(c_not(x), y))}[op]
    return Ok(R1Bool(simp(r, st.f)))
