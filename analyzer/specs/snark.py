"""C06, C14: range proofs and the range circuit."""
from specs.common import *
from specs.enc import ENC, CT, vk_with
import groth

E0 = {'l': 'scenario', 'u': -3, 'callee': ''}


def prepared_vk(s, vk, name='pvk'):
    """what ark_groth16::prepare_verifying_key computes"""
    import build
    p = [k for k in build.EXT if k.endswith('PreparedVerifyingKey')][0]
    return Struct(p, None, [('vk', vk), ('alpha_g1_beta_g2', vk.get('alpha_g1') * vk.get('beta_g2')),
                            ('gamma_g2_neg_pc', -vk.get('gamma_g2')), ('delta_g2_neg_pc', -vk.get('delta_g2'))])


def c06_sound(new):
    s = new('verify_proof')
    pvk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    pf = s.ext('data_structures::Proof', 'proof')
    ct = s.adt('encryption::Ciphertext', 'ct')
    n = s.length(ct.get('enc_chunks'))
    co, vo, ce, ve = s.result('saver_groth16::verify_proof', pvk, pf, ct)
    s.no_panic('for any input')
    abc = pvk.get('vk').get('gamma_abc_g1')
    fits = mk_eq(s.length(abc) - n - 1)
    d = ct.get('X_r') + s.sum(n, lambda i: sym('ct.enc_chunks', i)) + sym('pvk.vk.gamma_abc_g1', ZERO)
    q = pf.get('a') * pf.get('b') + pf.get('c') * pvk.get('delta_g2_neg_pc') + d * pvk.get('gamma_g2_neg_pc') - pvk.get('alpha_g1_beta_g2')
    s.iff('accepts exactly when the Groth16 equation holds for the input computed from the ciphertext', co, c_and(fits, mk_eq(q)))
    s = new('verify_qap_proof')
    pvk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    a, b, c, d = (s.field(x) for x in 'abcd')
    co, vo, ce, ve = s.result('saver_groth16::verify_qap_proof', pvk, a, b, c, d)
    s.no_panic('for any input')
    q = a * b + c * pvk.get('delta_g2_neg_pc') + d * pvk.get('gamma_g2_neg_pc') - pvk.get('alpha_g1_beta_g2')
    s.iff('accepts exactly when the Groth16 equation holds', co, mk_eq(q))
    s = new('calculate_d')
    pvk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    ct = s.adt('encryption::Ciphertext', 'ct')
    n = s.length(ct.get('enc_chunks'))
    s.assume(mk_eq(s.length(pvk.get('vk').get('gamma_abc_g1')) - n - 1))
    d = s.ok('saver_groth16::calculate_d', pvk, ct)
    s.eq('value', d, ct.get('X_r') + s.sum(n, lambda i: sym('ct.enc_chunks', i)) + sym('pvk.vk.gamma_abc_g1', ZERO))


def c06_srs(new):
    s = new('generate_srs')
    g = gens(s)
    pk = s.ok('saver_groth16::generate_srs', Opaque('circuit', 'any'), g, s.rng)
    vk = pk.get('pk').get('vk')
    s.eq('gamma_g1*H = -gamma_g2*G', pk.get('gamma_g1') * g.get('H'), -vk.get('gamma_g2') * g.get('G'))
    s.eq('delta_g1*H = delta_g2*G', pk.get('pk').get('delta_g1') * g.get('H'), vk.get('delta_g2') * g.get('G'))
    for k in ('alpha_g1', 'beta_g2', 'gamma_g2', 'delta_g2'):
        s.nonzero(k + ' is not constant zero', vk.get(k))


def c06_complete(new, w, dist):
    s = new('encrypt_with_proof then verify_proof (%d-bit chunks, %s key)' % (w, 'combined distributed' if dist else 'single-party'))
    g = gens(s)
    n = chunks(w)
    if dist:
        circ = s.value('circuit::BitsizeCheckCircuit::<F>::new', w, NONE, NONE, TRUE)
        spk = s.ok('saver_groth16::generate_srs', circ, g, s.rng)
        gs = s.value('saver_groth16::get_gs_for_encryption', spk.get('pk').get('vk'))
        ek = Key(s, n, g, spk.get('pk').get('delta_g1'), spk.get('gamma_g1'), gs).ek
    else:
        r = s.ok('setup::setup_for_groth16', s.rng, w, g)
        spk, sk, ek, dk = (r.get(k) for k in '0123')
    vk = spk.get('pk').get('vk')
    s.eq('one base per chunk and the constant', s.length(vk.get('gamma_abc_g1')), n + 1)
    m = s.field('message')
    r = s.ok(ENC + 'encrypt_with_proof', s.rng, m, ek, spk, w)
    ct, rr, pf = (r.get(k) for k in '012')
    s.eq('X_r uses the returned randomness', ct.get('X_r'), rr * ek.get('X_0'))
    pvk = prepared_vk(s, vk)
    s.ok('saver_groth16::verify_proof', pvk, pf, ct)
    pg = g
    s.ok(CT + 'verify_commitment_and_proof', ct, pf, pvk, ek, pg)
    s.assume(c_not(mk_eq(vk.get('gamma_g2'))))        # gamma is zero with negligible probability only
    # bound to this ciphertext: changing any element makes the equation fail
    for nm, dx in (('X_r', lambda c: c.with_field('X_r', c.get('X_r') + sym('shift', nz=True))),
                   ('a chunk ciphertext', lambda c: c.with_field('enc_chunks', shifted(s, c.get('enc_chunks'), n)))):
        c2 = dx(ct)
        v = s.call('saver_groth16::verify_proof', pvk, pf, c2)
        s.no_panic()
        co, vo, ce, ve = s.split(v)
        s.holds('the proof is refused when %s changes' % nm, c_not(co))


def c03_proof(new, w, dist):
    s = new('encrypt_with_proof then verify the commitment (%d-bit chunks, %s key)' % (w, 'combined distributed' if dist else 'single-party'))
    g = gens(s)
    n = chunks(w)
    if dist:
        circ = s.value('circuit::BitsizeCheckCircuit::<F>::new', w, NONE, NONE, TRUE)
        spk = s.ok('saver_groth16::generate_srs', circ, g, s.rng)
        gs = s.value('saver_groth16::get_gs_for_encryption', spk.get('pk').get('vk'))
        ek = Key(s, n, g, spk.get('pk').get('delta_g1'), spk.get('gamma_g1'), gs).ek
    else:
        r = s.ok('setup::setup_for_groth16', s.rng, w, g)
        spk, sk, ek, dk = (r.get(k) for k in '0123')
    m = s.field('message')
    r = s.ok(ENC + 'encrypt_with_proof', s.rng, m, ek, spk, w)
    ct = r.get('0')
    s.eq('number of chunk ciphertexts', s.length(ct.get('enc_chunks')), n)
    pg = s.value(PGENS, g)
    pek = s.value(PEK, ek)
    for en, e in (('plain', ek), ('prepared', pek)):
        for gn, gg in (('plain', g), ('prepared', pg)):
            s.name = 'encrypt_with_proof then verify (%d-bit chunks, %s, %s form, %s generators)' % (w, 'combined key' if dist else 'single-party key', en, gn)
            s.ok(ENC + 'verify_ciphertext_commitment', ct.get('X_r'), ct.get('enc_chunks'), ct.get('commitment'), e, gg)
            s.ok(CT + 'verify_commitment', ct, e, gg)


def shifted(s, v, n):
    k = s.int('k', 0)
    s.assume(mk_lt(k, n))
    nz('shift')
    return seq_fn(P(n), lambda i: seq_get(v, i, s.f.add(mk_leq(0, i), mk_lt(i, n))) + ind(mk_eq(i - k)) * sym('shift'))


def c06_create(new):
    """create_proof for any circuit: Groth16's proof for the witness, shifted by r*P_2"""
    s = new('create_proof')
    nz('g1', 'g2')
    spk = s.adt('saver_groth16::ProvingKey', 'spk')
    ek = s.adt('keygen::EncryptionKey', 'ek')
    r = s.field('r')
    circ = Opaque('circuit', 'any')
    s.assume(mk_leq(sym('CIRC_INPUTS', int=True) + 1, s.length(spk.get('pk').get('vk').get('gamma_abc_g1'))), mk_leq(0, sym('CIRC_INPUTS', int=True)))
    s.assume(T.mk_bool(sym('CIRC_SAT', int=True)))
    pf = s.ok('saver_groth16::create_proof', circ, r, spk, ek, s.rng)
    vk = spk.get('pk').get('vk')
    abc = vk.get('gamma_abc_g1')
    d = s.get(abc, 0) + s.sum(sym('CIRC_INPUTS', int=True), lambda i: sym('CIRC_IN', i) * sym('spk.pk.vk.gamma_abc_g1', i + 1))
    dl = vk.get('delta_g2')
    s.eq('satisfies the equation shifted by r*P_2', (pf.get('a') * pf.get('b') - (pf.get('c') - r * ek.get('P_2')) * dl - d * vk.get('gamma_g2')),
         vk.get('alpha_g1') * vk.get('beta_g2'))


def bits_zero(v, w, nb):
    return mk_all(nb - w, 'kb', c_not(T.mk_bool(T.app('r1bit', v, P(w) + sym('kb', int=True), int=True))))


def c14(new, w, public, tag=None):
    s = new('range circuit (%s bits, %s)' % (tag or w, 'public' if public else 'private'))
    declare('kb', int=True)
    declare('ii', int=True)
    nb = T.FIELD['bits']
    if w is None:
        w = s.int('w', 0, 63)
    L = s.int('L', 0, 255)
    vals = s.vec('x', L)
    flag = TRUE if public else FALSE
    for given in (True, False):
        num = Some(s.int('num', 0, 255)) if given else NONE
        if not given and tag:
            continue
        circ = s.value('circuit::BitsizeCheckCircuit::<F>::new', w, num, Some(vals), flag)
        s.eq('required_bit_size', circ.get('required_bit_size'), P(w))
        s.eq('alloc_as_public', circ.get('alloc_as_public'), flag)
        s.eq('num_values', circ.get('num_values'), num.get('0') if given else chunks(w))
    # proving
    circ = s.value('circuit::BitsizeCheckCircuit::<F>::new', w, NONE, Some(vals), flag) if not tag else circ
    main, other = ('inputs', 'wits') if public else ('wits', 'inputs')
    gc = [k for k in s.c.bodies if k.endswith('::generate_constraints')]
    s.fnwhere = gc[0] if gc else ''
    before = len(s.I.panics)
    r, cs = groth.synth(s.I, s.st, circ, E0, 'prove')
    s.newpanics = s.I.panics[before:]
    s.no_panic()
    co, vo, ce, ve = s.split(r)
    s.holds('synthesis with values succeeds', co)
    got = cs.get(main)
    alloc = s.length(got)
    s.holds('every value is allocated', mk_leq(L, alloc))
    s.seq('values are allocated first and in order', seq_slice(got, ZERO, L, s.f), L, lambda i: sym('x', i))
    if public:
        s.eq('nothing else is public input', alloc, L)
    else:
        s.eq('no public input', s.length(cs.get('inputs')), 0)
    spec = mk_all(L, 'ii', bits_zero(sym('x', sym('ii', int=True)), w, nb))
    s.iff('satisfied exactly when no value has a bit at or above the size', cs.get('sat'), spec)
    prove_n = {k: s.length(cs.get(k)) for k in ('inputs', 'wits')}
    # setup
    circ = s.value('circuit::BitsizeCheckCircuit::<F>::new', w, Some(L), NONE, flag)
    s.fnwhere = gc[0] if gc else ''
    before = len(s.I.panics)
    r, cs = groth.synth(s.I, s.st, circ, E0, 'setup')
    s.newpanics = s.I.panics[before:]
    s.no_panic()
    co, vo, ce, ve = s.split(r)
    s.holds('synthesis during setup succeeds', co)
    for k in prove_n:
        s.eq('setup and proving allocate the same number of %s variables' % ('public' if k == 'inputs' else 'private'), s.length(cs.get(k)), prove_n[k])
    got = cs.get(main)
    spec = mk_all(L, 'ii', bits_zero(seq_get(got, sym('ii', int=True), s.f.add(mk_leq(0, sym('ii', int=True)), mk_lt(sym('ii', int=True), L))), w, nb))
    s.iff('setup enforces the same constraints', cs.get('sat'), spec)
    # proving without values is an error
    circ = s.value('circuit::BitsizeCheckCircuit::<F>::new', w, Some(s.int('num1', 1, 255)), NONE, flag)
    s.fnwhere = gc[0] if gc else ''
    r, cs = groth.synth(s.I, s.st, circ, E0, 'prove')
    co, vo, ce, ve = s.split(r)
    s.holds('proving without values is an error', c_not(co))


def c14_small(new, w):
    s = new('range circuit accepts in-range values (%d bits)' % w)
    L = s.int('L', 0, 255)
    declare('xi', int=True, rng=(0, (1 << w) - 1))
    vals = seq_fn(L, lambda i: sym('xi', i))
    circ = s.value('circuit::BitsizeCheckCircuit::<F>::new', w, NONE, Some(vals), TRUE)
    r, cs = groth.synth(s.I, s.st, circ, E0, 'prove')
    s.fnwhere = [k for k in s.c.bodies if k.endswith('::generate_constraints')][0]
    s.holds('every in-range assignment satisfies the constraints', cs.get('sat'))


SCENES = {
    'C03': [(c03_proof, [(w, d) for w in CBS for d in (False, True)])],
    'C06': [(c06_sound, [()]), (c06_srs, [()]), (c06_create, [()]), (c06_complete, [(w, d) for w in CBS for d in (False, True)])],
    'C14': [(c14, [(w, p) for w in CBS for p in (True, False)] + [(None, p, 'any number of') for p in (True, False)]), (c14_small, [(w,) for w in CBS])],
}
