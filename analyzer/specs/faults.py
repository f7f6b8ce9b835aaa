"""C23: a failing step makes the whole operation fail with an error."""
from specs.common import *
from specs.enc import ENC, CT, vk_with
from specs.util import CC
from specs.robust import any_search, dk_any
from facts import refuted


def fails(s, name, fn, *args):
    """with any fallible step allowed to fail: no panic, and success only when no step failed"""
    s.name = name
    s.I.faults = {}
    co, vo, ce, ve = s.result(fn, *args)
    flt, s.I.faults = s.I.faults, None
    s.no_panic('when a step fails')
    for k, d in sorted(flt.items(), key=lambda x: (str(x[1]['loc']), x[0])):
        nm = 'fails when %s fails in %s' % (d['callee'].split('<')[0].split('::')[-1] or d['callee'], d['fn'].split('::')[-1])
        f = d['f'].assuming(d['fail'], co)
        where = '%s at %s' % (d['fn'], d['loc'])
        if refuted(f):
            s.ob(nm, 'proved', where=where)
            continue
        import evalterm as E
        m = E.find_model(f.conds, TRUE, tries=s.tries)
        s.ob(nm, 'undecided' if m is None else 'violated', 'a failure of %s does not reach the caller of %s' % (d['callee'], fn), where=where)
    return flt


def searches(s, w):
    one = any_search(w)
    two = lambda I, args, st: one(I, [ZERO] + list(args[::-1]) + [None], st) if len(args) == 3 else one(I, args, st)

    def three(I, args, st):
        mx, g, p = args
        return one(I, [g, mx, p, None], st)
    s.I.summaries = {'solve_discrete_log_using_pairing_powers': one, 'solve_discrete_log': three, 'solve_discrete_log_for_g': three}


def c23_keys(new, w):
    s = new('')
    n, g, d, gm, gs, m = scenario(s, w)
    for f in ('keygen', 'FkeygenPartial'):
        fails(s, '%s (%d bits)' % (f, w), 'keygen::' + f, s.rng, w, g, gs, d, gm)
    fails(s, 'Fkeygen_dest', 'keygen::Fkeygen_dest', s.rng, g)
    for kind in ('', 'Prepared'):
        s = new('')
        dk, n, good = dk_any(s, kind)
        s.assume(good)
        gs = s.vec('gb', n)
        vk = vk_with(s, gs)
        p = 'keygen::%sDecryptionKey::<E>::' % kind
        fails(s, p + 'pairing_powers', p + 'pairing_powers', dk, w, gs)
        fails(s, p + 'pairing_powers_given_groth16_vk', p + 'pairing_powers_given_groth16_vk', dk, w, vk)
        fails(s, p + 'validate', p + 'validate', dk)
        p = 'keygen::%sEncryptionKey::<E>::' % kind
        fails(s, p + 'validate', p + 'validate', s.adt('keygen::%sEncryptionKey' % kind, 'ek'))


def c23_enc(new, w):
    s = new('')
    n, g, d, gm, gs, ln = scenario(s, w)
    k = Key(s, n, g, d, gm, gs)
    m = s.field('m')
    fails(s, 'encrypt (%d bits)' % w, ENC + 'encrypt', s.rng, m, k.ek, gs, w)
    fails(s, 'encrypt_given_snark_vk (%d bits)' % w, ENC + 'encrypt_given_snark_vk', s.rng, m, k.ek, vk_with(s, gs), w)
    fails(s, 'decompose (%d bits)' % w, 'utils::decompose', m, w)
    fails(s, 'compose (%d bits)' % w, 'utils::compose', s.vec('d', n, 'i', (0, (1 << w) - 1)), w)
    fails(s, 'ChunkedCommitment::new (%d bits)' % w, CC + 'new', m, s.field('b'), w, s.struct('setup::ChunkedCommitmentGens', G=s.field('G'), H=s.field('H')))
    fails(s, 'get_commitment_given_commitment_key (%d bits)' % w, CC + 'get_commitment_given_commitment_key', m, s.field('b'), w, s.vec('key', n + 1))


def c23_proof(new, w):
    s = new('')
    s.I.blank = True                  # the constraints themselves do not matter here
    n = chunks(w)
    g = gens(s)
    r = s.field('r')
    fails(s, 'setup_for_groth16 (%d bits)' % w, 'setup::setup_for_groth16', s.rng, w, g)
    s = new('')
    s.I.blank = True
    spk = s.adt('saver_groth16::ProvingKey', 'spk')
    ek, = (s.adt('keygen::EncryptionKey', 'ek', X=n, Y=n, Z=n + 1),)
    s.assume(mk_eq(s.length(spk.get('pk').get('vk').get('gamma_abc_g1')) - n - 1))
    fails(s, 'encrypt_with_proof (%d bits)' % w, ENC + 'encrypt_with_proof', s.rng, s.field('m'), ek, spk, w)


def c23_misc(new):
    s = new('')
    g = gens(s)
    circ = Opaque('circuit', 'any')
    fails(s, 'generate_srs', 'saver_groth16::generate_srs', circ, g, s.rng)
    s = new('')
    spk = s.adt('saver_groth16::ProvingKey', 'spk')
    ek = s.adt('keygen::EncryptionKey', 'ek')
    s.assume(mk_leq(sym('CIRC_INPUTS', int=True) + 1, s.length(spk.get('pk').get('vk').get('gamma_abc_g1'))), mk_leq(0, sym('CIRC_INPUTS', int=True)))
    fails(s, 'create_proof', 'saver_groth16::create_proof', circ, s.field('r'), spk, ek, s.rng)
    s = new('')
    pvk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    pf = s.ext('data_structures::Proof', 'proof')
    ct = s.adt('encryption::Ciphertext', 'ct')
    fails(s, 'verify_proof', 'saver_groth16::verify_proof', pvk, pf, ct)
    fails(s, 'verify_qap_proof', 'saver_groth16::verify_qap_proof', pvk, *[s.field(x) for x in 'abcd'])
    for kind in ('', 'Prepared'):
        s = new('')
        ek = s.adt('keygen::%sEncryptionKey' % kind, 'ek')
        g = s.adt('setup::%sEncryptionGens' % kind, 'gens')
        ct = s.adt('encryption::Ciphertext', 'ct')
        fails(s, 'verify_ciphertext_commitment (%s key)' % (kind or 'plain'), ENC + 'verify_ciphertext_commitment',
              ct.get('X_r'), ct.get('enc_chunks'), ct.get('commitment'), ek, g)
        fails(s, 'Ciphertext::verify_commitment (%s key)' % (kind or 'plain'), CT + 'verify_commitment', ct, ek, g)
        N = s.int('N', 0)
        cts = s.adts('encryption::Ciphertext', 'cts', N)
        fails(s, 'verify_commitments_in_batch (%s key)' % (kind or 'plain'), ENC + 'verify_commitments_in_batch', cts, s.vec('w', N), ek, g)
    s = new('')
    ek = s.adt('keygen::EncryptionKey', 'ek')
    g = s.adt('setup::EncryptionGens', 'gens')
    ct = s.adt('encryption::Ciphertext', 'ct')
    pvk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    pf = s.ext('data_structures::Proof', 'proof')
    fails(s, 'verify_commitment_and_proof', CT + 'verify_commitment_and_proof', ct, pf, pvk, ek, g)
    s = new('')
    g = gens(s)
    ek = s.adt('keygen::EncryptionKey', 'ek')
    fails(s, 'encrypt_decomposed_message', ENC + 'encrypt_decomposed_message', s.rng, s.vec('m', s.int('lm', 0), 'i'), ek, s.vec('gb', s.int('lg', 0)))
    lc = s.int('lc', 0)
    sk = s.adt('keygen::SecretKeyST', 'sk')
    ekd = s.adt('keygen::FEncryptionKeyDest', 'ekd')
    fails(s, 're_encrypt_share', ENC + 're_encrypt_share', s.rng, g, s.field('c_0'), s.vec('c', lc), ekd, sk)


def c23_circuit(new, w):
    s = new('')
    s.I.blank = True
    N = s.int('N', 0, 255)
    import groth
    impl = [k for k in s.c.bodies if k.endswith('::generate_constraints') and s.c.bodies[k].get('kind') != 'closure']
    if len(impl) != 1:
        raise Stop('generate_constraints')
    for pub in (TRUE, FALSE):
        circ = s.struct('circuit::BitsizeCheckCircuit', required_bit_size=P(w), num_values=N,
                        values=Struct('Option', 'Some', [('0', s.vec('x', N))]), alloc_as_public=pub)
        cell, h = groth.new_cs(s.I, s.st, 'prove')
        fails(s, 'generate_constraints (%d bits, %s inputs)' % (w, 'public' if pub.kind == 'T' else 'private'), impl[0], circ, h)
        s.st.mem.pop(cell, None)
        # a circuit without values: constraints can be set up, but there is no assignment to prove
        circ = s.struct('circuit::BitsizeCheckCircuit', required_bit_size=P(w), num_values=N, values=NONE, alloc_as_public=pub)
        for mode in ('prove', 'setup'):
            s.name = 'generate_constraints without values (%s, %d bits, %s inputs)' % (mode, w, 'public' if pub.kind == 'T' else 'private')
            cell, h = groth.new_cs(s.I, s.st, mode)
            co, vo, ce, ve = s.result(impl[0], circ, h)
            s.no_panic()
            s.iff('succeeds iff %s' % ('no value is needed' if mode == 'prove' else 'true'), co, mk_eq(N) if mode == 'prove' else TRUE)
            s.st.mem.pop(cell, None)


def c23_dec(new, w, kind):
    s = new('')
    searches(s, w)
    dk, n, good = dk_any(s, kind)
    s.assume(good)
    ct = s.adt('encryption::Ciphertext', 'ct', enc_chunks=n)
    gs = s.vec('gb', n)
    vk = vk_with(s, gs)
    sk = s.struct('keygen::SecretKey', **{'0': s.field('rho')})
    a = (ct.get('X_r'), ct.get('enc_chunks'), sk, dk)
    b = (ct, sk, dk)
    tab = seq_fn(n, lambda i: seq_fn(P((1 << w) - 1), lambda j: sym('tab', i, j)))
    some = Struct('core::option::Option', 'Some', [('0', tab)])
    nm = ' (%d bits, %s key)' % (w, kind or 'plain')
    fails(s, 'decrypt_to_chunks' + nm, ENC + 'decrypt_to_chunks', *a, gs, w)
    fails(s, 'decrypt_to_chunks_given_pairing_powers' + nm, ENC + 'decrypt_to_chunks_given_pairing_powers', *a, gs, w, some)
    for pre, h in ((ENC, a), (CT, b)):
        fails(s, pre + 'decrypt' + nm, pre + 'decrypt', *h, gs, w)
        fails(s, pre + 'decrypt_given_groth16_vk' + nm, pre + 'decrypt_given_groth16_vk', *h, vk, w)
        fails(s, pre + 'decrypt_given_pairing_powers' + nm, pre + 'decrypt_given_pairing_powers', *h, gs, w, tab)
        fails(s, pre + 'decrypt_given_groth16_vk_and_pairing_powers' + nm, pre + 'decrypt_given_groth16_vk_and_pairing_powers', *h, vk, w, tab)
    if not kind:
        fails(s, 'decrypt_to_chunks_after_re_encryption' + nm, ENC + 'decrypt_to_chunks_after_re_encryption', s.field('c_0'), s.vec('c', n), sk, gs, w)


def c23_format(new):
    from specs.serialize import AS, TYPES, CANON, method
    import serial
    s = new('')
    x = s.field('x')
    S = s.I.ser = serial.Ser()
    S.inp = Ok(s.vec('bytes', s.int('n', 0), 'i', (0, 255)))
    fails(s, 'AsCanonical::serialize', AS + '::serialize', x, Opaque('serializer', 'any'))
    fails(s, 'AsCanonical::deserialize', AS + '::deserialize', Opaque('deserializer', 'any'))
    for path in TYPES:
        s = new('')
        s.I.ser = serial.Ser()
        fn = {t: method(s, path, t, m) for t, m in CANON.items()}
        if None in fn.values():
            continue
        try:
            x = s.adt(path, 'x')
        except Undecided:
            x = s.struct(path, **{f['n']: sym('x.' + f['n']) for f in s.c.adts[path]['variants'][0]['f']})
        w = s.I.tmp(s.st, EMPTY_SEQ)
        mode = Opaque('compress', 'any')
        s.result(fn['CanonicalSerialize'], x, Opaque('stream', w), mode)
        for v in ('Yes', 'No'):
            rd = s.I.tmp(s.st, s.I.load(s.st, w))
            fails(s, 'reading %s (validate=%s)' % (path, v), fn['CanonicalDeserialize'], Opaque('stream', rd), mode, Struct('ark_serialize::Validate', v, []))
        w = s.I.tmp(s.st, EMPTY_SEQ)
        fails(s, 'writing %s' % path, fn['CanonicalSerialize'], x, Opaque('stream', w), mode)
        fails(s, 'checking %s' % path, fn['Valid'], x)


SCENES = {'C23': [(c23_format, [()]), (c23_keys, [(w,) for w in CBS]), (c23_enc, [(w,) for w in CBS]), (c23_proof, [(w,) for w in CBS]), (c23_misc, [()]),
                  (c23_circuit, [(w,) for w in CBS]), (c23_dec, [(w, k) for w in CBS for k in ('', 'Prepared')])]}
