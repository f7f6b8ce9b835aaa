"""C15: inputs whose sizes do not fit are errors; no panic, no result from part of the input."""
from specs.common import *
from specs.enc import ENC, CT, vk_with
from specs.util import CC


def fork(s, name, fn, args, fit, complete=True):
    """fn succeeds only if the sizes fit (exactly then, when nothing but sizes matters); never panics"""
    s.name = name
    co, vo, ce, ve = s.result(fn, *args)
    s.no_panic('for any input')
    if complete:
        s.iff('succeeds exactly when the sizes fit', co, fit)
    else:
        s.holds('succeeds only when the sizes fit', c_or(c_not(co), fit))
    return co, vo


def ek_any(s, kind=''):
    l = [s.int(x, 0) for x in ('lx', 'ly', 'lz')]
    ek = s.adt('keygen::%sEncryptionKey' % kind, 'ek', X=l[0], Y=l[1], Z=l[2])
    return ek, l[0], c_and(mk_eq(l[0] - l[1]), mk_eq(l[2] - l[0] - 1), mk_leq(l[0], 255))


def dk_any(s, kind=''):
    l = [s.int(x, 0) for x in ('l1', 'l2')]
    dk = s.adt('keygen::%sDecryptionKey' % kind, 'dk', V_1=l[0], V_2=l[1])
    return dk, l[0], c_and(mk_eq(l[0] - l[1]), mk_leq(l[0], 255))


def c15_keys(new, w):
    s = new('')
    g = gens(s)
    lg = s.int('lg', 0)
    gs = s.vec('gb', lg)
    n = chunks(w)
    d, gm = s.field('delta_g'), s.field('gamma_g')
    for f in ('keygen::keygen', 'keygen::FkeygenPartial'):
        fork(s, '%s with any number of bases (%d bits)' % (f, w), f, (s.rng, w, g, gs, d, gm), mk_leq(n, lg))
    for kind in ('DecryptionKey', 'PreparedDecryptionKey'):
        s = new('')
        dk, n, good = dk_any(s, kind.replace('DecryptionKey', ''))
        lg = s.int('lg', 0)
        fork(s, '%s::pairing_powers (%d bits)' % (kind, w), 'keygen::%s::<E>::pairing_powers' % kind, (dk, w, s.vec('gb', lg)), c_and(good, mk_leq(n, lg)))
        s = new('')
        dk, n, good = dk_any(s, kind.replace('DecryptionKey', ''))
        vk = s.ext('data_structures::VerifyingKey', 'vk')
        la = s.length(vk.get('gamma_abc_g1'))
        fork(s, '%s::pairing_powers_given_groth16_vk (%d bits)' % (kind, w), 'keygen::%s::<E>::pairing_powers_given_groth16_vk' % kind, (dk, w, vk),
             c_and(good, c_or(mk_leq(n + 1, la), mk_eq(n))))


def c15_enc(new, w):
    n = chunks(w)
    s = new('')
    ek, lx, good = ek_any(s)
    lg = s.int('lg', 0)
    m = s.field('m')
    fork(s, 'encrypt with any key and bases (%d bits)' % w, ENC + 'encrypt', (s.rng, m, ek, s.vec('gb', lg), w), c_and(good, mk_eq(lx - n), mk_leq(n, lg)))
    vk = s.ext('data_structures::VerifyingKey', 'vk')
    la = s.length(vk.get('gamma_abc_g1'))
    fork(s, 'encrypt_given_snark_vk with any key (%d bits)' % w, ENC + 'encrypt_given_snark_vk', (s.rng, m, ek, vk, w),
         c_and(good, mk_eq(lx - n), mk_leq(n + 1, la)))


def c15_chunks(new):
    s = new('')
    ek, lx, good = ek_any(s)
    lg, lm = s.int('lg', 0), s.int('lm', 0)
    fork(s, 'encrypt_decomposed_message with any chunks, key and bases', ENC + 'encrypt_decomposed_message',
         (s.rng, s.vec('m', lm, 'i'), ek, s.vec('gb', lg)), c_and(good, mk_eq(lx - lm), mk_leq(lm, lg)))
    # commitment verification
    for kind in ('', 'Prepared'):
        s = new('')
        ek, lx, good = ek_any(s, kind)
        g = s.adt('setup::%sEncryptionGens' % kind, 'gens')
        ct = s.adt('encryption::Ciphertext', 'ct')
        lc = s.length(ct.get('enc_chunks'))
        a = (ct.get('X_r'), ct.get('enc_chunks'), ct.get('commitment'))
        fit = c_and(good, mk_eq(lc - lx))
        fork(s, 'verify_ciphertext_commitment (%s key)' % (kind or 'plain'), ENC + 'verify_ciphertext_commitment', a + (ek, g), fit, False)
        fork(s, 'Ciphertext::verify_commitment (%s key)' % (kind or 'plain'), CT + 'verify_commitment', (ct, ek, g), fit, False)
        s = new('')
        ek, lx, good = ek_any(s, kind)
        g = s.adt('setup::%sEncryptionGens' % kind, 'gens')
        N, lw = s.int('N', 0), s.int('lw', 0)
        cts = s.adts('encryption::Ciphertext', 'cts', N)
        lens = mk_all(N, 'ii', mk_eq(sym('len:cts.enc_chunks', sym('ii', int=True), int=True) - lx))
        fork(s, 'verify_commitments_in_batch with any number of ciphertexts and weights (%s key)' % (kind or 'plain'), ENC + 'verify_commitments_in_batch',
             (cts, s.vec('w', lw), ek, g), c_and(good, mk_eq(N - lw), lens), False)
    # proofs
    s = new('')
    pvk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    pf = s.ext('data_structures::Proof', 'proof')
    ct = s.adt('encryption::Ciphertext', 'ct')
    fit = mk_eq(s.length(pvk.get('vk').get('gamma_abc_g1')) - s.length(ct.get('enc_chunks')) - 1)
    fork(s, 'verify_proof with any number of chunks and bases', 'saver_groth16::verify_proof', (pvk, pf, ct), fit, False)
    fork(s, 'calculate_d with any number of chunks and bases', 'saver_groth16::calculate_d', (pvk, ct), fit)
    s = new('')
    ek, lx, good = ek_any(s)
    g = s.adt('setup::EncryptionGens', 'gens')
    ct = s.adt('encryption::Ciphertext', 'ct')
    lc = s.length(ct.get('enc_chunks'))
    pvk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    pf = s.ext('data_structures::Proof', 'proof')
    fork(s, 'verify_commitment_and_proof with any sizes', CT + 'verify_commitment_and_proof', (ct, pf, pvk, ek, g),
         c_and(good, mk_eq(lc - lx), mk_eq(s.length(pvk.get('vk').get('gamma_abc_g1')) - lc - 1)), False)


def any_search(w):
    """a search that fails or finds some chunk, depending on its target and place alone (c15_search shows that the real one does no more)"""
    nm = 'found%d' % w
    declare(nm, int=True, rng=(1, (1 << w) - 1))
    err = Struct('Result', 'Err', [('0', Struct('error::SaverError', 'CannotDecrypt', []))])

    def f(I, args, st):
        i, mx, p, _ = args
        return mk_gate([(mk_eq(sym('absent', i, p)), err), (c_not(mk_eq(sym('absent', i, p))), Struct('Result', 'Ok', [('0', sym(nm, i, p))]))])
    return f


def c15_search(new, w):
    s = new('')
    declare('len:tab', int=True, rng=(0, None))
    tab = seq_fn(s.int('ltab', 0), lambda i: seq_fn(sym('len:tab', i, int=True), lambda j: sym('tab', i, j)))
    k = s.int('k', 0)
    for f, args in (('solve_discrete_log_using_pairing_powers', (k, (1 << w) - 1, s.field('p'), tab)),
                    ('solve_discrete_log', ((1 << w) - 1, s.field('g'), s.field('p'))), ('solve_discrete_log_for_g', ((1 << w) - 1, s.field('g'), s.field('p')))):
        if s.c.find(ENC + f) is None:
            continue
        s.name = '%s with any table (%d bits)' % (f, w)
        co, vo, ce, ve = s.result(ENC + f, *args)
        s.no_panic('for any input')
        s.holds('finds chunks only', c_and(mk_leq(1, vo), mk_leq(vo, (1 << w) - 1)), (co,))


def c15_dec(new, w, kind, table):
    s = new('')
    dk, n, good = dk_any(s, kind)
    lc, lg = s.int('lc', 0), s.int('lg', 0)
    ct = s.adt('encryption::Ciphertext', 'ct', enc_chunks=lc)
    gs = s.vec('gb', lg)
    vk = s.ext('data_structures::VerifyingKey', 'vk')
    la = s.length(vk.get('gamma_abc_g1'))
    sk = s.struct('keygen::SecretKey', **{'0': s.field('rho')})
    fit = c_and(good, mk_eq(lc - n), mk_leq(lc, lg))
    vfit = c_and(good, mk_eq(lc - n), c_or(mk_leq(lc + 1, la), mk_eq(lc)))
    a = (ct.get('X_r'), ct.get('enc_chunks'), sk, dk)
    nm = ' (%d bits, %s key%s)' % (w, kind or 'plain', ', any table' if table else '')
    if table:
        declare('len:tab', int=True, rng=(0, None))
        tab = seq_fn(s.int('ltab', 0), lambda i: seq_fn(sym('len:tab', i, int=True), lambda j: sym('tab', i, j)))
        some = Struct('core::option::Option', 'Some', [('0', tab)])
        s.I.summaries = {'solve_discrete_log_using_pairing_powers': any_search(w)}
        co, vo = fork(s, 'decrypt_to_chunks_given_pairing_powers' + nm, ENC + 'decrypt_to_chunks_given_pairing_powers', a + (gs, w, some), fit, False)
        if vo is not None:
            s.eq('as many chunks as the ciphertext', s.length(vo.get('0')), lc, (co,))
        for pre, head in ((ENC, a), (CT, (ct, sk, dk))):
            fork(s, pre + 'decrypt_given_pairing_powers' + nm, pre + 'decrypt_given_pairing_powers', head + (gs, w, tab), fit, False)
            fork(s, pre + 'decrypt_given_groth16_vk_and_pairing_powers' + nm, pre + 'decrypt_given_groth16_vk_and_pairing_powers', head + (vk, w, tab), vfit, False)
    else:
        co, vo = fork(s, 'decrypt_to_chunks' + nm, ENC + 'decrypt_to_chunks', a + (gs, w), fit, False)
        if vo is not None:
            s.eq('as many chunks as the ciphertext', s.length(vo.get('0')), lc, (co,))
        for pre, head in ((ENC, a), (CT, (ct, sk, dk))):
            fork(s, pre + 'decrypt' + nm, pre + 'decrypt', head + (gs, w), fit, False)
            fork(s, pre + 'decrypt_given_groth16_vk' + nm, pre + 'decrypt_given_groth16_vk', head + (vk, w), vfit, False)


def c15_re(new):
    s = new('')
    g = gens(s)
    lc, ls, lt = s.int('lc', 0), s.int('ls', 0), s.int('lt', 0)
    sk = s.adt('keygen::SecretKeyST', 'sk', s=ls, t=lt)
    ekd = s.adt('keygen::FEncryptionKeyDest', 'ekd')
    c0 = s.field('c_0')
    co, vo = fork(s, 're_encrypt_share with any sizes', ENC + 're_encrypt_share', (s.rng, g, c0, s.vec('c', lc), ekd, sk), mk_eq(ls - lc))
    if vo is not None:
        s.eq('one element per chunk', s.length(vo.get('0')), lc, (co,))
    la, lb = s.int('la', 0), s.int('lb', 0)
    a, b = s.vec('a', la), s.vec('b', lb)
    for f, args in (('combine_re_encrypt_share', (s.field('ga'), s.field('gb'), a, b)), ('combine_ct_with_w', (g, a, s.field('ga'), b)), ('add_cts', (a, b))):
        co, vo = fork(s, '%s with any sizes' % f, ENC + f, args, mk_eq(la - lb))
        if vo is not None:
            got = vo.get('0') if f.startswith('combine_re') else vo
            s.eq('no element is dropped', s.length(got), la + (1 if f.endswith('_w') else 0), (co,))


def c15_redec(new, w):
    s = new('')
    lc, lg = s.int('lc', 0), s.int('lg', 0)
    sk = s.struct('keygen::SecretKey', **{'0': s.field('rho')})
    co, vo = fork(s, 'decrypt_to_chunks_after_re_encryption with any sizes (%d bits)' % w, ENC + 'decrypt_to_chunks_after_re_encryption',
                  (s.field('c_0'), s.vec('c', lc), sk, s.vec('gb', lg), w), mk_leq(lc, lg), False)
    if vo is not None:
        s.eq('as many chunks as the ciphertext', s.length(vo), lc, (co,))


def c15_cc(new, w):
    n = chunks(w)
    s = new('')
    L = s.int('L', 0)
    m, r = s.field('m'), s.field('r')
    fork(s, 'get_commitment_given_commitment_key with a key of any length (%d bits)' % w, CC + 'get_commitment_given_commitment_key',
         (m, r, w, s.vec('key', L)), mk_eq(L - n - 1))


SCENES = {
    'C15': [(c15_keys, [(w,) for w in CBS]), (c15_enc, [(w,) for w in CBS]), (c15_chunks, [()]),
            (c15_dec, [(w, k, t) for w in CBS for k in ('', 'Prepared') for t in (False, True)]), (c15_re, [()]),
            (c15_search, [(w,) for w in CBS]), (c15_redec, [(w,) for w in CBS]), (c15_cc, [(w,) for w in CBS])],
}
