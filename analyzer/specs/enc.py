"""C03-C05, C07: encryption and commitment verification."""
from specs.common import *

ENC = 'encryption::Encryption::<E>::'
CT = 'encryption::Ciphertext::<E>::'


def prepared_gens(s, g):
    return s.struct('setup::PreparedEncryptionGens', G=g.get('G'), H=g.get('H'))


def encrypt_entry(s, how, w, k, gs, n, m):
    """honest ciphertext through one of the encryption entry points; returns (ciphertext, randomness, chunks)"""
    if how == 'encrypt':
        r = s.ok(ENC + 'encrypt', s.rng, m, k.ek, gs, w)
        return r.get('0'), r.get('1')
    if how == 'encrypt_given_snark_vk':
        vk = vk_with(s, gs)
        r = s.ok(ENC + 'encrypt_given_snark_vk', s.rng, m, k.ek, vk, w)
        return r.get('0'), r.get('1')


def vk_with(s, gs, name='vk'):
    """a Groth16 verifying key whose public-input bases (after the constant one) are gs"""
    vk = s.ext('data_structures::VerifyingKey', name)
    nz(name + '.one')
    return vk.with_field('gamma_abc_g1', concat(seq_of(s.field(name + '.one')), gs))


def c03(new, w, how, dist):
    kk = 'N-party key' if dist else 'single-party key'
    s = new('%s then verify (%d-bit chunks, %s)' % (how, w, kk))
    n, g, d, gm, gs, ln = scenario(s, w)
    k = RealKey(s, w, g, gs, d, gm, s.int('N', 1) if dist else None)
    m = s.field('message')
    ct, r = encrypt_entry(s, how, w, k, gs, n, m)
    s.eq('number of chunk ciphertexts', s.length(ct.get('enc_chunks')), n)
    s.eq('randomness element', ct.get('X_r'), r * d)
    pg = s.value(PGENS, g)
    a = (ct.get('X_r'), ct.get('enc_chunks'), ct.get('commitment'))
    for en, e in (('plain', k.ek), ('prepared', k.pek)):
        for gn, gg in (('plain', g), ('prepared', pg)):
            s.name = '%s then verify (%d-bit chunks, %s, %s form, %s generators)' % (how, w, kk, en, gn)
            s.ok(ENC + 'verify_ciphertext_commitment', *a, e, gg)
            s.ok(CT + 'verify_commitment', ct, e, gg)


def c03_chunks(new):
    """already decomposed messages of any length the key supports"""
    s = new('encrypt_decomposed_message then verify')
    n = s.int('n', 1, 255)
    g = gens(s)
    nz('delta_g', 'gamma_g', 'g_i')
    ln = s.int('len:g_i', 0)
    s.assume(mk_leq(n, ln))
    gs = s.vec('g_i', ln)
    k = Key(s, n, g, s.field('delta_g', True), s.field('gamma_g', True), gs)
    ms = s.vec('m', n, 'i')
    r = s.ok(ENC + 'encrypt_decomposed_message', s.rng, ms, k.ek, gs)
    ct = r.get('0')
    s.eq('ciphertext length', s.length(ct), n + 2)
    s.ok(ENC + 'verify_ciphertext_commitment', s.get(ct, 0), seq_slice(ct, ONE, n + 1, s.f), s.get(ct, n + 1), k.ek, g)
    for cnt, what in ((s.int('short', 0, 255), 'a different number of chunks'),):
        s = new('encrypt_decomposed_message with ' + what)
        n = s.int('n', 0, 255)
        q = s.int('q', 0, 255)
        s.assume(c_not(mk_eq(n - q)))
        g = gens(s)
        gs = s.vec('g_i', s.int('len:g_i', 0))
        k = Key(s, n, g, s.field('delta_g', True), s.field('gamma_g', True), seq_fn(n, lambda i: sym('g_i', i)))
        co, vo, ce, ve = s.result(ENC + 'encrypt_decomposed_message', s.rng, s.vec('m', q, 'i'), k.ek, gs)
        s.no_panic()
        s.holds('is an error', c_not(co))
    s = new('encrypt under a malformed key')
    lx, ly, lz = (s.int(x, 0, 255) for x in ('lx', 'ly', 'lz'))
    ek = s.adt('keygen::EncryptionKey', 'ek', X=lx, Y=ly, Z=lz)
    s.assume(c_or(c_not(mk_eq(lx - ly)), c_not(mk_eq(lz - lx - 1))))
    co, vo, ce, ve = s.result(ENC + 'encrypt_decomposed_message', s.rng, s.vec('m', s.int('q', 0, 255), 'i'), ek, s.vec('g_i', s.int('len:g_i', 0)))
    s.no_panic()
    s.holds('is an error', c_not(co))


def c03_keys(new):
    """prepared forms and the commitment key carry the elements of the plain key"""
    for ty in ('keygen::EncryptionKey', 'keygen::PreparedEncryptionKey'):
        s = new('%s::commitment_key' % ty)
        ek = s.adt(ty, 'ek')
        ck = s.value(ty + '::<E>::commitment_key', ek)
        ly = s.length(ek.get('Y'))
        s.eq('length', s.length(ck), ly + 1)
        s.seq('chunk bases', seq_slice(ck, ZERO, ly, s.f), ly, lambda i, f: seq_get(ek.get('Y'), i, f))
        s.eq('last is P_1', s.get(ck, ly), ek.get('P_1'))
        s = new('%s::supported_chunks_count' % ty)
        lx, ly, lz = (s.int(x, 0) for x in ('lx', 'ly', 'lz'))
        ek = s.adt(ty, 'ek', X=lx, Y=ly, Z=lz)
        good = c_and(mk_eq(lx - ly), mk_eq(lz - lx - 1), mk_leq(lx, 255))
        co, vo, ce, ve = s.result(ty + '::<E>::supported_chunks_count', ek)
        s.no_panic()
        s.iff('succeeds exactly for well-formed keys', co, good)
        if vo is not None:
            s.eq('value', vo, lx, (good,))
        co, vo, ce, ve = s.result(ty + '::<E>::validate', ek)
        s.iff('validate succeeds exactly for well-formed keys', co, good)
    s = new('PreparedEncryptionKey::from')
    ek = s.adt('keygen::EncryptionKey', 'ek')
    p = s.value('<keygen::PreparedEncryptionKey<E> as core::convert::From<keygen::EncryptionKey<E>>>::from', ek)
    for k in ('X_0', 'X', 'Y', 'Z', 'P_1', 'P_2'):
        s.eq(k, p.get(k), ek.get(k))
    s = new('PreparedEncryptionGens::from')
    g = gens(s)
    p = s.value('<setup::PreparedEncryptionGens<E> as core::convert::From<setup::EncryptionGens<E>>>::from', g)
    for k in 'GH':
        s.eq(k, p.get(k), g.get(k))


def single_eq(c0, c, ln, psi, Z, H, s):
    """left-hand side of the commitment equation"""
    return c0 * Z(ZERO) + s.sum(ln, lambda j: c(j) * Z(j + 1)) - psi * H


def c04(new, fn, kind, gkind):
    s = new('%s (%s key, %s generators)' % (fn, kind or 'plain', gkind or 'plain'))
    lc = s.int('lc', 0)
    lx, ly, lz = (s.int(x, 0) for x in ('lx', 'ly', 'lz'))
    ek = s.adt('keygen::%sEncryptionKey' % kind, 'ek', X=lx, Y=ly, Z=lz)
    g = s.adt('setup::%sEncryptionGens' % gkind, 'gens')
    c0, psi = s.field('c_0'), s.field('psi')
    c = s.vec('c', lc)
    if fn.startswith('Ciphertext'):
        ct = s.struct('encryption::Ciphertext', X_r=c0, enc_chunks=c, commitment=psi)
        args = (ct, ek, g)
    else:
        args = (c0, c, psi, ek, g)
    co, vo, ce, ve = s.result('encryption::' + fn, *args)
    s.no_panic('for any input')
    at = lambda q: lambda i: sym(q, i)
    good = c_and(mk_eq(lx - ly), mk_eq(lz - lx - 1), mk_leq(lx, 255), mk_eq(lc - lx))
    q = single_eq(c0, at('c'), lx, psi, at('ek.Z'), g.get('H'), s)
    s.iff('accepts exactly consistent ciphertexts', co, c_and(good, mk_eq(q)))


def c05(new, kind, gkind, empty):
    s = new('verify_commitments_in_batch (%s key, %s generators%s)' % (kind or 'plain', gkind or 'plain', ', empty batch' if empty else ''))
    N = ZERO if empty else s.int('N', 1)
    lx, ly, lz = (s.int(x, 0) for x in ('lx', 'ly', 'lz'))
    ek = s.adt('keygen::%sEncryptionKey' % kind, 'ek', X=lx, Y=ly, Z=lz)
    g = s.adt('setup::%sEncryptionGens' % gkind, 'gens')
    cts = s.adts('encryption::Ciphertext', 'cts', N)
    rs = s.vec('w', N)
    co, vo, ce, ve = s.result(ENC + 'verify_commitments_in_batch', cts, rs, ek, g)
    s.no_panic('for any input with one weight per ciphertext')
    lens = mk_all(N, 'ii', mk_eq(sym('len:cts.enc_chunks', sym('ii', int=True), int=True) - lx))
    good = c_and(mk_eq(lx - ly), mk_eq(lz - lx - 1), mk_leq(lx, 255), lens)
    q = s.sum(N, lambda i: sym('w', i) * single_eq(sym('cts.X_r', i), lambda j: sym('cts.enc_chunks', i, j), lx, sym('cts.commitment', i),
                                                 lambda j: sym('ek.Z', j), g.get('H'), s))
    s.iff('accepts exactly when the weighted sum of the single equations holds', co, c_and(good, mk_eq(q)))


def c05_honest(new):
    s = new('verify_commitments_in_batch of honest ciphertexts')
    n = s.int('n', 1, 255)
    N = s.int('N', 1)
    g = gens(s)
    nz('delta_g', 'gamma_g', 'g_i')
    gs = s.vec('g_i', n)
    k = Key(s, n, g, s.field('delta_g', True), s.field('gamma_g', True), gs)
    declare('m', int=True, rng=(0, 65535))

    def one(p):
        r = s.ok(ENC + 'encrypt_decomposed_message', s.rng, seq_fn(n, lambda j: sym('m', p, j)), k.ek, gs)
        ct = r.get('0')
        return s.struct('encryption::Ciphertext', X_r=s.get(ct, 0), enc_chunks=seq_slice(ct, ONE, n + 1, s.f), commitment=s.get(ct, n + 1))
    cts = many(s, N, one)
    s.ok(ENC + 'verify_commitments_in_batch', cts, s.vec('w', N), k.ek, g)


def c07(new):
    s = new('verify_commitment_and_proof')
    lx, ly, lz = (s.int(x, 0) for x in ('lx', 'ly', 'lz'))
    ek = s.adt('keygen::EncryptionKey', 'ek', X=lx, Y=ly, Z=lz)
    g = s.adt('setup::EncryptionGens', 'gens')
    ct = s.adt('encryption::Ciphertext', 'ct')
    pf = s.ext('data_structures::Proof', 'proof')
    vk = s.ext('data_structures::PreparedVerifyingKey', 'pvk')
    c1, _, e1, x1 = s.result(CT + 'verify_commitment', ct, ek, g)
    c2, _, e2, x2 = s.result('saver_groth16::verify_proof', vk, pf, ct)
    c3, _, e3, x3 = s.result(CT + 'verify_commitment_and_proof', ct, pf, vk, ek, g)
    s.no_panic()
    s.iff('accepts exactly when both checks accept', c3, c_and(c1, c2))
    if x3 is not None:
        for nm, c, x in (('a failed commitment check alone is reported', c_and(e1, c2), x1), ('a failed proof check alone is reported', c_and(c1, e2), x2)):
            if x is None:
                s.ob(nm, 'violated', 'the check never fails')
            else:
                s.eq(nm, vsimp(x3, s.f.add(c)), vsimp(x, s.f.add(c)), (c,))
        f = s.f.add(e1, e2)
        c = c_or(veq_cond(vsimp(x3, f), vsimp(x1, f), f), veq_cond(vsimp(x3, f), vsimp(x2, f), f))
        s.holds('when both fail one of the two errors is reported', c, (e1, e2))


PREP = ('', 'Prepared')
SCENES = {
    'C03': [(c03, [(w, h, d) for w in CBS for h in ('encrypt', 'encrypt_given_snark_vk') for d in (False, True)]), (c03_chunks, [()]), (c03_keys, [()])],
    'C04': [(c04, [(f, k, g) for f in ('Encryption::<E>::verify_ciphertext_commitment', 'Ciphertext::<E>::verify_commitment')
                   for k in PREP for g in PREP])],
    'C05': [(c05, [(k, g, e) for k in PREP for g in PREP for e in (False, True)]), (c05_honest, [()])],
    'C07': [(c07, [()])],
}
