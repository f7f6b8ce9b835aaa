"""C08-C11: decryption, discrete-log search, re-encryption, ciphertext addition."""
from specs.common import *
from specs.enc import ENC, CT, vk_with, encrypt_entry
from specs.keys import fits

DK = ('plain', 'prepared')


def top(w):
    """largest chunk value of w bits"""
    return T.pow2(P(w)) - 1


# ------------------------------------------------------------------ C09
def c09(new, fn):
    """the searches without a table: exact on [1, max], an error outside"""
    s = new('%s finds every value in range' % fn)
    mx = s.int('max', 1, 65535)
    x = s.int('x', 1, 65535)
    nz('g')
    gg = s.field('g', True)
    co, vo, ce, ve = s.result(ENC + fn, mx, gg, x * gg)
    s.no_panic('for any input')
    s.iff('succeeds exactly for multiples in range', co, mk_leq(x, mx))
    if vo is not None:
        s.eq('value', vo, x, (mk_leq(x, mx),))
    s = new('%s never returns a wrong value' % fn)
    mx = s.int('max', 1, 65535)
    gg, p = s.field('g'), s.field('p')
    co, vo, ce, ve = s.result(ENC + fn, mx, gg, p)
    found(s, mx, vo, co, lambda v: (v * gg, p))


def found(s, mx, vo, co, mult):
    s.no_panic('for any input')
    if vo is None:
        s.ob('can succeed', 'violated', 'never succeeds')
    else:
        s.eq('a returned value is a discrete logarithm', *mult(vo), (co,))
        s.holds('a returned value is in range', c_and(mk_leq(1, vo), mk_leq(vo, mx)), (co,))


def c09_table(new):
    fn = ENC + 'solve_discrete_log_using_pairing_powers'
    s = new('search in a complete table')
    mx = s.int('max', 1, 65535)
    x = s.int('x', 1, 65535)
    nz('g')
    n, k = s.int('n', 1), s.int('k', 0)
    s.assume(mk_lt(k, n))
    tab = seq_fn(n, lambda i: seq_fn(mx, lambda j: sym('g', i) * (j + 1)))
    co, vo, ce, ve = s.result(fn, k, mx, sym('g', k) * x, tab)
    s.no_panic('for any input')
    s.iff('succeeds exactly for multiples in range', co, mk_leq(x, mx))
    if vo is not None:
        s.eq('value', vo, x, (mk_leq(x, mx),))
    s = new('search in any table')
    mx = s.int('max', 1, 65535)
    n, k = s.int('n', 0), s.int('k', 0)
    p = s.field('p')
    ln = lambda i: sym('len:tab', i, int=True)
    declare('len:tab', int=True, rng=(0, None))
    tab = seq_fn(n, lambda i: seq_fn(ln(i), lambda j: sym('tab', i, j)))
    co, vo, ce, ve = s.result(fn, k, mx, p, tab)
    s.no_panic('for any input')
    s.holds('a table without that row is an error', c_or(c_not(co), mk_lt(k, n)))
    if vo is None:
        s.ob('can succeed', 'violated', 'never succeeds')
        return
    s.assume(mk_lt(k, n))
    s.eq('the entry found is the target', sym('tab', k, vo - 1), p, (co,))
    s.holds('a returned value is in range', c_and(mk_leq(1, vo), mk_leq(vo, mx)), (co,))
    s.holds('a returned value is in the table', mk_leq(vo, ln(k)), (co,))
    s = new('search in a table of any row length')
    mx = s.int('max', 1, 65535)
    x = s.int('x', 1, 65535)
    L = s.int('L', 0)
    nz('g')
    n, k = s.int('n', 0), s.int('k', 0)
    tab = seq_fn(n, lambda i: seq_fn(L, lambda j: sym('g', i) * (j + 1)))
    co, vo, ce, ve = s.result(fn, k, mx, sym('g', k) * x, tab)
    s.no_panic('for any input')
    s.iff('succeeds exactly for multiples in range and in the table', co, c_and(mk_lt(k, n), mk_leq(x, mx), mk_leq(x, L)))
    if vo is not None:
        s.eq('value', vo, x, (co,))


def c09_powers(new, kind, how):
    """the table built for a decryption key"""
    s = new('%s::%s' % (kind, how))
    declare('cb', int=True, rng=(1, 16))
    w = s.int('cb', 1, 16)
    lv, lw, lg = s.int('lv', 0), s.int('lw', 0), s.int('lg', 0)
    dk = s.adt('keygen::' + kind, 'dk', V_1=lv, V_2=lw)
    gs = s.vec('gb', lg)
    if how == 'pairing_powers':
        arg = gs
        s.assume()
    else:
        arg = vk_with(s, gs)
    co, vo, ce, ve = s.result('keygen::%s::<E>::%s' % (kind, how), dk, w, arg)
    s.no_panic('for any input')
    n = lv
    good = c_and(mk_eq(lv - lw), mk_leq(lv, 255), mk_leq(lv, lg))
    s.iff('succeeds exactly when keys and bases fit', co, good)
    if vo is None:
        return
    s.eq('one row per chunk', s.length(vo), n, (good,))
    declare('k0', int=True)
    k = sym('k0', int=True)
    ins = (good, mk_leq(0, k), mk_lt(k, n))
    f = s.f.assuming(*ins)
    row = seq_get(vsimp(vo, f), k, f)
    s.seq('row k holds the multiples of the pairing of base k with V_2[k]', row, top(w),
          lambda j: sym('gb', k) * sym('dk.V_2', k) * (j + 1), ins)


def c09_decrypt(new, w, table):
    """decryption of any ciphertext: chunk i is c_i - sk*s_i*c_0 as a multiple of g_i, or an error"""
    s = new('decryption of any ciphertext (%d-bit chunks%s)' % (w, ', table' if table else ''))
    n = s.int('n', 0, 255)
    nz('H', 'rho', 'v', 'g_i')
    lg = s.int('lg', 0)
    s.assume(mk_leq(n, lg))
    gs = s.vec('g_i', lg)
    H, rho = s.field('H', True), s.field('rho', True)
    v2 = seq_fn(n, lambda i: H * rho * sym('v', i))
    dk = s.struct('keygen::PreparedDecryptionKey', V_0=H * rho, V_1=seq_fn(n, lambda i: H * sym('s', i) * sym('v', i)), V_2=v2)
    sk = s.struct('keygen::SecretKey', **{'0': rho})
    c0 = s.field('c_0')
    y = s.vec('y', n)                      # the plaintext exponents, any field elements
    c = seq_fn(n, lambda i: c0 * sym('s', i) + sym('y', i) * sym('g_i', i))
    a = (c0, c, sk, dk, gs, w)
    if table:
        pw = s.ok('keygen::PreparedDecryptionKey::<E>::pairing_powers', dk, w, gs)
        co, vo, ce, ve = s.result(ENC + 'decrypt_to_chunks_given_pairing_powers', *a, Struct('core::option::Option', 'Some', [('0', pw)]))
    else:
        co, vo, ce, ve = s.result(ENC + 'decrypt_to_chunks', *a)
    after_decrypt(s, w, n, co, vo, lambda i: sym('y', i), rho * c0)


def after_decrypt(s, w, n, co, vo, y, nu):
    s.no_panic('for any input')
    if vo is None:
        s.ob('can succeed', 'violated', 'never succeeds')
        return
    pay = vo.get('0') if nu is not None else vo
    s.eq('as many chunks as the ciphertext', s.length(pay), n, (co,))
    declare('k0', int=True)
    k = sym('k0', int=True)
    ins = (co, mk_leq(0, k), mk_lt(k, n))
    f = s.f.assuming(*ins)
    e = seq_get(vsimp(pay, f), k, f)
    s.eq('a returned chunk is the plaintext exponent', e, y(k), ins)
    s.holds('a returned chunk is in range', c_and(mk_leq(0, e), mk_leq(e, 2 ** w - 1)), ins)
    if nu is not None:
        s.eq('commitment to the randomness', vo.get('1'), nu, (co,))


# ------------------------------------------------------------------ C08
def opt(v):
    return Struct('core::option::Option', 'Some', [('0', v)])


def c08(new, w, kind):
    """every decryption entry point on what encryption produced"""
    s = new('decryption of an honest ciphertext (%d-bit chunks, %s key)' % (w, kind))
    base = s.name
    n, g, d, gm, gs, ln = scenario(s, w)
    k = RealKey(s, w, g, gs, d, gm)
    m = s.field('message')
    ct, r = encrypt_entry(s, 'encrypt', w, k, gs, n, m)
    vk = vk_with(s, gs)
    ty = 'PreparedDecryptionKey' if kind == 'prepared' else 'DecryptionKey'
    dk = k.pdk if kind == 'prepared' else k.dk
    chunks_ = s.ok('utils::decompose', m, w)
    nu = k.sk.get('0') * ct.get('X_r')
    a = (ct.get('X_r'), ct.get('enc_chunks'), k.sk, dk)
    pw = s.ok('keygen::%s::<E>::pairing_powers' % ty, dk, w, gs)
    pv = s.ok('keygen::%s::<E>::pairing_powers_given_groth16_vk' % ty, dk, w, vk)
    for nm, args in (('decrypt_to_chunks', a + (gs, w)), ('decrypt_to_chunks_given_pairing_powers', a + (gs, w, NONE)),
                     ('decrypt_to_chunks_given_pairing_powers', a + (gs, w, opt(pw)))):
        s.name = base + ': ' + nm + (' with a table' if args[-1] is not NONE and len(args) == 7 else '')
        v = s.ok(ENC + nm, *args)
        s.eq('chunks', v.get('0'), chunks_)
        s.eq('commitment to the randomness', v.get('1'), nu)
    for pre, head in ((ENC, a), (CT, (ct, k.sk, dk))):
        for nm, args in (('decrypt', (gs, w)), ('decrypt_given_pairing_powers', (gs, w, pw)), ('decrypt_given_pairing_powers', (gs, w, pv)),
                         ('decrypt_given_groth16_vk', (vk, w)), ('decrypt_given_groth16_vk_and_pairing_powers', (vk, w, pw))):
            s.name = base + ': ' + pre.split('::')[1] + '::' + nm
            v = s.ok(pre + nm, *head, *args)
            s.eq('message', v.get('0'), m)
            s.eq('commitment to the randomness', v.get('1'), nu)


def c08_chunks(new, w):
    """already decomposed messages of any length"""
    s = new('decryption of encrypted chunks of any number (%d bits)' % w)
    n = s.int('n', 1, 255)
    g = gens(s)
    nz('delta_g', 'gamma_g', 'g_i')
    ln = s.int('len:g_i', 0)
    s.assume(mk_leq(n, ln))
    gs = s.vec('g_i', ln)
    k = Key(s, n, g, s.field('delta_g', True), s.field('gamma_g', True), gs)
    declare('m', int=True, rng=(0, 2 ** w - 1))
    ms = seq_fn(n, lambda i: sym('m', i))
    ct = s.ok(ENC + 'encrypt_decomposed_message', s.rng, ms, k.ek, gs).get('0')
    c0, c = s.get(ct, 0), seq_slice(ct, ONE, n + 1, s.f)
    for kind, dk in (('plain', k.dk), ('prepared', k.pdk)):
        v = s.ok(ENC + 'decrypt_to_chunks', c0, c, k.sk, dk, gs, w)
        s.eq('chunks (%s key)' % kind, v.get('0'), ms)
        s.eq('commitment to the randomness', v.get('1'), k.rho * c0)


def c08_keys(new):
    s = new('PreparedDecryptionKey::from')
    dk = s.adt('keygen::DecryptionKey', 'dk')
    p = s.value('<keygen::PreparedDecryptionKey<E> as core::convert::From<keygen::DecryptionKey<E>>>::from', dk)
    for k in ('V_0', 'V_1', 'V_2'):
        s.eq(k, p.get(k), dk.get(k))
    for ty in ('DecryptionKey', 'PreparedDecryptionKey'):
        s = new('%s::supported_chunks_count' % ty)
        l1, l2 = (s.int(x, 0) for x in ('l1', 'l2'))
        dk = s.adt('keygen::' + ty, 'dk', V_1=l1, V_2=l2)
        good = c_and(mk_eq(l1 - l2), mk_leq(l1, 255))
        co, vo, ce, ve = s.result('keygen::%s::<E>::supported_chunks_count' % ty, dk)
        s.no_panic()
        s.iff('succeeds exactly for well-formed keys', co, good)
        if vo is not None:
            s.eq('value', vo, l1, (good,))
        co, vo, ce, ve = s.result('keygen::%s::<E>::validate' % ty, dk)
        s.iff('validate succeeds exactly for well-formed keys', co, good)


# ------------------------------------------------------------------ C10
def shared_key(s, N, n, g, delta, gamma, gs):
    """the combined key of N parties and the parties' shares (the form distributed key generation is shown to produce)"""
    nz('sp', 'tp')
    S = lambda i: s.sum(N, lambda p: sym('sp', p, i))
    Tt = lambda i: s.sum(N, lambda p: sym('tp', p, i))
    G, H = g.get('G'), g.get('H')
    ek = s.struct('keygen::EncryptionKey', X_0=delta, X=seq_fn(n, lambda i: delta * S(i)), Y=seq_fn(n, lambda i: seq_get(gs, i, s.f) * Tt(i + 1)),
                  Z=seq_fn(n + 1, lambda i: H * Tt(i)), P_1=delta * (Tt(ZERO) + s.sum(n, lambda j: S(j) * Tt(j + 1))),
                  P_2=gamma * (1 + s.sum(n, S)))
    share = lambda p: s.struct('keygen::SecretKeyST', s=seq_fn(n, lambda i: sym('sp', p, i)), t=seq_fn(n + 1, lambda i: sym('tp', p, i)))
    return ek, share


def setting(s, extra=None):
    n = s.int('n', 1, 255)
    g = gens(s)
    nz('delta_g', 'gamma_g', 'g_i')
    ln = s.int('len:g_i', 0)
    s.assume(mk_leq(n, ln))
    return n, g, s.field('delta_g', True), s.field('gamma_g', True), s.vec('g_i', ln)


def dest(s, g):
    nz('skd')
    return s.struct('keygen::SecretKey', **{'0': s.field('skd', True)}), s.struct('keygen::FEncryptionKeyDest', pk=s.field('skd', True) * g.get('G'))


def reencrypt(s, N, g, c0, c, n, ekd, share, upto=None):
    """shares of N parties combined (combine_re_encrypt_share is shown to add elementwise) and added to the ciphertext"""
    out = many(s, N, lambda p: s.ok(ENC + 're_encrypt_share', s.rng, g, c0, c, ekd, share(p)))
    M = N if upto is None else upto
    at = lambda p: seq_get(out, p, s.f.add(mk_leq(0, p), mk_lt(p, M)))
    w = seq_fn(n, lambda i: s.sum(M, lambda p: seq_get(at(p).get('0'), i, s.f.add(mk_leq(0, i), mk_lt(i, n), mk_leq(0, p), mk_lt(p, M)))))
    gr = s.sum(M, lambda p: at(p).get('1'))
    return s.ok(ENC + 'combine_ct_with_w', g, c, gr, w), out


def c10(new, w):
    s = new('re-encryption by all N parties (%d-bit chunks)' % w)
    n, g, d, gm, gs = setting(s)
    N = s.int('N', 1)
    ek, share = shared_key(s, N, n, g, d, gm, gs)
    declare('m', int=True, rng=(0, 2 ** w - 1))
    ms = seq_fn(n, lambda i: sym('m', i))
    ct = s.ok(ENC + 'encrypt_decomposed_message', s.rng, ms, ek, gs).get('0')
    c0, c = s.get(ct, 0), seq_slice(ct, ONE, n + 1, s.f)
    skd, ekd = dest(s, g)
    ct2, out = reencrypt(s, N, g, c0, c, n, ekd, share)
    s.eq('length of the re-encrypted ciphertext', s.length(ct2), n + 1)
    v = s.ok(ENC + 'decrypt_to_chunks_after_re_encryption', s.get(ct2, 0), seq_slice(ct2, ONE, n + 1, s.f), skd, gs, w)
    s.eq('chunks', v, ms)
    # the last party's share is missing
    s = new('re-encryption with one share missing (%d-bit chunks)' % w)
    n, g, d, gm, gs = setting(s)
    N = s.int('N', 1)
    M = N - 1
    ek, share = shared_key(s, N, n, g, d, gm, gs)
    ms = seq_fn(n, lambda i: sym('m', i))
    ct = s.ok(ENC + 'encrypt_decomposed_message', s.rng, ms, ek, gs).get('0')
    c0, c = s.get(ct, 0), seq_slice(ct, ONE, n + 1, s.f)
    skd, ekd = dest(s, g)
    ct2, out = reencrypt(s, N, g, c0, c, n, ekd, share, M)
    s.seq('the plaintext stays masked by the missing secret', seq_slice(ct2, ONE, n + 1, s.f), n,
          lambda i: skd.get('0') * s.get(ct2, 0) + sym('m', i) * sym('g_i', i) + c0 * sym('sp', N - 1, i))
    s.nonzero('the mask is not constant', c0 * sym('sp', N - 1, ZERO))


def c10_real(new, w):
    """the same through the crate's own distributed key generation"""
    s = new('distributed keys, encryption, re-encryption, decryption (%d-bit chunks)' % w)
    n, g, d, gm, gs, ln = scenario(s, w)
    N = s.int('N', 1)
    k = RealKey(s, w, g, gs, d, gm, N)
    m = s.field('message')
    ct, r = encrypt_entry(s, 'encrypt', w, k, gs, n, m)
    r = s.ok('keygen::Fkeygen_dest', s.rng, g)
    skd, ekd = r.get('0'), r.get('1')
    ct2, out = reencrypt(s, N, g, ct.get('X_r'), ct.get('enc_chunks'), n, ekd, lambda p: seq_get(k.shares, p, s.f))
    v = s.ok(ENC + 'decrypt_to_chunks_after_re_encryption', s.get(ct2, 0), seq_slice(ct2, ONE, n + 1, s.f), skd, gs, w)
    s.eq('chunks', v, s.ok('utils::decompose', m, w))


def c10_parts(new):
    s = new('re_encrypt_share')
    n = s.int('n', 0)
    g = gens(s)
    sk = s.adt('keygen::SecretKeyST', 'sk', s=n)
    ekd = s.adt('keygen::FEncryptionKeyDest', 'ekd')
    c0 = s.field('c_0')
    v = s.ok(ENC + 're_encrypt_share', s.rng, g, c0, s.vec('c', n), ekd, sk)
    gr, G = v.get('1'), g.get('G')
    s.seq('(w_i + s_i*c_0)*G = g_r*pk', v.get('0'), n,
          lambda i: -c0 * sym('sk.s', i) + ratio(gr, G) * ekd.get('pk'))
    s.nonzero('g_r is not constant', gr)
    s = new('combine_re_encrypt_share')
    n = s.int('n', 0)
    g1, g2 = s.field('g1'), s.field('g2')
    v = s.ok(ENC + 'combine_re_encrypt_share', g1, g2, s.vec('w1', n), s.vec('w2', n))
    s.seq('shares add elementwise', v.get('0'), n, lambda i: sym('w1', i) + sym('w2', i))
    s.eq('randomness elements add', v.get('1'), g1 + g2)
    s = new('combine_ct_with_w')
    n = s.int('n', 0)
    g = gens(s)
    gr = s.field('gr')
    v = s.ok(ENC + 'combine_ct_with_w', g, s.vec('c', n), gr, s.vec('w', n))
    s.eq('length', s.length(v), n + 1)
    s.eq('first element', s.get(v, 0), gr)
    s.seq('chunk elements', seq_slice(v, ONE, n + 1, s.f), n, lambda i: sym('c', i) + sym('w', i))


def ratio(a, b):
    return a * T.poly_pow(b, -1)


def c10_decrypt(new, w):
    s = new('decryption after re-encryption of any ciphertext (%d-bit chunks)' % w)
    n = s.int('n', 0, 255)
    nz('g_i')
    lg = s.int('lg', 0)
    s.assume(mk_leq(n, lg))
    gs = s.vec('g_i', lg)
    c0 = s.field('c_0')
    skd = s.struct('keygen::SecretKey', **{'0': s.field('skd0')})
    c = seq_fn(n, lambda i: c0 * s.field('skd0') + sym('y', i) * sym('g_i', i))
    co, vo, ce, ve = s.result(ENC + 'decrypt_to_chunks_after_re_encryption', c0, c, skd, gs, w)
    after_decrypt(s, w, n, co, vo, lambda i: sym('y', i), None)


# ------------------------------------------------------------------ C11
def total(s, K, cts, n):
    """the sum of K ciphertexts (add_cts is shown to add elementwise)"""
    at = lambda p: seq_get(cts, p, s.f.add(mk_leq(0, p), mk_lt(p, K)))
    return seq_fn(n, lambda i: s.sum(K, lambda p: seq_get(at(p), i, s.f.add(mk_leq(0, i), mk_lt(i, n), mk_leq(0, p), mk_lt(p, K)))))


def c11(new, w, dist):
    s = new('sum of K honest ciphertexts (%d-bit chunks, %s key)' % (w, 'N-party' if dist else 'single-party'))
    n, g, d, gm, gs = setting(s)
    K = s.int('K', 1)
    declare('mm', int=True, rng=(0, 2 ** w - 1))
    if dist:
        N = s.int('N', 1)
        ek, share = shared_key(s, N, n, g, d, gm, gs)
    else:
        k = Key(s, n, g, d, gm, gs)
        ek = k.ek
    cts = many(s, K, lambda p: s.ok(ENC + 'encrypt_decomposed_message', s.rng, seq_fn(n, lambda j: sym('mm', p, j)), ek, gs).get('0'))
    ct = total(s, K, cts, n + 2)
    c0, c = s.get(ct, 0), seq_slice(ct, ONE, n + 1, s.f)
    s.ok(ENC + 'verify_ciphertext_commitment', c0, c, s.get(ct, n + 1), ek, g)
    M = lambda j: s.sum(K, lambda p: sym('mm', p, j))
    s.assume(mk_all(n, 'jj', mk_leq(M(sym('jj', int=True)), 2 ** w - 1)))
    want = seq_fn(n, M)
    if dist:
        skd, ekd = dest(s, g)
        ct2, out = reencrypt(s, N, g, c0, c, n, ekd, share)
        v = s.ok(ENC + 'decrypt_to_chunks_after_re_encryption', s.get(ct2, 0), seq_slice(ct2, ONE, n + 1, s.f), skd, gs, w)
        s.eq('chunk-wise sums after re-encryption', v, want)
    else:
        v = s.ok(ENC + 'decrypt_to_chunks', c0, c, k.sk, k.dk, gs, w)
        s.eq('chunk-wise sums', v.get('0'), want)


def c11_add(new):
    s = new('add_cts')
    n = s.int('n', 0)
    v = s.ok(ENC + 'add_cts', s.vec('a', n), s.vec('b', n))
    s.seq('adds elementwise', v, n, lambda i: sym('a', i) + sym('b', i))


SCENES = {
    'C10': [(c10, [(w,) for w in CBS]), (c10_real, [(w,) for w in CBS]), (c10_parts, [()]), (c10_decrypt, [(w,) for w in CBS])],
    'C11': [(c11, [(w, d) for w in CBS for d in (False, True)]), (c11_add, [()])],
    'C08': [(c08, [(w, k) for w in CBS for k in DK]), (c08_chunks, [(w,) for w in CBS]), (c08_keys, [()])],
    'C09': [(c09, [('solve_discrete_log_for_g',), ('solve_discrete_log',)]), (c09_table, [()]),
            (c09_powers, [(k, h) for k in ('DecryptionKey', 'PreparedDecryptionKey') for h in ('pairing_powers', 'pairing_powers_given_groth16_vk')]),
            (c09_decrypt, [(w, t) for w in CBS for t in (False, True)]), (c10_decrypt, [(w,) for w in CBS])],
}
