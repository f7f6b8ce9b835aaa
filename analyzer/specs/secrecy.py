"""C16, C17: secrets are fresh independent draws of the caller's generator; published values hide them."""
import re
from specs.common import *
from specs.enc import ENC, CT, vk_with
from specs.util import walk, draws
from groth import inv


# ------------------------------------------------------------------ independence of secrets
class Fam:
    """a secret (n None) or a family of n secrets, as terms in the draws"""

    def __init__(self, name, n, fn):
        self.name, self.n, self.fn = name, None if n is None else P(n), fn


def at(s, fam, i):
    if fam.n is None:
        return fam.fn(None, s.f)
    return fam.fn(i, s.f.add(mk_leq(0, i), mk_lt(i, fam.n)))


def drawn(s, x):
    """the atoms of x that are draws, with the bound variables' atoms included"""
    D = s.I.draws
    return [a for a in walk(x) if a.kind == 'sym' and a.args[0] in D]


def linear(s, x):
    """draw atoms occurring linearly with a constant coefficient: {atom: coefficient}"""
    out = {}
    for m, c in P(x).terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym' and m[0][0].args[0] in s.I.draws:
            out[m[0][0]] = c
    return out


def rng_ok(s, a):
    return s.I.draws[a.args[0]]['rng'] == s.rng


def idx(s, nm, n):
    v = fresh(nm)
    declare(v, int=True)
    k = sym(v, int=True)
    return k, (mk_leq(0, k), mk_lt(k, n))


def independent(s, what, fams):
    """each secret contains a full-range draw of the caller's generator that occurs in no other secret"""
    for F in fams:
        i, inside = (None, ()) if F.n is None else idx(s, 'i', F.n)
        f = s.f.add(*inside)
        x = F.fn(i, f)
        nm = '%s: %s' % (what, F.name)
        ds = drawn(s, x)
        if not ds:
            s.ob('%s is drawn at random' % nm, 'violated', 'it is %s, which contains no random draw' % cut(x))
            continue
        if all(not rng_ok(s, a) for a in ds):
            d = s.I.draws[ds[0].args[0]]
            s.ob('%s is drawn at random' % nm, 'violated', 'drawn from %s, not from the caller\'s generator' % cut(d['rng']), where='%s at %s' % (d['fn'], d['loc']))
            continue
        lin = {a: c for a, c in linear(s, x).items() if rng_ok(s, a)}
        full = {a: c for a, c in lin.items() if not T.SYM_INFO.get(a.args[0], {}).get('int')}
        if not full:
            small = all(T.SYM_INFO.get(a.args[0], {}).get('int') for a in ds)
            s.ob('%s is drawn at random' % nm, 'violated' if small else 'undecided', 'it is %s%s' % (cut(x), ', not a full-range draw' if small else ''))
            continue
        s.ob('%s is drawn at random' % nm, 'proved')
        own = None
        why = ''
        for a in full:
            r = private(s, a, F, i, fams)
            if r is True:
                own = a
                break
            why = r
        d = s.I.draws[next(iter(full)).args[0]]
        where = '%s at %s' % (d['fn'], d['loc'])
        if own is not None:
            s.ob('%s is independent of every other secret' % nm, 'proved', where=where)
        else:
            rel = related(s, fams)
            s.ob('%s is independent of every other secret' % nm, 'violated' if rel else 'undecided', rel or why, where=where)
            s.obs[-1].key += ' | ' + (rel or why)


def private(s, a, F, i, fams):
    """the draw a of secret F[i] occurs in no other secret"""
    name, ix = a.args[0], a.args[1]
    if F.n is not None:
        # the draw is indexed by the position
        inj = [e for e in ix if isinstance(e, T.Poly) and ((e - i).cval() is not None or (e + i).names & P(i).names == frozenset())]
        if not inj:
            return '%r does not depend on the position' % (a,)
    for G in fams:
        j, inside = (None, ()) if G.n is None else idx(s, 'j', G.n)
        f = s.f.add(*inside)
        if F.n is not None:
            f = f.add(mk_leq(0, i), mk_lt(i, F.n))
        y = G.fn(j, f)
        occ = [b for b in drawn(s, y) if b.args[0] == name]
        for b in occ:
            if G is F:
                if F.n is None:
                    if b is not a:
                        return 'several draws of one site'
                    continue
                # F[j] with j != i must not contain the draw
                z = T.subst(T.Poly.of(a), {i.single().args[0]: j})
                if z != T.Poly.of(b):
                    return '%s uses %r next to its own draw' % (F.name, b)
                continue
            dif = c_or(*[c_not(mk_eq(p - q)) for p, q in zip(ix, b.args[1])]) if len(ix) == len(b.args[1]) and ix else FALSE
            if not f.prove(dif):
                return '%s is also used in %s' % (a, G.name)
    return True


def related(s, fams):
    """a dependence between concrete secrets, by rank of their linear forms; '' when none is found"""
    rows = []
    for F in fams:
        for k in ((None,) if F.n is None else (0, 1, 2)):
            if k is not None and not s.f.prove(mk_lt(P(k), F.n)):
                continue
            x = F.fn(None if k is None else P(k), s.f)
            rows.append(('%s%s' % (F.name, '' if k is None else '[%d]' % k), P(x)))
    for i, (a, x) in enumerate(rows):
        for b, y in rows[:i]:
            for z, sign in ((x - y, '-'), (x + y, '+')):
                if not drawn(s, z):
                    return '%s %s %s contains no draw: %s' % (b, sign, a, cut(z))
            # the same draws in both, fewer than the secrets
            dx, dy = {q for q in drawn(s, x)}, {q for q in drawn(s, y)}
            if len(dx | dy) < 2 and not any(q.kind in ('sum', 'first', 'prod') for q in list(walk(x)) + list(walk(y))):
                return '%s and %s are both computed from the one draw %s' % (b, a, sorted(map(repr, dx | dy)))
    alld = set()
    for a, x in rows:
        if any(q.kind in ('sum', 'first', 'prod') for q in walk(x)):
            return ''
        alld |= set(drawn(s, x))
    if len(alld) < len(rows):
        return '%d secrets are computed from %d draws' % (len(rows), len(alld))
    return ''


def per(v, base):
    """the family v[i] / base(i)"""
    return lambda i, f: seq_get(v, i, f) * inv(base(i, f) if callable(base) else base)


def one(x):
    return lambda i, f: x


def only_caller(s, what):
    bad = [d for d in s.I.draws.values() if d['rng'] != s.rng]
    if bad:
        s.ob('%s: randomness comes from the caller\'s generator alone' % what, 'violated', 'a draw from %s' % cut(bad[0]['rng']), where='%s at %s' % (bad[0]['fn'], bad[0]['loc']))
    else:
        s.ob('%s: randomness comes from the caller\'s generator alone' % what, 'proved')


def key_secrets(s, r, n, g, d, gs):
    sk, ek, dk = (r.get(k) for k in '012')
    H = g.get('H')
    rho = sk.get('0')
    return [Fam('the secret key', None, one(rho)), Fam('s_i', n, per(ek.get('X'), d)), Fam('t_i', n + 1, per(ek.get('Z'), H)),
            Fam('v_i', n, per(dk.get('V_2'), H * rho))]


def c16_keys(new, w):
    s = new('keygen (%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w)
    r = s.ok('keygen::keygen', s.rng, w, g, gs, d, gm)
    independent(s, 'secret exponents', key_secrets(s, r, n, g, d, gs))
    only_caller(s, 'keygen')
    s = new('FkeygenPartial (%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w)
    r = s.ok('keygen::FkeygenPartial', s.rng, w, g, gs, d, gm)
    sk, ek = r.get('0'), r.get('1')
    independent(s, 'secret share', [Fam('s_i', n, lambda i, f: seq_get(sk.get('s'), i, f)), Fam('t_i', n + 1, lambda i, f: seq_get(sk.get('t'), i, f))])
    only_caller(s, 'FkeygenPartial')
    s = new('FkeygenPartial of two parties (%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w)
    a = s.ok('keygen::FkeygenPartial', s.rng, w, g, gs, d, gm).get('0')
    b = s.ok('keygen::FkeygenPartial', s.rng, w, g, gs, d, gm).get('0')
    fam = []
    for nm, k in (('first party', a), ('second party', b)):
        fam.append(Fam('s_i of the %s' % nm, n, lambda i, f, k=k: seq_get(k.get('s'), i, f)))
        fam.append(Fam('t_i of the %s' % nm, n + 1, lambda i, f, k=k: seq_get(k.get('t'), i, f)))
    independent(s, 'secret shares', fam)


def c16_dest(new):
    s = new('Fkeygen_dest')
    g = gens(s)
    r = s.ok('keygen::Fkeygen_dest', s.rng, g)
    independent(s, 'destination key', [Fam('the secret key', None, one(r.get('0').get('0')))])
    only_caller(s, 'Fkeygen_dest')
    s = new('generate_srs')
    g = gens(s)
    pk = s.ok('saver_groth16::generate_srs', Opaque('circuit', 'any'), g, s.rng)
    independent(s, 'SRS trapdoor', srs_secrets(pk, g))
    only_caller(s, 'generate_srs')
    s = new('EncryptionGens::new_using_rng')
    v = s.value('setup::EncryptionGens::<E>::new_using_rng', s.rng)
    independent(s, 'generators', [Fam(k, None, one(v.get(k))) for k in 'GH'])
    s = new('ChunkedCommitmentGens::new_using_rng')
    v = s.value('setup::ChunkedCommitmentGens::<G>::new_using_rng', s.rng)
    independent(s, 'generators', [Fam(k, None, one(v.get(k))) for k in 'GH'])


def srs_secrets(pk, g):
    vk = pk.get('pk').get('vk')
    G, H = g.get('G'), g.get('H')
    return [Fam('alpha', None, one(vk.get('alpha_g1') * inv(G))), Fam('beta', None, one(vk.get('beta_g2') * inv(H))),
            Fam('gamma', None, one(vk.get('gamma_g2') * inv(H))), Fam('delta', None, one(vk.get('delta_g2') * inv(H)))]


def c16_setup(new, w):
    s = new('setup_for_groth16 (%d-bit chunks)' % w)
    g = gens(s)
    r = s.ok('setup::setup_for_groth16', s.rng, w, g)
    spk, sk, ek, dk = (r.get(k) for k in '0123')
    H, rho = g.get('H'), sk.get('0')
    n = s.length(ek.get('X'))
    x0 = ek.get('X_0')
    independent(s, 'secrets', srs_secrets(spk, g) + [
        Fam('the secret key', None, one(rho)), Fam('s_i', n, per(ek.get('X'), x0)), Fam('t_i', n + 1, per(ek.get('Z'), H)),
        Fam('v_i', n, per(dk.get('V_2'), H * rho))])
    only_caller(s, 'setup_for_groth16')


def enc_scene(s, w):
    n = chunks(w)
    nz('ek.X_0')
    ek = s.adt('keygen::EncryptionKey', 'ek', X=n, Y=n, Z=n + 1)
    gs = s.vec('g_i', n)
    return n, ek, gs


def c16_enc(new, w):
    for how in ('encrypt', 'encrypt_given_snark_vk', 'encrypt_decomposed_message'):
        s = new('%s (%d-bit chunks)' % (how, w))
        n, ek, gs = enc_scene(s, w)
        if how == 'encrypt':
            r = s.ok(ENC + how, s.rng, s.field('m'), ek, gs, w)
            x = r.get('0').get('X_r')
        elif how == 'encrypt_given_snark_vk':
            r = s.ok(ENC + how, s.rng, s.field('m'), ek, vk_with(s, gs), w)
            x = r.get('0').get('X_r')
        else:
            r = s.ok(ENC + how, s.rng, s.vec('m', n, 'i'), ek, gs)
            x = s.get(r.get('0'), 0)
        independent(s, 'encryption', [Fam('the randomness', None, one(x * inv(ek.get('X_0'))))])
        s.eq('the returned randomness is the one used', r.get('1') * ek.get('X_0'), x)
        only_caller(s, how)
    s = new('encrypt_with_proof (%d-bit chunks)' % w)
    s.I.blank = True
    n, ek, gs = enc_scene(s, w)
    spk = proving_key(s, n)
    r = s.ok(ENC + 'encrypt_with_proof', s.rng, s.field('m'), ek, spk, w)
    ct, rr, pf = (r.get(k) for k in '012')
    independent(s, 'encryption and proof', [Fam('the encryption randomness', None, one(ct.get('X_r') * inv(ek.get('X_0'))))] + blinders(spk, pf))
    only_caller(s, 'encrypt_with_proof')


def proving_key(s, n=None):
    nz('spk.pk.delta_g1', 'spk.pk.vk.delta_g2')
    spk = s.adt('saver_groth16::ProvingKey', 'spk')
    if n is not None:
        s.assume(mk_eq(s.length(spk.get('pk').get('vk').get('gamma_abc_g1')) - n - 1))
    return spk


def blinders(spk, pf):
    """the multiples of delta by which the first two proof elements are shifted"""
    pk = spk.get('pk')
    return [Fam('the blinder of proof element a', None, one((pf.get('a') - sym('PROOF_A')) * inv(pk.get('delta_g1')))),
            Fam('the blinder of proof element b', None, one((pf.get('b') - sym('PROOF_B')) * inv(pk.get('vk').get('delta_g2'))))]


def c16_proof(new):
    s = new('create_proof')
    spk = proving_key(s)
    ek = s.adt('keygen::EncryptionKey', 'ek')
    s.assume(mk_leq(sym('CIRC_INPUTS', int=True) + 1, s.length(spk.get('pk').get('vk').get('gamma_abc_g1'))), mk_leq(0, sym('CIRC_INPUTS', int=True)))
    s.assume(T.mk_bool(sym('CIRC_SAT', int=True)))
    pf = s.ok('saver_groth16::create_proof', Opaque('circuit', 'any'), s.field('r'), spk, ek, s.rng)
    independent(s, 'proof', blinders(spk, pf))
    only_caller(s, 'create_proof')


def re_share(s):
    n = s.int('n', 1, 255)
    s.assume(mk_leq(3, n))
    g = gens(s)
    nz('ekd.pk', 'c_0')
    ekd = s.adt('keygen::FEncryptionKeyDest', 'ekd')
    sk = s.struct('keygen::SecretKeyST', s=s.vec('sk.s', n), t=s.vec('sk.t', n + 1))
    return n, g, ekd, sk


def mask(w, n, i, f, ekd, s):
    """the part of share i that hides the secret: what remains for a zero exponent"""
    x = seq_get(w, i, f)
    return T.subst(x, {'c_0': ZERO}) * inv(ekd.get('pk'))


def c16_share(new):
    s = new('re_encrypt_share')
    n, g, ekd, sk = re_share(s)
    r = s.ok(ENC + 're_encrypt_share', s.rng, g, s.field('c_0', True), s.vec('c', n), ekd, sk)
    w, gr = r.get('0'), r.get('1')
    independent(s, 'share', [Fam('the mask', None, one(gr * inv(g.get('G'))))])
    only_caller(s, 're_encrypt_share')
    s = new('re_encrypt_share')
    n, g, ekd, sk = re_share(s)
    r = s.ok(ENC + 're_encrypt_share', s.rng, g, s.field('c_0', True), s.vec('c', n), ekd, sk)
    w, gr = r.get('0'), r.get('1')
    independent(s, 'masks of the chunks', [Fam('the mask of chunk i', n, lambda i, f: mask(w, n, i, f, ekd, s))])
    s = new('re_encrypt_share called twice')
    n, g, ekd, sk = re_share(s)
    a, b = (s.ok(ENC + 're_encrypt_share', s.rng, g, s.field('c_0', True), s.vec('c', n), ekd, sk).get('1') * inv(g.get('G')) for _ in '12')
    independent(s, 'shares', [Fam('the mask of the first call', None, one(a)), Fam('the mask of the second call', None, one(b))])


# ------------------------------------------------------------------ sources of randomness in the source text
SOURCES = {'from_entropy', 'seed_from_u64', 'from_seed', 'from_rng', 'thread_rng', 'test_rng', 'from_os_rng', 'default_rng', 'getrandom', 'getentropy'}
SOURCE_PATHS = ('rand::random', 'rand::rng', 'RandomState::new', 'Instant::now', 'SystemTime::now')


def calls_of(c, key):
    """every call expression and path mentioned in the body (callee path, location)"""
    out = []

    def rec(x):
        if isinstance(x, dict):
            if isinstance(x.get('callee'), str):
                out.append((x['callee'], x.get('l') or ''))
            for v in x.values():
                if isinstance(v, (dict, list)):
                    rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    rec(c.bodies[key])
    return out


def c16_lint(crates):
    obs, fns, n = [], [], 0
    for cfg, c in sorted(crates.items()):
        for k in sorted(c.bodies):
            fns.append(k)
            for callee, loc in calls_of(c, k):
                n += 1
                p = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', callee))
                last = p.split('::')[-1]
                if (last in SOURCES and ('rand' in p or 'test_rng' in last or 'Rng' in callee)) or p.endswith(SOURCE_PATHS):
                    obs.append({'obligation': 'no generator besides the caller\'s is created in %s' % k, 'status': 'violated', 'where': '%s at %s' % (k, loc),
                                'detail': 'calls %s' % callee, 'key': 'generator created in ' + k})
    if not obs:
        obs.append({'obligation': 'no function of the crate creates or reads a source of randomness of its own', 'status': 'proved', 'where': 'all bodies', 'detail': '', 'key': 'c16_lint'})
    return obs, fns, n, [], {'calls_scanned': n, 'bodies_scanned': len(fns)}


# ------------------------------------------------------------------ C17
PUBLIC = ['keygen::EncryptionKey', 'keygen::PreparedEncryptionKey', 'keygen::FEncryptionKeyPartial', 'keygen::FEncryptionKeyDest', 'keygen::P1share',
          'keygen::DecryptionKey', 'keygen::PreparedDecryptionKey', 'encryption::Ciphertext', 'commitment::ChunkedCommitment', 'saver_groth16::ProvingKey',
          'setup::EncryptionGens', 'setup::PreparedEncryptionGens', 'setup::ChunkedCommitmentGens', 'error::SaverError']
SECRET = {'keygen::SecretKey', 'keygen::SecretKeyST'}


def c17_types(crates):
    """no published type stores a scalar of the field, directly or inside another type"""
    obs, n = [], 0
    c = crates['default']
    import json as _j
    for p in PUBLIC:
        if p not in c.adts:
            obs.append({'obligation': 'published type %s holds no scalar' % p, 'status': 'undecided', 'where': p, 'detail': 'type not found', 'key': p})
            continue
        bad = []
        seen = set()

        def ty(t, path):
            nonlocal n
            if isinstance(t, int):
                t = c.ty(t)
            if not isinstance(t, dict):
                return
            n += 1
            k = t.get('k')
            txt = t.get('s') or t.get('p') or ''
            if k == 'alias':
                if 'ScalarField' in txt or 'ScalarField' in (t.get('p') or ''):
                    bad.append(path + ': ' + txt)
                return
            if k == 'adt':
                q = t.get('p')
                if q in SECRET:
                    bad.append(path + ': ' + q)
                elif q in c.adts and q not in seen:
                    seen.add(q)
                    for v in c.adts[q]['variants']:
                        for f in v['f']:
                            ty(f['t'], path + '.' + f['n'])
            if k == 'param' and scalar_param(c, p, t):
                bad.append(path + ': ' + txt)
            for a in list(t.get('a') or []) + [t.get(x) for x in ('e', 't', 'i') if isinstance(t.get(x), (int, dict))]:
                ty(a, path)
        for v in c.adts[p]['variants']:
            for f in v['f']:
                ty(f['t'], p.split('::')[-1] + '.' + f['n'])
        obs.append({'obligation': 'published type %s holds no scalar' % p, 'status': 'violated' if bad else 'proved', 'where': p, 'detail': '; '.join(bad), 'key': p})
    return obs, [], 0, [], {'types_checked': len(PUBLIC), 'type_terms_visited': n}


def scalar_param(c, p, t):
    return False


def masked(s, what, elems, r, n):
    """elems: families of published group elements that contain the message; r: the mask.  Every element contains the mask,
    with coefficients no public combination of which cancels"""
    rows = []
    for F in elems:
        i, inside = (None, ()) if F.n is None else idx(s, 'i', F.n)
        f = s.f.add(*inside)
        x = P(F.fn(i, f))
        c = coefficient(x, r)
        nm = '%s: %s' % (what, F.name)
        if c is None:
            s.ob('%s contains the mask' % nm, 'undecided', cut(x))
            continue
        if equal0(c, f):
            s.ob('%s contains the mask' % nm, 'violated', '%s does not contain the encryption randomness' % cut(x))
            continue
        s.ob('%s contains the mask' % nm, 'proved')
        rows.append((F, i, c))
    for k, (F, i, c) in enumerate(rows):
        a = private_atom(c, i)
        nm = '%s: the mask of %s is cancelled by no other published element' % (what, F.name)
        ok, why = a is not None, 'its mask %s is not tied to a key element of its own' % cut(c)
        if ok:
            for G, j, d in rows:
                occ = [b for b in walk(d) if b.kind == 'sym' and b.args[0] == a.args[0]]
                for b in occ:
                    if G is F:
                        if b is not a:
                            ok, why = False, '%r' % b
                    else:
                        if not s.f.prove(c_or(*[c_not(mk_eq(p - q)) for p, q in zip(a.args[1], b.args[1])]) if a.args[1] else FALSE):
                            ok, why = False, '%s contains %r as well' % (G.name, b)
        if ok:
            s.ob(nm, 'proved')
            continue
        bad = ''
        inst = []
        for G, j, d in rows:
            if j is None:
                inst.append((G.name, d))
            else:
                inst += [('%s at %d' % (G.name, q), T.subst(d, {j.single().args[0]: P(q)})) for q in (0, 1) if s.f.prove(mk_lt(P(q), G.n))]
        for u in range(len(inst)):
            for v in range(u):
                x, y = inst[u][1], inst[v][1]
                q = ratio(x, y)
                if q is not None:
                    bad = 'the masks of %s and %s are in the public ratio %s: %s and %s' % (inst[u][0], inst[v][0], q, cut(x), cut(y))
        s.ob(nm, 'violated' if bad else 'undecided', bad or why)


def ratio(x, y):
    """the constant c with x = c*y, if any"""
    x, y = P(x), P(y)
    if not x.terms or set(x.terms) != set(y.terms):
        return None
    m = next(iter(x.terms))
    from fractions import Fraction
    q = Fraction(x.terms[m]) / Fraction(y.terms[m])
    return q if all(Fraction(x.terms[k]) == q * Fraction(y.terms[k]) for k in x.terms) else None


def equal0(c, f):
    from facts import equal
    return equal(c, ZERO, f)


def coefficient(x, r):
    """coefficient of the symbol r in x (x linear in r)"""
    a = P(r).single()
    if a is None or a.kind != 'sym':
        return None
    nm = a.args[0]
    x0 = T.subst(x, {nm: ZERO})
    x1 = T.subst(x, {nm: ONE})
    c = x1 - x0
    if a.args[0] in c.names or x0 + c * r != P(x):
        return None
    return c


def private_atom(c, i):
    """a key element occurring in the mask's coefficient, indexed by the position"""
    for m, k in P(c).terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym':
            a = m[0][0]
            if i is None or any(isinstance(e, T.Poly) and (e - i).cval() is not None for e in a.args[1]):
                return a
    return None


def c17_ct(new, w):
    for how in ('encrypt', 'encrypt_given_snark_vk', 'encrypt_with_proof', 'encrypt_decomposed_message'):
        s = new('%s (%d-bit chunks)' % (how, w))
        s.I.blank = True
        n, ek, gs = enc_scene(s, w)
        pf = None
        if how == 'encrypt':
            r = s.ok(ENC + how, s.rng, s.field('m'), ek, gs, w)
        elif how == 'encrypt_given_snark_vk':
            r = s.ok(ENC + how, s.rng, s.field('m'), ek, vk_with(s, gs), w)
        elif how == 'encrypt_with_proof':
            spk = proving_key(s, n)
            r = s.ok(ENC + how, s.rng, s.field('m'), ek, spk, w)
            pf = r.get('2')
        else:
            r = s.ok(ENC + how, s.rng, s.vec('m', n, 'i'), ek, gs)
        if how == 'encrypt_decomposed_message':
            v = r.get('0')
            x, psi = s.get(v, 0), s.get(v, n + 1)
            ch = Fam('the ciphertext of chunk i', n, lambda i, f: seq_get(v, i + 1, f))
        else:
            ct = r.get('0')
            x, psi = ct.get('X_r'), ct.get('commitment')
            ch = Fam('the ciphertext of chunk i', n, lambda i, f: seq_get(ct.get('enc_chunks'), i, f))
        masked(s, 'published', [Fam('the randomness element', None, one(x)), ch, Fam('the commitment', None, one(psi))], r.get('1'), n)
        if pf is not None:
            hidden_proof(s, spk, pf)


def hidden_proof(s, spk, pf):
    pk = spk.get('pk')
    for k, d in (('a', pk.get('delta_g1')), ('b', pk.get('vk').get('delta_g2'))):
        x = pf.get(k)
        ds = [a for a in drawn(s, x) if rng_ok(s, a)]
        bad = not ds
        s.ob('proof element %s is blinded by a draw' % k, 'violated' if bad else 'proved', cut(x))


def c17_proof(new):
    s = new('create_proof')
    spk = proving_key(s)
    ek = s.adt('keygen::EncryptionKey', 'ek')
    s.assume(mk_leq(sym('CIRC_INPUTS', int=True) + 1, s.length(spk.get('pk').get('vk').get('gamma_abc_g1'))), mk_leq(0, sym('CIRC_INPUTS', int=True)))
    s.assume(T.mk_bool(sym('CIRC_SAT', int=True)))
    pf = s.ok('saver_groth16::create_proof', Opaque('circuit', 'any'), s.field('r'), spk, ek, s.rng)
    hidden_proof(s, spk, pf)


def c17_share(new):
    s = new('re_encrypt_share')
    n, g, ekd, sk = re_share(s)
    r = s.ok(ENC + 're_encrypt_share', s.rng, g, s.field('c_0', True), s.vec('c', n), ekd, sk)
    w, gr = r.get('0'), r.get('1')
    i, inside = idx(s, 'i', n)
    f = s.f.add(*inside)
    x = seq_get(w, i, f)
    m = mask(w, n, i, f, ekd, s)
    s.ob('every share element contains the mask', 'proved' if any(rng_ok(s, a) for a in drawn(s, m)) else 'violated', cut(x))
    bare = sum(1 for a in walk(x) if a.kind == 'sym' and a.args[0] == 'sk.t')
    s.ob('the share reveals nothing of the exponents t', 'violated' if bare else 'proved', cut(x))
    s.eq('the mask of every element is the one published with the share', m * g.get('G'), gr, inside)
    # two chunks' elements
    d = m - T.subst(m, {i.single().args[0]: P(1)})
    d = T.subst(d, {i.single().args[0]: ZERO})
    s.ob('no combination of the share elements of two chunks cancels the mask', 'proved' if drawn(s, d) else 'violated',
         'share elements 0 and 1 differ by %s' % cut(T.subst(x, {i.single().args[0]: ZERO}) - T.subst(x, {i.single().args[0]: ONE})))
    s.obs[-1].key += ' | ' + s.obs[-1].detail


def c17_keys(new, w):
    """what key generation publishes: secrets occur in group elements only (types), each as a multiple of a base"""
    s = new('keygen (%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w)
    r = s.ok('keygen::keygen', s.rng, w, g, gs, d, gm)
    exposed(s, 'encryption key', r.get('1'))
    exposed(s, 'decryption key', r.get('2'))
    r = s.ok('keygen::FkeygenPartial', s.rng, w, g, gs, d, gm)
    exposed(s, 'partial encryption key', r.get('1'))
    p1 = s.value('keygen::genP1share', r.get('1'), r.get('0'))
    exposed(s, 'share of the aggregate element', p1)
    r = s.ok('keygen::Fkeygen_dest', s.rng, g)
    exposed(s, 'destination key', r.get('1'))


BASES = {'gens.G', 'gens.H', 'delta_g', 'gamma_g', 'g_i'}


def exposed(s, what, v):
    """every published element is a combination of the public bases: it vanishes with them"""
    zero = {b: ZERO for b in BASES}
    for nm, x in v.fields:
        if isinstance(x, Seq):
            n = seq_len(x)
            i, inside = idx(s, 'i', n)
            f = s.f.add(*inside)
            y = seq_get(x, i, f)
            extra = inside
        else:
            y, extra = x, ()
        s.eq('%s: %s is a multiple of the public bases' % (what, nm), T.subst(P(y), zero), ZERO, extra)


# ------------------------------------------------------------------ secrets in messages and logs
def c17_prints(crates):
    obs, n, fns = [], 0, []
    for cfg, c in sorted(crates.items()):
        for k in sorted(c.bodies):
            if 'Debug' in k or 'Display' in k:
                continue
            fns.append(k)
            for callee, loc in calls_of(c, k):
                n += 1
                if callee.endswith(('::_print', '::_eprint')) or callee.startswith('log::'):
                    obs.append({'obligation': 'nothing is written to a log in %s' % k, 'status': 'violated' if secret_arg(c, k) else 'undecided', 'where': '%s at %s' % (k, loc),
                                'detail': 'calls %s' % callee, 'key': 'log in ' + k})
    if not obs:
        obs.append({'obligation': 'no operation writes to standard output or a log', 'status': 'proved', 'where': 'all bodies', 'detail': '', 'key': 'c17_prints'})
    return obs, fns, n, [], {'log_calls_scanned': n}


def secret_arg(c, k):
    """the body formats a scalar, a secret key or a plaintext chunk"""
    import json as _j
    hits = []

    def rec(x):
        if isinstance(x, dict):
            cal = x.get('callee') or ''
            if 'Argument' in cal and ('new_debug' in cal or 'new_display' in cal or 'new_' in cal):
                for a in x.get('args') or []:
                    t = c.ty(a['t']) if isinstance(a, dict) and isinstance(a.get('t'), int) else {}
                    txt = _j.dumps(expand(c, t))
                    if re.search(r'ScalarField|SecretKey|u16', txt):
                        hits.append(txt)
            for v in x.values():
                if isinstance(v, (dict, list)):
                    rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    rec(c.bodies[k])
    return bool(hits)


def expand(c, t, d=0):
    if isinstance(t, int) and d < 6:
        t = c.ty(t)
    if not isinstance(t, dict):
        return t
    return {k: ([expand(c, y, d + 1) for y in v] if k == 'a' else expand(c, v, d + 1) if k in ('e', 't', 'i') else v) for k, v in t.items()} if d < 6 else {}


SCENES = {
    'C16': [(c16_keys, [(w,) for w in CBS]), (c16_dest, [()]), (c16_setup, [(w,) for w in CBS]), (c16_enc, [(w,) for w in CBS]), (c16_proof, [()]), (c16_share, [()])],
    'C17': [(c17_ct, [(w,) for w in CBS]), (c17_proof, [()]), (c17_share, [()]), (c17_keys, [(w,) for w in CBS])],
}
LINTS = {'C16': [(c16_lint, [()])], 'C17': [(c17_types, [()]), (c17_prints, [()])]}
META = {
    'C16': {'assumptions': ['draws of the caller\'s generator are independent and uniform; a draw is not zero']},
    'C17': {'level': 'other',
            'explanation': 'Decides the algebraic part of secrecy for all inputs: which public combinations of the published elements are free of the mask, '
                           'and whether a published type can hold a scalar. Computational hardness of discrete logarithms is outside any static argument.',
            'technique': 'abstract interpretation of the type-checked source: mask coefficients of the published terms, checked for a private key element each; type-structure lint over published types; call-site lint for logging',
            'note': 'algebraic masking condition for all inputs; not a computational secrecy proof'},
}
