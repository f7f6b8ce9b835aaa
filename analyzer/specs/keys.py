"""C01, C02: key generation."""
from specs.common import *


def fits(s, name, ek, n):
    for k, want in (('X', n), ('Y', n), ('Z', n + 1)):
        s.eq('%s.%s length' % (name, k), s.length(ek.get(k)), want)


def c01(new, w):
    s = new('keygen(%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w)
    G, H = g.get('G'), g.get('H')
    r = s.ok('keygen::keygen', s.rng, w, g, gs, d, gm)
    sk, ek, dk = (r.get(k) for k in '012')
    rho = sk.get('0')
    s.eq('ek.X_0 is delta_g', ek.get('X_0'), d)
    fits(s, 'ek', ek, n)
    X, Y, Z = ek.get('X'), ek.get('Y'), ek.get('Z')
    at = lambda q, i, f=None: seq_get(q, i, f or s.f)
    inside = lambda i: (mk_leq(0, i), mk_lt(i, n))
    declare('k0', int=True)
    k = sym('k0', int=True)
    f = s.f.add(*inside(k))
    s.eq('P_1*H = X_0*Z_0 + sum X_j*Z_(j+1)', ek.get('P_1') * H, ek.get('X_0') * at(Z, ZERO) +
         s.sum(n, lambda j: at(X, j, s.f.add(*inside(j))) * at(Z, j + 1, s.f.add(*inside(j)))))
    s.eq('Y_i*H = g_i*Z_(i+1)', at(Y, k, f) * H, at(gs, k, f) * at(Z, k + 1, f), inside(k))
    s.eq('P_2*X_0 = gamma*(X_0 + sum X_j)', ek.get('P_2') * ek.get('X_0'),
         gm * (ek.get('X_0') + s.sum(n, lambda j: at(X, j, s.f.add(*inside(j))))))
    V0, V1, V2 = dk.get('V_0'), dk.get('V_1'), dk.get('V_2')
    s.eq('dk.V_1 length', s.length(V1), n)
    s.eq('dk.V_2 length', s.length(V2), n)
    s.eq('V_0 = sk*H', V0, rho * H)
    s.eq('V_1[i]*sk*X_0 = X[i]*V_2[i]', at(V1, k, f) * rho * ek.get('X_0'), at(X, k, f) * at(V2, k, f), inside(k))
    for nm, v in (('sk', rho), ('X[i]', at(X, k, f)), ('Y[i]', at(Y, k, f)), ('Z[i]', at(Z, k, f)), ('V_0', V0), ('V_1[i]', at(V1, k, f)),
                  ('V_2[i]', at(V2, k, f)), ('P_1', ek.get('P_1')), ('P_2', ek.get('P_2'))):
        s.nonzero('%s is not the constant zero' % nm, v, inside(k))

    s = new('keygen with too few bases (%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w, 'few')
    s.assume(mk_lt(m, n))
    co, vo, ce, ve = s.result('keygen::keygen', s.rng, w, g, gs, d, gm)
    s.no_panic()
    s.holds('is an error', c_not(co))


def c02(new, w):
    s = new('distributed keygen, N parties (%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w)
    H = g.get('H')
    N = s.int('N', 1)
    parts = many(s, N, lambda p: s.ok('keygen::FkeygenPartial', s.rng, w, g, gs, d, gm))
    sks = map_values(s, parts, lambda v: v.get('0'))
    eks = map_values(s, parts, lambda v: v.get('1'))
    part = s.value('keygen::combineEKs', gm, eks)
    shares = many(s, N, lambda p: s.value('keygen::genP1share', part, seq_get(sks, p, s.f)))
    p1 = s.value('keygen::combineP1share', shares)
    ek = s.value('keygen::keygenFinal', part, p1)
    inp = lambda p: s.f.add(mk_leq(0, p), mk_lt(p, N))

    def S(j):
        return s.sum(N, lambda p: seq_get(seq_get(sks, p, inp(p)).get('s'), j, inp(p).add(mk_leq(0, j), mk_lt(j, n))))

    def Tt(j):
        return s.sum(N, lambda p: seq_get(seq_get(sks, p, inp(p)).get('t'), j, inp(p).add(mk_leq(0, j), mk_leq(j, n))))
    declare('p0', int=True)
    p = sym('p0', int=True)
    rng = (mk_leq(0, p), mk_lt(p, N))
    s.eq('share s length', s.length(seq_get(sks, p, inp(p)).get('s')), n, rng)
    s.eq('share t length', s.length(seq_get(sks, p, inp(p)).get('t')), n + 1, rng)
    s.eq('X_0 = delta_g', ek.get('X_0'), d)
    s.seq('X = delta * sum of s', ek.get('X'), n, lambda j: d * S(j))
    s.seq('Y = g_i * sum of t', ek.get('Y'), n, lambda j, f: seq_get(gs, j, f) * Tt(j + 1))
    s.seq('Z = H * sum of t', ek.get('Z'), n + 1, lambda j: H * Tt(j))
    s.eq('P_2 = gamma * (1 + sum of s)', ek.get('P_2'), gm * (1 + s.sum(n, S)))
    s.eq('P_1 = delta * (t_0 + sum s_j t_(j+1))', ek.get('P_1'), d * (Tt(ZERO) + s.sum(n, lambda j: S(j) * Tt(j + 1))))
    # partial key of one party against its own secret share
    q = seq_get(sks, p, inp(p))
    e = seq_get(eks, p, inp(p))
    at = lambda v, j, f: seq_get(v, j, f)
    s.eq('partial X_0', e.get('X_0'), d, rng)
    s.seq('partial X = delta * s', e.get('X'), n, lambda j, f: d * at(q.get('s'), j, f), rng)
    s.seq('partial Y = g_i * t_(i+1)', e.get('Y'), n, lambda j, f: at(gs, j, f) * at(q.get('t'), j + 1, f), rng)
    s.seq('partial Z = H * t', e.get('Z'), n + 1, lambda j, f: H * at(q.get('t'), j, f), rng)
    s.eq('partial P_2 = gamma * sum s', e.get('P_2'), gm * s.sum(n, lambda j: at(q.get('s'), j, s.f.add(*rng, mk_leq(0, j), mk_lt(j, n)))), rng)
    sh = seq_get(shares, p, inp(p)).get('P_1')
    s.eq('P_1 share = t_0*X_0 + sum t_(j+1)*X_j of the combined key', sh, at(q.get('t'), ZERO, s.f.add(*rng)) * d +
         s.sum(n, lambda j: at(q.get('t'), j + 1, s.f.add(*rng, mk_leq(0, j), mk_lt(j, n))) * d * S(j)), rng)

    s = new('destination key')
    g = gens(s)
    r = s.ok('keygen::Fkeygen_dest', s.rng, g)
    s.eq('pk = sk*G', r.get('1').get('pk'), r.get('0').get('0') * g.get('G'))
    s.nonzero('destination key is not zero', r.get('0').get('0'))

    s = new('partial keygen with too few bases (%d-bit chunks)' % w)
    n, g, d, gm, gs, m = scenario(s, w, 'few')
    s.assume(mk_lt(m, n))
    co, vo, ce, ve = s.result('keygen::FkeygenPartial', s.rng, w, g, gs, d, gm)
    s.no_panic()
    s.holds('is an error', c_not(co))


SCENES = {
    'C01': [(c01, [(w,) for w in CBS])],
    'C02': [(c02, [(w,) for w in CBS])],
}
