"""Scenarios shared by the specifications."""
import term as T
from term import P, ZERO, ONE, sym, mk_eq, mk_le, mk_leq, mk_lt, c_not, c_and, c_or, TRUE, FALSE, Undecided, declare, fresh, mk_all, ind
from values import *
from session import Stop, cut
import loops

CBS = (4, 8, 16)


def chunks(w):
    """number of chunks of w bits: the canonical representation has 64*LIMBS bits"""
    return T.FIELD['limbs'] * (64 // w)


def digit(m, i, w, n=None):
    """the i-th (big-endian) base-2^w digit of the field element m"""
    import prims
    n = chunks(w)
    j = n - 1 - i                     # little-endian digit number
    m = P(m)
    byte = lambda k: T.app('byte', m, k, int=True)
    if w == 8:
        return byte(j)
    if w == 16:
        return byte(j * 2) + byte(j * 2 + 1) * 256
    return None


def nz(*names):
    for n in names:
        declare(n, nz=True)


def gens(s, name='gens'):
    nz(name + '.G', name + '.H')
    return s.struct('setup::EncryptionGens', G=s.field(name + '.G', True), H=s.field(name + '.H', True))


class Key:
    """keys over one set of exponents: rho, s_i, t_i, v_i (the form key generation is shown to produce)"""

    def __init__(self, s, n, g, delta, gamma, gs, tag=''):
        nz('rho' + tag, 's' + tag, 't' + tag, 'v' + tag)
        self.n = n
        self.rho = s.field('rho' + tag, True)
        self.s = lambda i: sym('s' + tag, i)
        self.t = lambda i: sym('t' + tag, i)
        self.v = lambda i: sym('v' + tag, i)
        self.G, self.H = g.get('G'), g.get('H')
        self.delta, self.gamma, self.gs = delta, gamma, gs
        st = s.sum(n, lambda j: self.s(j) * self.t(j + 1))
        self.sumS = s.sum(n, self.s)
        self.ek_fields = dict(
            X_0=delta, X=seq_fn(n, lambda i: delta * self.s(i)), Y=seq_fn(n, lambda i: seq_get(gs, i, s.f) * self.t(i + 1)),
            Z=seq_fn(n + 1, lambda i: self.H * self.t(i)), P_1=delta * (self.t(ZERO) + st), P_2=gamma * (1 + self.sumS))
        self.ek = s.struct('keygen::EncryptionKey', **self.ek_fields)
        self.pek = s.struct('keygen::PreparedEncryptionKey', **self.ek_fields)
        self.dk_fields = dict(V_0=self.H * self.rho, V_1=seq_fn(n, lambda i: self.H * self.s(i) * self.v(i)),
                              V_2=seq_fn(n, lambda i: self.H * self.rho * self.v(i)))
        self.dk = s.struct('keygen::DecryptionKey', **self.dk_fields)
        self.pdk = s.struct('keygen::PreparedDecryptionKey', **self.dk_fields)
        self.sk = s.struct('keygen::SecretKey', **{'0': self.rho})


def scenario(s, w, extra=None):
    """generators, SRS elements and keys for chunk size w; at least as many bases as chunks"""
    n = chunks(w)
    g = gens(s)
    nz('delta_g', 'gamma_g', 'g_i')
    m = s.int('len:g_i', 0)
    s.assume(mk_leq(n, m)) if extra is None else None
    gs = s.vec('g_i', n if extra == 'exact' else m)
    return n, g, s.field('delta_g', True), s.field('gamma_g', True), gs, m


def many(s, n, f):
    """the sequence f(0), ..., f(n-1) of symbolically many calls (draws become indexed)"""
    seq = seq_fn(P(n), lambda i: i)
    base = len(s.obs)
    nc = s.ncall

    def step(x, st):
        s.ncall = nc                  # the passes of the summary make the same calls
        del s.obs[base:]              # keep the obligations of the final (summarising) pass only
        old = s.st
        s.st = st
        try:
            return f(x)
        finally:
            s.st = old
    return loops.map_seq(s.I, s.st, seq, step, {'l': 'scenario', 'u': -1})


def map_values(s, seq, f):
    return loops.map_seq(s.I, s.st, seq, lambda x, st: f(s.I.val(st, x)), {'l': 'scenario', 'u': -2})


PEK = '<keygen::PreparedEncryptionKey<E> as core::convert::From<keygen::EncryptionKey<E>>>::from'
PDK = '<keygen::PreparedDecryptionKey<E> as core::convert::From<keygen::DecryptionKey<E>>>::from'
PGENS = '<setup::PreparedEncryptionGens<E> as core::convert::From<setup::EncryptionGens<E>>>::from'


class RealKey:
    """keys as returned by the key generation functions of the crate"""

    def __init__(self, s, w, g, gs, delta, gamma, parties=None):
        self.ek = self.dk = self.sk = None
        a = (s.rng, w, g, gs, delta, gamma)
        if parties is None:
            r = s.ok('keygen::keygen', *a)
            self.sk, self.ek, self.dk = (r.get(k) for k in '012')
            self.pdk = s.value(PDK, self.dk)
        else:
            parts = many(s, parties, lambda p: s.ok('keygen::FkeygenPartial', *a))
            self.shares = map_values(s, parts, lambda v: v.get('0'))
            part = s.value('keygen::combineEKs', gamma, map_values(s, parts, lambda v: v.get('1')))
            p1 = s.value('keygen::combineP1share', many(s, parties, lambda p: s.value('keygen::genP1share', part, seq_get(self.shares, p, s.f))))
            self.ek = s.value('keygen::keygenFinal', part, p1)
        self.pek = s.value(PEK, self.ek)
