"""Symbolic inputs for the analysed functions, derived from their declared types."""
import term as T
from term import P, ZERO, sym, mk_leq, Undecided, declare
from values import *

EXT = {
    'ark_groth16::data_structures::VerifyingKey':
        (('alpha_g1', 'G'), ('beta_g2', 'G'), ('gamma_g2', 'G'), ('delta_g2', 'G'), ('gamma_abc_g1', 'V')),
    'ark_groth16::data_structures::PreparedVerifyingKey':
        (('vk', 'ark_groth16::data_structures::VerifyingKey'), ('alpha_g1_beta_g2', 'G'), ('gamma_g2_neg_pc', 'G'),
         ('delta_g2_neg_pc', 'G')),
    'ark_groth16::data_structures::ProvingKey':
        (('vk', 'ark_groth16::data_structures::VerifyingKey'), ('beta_g1', 'G'), ('delta_g1', 'G'), ('a_query', 'V'),
         ('b_g1_query', 'V'), ('b_g2_query', 'V'), ('h_query', 'V'), ('l_query', 'V')),
    'ark_groth16::data_structures::Proof': (('a', 'G'), ('b', 'G'), ('c', 'G')),
}


class Builder:
    """creates a symbolic value of a type; remembers the range facts of the symbols it introduced"""

    def __init__(self, crate, lens=None):
        self.c = crate
        self.facts = []
        self.lens = lens or {}
        self.tables = []

    def elem(self, name, idx):
        return sym(name, *idx)

    def length(self, name, idx):
        if name in self.lens:
            return P(self.lens[name])
        n = sym('len:' + name, *idx, int=True)
        if not idx:
            self.facts.append(mk_leq(0, n))
        else:
            declare('len:' + name, int=True, rng=(0, None))
            n = sym('len:' + name, *idx, int=True)
        return n

    def vec(self, name, idx, elem):
        n = self.length(name, idx)
        return seq_fn(n, lambda i: elem(name, idx + (i,)))

    def named(self, kind, name, idx=()):
        if kind == 'G':
            return self.elem(name, idx)
        if kind == 'V':
            return self.vec(name, idx, self.elem)
        fs = EXT[kind]
        return Struct(kind, None, [(f, self.named(k, name + '.' + f, idx)) for f, k in fs])

    def build(self, t, name, idx=(), env=None):
        ty = self.c.ty(t) if isinstance(t, int) else t
        env = env or {}
        k = ty['k']
        if k == 'ref':
            return self.build(ty['t'], name, idx, env)
        if k == 'int':
            lo, hi = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1)}.get(ty['n'], (0, 2 ** 63 - 1))
            if not idx:
                v = sym(name, int=True)
                self.facts += [mk_leq(lo, v), mk_leq(v, hi)]
                return v
            declare(name, int=True, rng=(lo, hi))
            return sym(name, *idx, int=True)
        if k == 'bool':
            return T.mk_bool(sym(name, *idx, int=True))
        if k == 'param':
            n = ty['n']
            if n in ('R', 'impl RngCore'):
                return Opaque('rng', 'caller')
            if n in env:
                return self.build(env[n], name, idx)
            if n.startswith('impl ') and '<' in n:
                inner = n[n.index('<') + 1:].split('<')[0].split('::')[-1].rstrip('>')
                for p in self.c.adts:
                    if p.split('::')[-1] == inner and not self.c.adts[p]['enum']:
                        return self.build({'k': 'adt', 'p': p, 's': n}, name, idx)
            if n == 'D':
                return Opaque('zst')
            return self.elem(name, idx)
        if k == 'alias':
            return self.elem(name, idx)
        if k == 'tuple':
            return Struct('()', None, [(str(i), self.build(a, '%s.%d' % (name, i), idx, env)) for i, a in enumerate(ty['a'])])
        if k in ('slice', 'array'):
            a = ty['t'] if 't' in ty else ty['a'][0]
            return self.vec(name, idx, lambda n, ix: self.build(a, n, ix, env))
        if k == 'adt':
            p = ty['p']
            if p in ('alloc::vec::Vec',):
                return self.vec(name, idx, lambda n, ix: self.build(ty['a'][0], n, ix, env))
            if p.endswith('PairingOutput') or p.endswith('MillerLoopOutput'):
                return self.elem(name, idx)
            if p in EXT:
                return self.named(p, name, idx)
            if p.endswith('option::Option'):
                c = T.mk_bool(sym('some:' + name, *idx, int=True))
                return mk_gate([(c, Some(self.build(ty['a'][0], name, idx, env))), (T.c_not(c), NONE)])
            if p.endswith('ConstraintSystemRef'):
                return Opaque('cs', '$cs0')
            if p.endswith('SynthesisError') or p.endswith('error::Error'):
                return Opaque('err', name)
            if p.endswith('PhantomData'):
                return Opaque('zst')
            ad = self.c.adts.get(p)
            if ad and not ad['enum']:
                fs = ad['variants'][0]['f']
                return Struct(p, None, [(f['n'], self.build(f['t'], name + '.' + f['n'], idx, env)) for f in fs])
        raise Undecided('no symbolic input for type %s (%s)' % (ty.get('s'), name))
