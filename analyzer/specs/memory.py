"""C22: secret keys are erased when dropped."""
import re
from specs.common import *
from specs.secrecy import calls_of, expand

SECRETS = ('keygen::SecretKey', 'keygen::SecretKeyST')


def impl_of(c, path, trait):
    """the items of the impl of a trait (last name) for a type of the crate; None without one"""
    for im in c.impls:
        if (im.get('trait') or '').split('::')[-1] == trait and isinstance(im['self'], int) and c.ty(im['self']).get('p') == path:
            return im['items']
    return None


def erasing_type(c, t):
    """a field type that erases itself when dropped"""
    t = c.ty(t)
    p = t.get('p') or ''
    if p.endswith('Zeroizing'):
        return True
    return p in SECRETS


def c22(new, path):
    s = new('drop of %s' % path)
    if path not in s.c.adts:
        raise Stop('type %s not found' % path)
    fields = s.c.adts[path]['variants'][0]['f']
    s.fnwhere = path
    plain = [f for f in fields if not erasing_type(s.c, f['t'])]
    if not plain:
        return s.ob('every field erases itself', 'proved')
    items = impl_of(s.c, path, 'Drop')
    if not items:
        return s.ob('the secret exponents are overwritten when the object is dropped', 'violated',
                    'no Drop implementation; dropping %s leaves %s in memory' % (path, ', '.join(f['n'] for f in plain)))
    fs = {}
    for f in fields:
        t = s.c.ty(f['t'])
        if (t.get('p') or '').endswith('Vec'):
            fs[f['n']] = s.vec('secret.' + f['n'], s.int('len.' + f['n'], 0))
        else:
            fs[f['n']] = s.field('secret.' + f['n'])
    s.I.erasing = []
    ref = s.I.tmp(s.st, s.struct(path, **fs))
    s.call(items[0], ref)
    s.no_panic('in drop')
    done, s.I.erasing = s.I.erasing, None
    v = s.I.load(s.st, ref)
    for f in plain:
        x = v.get(f['n'])
        nm = 'field %s is overwritten when the object is dropped' % f['n']
        w = fs[f['n']]
        if isinstance(x, Poly_):
            s.eq(nm, x, ZERO)
            continue
        if isinstance(x, Seq):
            if seq_len(x).cval() == 0 and not x.names & w.names:
                # emptied: fine only if the contents were overwritten before
                bad = 'clear' in done or 'zeroize' not in done
                s.ob(nm, 'violated' if bad else 'undecided', 'the vector is emptied, its elements stay in the freed memory')
                continue
            s.seq(nm, x, seq_len(w), lambda i: ZERO)
            continue
        s.ob(nm, 'undecided', cut(x))


Poly_ = T.Poly
LEAKS = ('mem::forget', 'ManuallyDrop::<T>::new', 'ManuallyDrop::new', 'Box::leak', 'Vec::leak', 'mem::transmute', 'ptr::read', 'ptr::write', 'mem::zeroed', 'MaybeUninit::new')


def c22_lint(crates):
    obs, fns, n = [], [], 0
    for cfg, c in sorted(crates.items()):
        for p in SECRETS:
            if impl_of(c, p, 'Copy') is not None:
                obs.append({'obligation': '%s cannot be copied implicitly' % p, 'status': 'violated', 'where': p, 'detail': 'implements Copy', 'key': 'copy ' + p})
        for k in sorted(c.bodies):
            fns.append(k)

            def rec(x):
                nonlocal n
                if isinstance(x, dict):
                    cal = x.get('callee')
                    if isinstance(cal, str):
                        n += 1
                        q = re.sub(r'::<[^<>]*>', '', re.sub(r'<[^<>]*>', '', cal)).replace('::::', '::')
                        if any(q.endswith(re.sub(r'::<[^<>]*>', '', z)) for z in LEAKS):
                            ts = [str(expand(c, a['t'])) for a in x.get('args') or [] if isinstance(a, dict) and isinstance(a.get('t'), int)]
                            if any('SecretKey' in t or 'ScalarField' in t for t in ts):
                                obs.append({'obligation': 'no secret key escapes its destructor in %s' % k, 'status': 'violated', 'where': '%s at %s' % (k, x.get('l')),
                                            'detail': 'passes a secret to %s' % cal, 'key': 'leak in ' + k})
                    for v in x.values():
                        if isinstance(v, (dict, list)):
                            rec(v)
                elif isinstance(x, list):
                    for v in x:
                        rec(v)
            rec(c.bodies[k])
        # fields of other types that would keep a secret key from being dropped
        for p, a in sorted(c.adts.items()):
            for v in a['variants']:
                for f in v['f']:
                    t = str(expand(c, f['t']))
                    if 'ManuallyDrop' in t and ('SecretKey' in t or 'ScalarField' in t):
                        obs.append({'obligation': 'no field keeps a secret key from being dropped', 'status': 'violated', 'where': '%s.%s' % (p, f['n']), 'detail': t[:200], 'key': 'field %s.%s' % (p, f['n'])})
    if not obs:
        obs.append({'obligation': 'no secret-key type is Copy, wrapped against dropping, or passed to a function that skips its destructor', 'status': 'proved', 'where': 'all bodies and types', 'detail': '', 'key': 'c22_lint'})
    return obs, fns, n, [], {'calls_scanned': n}


SCENES = {'C22': [(c22, [(p,) for p in SECRETS])]}
LINTS = {'C22': [(c22_lint, [()])]}
META = {'C22': {'technique': 'abstract interpretation of the drop glue (field contents after Drop::drop, all lengths) and a call-site and type lint for escapes from the destructor',
                'assumptions': ['zeroize::Zeroize of field elements, integers and vectors overwrites the memory it is given']}}
