"""C19: the same function with and without the parallel feature, and on every schedule."""
import hashlib
import json
import re
import importlib
import extract
import session
from interp import Crate
from specs.common import *
from specs.serialize import walk_json
from facts import refuted
import evalterm as E

# rayon operations whose result is fixed by the input, and the sequential operation they agree with
SAME = {'par_iter': 'iter', 'into_par_iter': 'into_iter', 'par_iter_mut': 'iter_mut', 'par_chunks': 'chunks', 'par_chunks_mut': 'chunks_mut', 'par_chunks_exact': 'chunks_exact',
        'par_windows': 'windows', 'par_extend': 'extend', 'map': 'map', 'zip': 'zip', 'zip_eq': 'zip_eq', 'enumerate': 'enumerate', 'rev': 'rev', 'chain': 'chain', 'cloned': 'cloned',
        'copied': 'copied', 'filter': 'filter', 'filter_map': 'filter_map', 'flat_map': 'flat_map', 'flat_map_iter': 'flat_map', 'flatten': 'flatten',
        'flatten_iter': 'flatten', 'collect': 'collect', 'sum': 'sum', 'product': 'product', 'count': 'count', 'all': 'all', 'any': 'any', 'min': 'min', 'max': 'max',
        'unzip': 'unzip', 'take': 'take', 'skip': 'skip', 'step_by': 'step_by', 'for_each': 'for_each', 'position_first': 'position', 'find_first': 'find',
        'find_map_first': 'find_map', 'len': 'len', 'interleave': 'interleave', 'with_min_len': '', 'with_max_len': '', 'collect_into_vec': 'collect_into_vec',
        'find_last': 'rfind', 'update': 'update', 'inspect': 'inspect', 'chunks': 'chunks', 'join': 'join', 'repeatn': 'repeat_n', 'repeat_n': 'repeat_n',
        'max_by_key': 'max_by_key', 'min_by_key': 'min_by_key', 'partition': 'partition', 'map_with': 'map_with', 'map_init': 'map_init', 'eq': 'eq', 'par_sort': 'sort', 'take_any_while': None}
# rayon operations whose result depends on which thread comes first
RACE = {'find_any': 'whichever match a thread finds first', 'find_map_any': 'whichever match a thread finds first', 'position_any': 'whichever match a thread finds first',
        'par_bridge': 'the items lose their order', 'take_any': 'whichever items come first', 'skip_any': 'whichever items come first',
        'take_any_while': 'whichever items come first', 'skip_any_while': 'whichever items come first',
        'current_num_threads': 'the number of threads', 'current_thread_index': 'the thread that runs it'}
SHARED = ('std::sync::', 'core::sync::atomic', 'std::thread::', 'parking_lot', 'crossbeam', 'std::time::', 'std::env::', 'alloc::sync::', 'once_cell', 'dashmap')
READS = {'std::time::': 'the clock', 'std::env::': 'the environment', 'std::thread::current': 'the running thread', 'std::thread::available_parallelism': 'the number of processors'}
ORDERED = ('push', 'extend', 'append', 'insert', 'push_back', 'extend_from_slice', 'replace', 'store', 'swap', 'send')

_crates = {}


def both():
    if not _crates:
        import driver
        for cfg in extract.CONFIGS:
            _crates[cfg] = driver.crates.get(cfg) or Crate(extract.load(cfg))
    return [_crates[c] for c in extract.CONFIGS]


# ------------------------------------------------------------------ bodies up to the choice of iterator
DROP = {'l', 'u', 't', 'args_t', 'res', 'res_local', 'trait', 'up'}
ITER = {'iter', 'into_iter', 'iter_mut', 'chunks', 'windows', 'extend'}


def opname(cal):
    if cal.startswith(('rayon', '<rayon')):
        m = cal.split('::')[-1]
        return SAME.get(m, cal) or cal
    if cal.startswith(('core::iter', 'core::slice', 'alloc::slice', 'alloc::vec', 'core::array')):
        return cal.split('::')[-1]
    return cal


class NF:
    def __init__(self, c):
        self.c = c
        self.ids = {}

    def strip(self, x):
        while isinstance(x, dict):
            k = x.get('k')
            if k in ('borrow', 'deref') and 'a' in x:
                x = x['a']
            elif k == 'call' and (x.get('callee') or '').endswith(('Deref::deref', 'DerefMut::deref_mut', 'Vec::<T, A>::as_slice')) and len(x['args']) == 1:
                x = x['args'][0]
            elif k in ('use', 'coerce', 'ptrcoerce', 'scope') and isinstance(x.get('a'), dict):
                x = x['a']
            else:
                break
        return x

    def go(self, x):
        if isinstance(x, list):
            return [self.go(y) for y in x]
        if not isinstance(x, dict):
            return x
        k = x.get('k')
        if k == 'call':
            op = opname(x.get('callee') or '')
            args = x.get('args') or []
            if op == '' and args:
                return self.go(args[0])
            if op in ITER and args:
                args = [self.strip(args[0])] + args[1:]
            o = {'call': op, 'args': [self.go(a) for a in args]}
            if not x.get('callee'):
                o['rest'] = [self.go(v) for q, v in sorted(x.items()) if q not in DROP and q != 'args']
            elif x.get('res_local'):
                o['res'] = x.get('res')
            return o
        if k == 'closure':
            b = self.c.bodies.get(x['p'])
            return {'closure': self.go([p for p in b['params']]) if b else None, 'body': self.go(b['body']) if b else None}
        o = {}
        for q, v in x.items():
            if q in DROP:
                continue
            if q == 'id' and isinstance(v, str) and v.startswith('HirId'):
                o[q] = self.ids.setdefault(v, len(self.ids))
            elif isinstance(v, str) and 'DefId(' in v:
                o[q] = self.ids.setdefault(v, len(self.ids))
            else:
                o[q] = self.go(v)
        return o


def digest(c, k):
    b = c.bodies[k]
    n = NF(c)
    r = [n.go(b.get('params')), n.go(b['body'])]
    return hashlib.sha1(json.dumps(r, sort_keys=True, default=str).encode()).hexdigest()


def differing():
    A, B = both()
    out = sorted(k for k in set(A.bodies) ^ set(B.bodies) if '{closure' not in k)
    for k in sorted(set(A.bodies) & set(B.bodies)):
        if A.bodies[k].get('kind') == 'closure':
            continue
        if digest(A, k) != digest(B, k):
            out.append(k)
    for p in sorted(set(A.adts) | set(B.adts)):
        fa, fb = ([[f['n'] for f in v['f']] for v in c.adts[p]['variants']] if p in c.adts else None for c in (A, B))
        if fa != fb and '@' not in p:
            out.append(p)
    return out


# ------------------------------------------------------------------ lint
def parents(x, up=()):
    if isinstance(x, dict):
        yield x, up
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from parents(v, up + (x,))
    elif isinstance(x, list):
        for v in x:
            yield from parents(v, up)


def in_parallel(c, k):
    """bodies of closures handed to rayon, and what they call"""
    out = set()
    todo = []
    for b in c.bodies.values():
        for y in walk_json(b['body']):
            if y.get('k') == 'call' and (y.get('callee') or '').startswith(('rayon', '<rayon')):
                for a in y.get('args') or []:
                    for z in walk_json(a):
                        if z.get('k') == 'closure':
                            todo.append(z['p'])
    while todo:
        p = todo.pop()
        if p in out or p not in c.bodies:
            continue
        out.add(p)
        for z in walk_json(c.bodies[p]['body']):
            if z.get('k') == 'closure':
                todo.append(z['p'])
            for q in (z.get('callee'), z.get('res')):
                if q in c.bodies:
                    todo.append(q)
    return out


def c19_races(crates):
    obs, fns = [], set()
    n = 0

    def ob(what, status, where, detail=''):
        obs.append({'obligation': what, 'status': status, 'where': where, 'detail': detail, 'key': '%s in %s' % (what, where.split(' at ')[0])})
    for cfg, c in crates.items():
        par = in_parallel(c, None)
        for k, b in c.bodies.items():
            for y, up in parents(b['body']):
                cal = y.get('callee') or ''
                m = cal.split('::')[-1]
                where = '%s at %s' % (k, y.get('l'))
                if cal.startswith(('rayon', '<rayon')):
                    n += 1
                    fns.add(k)
                    if m in RACE:
                        use = [u for u in up[-4:] if (u.get('callee') or '').split('::')[-1] in ('is_some', 'is_none')]
                        if use:
                            ob('%s does not depend on the schedule' % m, 'proved', where)
                        else:
                            ob('%s does not depend on the schedule' % m, 'violated', where, 'the result is %s' % RACE[m])
                    elif m in SAME:
                        t = c.ty(y['t'])
                        if m == 'collect' and (t.get('p') or '').endswith('result::Result'):
                            ob('the error of a parallel collection is fixed by the input', 'undecided', where, 'any of several errors may be returned')
                        else:
                            ob('%s does not depend on the schedule' % m, 'proved', where)
                    elif m in ('reduce', 'try_reduce', 'fold', 'reduce_with', 'fold_with', 'try_fold'):
                        st, d = associative(c, y)
                        ob('%s does not depend on how the items are split' % m, st, where, d)
                    else:
                        ob('%s does not depend on the schedule' % m, 'undecided', where, 'no rule for %s' % cal)
                elif cal.startswith(SHARED):
                    r = [v for p, v in READS.items() if cal.startswith(p)]
                    if r:
                        ob('the result does not depend on %s' % r[0], 'undecided', where, 'calls %s' % cal)
                    elif k in par or any(z in par for z in [k]):
                        use = [u for u in up if (u.get('callee') or '').split('::')[-1] in ORDERED]
                        asg = [u for u in up if u.get('k') in ('assign',)]
                        if m in ('lock', 'write', 'try_lock', 'get_mut') and (use or asg) or m in ('store', 'swap', 'send', 'fetch_add', 'fetch_sub', 'fetch_update', 'compare_exchange'):
                            ob('state shared between threads is not updated in an order-dependent way', 'violated', where, '%s inside a parallel closure' % cal)
                        else:
                            ob('state shared between threads is not updated in an order-dependent way', 'undecided', where, '%s inside a parallel closure' % cal)
    if len(crates) < 2:
        return obs, sorted(fns), n, [], {'parallel_operations': n}
    d = differing()
    A, B = both()
    for k in sorted(set(A.bodies) | set(B.bodies)):
        if '{closure' not in k and k not in d:
            fns.add(k)
    obs.append({'obligation': 'functions that are the same up to the iterators used need no comparison', 'status': 'proved', 'where': '%d functions' % len(fns), 'detail': '', 'key': 'same'})
    return obs, sorted(fns), n, [], {'parallel_operations': n, 'functions_compared_structurally': len(set(A.bodies) | set(B.bodies)), 'functions_that_differ': d}


def associative(c, y):
    """is the operation of a parallel reduction associative with its identity"""
    cl = []
    for a in (y.get('args') or [])[1:]:
        z = [w for w in walk_json(a) if w.get('k') == 'closure']
        fn = [w for w in walk_json(a) if w.get('k') == 'fn' or w.get('k') == 'zst']
        cl.append(z[0] if z else fn[0] if fn else None)
    if any(x is None for x in cl) or len(cl) != 2 or (y.get('callee') or '').split('::')[-1] != 'reduce':
        return 'undecided', 'operation not analysed'
    s = session.Scene(c, 'reduction')
    s.I.fnstack.append('reduction')
    try:
        def ap(p, args):
            b = c.bodies[p['p']]
            return s.I.call_body(b, args, s.st, {}, {'u': -5000, 'l': ''})
        e = ap(cl[0], []) if cl[0].get('k') == 'closure' else None
        x, u, v = (s.field(n) for n in 'xuv')
        l = ap(cl[1], [ap(cl[1], [x, u]), v])
        r = ap(cl[1], [x, ap(cl[1], [u, v])])
    except Exception as ex:
        return 'undecided', 'operation not analysed: %s' % cut(ex)
    s.eq('associative', l, r)
    if e is not None and isinstance(e, T.Poly):
        s.eq('identity', ap(cl[1], [e, x]), x)
        s.eq('identity', ap(cl[1], [x, e]), x)
    bad = [o for o in s.obs if o.status != 'proved']
    if not bad:
        return 'proved', ''
    return bad[0].status, 'not %s: %s' % (bad[0].name.split(': ')[-1], bad[0].detail)


# ------------------------------------------------------------------ functions that differ
class Rec(session.Scene):
    def call(self, fn, *args):
        v = super().call(fn, *args)
        self.log.append((self.fn, self.fnwhere, v, [p for p in self.newpanics if not refuted(p.f)], self.st.f))
        return v


def scenes():
    import driver
    out = []
    for p in ('C15', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C20', 'C21'):
        sc, _, _ = driver.specs(p)
        for fn, args in sc:
            for a in args:
                out.append((p, fn, tuple(a)))
    return out


def run(c, fn, args):
    logs = []

    def new(name, **kw):
        s = Rec(c, name, **kw)
        s.log = []
        logs.append(s)
        return s
    stop = None
    T.reset() if hasattr(T, 'reset') else None
    try:
        fn(new, *args)
    except session.Timeout:
        raise
    except (session.Stop, Undecided) as x:
        stop = str(x)
    except Exception as x:
        stop = 'internal: %r' % (x,)
    return logs, stop


def c19_compare(new, k, of):
    import driver
    if 'default' in driver.crates and 'sequential' not in driver.crates:
        if k == 0:
            new('the build without the parallel feature').ob('compiles', 'violated', 'cargo check --no-default-features --features std fails', where='Cargo features')
        return
    d = set(differing())
    A, B = both()
    top = new('comparison of the two builds')
    if not d:
        top.ob('no function differs', 'proved')
        return
    if top.c is not A:
        return
    consts = [x for x in d if x not in A.bodies or A.bodies[x].get('kind') not in ('fn', 'assocfn', None) and 'onst' in str(A.bodies[x].get('kind'))]
    reached = set()
    for i, (p, fn, args) in enumerate(scenes()):
        if i % of != k:
            continue
        la, sa = run(A, fn, args)
        an = set()
        for s in la:
            an |= s.I.analysed
        if not consts and not (an & d):
            continue
        lb, sb = run(B, fn, args)
        for x, y in zip(la, lb):
            for (fa, wa, va, pa, f), (fb, wb, vb, pb, g) in zip(x.log, y.log):
                nm = 'same result of %s in both builds (%s)' % (fa, x.name)
                if fa != fb:
                    top.ob(nm, 'undecided', 'calls differ', where=wa)
                    break
                cmp = new(nm)
                cmp.fnwhere = wa
                cmp.st.f = f
                for u, v, ww in ((pa, pb, 'with'), (pb, pa, 'without')):
                    if u and not v:
                        m = E.find_model(u[0].f.conds, TRUE, tries=cmp.tries)
                        cmp.ob('same panics', 'undecided' if m is None else 'violated', 'panics only %s the parallel feature when %r' % (ww, u[0].cond), where='%s at %s' % (u[0].fn, u[0].loc))
                try:
                    if va is vb or repr(va) == repr(vb):
                        cmp.ob('value', 'proved')
                    else:
                        cmp.eq('value', va, vb)
                except Undecided as z:
                    cmp.ob('value', 'undecided', str(z))
        if sa or sb:
            top.ob('scenario %s%r is comparable' % (fn.__name__, args), 'undecided', cut(sa or sb))


NPART = 64
SCENES = {'C19': [(c19_compare, [(i, NPART) for i in range(NPART)])]}
LINTS = {'C19': [(c19_races, [()])]}
META = {'C19': {'technique': 'comparison of the type-checked bodies of the two feature configurations up to the iterator chosen; functions that differ are interpreted in both builds on the same symbolic inputs '
                             'and their results compared; effect lint over the parallel operations (racing selections, lost order, shared state, non-associative reductions)',
                'assumptions': ['rayon\'s indexed operations keep the order of the items, as documented', 'sums and products over fields and groups are exact and associative']}}
