"""Proof obligations over the abstract semantics of the analysed crate.

A Scene is one symbolic scenario: inputs built from the declared parameter types, facts assumed about them
(the preconditions of the property), calls of public functions through the abstract interpreter, and
obligations about the resulting terms.  An obligation is
  proved     - discharged by normal form / linear arithmetic for all inputs of the scenario,
  violated   - not provable, and an interpretation of the symbols satisfying every path fact refutes it,
  undecided  - neither (the analysis met something it cannot interpret, or found no counter-interpretation).
"""
import os
import signal
import term as T
from term import P, ZERO, ONE, Poly, Cond, sym, mk_eq, mk_le, mk_leq, mk_lt, c_not, c_and, c_or, TRUE, FALSE, Undecided, declare, fresh
from facts import Facts, simp, equal, split_prove, refuted
from values import *
from interp import Interp, Crate, Dead
from prims import Prims
from build import Builder
import evalterm as E


class Stop(Exception):
    """the rest of this scene cannot be analysed"""


class Timeout(Exception):
    pass


AFTER = 45


class ObList(list):
    """obligations of a scenario; a refuted one leaves the rest of the scenario only a short time"""

    def append(self, o):
        list.append(self, o)
        if o.status == 'violated':
            left = signal.alarm(0)
            if left:
                signal.alarm(min(left, AFTER))


def _alarm(sig, frm):
    raise Timeout()


class Ob:
    __slots__ = ('name', 'status', 'where', 'detail', 'key')

    def __init__(self, name, status, where, detail, key=None):
        self.name, self.status, self.where, self.detail = name, status, where, detail
        self.key = key or name

    def as_dict(self):
        return {'obligation': self.name, 'status': self.status, 'where': self.where, 'detail': self.detail, 'key': self.key}


def isp(x):
    return isinstance(x, (Poly, int))


class Scene:
    def __init__(self, crate, name, lens=None, facts=(), tries=60):
        self.c = crate
        self.name = name
        self.obs = ObList()
        self.b = Builder(crate, lens)
        self.I = Interp(crate, Prims(), list(facts))
        self.st = self.I.st0
        self.fnwhere = ''
        self.panics = []
        self.tries = tries
        self.calls = []
        self.ncall = 0                # names the random draws of the calls apart

    # ------------------------------------------------------------ inputs
    def assume(self, *cs):
        self.st.fact(*cs)

    @property
    def f(self):
        return self.st.f

    def _sync(self):
        if self.b.facts:
            self.st.fact(*self.b.facts)
            self.b.facts = []

    def int(self, name, lo=0, hi=None):
        k = T.SMALL.get(name)
        if k is not None and lo <= k and (hi is None or k <= hi):
            return P(k)
        v = sym(name, int=True)
        self.assume(mk_leq(lo, v))
        if hi is not None:
            self.assume(mk_leq(v, hi))
        return v

    def field(self, name, nz=False):
        return sym(name, nz=nz)

    def vec(self, name, n, kind='f', rng=None):
        """symbolic vector of scalars/points ('f') or integers ('i') of length n"""
        if kind == 'i':
            declare(name, int=True, rng=rng or (0, 65535))
        n = P(n)
        return seq_fn(n, lambda i: sym(name, i))

    def adt(self, name, vname, **lens):
        """symbolic value of a struct of the crate"""
        p = self.path(name)
        self.b.lens.update({vname + '.' + k: P(v) for k, v in lens.items()})
        v = self.b.build({'k': 'adt', 'p': p, 's': p}, vname)
        self._sync()
        return v

    def adts(self, name, vname, n, **lens):
        """symbolic vector of n structs"""
        p = self.path(name)
        self.b.lens.update({vname + '.' + k: P(v) for k, v in lens.items()})
        v = seq_fn(P(n), lambda i: self.b.build({'k': 'adt', 'p': p, 's': p}, vname, (i,)))
        self._sync()
        return v

    def path(self, name):
        if name in self.c.adts:
            return name
        r = [p for p in self.c.adts if p.endswith('::' + name)]
        if len(r) != 1:
            raise Stop('type %s not found' % name)
        return r[0]

    def ext(self, kind, vname, **lens):
        import build
        p = [k for k in build.EXT if k.endswith('::' + kind)][0]
        self.b.lens.update({vname + '.' + k: P(v) for k, v in lens.items()})
        v = self.b.named(p, vname)
        self._sync()
        return v

    def struct(self, name, **fields):
        """a struct value in the declared field order"""
        p = self.path(name)
        decl = [f['n'] for f in self.c.adts[p]['variants'][0]['f']]
        if set(decl) != set(fields):
            raise Stop('fields of %s are %s' % (name, decl))
        return Struct(p, None, [(n, fields[n]) for n in decl])

    rng = Opaque('rng', 'caller')

    # ------------------------------------------------------------ calls
    def resolve(self, fn):
        k = self.c.find(fn)
        if k is None:
            import re
            cands = [x for x in self.c.bodies if re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', x)).replace('::::', '::').endswith('::' + fn)
                     and self.c.bodies[x]['kind'] != 'closure']
            cands = [x for x in cands if '{' not in x]
            if len(cands) == 1:
                k = cands[0]
        if k is None:
            raise Stop('function %s not found' % fn)
        return k

    def call(self, fn, *args):
        k = self.resolve(fn)
        b = self.c.bodies[k]
        self.fn = k
        self.fnwhere = '%s (%s)' % (k, b.get('l') or b.get('loc') or '')
        if len(b['params']) != len(args):
            raise Stop('%s takes %d parameters, %d expected' % (k, len(b['params']), len(args)))
        av = []
        for i, (p, a) in enumerate(zip(b['params'], args)):
            t = self.c.ty(p['t'])
            if isinstance(a, int) and not isinstance(a, bool):
                a = P(a)
            if t['k'] == 'ref' and t.get('m') and not isinstance(a, MutRef):
                a = self.I.tmp(self.st, a)
            av.append(a)
        n0 = len(self.I.panics)
        self.calls.append(k)
        self.ncall += 1
        v = self.I.call_body(b, av, self.st, {}, {'u': -1000 - self.ncall, 'l': 'scenario'})
        self.newpanics = self.I.panics[n0:]
        return self.I.val(self.st, v) if isinstance(v, MutRef) else v

    def split(self, v):
        """(ok condition, ok payload, error condition, error payload) of a Result value"""
        alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
        oks, errs = [], []
        for c, x in alts:
            if not isinstance(x, Struct) or x.variant not in ('Ok', 'Err'):
                raise Undecided('%s does not return a Result the analysis can split' % self.fn)
            (oks if x.variant == 'Ok' else errs).append((c, x.get('0')))
        co, ce = c_or(*[c for c, _ in oks]), c_or(*[c for c, _ in errs])
        return co, (mk_gate(oks) if oks else None), ce, (mk_gate(errs) if errs else None)

    def no_panic(self, why='for inputs satisfying the precondition'):
        """the calls made so far cannot panic under the scenario's facts"""
        n = len(self.obs)
        for p in self.newpanics:
            nm = '%s: no %s in %s' % (self.name, p.kind, p.fn)
            if refuted(p.f):
                continue
            m = E.find_model(p.f.conds, TRUE, tries=self.tries)
            if m is not None:
                self.obs.append(Ob(nm, 'violated', '%s at %s' % (p.fn, p.loc),
                                   'panics when %r; example: %s' % (p.cond, E.describe(m))))
            else:
                self.obs.append(Ob(nm, 'undecided', '%s at %s' % (p.fn, p.loc), 'possible panic when %r' % (p.cond,)))
        if len(self.obs) == n:
            self.ob('no panic ' + why, 'proved')
        self.newpanics = []

    def value(self, fn, *args):
        """result of an infallible call that must not panic"""
        v = self.call(fn, *args)
        self.no_panic()
        return v

    def ok(self, fn, *args):
        """payload of a call that must succeed, without panicking, under the scenario's facts"""
        v = self.call(fn, *args)
        self.no_panic()
        co, vo, ce, ve = self.split(v)
        self.holds('%s succeeds' % fn, c_not(simp(ce, self.f)))
        if vo is None:
            raise Stop('%s never succeeds' % fn)
        ce = simp(ce, self.f)
        if ce.kind != 'F':
            self.assume(c_not(ce))
        return vsimp(vo, self.f)

    def result(self, fn, *args):
        """(ok condition, payload, err condition, error) of a call that may fail"""
        v = self.call(fn, *args)
        return self.split(v)

    # ------------------------------------------------------------ obligations
    def ob(self, name, status, detail='', where=None):
        self.obs.append(Ob('%s: %s' % (self.name, name), status, where or self.fnwhere, detail))
        return status == 'proved'

    def holds(self, name, c, extra=()):
        f = self.f.assuming(*extra) if extra else self.f
        c = simp(c, f)
        if c.kind == 'T' or f.prove(c) or f.inconsistent() or split_prove(c, f):
            return self.ob(name, 'proved')
        m = E.find_model(f.conds, c_not(c), tries=self.tries)
        if m is None:
            return self.ob(name, 'undecided', 'cannot prove %s' % cut(c))
        return self.ob(name, 'violated', 'not %s; example: %s' % (cut(c), E.describe(m)))

    def iff(self, name, a, b, extra=()):
        f = self.f.assuming(*extra) if extra else self.f
        r = True
        for nm, x, y in ((' [sufficient]', b, a), (' [necessary]', a, b)):
            g = f.assuming(x)
            yy = simp(y, g)
            if yy.kind == 'T' or g.inconsistent() or g.prove(yy) or split_prove(yy, g):
                self.ob(name + nm, 'proved')
                continue
            r = False
            m = E.find_model(f.conds, c_and(x, c_not(y)), tries=self.tries)
            if m is None:
                self.ob(name + nm, 'undecided', 'cannot prove %s' % cut(yy))
            else:
                self.ob(name + nm, 'violated', 'code and specification disagree on %s; example: %s' % (cut(yy), E.describe(m)))
        return r

    def eq(self, name, a, b, extra=()):
        """a == b"""
        f = self.f.assuming(*extra) if extra else self.f
        if isp(a) and isp(b):
            a, b = P(a), P(b)
            if equal(a, b, f):
                return self.ob(name, 'proved')
            m = E.differ(a, b, f.conds, tries=self.tries)
            if m is None:
                return self.ob(name, 'undecided', 'cannot prove %s == %s' % (cut(simp(a, f)), cut(b)))
            return self.ob(name, 'violated', 'computed %s, specified %s; example: %s' % (cut(simp(a, f)), cut(b), E.describe(m)))
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq(name, a, seq_len(b), lambda i, g: seq_get(b, i, g), extra)
        if isinstance(a, Gate) or isinstance(b, Gate):
            c = veq_cond(a, b, f)
            return self.holds(name, c, extra)
        if isinstance(a, Struct) and isinstance(b, Struct):
            if a.variant != b.variant or [n for n, _ in a.fields] != [n for n, _ in b.fields]:
                return self.ob(name, 'violated', 'computed %s, specified %s' % (cut(a), cut(b)))
            r = True
            for (n, x), (_, y) in zip(a.fields, b.fields):
                r = self.eq(name + '.' + n, x, y, extra) and r
            return r
        if isinstance(a, Cond) and isinstance(b, Cond):
            return self.iff(name, a, b, extra)
        if isinstance(a, Opaque) and a == b:
            return self.ob(name, 'proved')
        return self.ob(name, 'undecided', 'cannot compare %s and %s' % (cut(a), cut(b)))

    def nonzero(self, name, a, extra=()):
        """a is not identically zero"""
        f = self.f.assuming(*extra) if extra else self.f
        a = P(a)
        if equal(a, ZERO, f):
            return self.ob(name, 'violated', '%s is always 0' % cut(a))
        if E.differ(a, ZERO, f.conds, tries=self.tries) is None:
            return self.ob(name, 'undecided', '')
        return self.ob(name, 'proved')

    def seq(self, name, s, n, spec, extra=()):
        """the sequence s has n elements and element i is spec(i)"""
        f = self.f.assuming(*extra) if extra else self.f
        if not isinstance(s, Seq):
            return self.ob(name, 'undecided', 'not a sequence: %s' % cut(s))
        r = self.eq(name + ' length', seq_len(s), n, extra)
        if not r:
            return False
        nme = fresh('k')
        declare(nme, int=True)
        i = sym(nme, int=True)
        c = P(n).cval()
        if T.SMALL and c is not None and c <= 40:
            for k in range(int(c)):
                try:
                    x = seq_get(s, P(k), f)
                except Undecided as u:
                    return self.ob(name, 'undecided', str(u))
                r = self.eq(name + '[i]', x, spec(P(k), f) if spec.__code__.co_argcount == 2 else spec(P(k)), extra) and r
            return r
        f = f.add(mk_leq(0, i), mk_lt(i, n))
        if f.inconsistent():
            return self.ob(name, 'proved')
        try:
            x = seq_get(s, i, f)
        except Undecided as u:
            return self.ob(name, 'undecided', str(u))
        w = spec(i, f) if spec.__code__.co_argcount == 2 else spec(i)
        return self.eq(name + '[i]', x, w, tuple(extra) + (mk_leq(0, i), mk_lt(i, n)))

    def get(self, s, i):
        return seq_get(s, P(i), self.f)

    def length(self, s):
        return seq_len(s)

    def sum(self, n, f):
        nme = fresh('s')
        declare(nme, int=True)
        return T.mksum(P(n), nme, f(sym(nme, int=True)))


def cut(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '…'


def run_scene(fn, crate, args, limit):
    """run one scene function under a time limit; returns (obligations, notes, functions analysed, call sites)"""
    import sys
    sys.setrecursionlimit(20000)
    scenes = []

    def new(name, **kw):
        s = Scene(crate, name, **kw)
        scenes.append(s)
        return s

    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    note = None
    try:
        fn(new, *args)
    except Timeout:
        note = 'time limit of %d s reached' % limit
    except Stop as x:
        note = str(x)
    except Undecided as x:
        note = str(x)
    except Dead:
        note = 'the analysed call never returns'
    except RecursionError:
        note = 'recursion limit'
    except Exception as x:
        import traceback
        if os.environ.get('TRACEBACK'):
            traceback.print_exc()
        tb = traceback.extract_tb(x.__traceback__)[-1]
        note = 'internal: %r at %s:%d' % (x, tb.filename.split('/')[-1], tb.lineno)
    finally:
        signal.alarm(0)
    obs = [o for s in scenes for o in s.obs]
    if note is not None:
        last = scenes[-1] if scenes else None
        # panics of the interrupted call are still relevant
        obs.append(Ob('%s: analysable' % (last.name if last else fn.__name__), 'undecided', last.fnwhere if last else '', note))
    an = set()
    sites = 0
    calls = []
    for s in scenes:
        an |= s.I.analysed
        sites += len(s.I.sites)
        calls += s.calls
    return [o.as_dict() for o in obs], sorted(an), sites, calls
