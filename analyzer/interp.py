"""Abstract interpreter over the typed syntax tree (THIR) of the crate.

Branches are joined (no path enumeration); loops are summarised by a guessed closed form for every location the body
changes, which is then checked to be inductive by one further abstract evaluation of the body.  Calls to functions of
the crate are analysed in context; calls to libraries go through the transfer functions in prims.py."""
import term as T
from term import (Poly, Cond, Atom, P, ZERO, ONE, TRUE, FALSE, Undecided, sym, bv, subst, names_of, fresh, declare,
                  ite, ind, mk_eq, mk_leq, mk_lt, mk_le, mk_bool, c_and, c_or, c_not, mk_all, mk_ex, mksum, mkprod,
                  mk_first, pow2, floor2, low_bits, app)
from facts import Facts, simp, equal
from values import *
import loops


def prims_():
    import prims
    return prims


def is_limbs(v):
    return isinstance(v, Struct) and v.ty == '$limbs'


class Dead(Exception):
    pass


class Poison(Val):
    __slots__ = ('why', 'names', 'h')

    def __init__(self, why):
        self.why = why
        self.names = frozenset()
        self.h = 0

    def subst(self, s):
        return self

    def __repr__(self):
        return 'Poison(%s)' % self.why


class St:
    __slots__ = ('mem', 'f', 'pc')

    def __init__(self, mem, f, pc=()):
        self.mem, self.f, self.pc = mem, f, pc

    def copy(self):
        return St(dict(self.mem), self.f, self.pc)

    def branch(self, c):
        """assume a branch condition"""
        if c.kind == 'T':
            return
        cs = sorted(c.args, key=lambda x: x.id) if c.kind == 'and' else [c]
        self.f = self.f.add(*cs)
        self.pc = self.pc + tuple(x for x in cs if x not in self.pc)

    def fact(self, *cs):
        """assume something that is not a branch decision (no-panic, ranges)"""
        self.f = self.f.add(*cs)

    def take(self, o):
        self.mem, self.f, self.pc = o.mem, o.f, o.pc


class Exit:
    __slots__ = ('kind', 'label', 'value', 'st')

    def __init__(self, kind, label, value, st):
        self.kind, self.label, self.value, self.st = kind, label, value, st


class Panic:
    __slots__ = ('kind', 'loc', 'f', 'fn', 'cond')

    def __init__(self, kind, loc, f, fn, cond):
        self.kind, self.loc, self.f, self.fn, self.cond = kind, loc, f, fn, cond

    def __repr__(self):
        return '%s at %s in %s when %r' % (self.kind, self.loc, self.fn, self.cond)


class Crate:
    """one dump: bodies, types, data types, impls"""

    def __init__(self, d, label=''):
        self.d = d
        self.label = label
        self.types = d['types']
        self.bodies = {}
        for b in d['bodies']:
            self.bodies.setdefault(b['key'], b)
        self.adts = {a['p']: a for a in d['adts']}
        self.impls = d['impls']
        self.items = d['items']
        self._uid = 0
        for b in d['bodies']:
            self.number(b.get('body'))

    def number(self, x):
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, dict):
                if 'k' in y:
                    self._uid += 1
                    y['u'] = self._uid
                stack.extend(v for k, v in y.items() if k not in ('t', 'l'))
            elif isinstance(y, list):
                stack.extend(y)

    def ty(self, t):
        return self.types[t]

    def peel(self, t):
        t = self.types[t]
        while t['k'] == 'ref':
            t = self.types[t['t']]
        return t

    def find(self, suffix):
        r = [k for k in self.bodies if k == suffix or k.endswith('::' + suffix)]
        r = [k for k in r if not k.startswith('<') or suffix.startswith('<')] or r
        return r[0] if len(r) == 1 else None


INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
            'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


def int_bounds(name):
    b = INT_BITS[name]
    if name[0] == 'u':
        return 0, (1 << b) - 1
    return -(1 << (b - 1)), (1 << (b - 1)) - 1


def _trunc_range(bits, p, signed=None):
    return 0, (1 << bits.cval()) - 1


T.APP_RANGE['trunc'] = _trunc_range
T.APP_RANGE['strunc'] = lambda bits, p: (-(1 << (bits.cval() - 1)), (1 << (bits.cval() - 1)) - 1)


class Interp:
    MAXDEPTH = 60

    def __init__(self, crate, prims, facts=()):
        self.c = crate
        self.prims = prims
        self.coll = []
        self.panics = []
        self.idx = []
        self.path = []
        self.names = {}
        self.nkind = {}
        self.fnstack = []
        self.analysed = set()
        self.sites = set()
        self.draws = {}
        self.notes = []
        self.st0 = St({}, Facts(facts))
        self.tmpn = 0
        self.budget = 400000

    # ---------------------------------------------------------------- helpers
    def name(self, kind, *key):
        k = (kind, tuple(self.path), key)
        if k not in self.names:
            n = self.nkind[kind] = self.nkind.get(kind, -1) + 1
            self.names[k] = '%s%d' % (kind, n)
        return self.names[k]

    def und(self, msg, e=None):
        loc = e.get('l') if isinstance(e, dict) else None
        raise Undecided('%s%s (in %s)' % (msg, ' at ' + loc if loc else '', self.fnstack[-1] if self.fnstack else '?'))

    def exit(self, kind, label, value, st):
        self.coll[-1].append(Exit(kind, label, value, st.copy()))
        raise Dead()

    def panic(self, st, kind, e, cond=TRUE):
        f = st.f.add(cond) if cond.kind != 'T' else st.f
        self.panics.append(Panic(kind, e.get('l') if isinstance(e, dict) else e, f,
                                 self.fnstack[-1] if self.fnstack else '?', cond))

    def require(self, st, ok, kind, e):
        ok = simp(ok, st.f)
        if ok.kind == 'T':
            return
        if ok.kind == 'F':
            self.panic(st, kind, e)
            raise Dead()
        self.panic(st, kind, e, c_not(ok))
        st.fact(ok)

    def tmp(self, st, v):
        self.tmpn += 1
        cell = 'tmp%d' % self.tmpn
        st.mem[cell] = v
        return MutRef(cell)

    # ---------------------------------------------------------------- memory
    def load(self, st, r):
        v = st.mem.get(r.cell)
        if v is None:
            self.und('read of uninitialised place %s' % r.cell)
        return self.follow(st, v, r.path)

    def follow(self, st, v, path):
        for k, step in enumerate(path):
            if isinstance(v, Poison):
                self.und(v.why)
            if isinstance(v, MutRef):
                v = self.load(st, v)
            if isinstance(v, Gate):
                return self.gate_get(v, lambda x: self.follow(st, x, path[k:]), path[k:])
            if step[0] == 'f':
                v = self.field(v, step[1])
            elif step[0] == 'i':
                if not isinstance(v, Seq):
                    self.und('indexing a %s' % type(v).__name__)
                v = seq_get(v, step[1], st.f)
            elif step[0] == 'r':
                v = seq_slice(v, step[1][0], step[1][1], st.f)
            elif step[0] == 'L':
                v = v.get('0') if is_limbs(v) else prims_().limbs_of(v)
            elif step[0] == 'v':
                pass
        if isinstance(v, Poison):
            self.und(v.why)
        if is_limbs(v):
            return prims_().from_limbs(v.get('0'), v.get('1'))
        return v

    def gate_get(self, g, fn, path):
        out = []
        want = path[0][1] if path and path[0][0] == 'v' else None
        for c, v in g.alts:
            if want is not None and isinstance(v, Struct) and v.variant != want:
                continue
            out.append((c, fn(v)))
        if not out:
            self.und('no alternative')
        r = out[-1][1]
        for c, v in reversed(out[:-1]):
            r = vmerge(c, v, r)
        return r

    def field(self, v, name):
        if isinstance(v, Struct):
            return v.get(name)
        if isinstance(v, Poly) and name == '0':
            return v           # single-field wrappers (group elements, pairing outputs, limbs) are transparent
        if isinstance(v, Gate):
            return self.gate_get(v, lambda x: self.field(x, name), ())
        self.und('field %s of %s' % (name, type(v).__name__))

    def store(self, st, r, val):
        if isinstance(val, MutRef) and not r.path:
            st.mem[r.cell] = val
            return
        cur = st.mem.get(r.cell)
        st.mem[r.cell] = self._upd(st, cur, r.path, val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        if isinstance(v, MutRef):
            self.store(st, MutRef(v.cell, v.path + tuple(path)), val)
            return v
        if v is None or isinstance(v, Poison):
            self.und('write into unknown place')
        step = path[0]
        if isinstance(v, Gate):
            return mk_gate([(c, self._upd(st, x, path, val) if step[0] != 'v' or x.variant == step[1] else x)
                            for c, x in v.alts])
        if step[0] == 'v':
            return self._upd(st, v, path[1:], val)
        if step[0] == 'f':
            if isinstance(v, Poly) and step[1] == '0':
                return self._upd(st, v, path[1:], val)
            return v.with_field(step[1], self._upd(st, v.get(step[1]), path[1:], val))
        if step[0] == 'i':
            old = seq_get(v, step[1], st.f) if len(path) > 1 else None
            return seq_set(v, step[1], self._upd(st, old, path[1:], val), st.f)
        if step[0] == 'L':
            if is_limbs(v):
                return v.with_field('0', self._upd(st, v.get('0'), path[1:], val))
            return prims_().from_limbs(self._upd(st, prims_().limbs_of(v), path[1:], val), v)
        if step[0] == 'r':
            lo, hi = step[1]
            a, b = seq_split(v, hi, st.f)
            a, m = seq_split(a, lo, st.f)
            return concat(a, self._upd(st, m, path[1:], val), b)
        self.und('write')

    def val(self, st, v):
        n = 0
        while isinstance(v, MutRef):
            v = self.load(st, v)
            n += 1
            if n > 20:
                self.und('reference cycle')
        if isinstance(v, Poison):
            self.und(v.why)
        return v

    def deepval(self, st, v):
        """read through references also inside tuples / options"""
        v = self.val(st, v)
        if isinstance(v, Struct) and any(isinstance(x, (MutRef, Struct, Gate)) for _, x in v.fields):
            return Struct(v.ty, v.variant, [(n, self.deepval(st, x)) for n, x in v.fields])
        if isinstance(v, Gate):
            return mk_gate([(c, self.deepval(st, x)) for c, x in v.alts])
        return v

    # ---------------------------------------------------------------- forks and joins
    def fork(self, st, branches, e=None):
        """branches: (cond, fn(st) -> value), exclusive and exhaustive under st.f"""
        live = []
        dead = False
        for c, fn in branches:
            c = simp(c, st.f)
            if c.kind == 'F':
                continue
            s = st.copy()
            s.branch(c)
            if c.kind != 'T' and s.f.inconsistent():
                continue
            try:
                v = fn(s)
                live.append((c, v, s))
            except Dead:
                dead = True
            if c.kind == 'T':
                break
        if not live:
            raise Dead()
        return self.join(st, live, dead)

    def join(self, st, live, dead):
        if len(live) == 1:
            st.take(live[0][2])
            return live[0][1]
        base_f, base_pc = st.f, st.pc
        nb = len(base_pc)
        # joint memory
        mem = {}
        for k, v0 in live[-1][2].mem.items():
            vals = [l[2].mem.get(k) for l in live]
            if any(v is None for v in vals):
                continue
            r = vals[-1]
            try:
                for (c, _, _), v in zip(reversed(live[:-1]), reversed(vals[:-1])):
                    if v is not r:
                        r = self.merge(c, v, r)
            except Undecided as u:
                r = Poison(str(u))
            mem[k] = r
        v = live[-1][1]
        for c, x, _ in reversed(live[:-1]):
            v = self.merge(c, x, v)
        extra = [c_and(*s.pc[nb:]) for _, _, s in live]
        covered = c_or(*extra)
        st.mem = mem
        # facts shared by all live branches survive
        common = set(live[0][2].f.conds[len(base_f.conds):])
        for _, _, s in live[1:]:
            common &= set(s.f.conds)
        st.f = base_f.add(*[c for c in live[0][2].f.conds if c in common])
        if dead or any(len(s.pc) > nb + 40 for _, _, s in live):
            pass
        if dead or covered.kind != 'T':
            full = c_or(*[c for c, _, _ in live])
            if not (covered == full and not dead):
                if covered.kind != 'T':
                    st.f = st.f.add(covered)
                    st.pc = st.pc + (covered,)
        return v

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if is_limbs(a) and isinstance(b, Poly) or is_limbs(b) and isinstance(a, Poly):
            a, b = prims_().as_limbs(a), prims_().as_limbs(b)
        return vmerge(c, a, b)

    # ---------------------------------------------------------------- functions
    def call_key(self, key, args, st, e=None):
        b = self.c.bodies[key]
        return self.call_body(b, args, st, {}, e)

    summaries = {}
    ser = None                        # serialization events (analyzer/serial.py)
    erasing = None                    # for the erasure analysis: what was zeroized or cleared

    def call_body(self, b, args, st, env, e=None):
        sm = self.summaries and self.summaries.get(b['key'].split('::')[-1])
        if sm:
            self.analysed.add(b['key'])
            return sm(self, [self.val(st, a) if isinstance(a, MutRef) else a for a in args], st)
        if len(self.fnstack) > self.MAXDEPTH or self.fnstack.count(b['key']) > 3:
            self.und('recursion')
        self.analysed.add(b['key'])
        self.path.append((e or {}).get('u', 0))
        self.path.append(b['key'])
        self.fnstack.append(b['key'])
        self.coll.append([])
        saved = getattr(self, 'frame', None)
        self.frame = Frame(self.name('F', b['key']), env)
        nb = len(st.pc)
        s = st.copy()
        outs = []
        try:
            try:
                for p, a in zip(b['params'], args):
                    if p.get('p') is None:
                        continue
                    self.bind_irrefutable(p['p'], a, s)
                v = self.ev(b['body'], s)
                outs.append((v, s))
            except Dead:
                pass
        finally:
            exits = self.coll.pop()
            self.fnstack.pop()
            self.frame = saved
            self.path.pop()
            self.path.pop()
        outs = [(x.value, x.st) for x in exits if x.kind == 'return'] + outs
        for x in exits:
            if x.kind != 'return':
                self.coll[-1].append(x)
        if not outs:
            raise Dead()
        return self.join_exits(st, outs, nb)

    def join_exits(self, st, outs, nb):
        """join several (value, state) whose branch conditions relative to st are exclusive"""
        if len(outs) == 1:
            v, s = outs[0]
            st.take(s)
            return v
        live = []
        prev = []
        for v, s in outs:
            cs = list(s.pc[nb:])
            negs = set(prev)
            c = c_and(*[x for x in cs if x not in negs])
            c = simp(c, st.f)
            live.append((c, v, s))
            prev.append(c_not(c))
        total = c_or(*[c_and(*s.pc[nb:]) for _, _, s in live])
        base_f = st.f
        # value merge: earlier exits take precedence
        v = live[-1][1]
        for c, x, _ in reversed(live[:-1]):
            v = self.merge(c, x, v)
        mem = {}
        for k in live[-1][2].mem:
            vals = [l[2].mem.get(k) for l in live]
            if any(x is None for x in vals):
                continue
            r = vals[-1]
            try:
                for (c, _, _), x in zip(reversed(live[:-1]), reversed(vals[:-1])):
                    if x is not r:
                        r = self.merge(c, x, r)
            except Undecided as u:
                r = Poison(str(u))
            mem[k] = r
        common = set(live[0][2].f.conds[len(base_f.conds):])
        for _, _, s in live[1:]:
            common &= set(s.f.conds)
        st.mem = mem
        st.f = base_f.add(*[c for c in live[0][2].f.conds if c in common])
        total = simp(total, st.f)
        if total.kind != 'T' and len(repr(total)) < 4000:
            st.f = st.f.add(total)
        return v

    # ---------------------------------------------------------------- calling values
    def callv(self, fv, args, st, e):
        fv = self.val(st, fv)
        if isinstance(fv, Closure):
            b = self.c.bodies.get(fv.key)
            if b is None:
                self.und('closure body missing', e)
            env = {}
            for k, (t, x) in fv.env:
                if t == 'cell':
                    env[k] = x
                else:
                    cell = 'cap:%s:%s' % (fv.key, k)
                    env[k] = cell
                    if cell not in st.mem or True:
                        st.mem[cell] = x
            params = [p for p in b['params'] if p.get('p') is not None]
            return self.call_body(dict(b, params=params), args, st, env, e)
        if isinstance(fv, FnRef):
            c = dict(fv.callee)
            c['k'] = 'call'
            c['u'] = (e.get('u', 0), c.get('u', 0))
            c['l'] = e.get('l')
            return self.invoke(c, list(args), st)
        if isinstance(fv, PyFn):
            return fv.fn(self, args, st, e)
        self.und('call of %s' % type(fv).__name__, e)

    # ---------------------------------------------------------------- patterns
    def bind_irrefutable(self, p, v, st):
        c, binds = self.match(p, v, st)
        if simp(c, st.f).kind != 'T':
            self.und('refutable pattern')
        self.do_bind(binds, st)

    def do_bind(self, binds, st):
        for vid, v in binds:
            st.mem[self.frame.cell(vid)] = v

    def match(self, p, v, st):
        """(condition, bindings).  v may be a MutRef (place) or a value."""
        k = p['k']
        if k == 'wild':
            return TRUE, []
        if k == 'bind':
            by = str(p.get('by'))
            if 'mut' in by.lower() and 'ref' in by.lower():
                x = v if isinstance(v, MutRef) else self.tmp(st, v)
            elif 'ref' in by.lower() or isinstance(v, MutRef) and not self.is_mutref_ty(p.get('t')):
                x = self.val(st, v)
            else:
                x = v
            binds = [(p['id'], x)]
            c = TRUE
            if p.get('sub'):
                c, b2 = self.match(p['sub'], v, st)
                binds += b2
            return c, binds
        if k == 'deref':
            t = self.c.ty(p['t']) if p.get('t') is not None else None
            if isinstance(v, MutRef):
                inner = self.follow(st, st.mem.get(v.cell), v.path)
                if isinstance(inner, MutRef):
                    v = inner
            return self.match(p['p'], v, st)
        if k == 'leaf':
            cs, bs = [], []
            for n, q in p['f']:
                if q['k'] == 'wild':
                    continue
                c, b = self.match(q, self.sub(v, ('f', n), st), st)
                cs.append(c)
                bs += b
            return c_and(*cs), bs
        if k == 'variant':
            x = self.val(st, v)
            want = p['v']
            alts = x.alts if isinstance(x, Gate) else ((TRUE, x),)
            sel = []
            for c, a in alts:
                if isinstance(a, Opaque) and a.kind in ('fault', 'err') and all(q['k'] == 'wild' for _, q in p['f']):
                    # an error of unknown kind
                    sel.append((c_and(c, mk_bool(sym('is:%s:%s:%s' % (a.kind, a.args, want), int=True))), a))
                    continue
                if not isinstance(a, Struct):
                    self.und('matching %s against variant %s' % (type(a).__name__, want))
                if a.variant == want:
                    sel.append((c, a))
            if not sel:
                return FALSE, []
            cond = c_or(*[c for c, _ in sel])
            cs, bs = [cond], []
            if isinstance(v, MutRef):
                base = MutRef(v.cell, v.path + (('v', want),))
            else:
                base = sel[-1][1]
                for c, a in reversed(sel[:-1]):
                    base = vmerge(c, a, base)
            for n, q in p['f']:
                if q['k'] == 'wild':
                    continue
                c, b = self.match(q, self.sub(base, ('f', n), st), st)
                cs.append(c)
                bs += b
            return c_and(*cs), bs
        if k == 'const':
            x = self.val(st, v)
            w = p['val']
            if isinstance(x, Poly):
                n = self.const_int(w)
                if n is None:
                    self.und('constant pattern %r' % (w,))
                return mk_eq(x - n), []
            if isinstance(x, Cond):
                s = str(w).lower()
                return (x if 'true' in s or s == '1' else c_not(x)), []
            self.und('constant pattern')
        if k == 'range':
            x = self.val(st, v)
            lo, hi = self.const_int(p.get('lo')), self.const_int(p.get('hi'))
            c = TRUE
            if lo is not None:
                c = c_and(c, mk_leq(lo, x))
            if hi is not None:
                c = c_and(c, mk_leq(x, hi) if p.get('incl') else mk_lt(x, hi))
            return c, []
        if k == 'or':
            cs = []
            allb = []
            for q in p['ps']:
                c, b = self.match(q, v, st)
                cs.append(c)
                allb.append((c, b))
            binds = []
            if any(b for _, b in allb):
                d = {}
                for c, b in reversed(allb):
                    if c.kind == 'F':
                        continue
                    for vid, x in b:
                        d[vid] = vmerge(c, x, d[vid]) if vid in d else x
                binds = list(d.items())
            return c_or(*cs), binds
        if k == 'slice':
            x = self.val(st, v)
            if not isinstance(x, Seq):
                self.und('slice pattern')
            n = seq_len(x)
            pre, mid, suf = p.get('pre') or [], p.get('mid'), p.get('suf') or []
            k0 = len(pre) + len(suf)
            cond = mk_leq(k0, n) if mid else mk_eq(n - k0)
            f2 = st.f.add(cond)
            if f2.inconsistent():
                return FALSE, []
            s2 = St(st.mem, f2, st.pc)
            cs, bs = [cond], []

            def el(i):
                return MutRef(v.cell, v.path + (('i', P(i)),)) if isinstance(v, MutRef) else seq_get(x, P(i), f2)
            for i, q in enumerate(pre):
                if q['k'] != 'wild':
                    c, b = self.match(q, el(P(i)), s2)
                    cs.append(c)
                    bs += b
            for i, q in enumerate(suf):
                if q['k'] != 'wild':
                    c, b = self.match(q, el(n - len(suf) + i), s2)
                    cs.append(c)
                    bs += b
            if mid and mid['k'] != 'wild':
                if isinstance(v, MutRef):
                    m = MutRef(v.cell, v.path + (('r', (P(len(pre)), n - len(suf))),))
                else:
                    m = seq_slice(x, P(len(pre)), n - len(suf), f2)
                c, b = self.match(mid, m, s2)
                cs.append(c)
                bs += b
            return c_and(*cs), bs
        if k == 'guard':
            return self.match(p['p'], v, st)
        self.und('pattern %s' % k)

    def is_mutref_ty(self, t):
        if t is None:
            return False
        t = self.c.ty(t)
        return t['k'] == 'ref' and t.get('m')

    def const_int(self, w):
        if w is None:
            return None
        if isinstance(w, bool):
            return int(w)
        if isinstance(w, int):
            return w
        s = str(w)
        import re
        m = re.match(r'^-?\d+', s)
        return int(m.group(0)) if m else None

    def sub(self, v, step, st):
        """project a field out of a place or a value"""
        if isinstance(v, MutRef):
            r = MutRef(v.cell, v.path + (step,))
            x = self.follow(st, st.mem.get(v.cell), r.path)
            if isinstance(x, MutRef):
                return x
            return r
        if isinstance(v, Poison):
            self.und(v.why)
        return self.field(v, step[1])

    # ---------------------------------------------------------------- places
    def place(self, e, st):
        """MutRef for a place expression (allocating a temporary for values)"""
        k = e['k']
        if k in ('var', 'upvar'):
            return MutRef(self.frame.cell(e['id']))
        if k == 'field':
            b = self.place(e['a'], st)
            inner = self.peekref(b, st)
            b = inner or b
            path = b.path
            if e.get('vname'):
                path = path + (('v', e['vname']),)
            return MutRef(b.cell, path + (('f', e['n']),))
        if k == 'deref':
            a = e['a']
            if a['k'] in ('var', 'upvar', 'field', 'index', 'deref'):
                b = self.place(a, st)
                inner = self.peekref(b, st)
                return inner or b
            v = self.ev(a, st)
            if isinstance(v, MutRef):
                return v
            return self.tmp(st, v)
        if k == 'index':
            b = self.place(e['a'], st)
            b = self.peekref(b, st) or b
            i = self.evv(e['i'], st)
            s = self.load(st, b)
            s = self.val(st, s)
            if not isinstance(s, Seq):
                self.und('indexing %s' % type(s).__name__, e)
            self.bounds(st, i, s, e)
            return MutRef(b.cell, b.path + (('i', i),))
        v = self.ev(e, st)
        if isinstance(v, MutRef):
            return v if k in ('call', 'borrow', 'block', 'match', 'if') else self.tmp(st, v)
        return self.tmp(st, v)

    def peekref(self, b, st):
        v = st.mem.get(b.cell)
        if v is None:
            return None
        if not b.path:
            return v if isinstance(v, MutRef) else None
        try:
            x = self.follow(st, v, b.path)
        except Undecided:
            return None
        return x if isinstance(x, MutRef) else None

    def bounds(self, st, i, s, e):
        n = seq_len(s)
        self.require(st, c_and(mk_leq(0, i), mk_lt(i, n)), 'index out of bounds', e)

    # ---------------------------------------------------------------- expressions
    def evv(self, e, st):
        return self.val(st, self.ev(e, st))

    def ev(self, e, st):
        self.budget -= 1
        if self.budget < 0:
            self.und('analysis budget exhausted')
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            self.und('expression %s' % e['k'], e)
        return m(e, st)

    def x_var(self, e, st):
        v = st.mem.get(self.frame.cell(e['id']))
        if v is None:
            self.und('variable %s not initialised' % e.get('n'), e)
        if isinstance(v, Poison):
            self.und(v.why, e)
        if is_limbs(v):
            return prims_().from_limbs(v.get('0'), v.get('1'))
        return v

    x_upvar = x_var

    def x_lit(self, e, st):
        k, v = e['lk'], e['v']
        if k == 'int':
            return P(int(v))
        if k == 'bool':
            return TRUE if v else FALSE
        if k == 'bytes':
            return Seq([Seg(ONE, P(b), False, 0) for b in v])
        if k == 'str':
            return Opaque('str', v)
        if k == 'char':
            return Opaque('char', v)
        self.und('literal %s' % k, e)

    def x_block(self, e, st):
        lab = e.get('label')
        if lab:
            self.coll.append([])
            nb = len(st.pc)
            s = st.copy()
            outs = []
            try:
                v = self._block(e, s)
                outs.append((v, s))
            except Dead:
                pass
            finally:
                exits = self.coll.pop()
            for x in exits:
                if x.kind == 'break' and x.label == lab:
                    outs.insert(0, (x.value, x.st))
                else:
                    self.coll[-1].append(x)
            if not outs:
                raise Dead()
            return self.join_exits(st, outs, nb)
        return self._block(e, st)

    def _block(self, e, st):
        for s in e['stmts']:
            if s['s'] == 'expr':
                self.ev(s['e'], st)
            else:
                self.let(s, st)
        if e.get('e') is None:
            return UNIT
        return self.ev(e['e'], st)

    def let(self, s, st):
        if s.get('i') is None:
            return
        p = s['p']
        if p['k'] == 'bind' and not p.get('sub') and 'ref' not in str(p.get('by')).lower():
            v = self.ev(s['i'], st)
            if isinstance(v, MutRef) and not self.holds_mutref(p.get('t')):
                v = self.val(st, v)
            st.mem[self.frame.cell(p['id'])] = v
            return
        if self.pat_refmut(p):
            v = self.place(s['i'], st)
        else:
            v = self.ev(s['i'], st)
        c, binds = self.match(p, v, st)
        if s.get('else') is not None:
            def bad(s2):
                self.ev(s['else'], s2)
                raise Dead()

            def good(s2):
                self.do_bind(binds, s2)
                return UNIT
            c = simp(c, st.f)
            self.fork(st, [(c, good), (c_not(c), bad)])
            return
        if simp(c, st.f).kind != 'T':
            self.und('refutable let', s)
        self.do_bind(binds, st)

    def holds_mutref(self, t):
        return t is None or self.is_mutref_ty(t) or self.c.ty(t)['k'] in ('param', 'alias', 'other')

    def pat_refmut(self, p):
        if isinstance(p, dict):
            if p.get('k') == 'bind' and 'ref' in str(p.get('by')).lower() and 'mut' in str(p.get('by')).lower():
                return True
            return any(self.pat_refmut(x) for x in p.values() if isinstance(x, (dict, list)))
        if isinstance(p, list):
            return any(self.pat_refmut(x) for x in p)
        return False

    def x_if(self, e, st):
        c = e['c']
        th, el = e['th'], e.get('e')

        def other(s):
            return self.ev(el, s) if el is not None else UNIT
        lets = []
        if self.has_let(c):
            # chain of conditions and let-patterns joined by &&
            return self.if_chain(self.conjuncts(c), th, other, st)
        cv = self.cond(c, st)
        return self.fork(st, [(cv, lambda s: self.ev(th, s)), (c_not(cv), other)], e)

    def conjuncts(self, c):
        if c['k'] == 'logic' and c['op'] == 'And':
            return self.conjuncts(c['x']) + self.conjuncts(c['y'])
        return [c]

    def has_let(self, c):
        if c['k'] == 'let':
            return True
        if c['k'] == 'logic':
            return self.has_let(c['x']) or self.has_let(c['y'])
        return False

    def if_chain(self, cs, th, other, st):
        if not cs:
            return self.ev(th, st)
        c, rest = cs[0], cs[1:]
        if c['k'] == 'let':
            v = self.scrut(c['e'], c['p'], st)
            cond, binds = self.match(c['p'], v, st)
            cond = simp(cond, st.f)

            def yes(s):
                self.do_bind(binds, s)
                return self.if_chain(rest, th, other, s)
            return self.fork(st, [(cond, yes), (c_not(cond), other)])
        cv = self.cond(c, st)
        return self.fork(st, [(cv, lambda s: self.if_chain(rest, th, other, s)), (c_not(cv), other)])

    def scrut(self, e, pats, st):
        if e['k'] in ('var', 'upvar', 'field', 'index', 'deref') and self.pat_refmut(pats):
            return self.place(e, st)
        return self.ev(e, st)

    def cond(self, e, st):
        v = self.evv(e, st)
        if not isinstance(v, Cond):
            self.und('condition is not boolean', e)
        return v

    def x_let(self, e, st):
        v = self.ev(e['e'], st)
        c, binds = self.match(e['p'], v, st)
        self.do_bind(binds, st)
        return c

    def x_logic(self, e, st):
        a = self.cond(e['x'], st)
        if e['op'] == 'And':
            def rhs(s):
                return self.cond(e['y'], s)
            return self.fork(st, [(a, rhs), (c_not(a), lambda s: FALSE)])
        return self.fork(st, [(a, lambda s: TRUE), (c_not(a), lambda s: self.cond(e['y'], s))])

    def x_match(self, e, st):
        src = e.get('src')
        if src == 'ForLoopDesugar':
            fl = self.forloop(e)
            if fl:
                return self.run_for(fl, e, st)
        if src == 'TryDesugar':
            return self.x_try(e, st)
        arms = e['arms']
        v = self.scrut(e['e'], [a['p'] for a in arms], st)
        prev = TRUE
        branches = []
        # arms are tried in order; guards are evaluated under the pattern
        return self.match_arms(arms, 0, v, st, e)

    def match_arms(self, arms, k, v, st, e):
        if k >= len(arms):
            raise Dead()
        a = arms[k]
        c, binds = self.match(a['p'], v, st)
        c = simp(c, st.f)

        def rest(s):
            return self.match_arms(arms, k + 1, v, s, e)

        def body(s):
            self.do_bind(binds, s)
            g = a.get('g')
            if g is None:
                return self.ev(a['b'], s)
            if self.has_let(g):
                return self.if_chain(self.conjuncts(g), a['b'], rest, s)
            gv = self.cond(g, s)
            return self.fork(s, [(gv, lambda s2: self.ev(a['b'], s2)), (c_not(gv), rest)])
        if k == len(arms) - 1 and a.get('g') is None:
            # exhaustive
            if c.kind == 'F':
                raise Dead()
            s = st
            s.branch(c) if c.kind != 'T' else None
            return body(s)
        return self.fork(st, [(c, body), (c_not(c), rest)])

    def x_try(self, e, st):
        call = e['e']
        inner = call['args'][0]
        v = self.evv(inner, st)
        return self.do_try(v, st, e)

    def do_try(self, v, st, e):
        alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
        good, bad = [], []
        for c, a in alts:
            if not isinstance(a, Struct):
                self.und('? on %s' % type(a).__name__, e)
            if a.variant in ('Ok', 'Some', 'Continue'):
                good.append((c, a))
            else:
                bad.append((c, a))

        def ret(a):
            def f(s):
                r = a
                if a.variant == 'Err':
                    r = Err(self.conv_err(a.get('0'), s, e))
                self.exit('return', None, r, s)
            return f

        br = [(c, ret(a)) for c, a in bad]
        br += [(c, (lambda a: (lambda s: a.get('0')))(a)) for c, a in good]
        return self.fork(st, br, e)

    def conv_err(self, v, st, e):
        """From conversion applied by `?`: uses the local impl if one exists for this error type"""
        rt = None
        for arm in e['arms']:
            if arm['p'].get('v') == 'Break':
                b = arm['b']
                if b['k'] == 'return' and b['v']['k'] == 'call':
                    rt = self.c.ty(b['v']['t'])
        if rt and rt['k'] == 'adt' and rt.get('a') and len(rt['a']) > 1:
            et = self.c.ty(rt['a'][1])
            if isinstance(v, Struct) and et['k'] == 'adt' and et.get('p') != v.ty:
                k = self.find_from(v.ty, et['p'])
                if k:
                    return self.call_key(k, [v], st, e)
        return v

    def find_from(self, src, dst):
        for im in self.c.impls:
            if im.get('trait') != 'core::convert::From':
                continue
            st = self.c.ty(im['self']) if isinstance(im['self'], int) else None
            if not st or st.get('p') != dst:
                continue
            ts = im.get('trait_s', '')
            if '::From<' not in ts:
                continue
            arg = ts.split('::From<', 1)[1]
            if arg.startswith(src + '<') or arg.startswith(src + '>'):
                for it in im['items']:
                    if it in self.c.bodies:
                        return it
        return None

    def x_return(self, e, st):
        v = self.ev(e['v'], st) if e.get('v') else UNIT
        self.exit('return', None, v, st)

    def x_break(self, e, st):
        v = self.ev(e['v'], st) if e.get('v') else UNIT
        self.exit('break', e['label'], v, st)

    def x_continue(self, e, st):
        self.exit('continue', e['label'], UNIT, st)

    def x_tuple(self, e, st):
        return tup(*[self.ev(x, st) for x in e['f']])

    def x_array(self, e, st):
        return seq_of(*[self.stored(x, st) for x in e['f']])

    def stored(self, x, st):
        v = self.ev(x, st)
        return v

    def x_repeat(self, e, st):
        v = self.evv(e['v'], st)
        n = self.const_int(e['n'])
        if n is None:
            self.und('array length', e)
        return Seq([Seg(P(n), v, False, 0)])

    def x_adt(self, e, st):
        if e['p'] in TRANSPARENT:
            return self.evv(e['f'][0][1], st)
        fs = []
        for n, x in e['f']:
            fs.append((n, self.ev(x, st)))
        if e.get('base') is not None:
            b = self.evv(e['base'], st)
            have = {n for n, _ in fs}
            if not isinstance(b, Struct):
                self.und('struct base', e)
            fs += [(n, v) for n, v in b.fields if n not in have]
        p = e['p']
        short = {'core::option::Option': 'Option', 'core::result::Result': 'Result'}.get(p, p)
        variant = e['v'] if (e['enum'] or short in ('Option', 'Result')) and not p.startswith('core::ops::range') else None
        a = self.c.adts.get(p)
        if a and not a['enum']:
            order = [f['n'] for f in a['variants'][0]['f']]
            fs.sort(key=lambda t: order.index(t[0]) if t[0] in order else 99)
        return Struct(short, variant, fs)

    def x_field(self, e, st):
        a = e['a']
        if a['k'] in ('var', 'upvar', 'field', 'index', 'deref'):
            b = self.ev(a, st)
        else:
            b = self.ev(a, st)
        b = self.val(st, b)
        return self.field(b, e['n'])

    def x_deref(self, e, st):
        a = e['a']
        v = self.ev(a, st)
        if isinstance(v, MutRef):
            # a reference to a reference yields the inner reference
            return self.load(st, v)
        return v

    def x_index(self, e, st):
        s = self.evv(e['a'], st)
        i = self.evv(e['i'], st)
        return self.index(s, i, st, e)

    def index(self, s, i, st, e):
        if not isinstance(s, Seq):
            self.und('indexing %s' % type(s).__name__, e)
        if isinstance(i, Poly):
            self.bounds(st, i, s, e)
            v = seq_get(s, i, st.f)
            return v
        lo, hi = self.range_of(i, seq_len(s), st, e)
        self.require(st, c_and(mk_leq(lo, hi), mk_leq(hi, seq_len(s))), 'slice out of bounds', e)
        return seq_slice(s, lo, hi, st.f)

    def range_of(self, r, n, st, e):
        """(lo, hi) of a range value over a sequence of length n"""
        if isinstance(r, Seq) and len(r.segs) <= 1:
            # Range values are kept as records; anything else is unexpected
            pass
        if not isinstance(r, Struct):
            self.und('range index', e)
        t = r.ty
        if t.endswith('RangeFull'):
            return ZERO, n
        if t.endswith('RangeFrom'):
            return self.val(st, r.get('start')), n
        if t.endswith('RangeTo'):
            return ZERO, self.val(st, r.get('end'))
        if t.endswith('RangeToInclusive'):
            return ZERO, self.val(st, r.get('end')) + 1
        if t.endswith('RangeInclusive'):
            return self.val(st, r.get('start')), self.val(st, r.get('end')) + 1
        if t.endswith('Range'):
            return self.val(st, r.get('start')), self.val(st, r.get('end'))
        self.und('range %s' % t, e)

    def x_borrow(self, e, st):
        a = e['a']
        if e['m']:
            if a['k'] == 'deref' and a['a']['k'] == 'borrow':
                return self.x_borrow(dict(a['a'], m=True), st)
            return self.place(a, st)
        v = self.ev(a, st)
        return self.val(st, v) if isinstance(v, MutRef) else v

    x_rawborrow = x_borrow

    def x_assign(self, e, st):
        v = self.ev(e['y'], st)
        r = self.place(e['x'], st)
        if isinstance(v, MutRef) and not self.holds_mutref(e['x'].get('t')):
            v = self.val(st, v)
        if e['x']['k'] in ('var', 'upvar'):
            st.mem[r.cell] = v
        else:
            self.store(st, r, v)
        return UNIT

    def x_assignop(self, e, st):
        y = self.evv(e['y'], st)
        r = self.place(e['x'], st)
        inner = self.peekref(r, st)
        r = inner or r
        x = self.val(st, self.load(st, r))
        v = self.arith(e['op'].replace('Assign', ''), x, y, e['x'].get('t'), st, e)
        self.store(st, r, v)
        return UNIT

    def x_un(self, e, st):
        v = self.evv(e['a'], st)
        if e['op'] == 'Not':
            if isinstance(v, Cond):
                return c_not(v)
            t = self.c.ty(e['t'])
            if t['k'] == 'int' and t['n'][0] == 'u':
                return P(int_bounds(t['n'])[1]) - v
            return -v - 1
        return -v

    def x_bin(self, e, st):
        x = self.evv(e['x'], st)
        y = self.evv(e['y'], st)
        op = e['op']
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(op, x, y, st, e)
        return self.arith(op, x, y, e['t'], st, e)

    def compare(self, op, x, y, st, e):
        if op == 'Eq':
            return veq_cond(x, y, st.f)
        if op == 'Ne':
            return c_not(veq_cond(x, y, st.f))
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            self.und('ordering comparison', e)
        if not (x.isint and y.isint):
            self.und('ordering of non-integers', e)
        return {'Lt': mk_lt(x, y), 'Le': mk_leq(x, y), 'Gt': mk_lt(y, x), 'Ge': mk_leq(y, x)}[op]

    def arith(self, op, x, y, t, st, e):
        if isinstance(x, Cond) and isinstance(y, Cond):
            if op == 'BitAnd':
                return c_and(x, y)
            if op == 'BitOr':
                return c_or(x, y)
            if op == 'BitXor':
                return c_or(c_and(x, c_not(y)), c_and(c_not(x), y))
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            self.und('arithmetic on %s, %s' % (type(x).__name__, type(y).__name__), e)
        ty = self.c.peel(t) if t is not None else {'k': '?'}
        isint = ty['k'] == 'int'
        lo, hi = int_bounds(ty['n']) if isint else (None, None)
        if op == 'Add':
            r = x + y
            if isint and ty['n'] not in ('usize', 'u64', 'u128', 'i64', 'i128'):
                self.require(st, mk_leq(r, hi), 'arithmetic overflow', e)
            return r
        if op == 'Sub':
            if isint and lo == 0:
                self.require(st, mk_leq(y, x), 'arithmetic underflow', e)
            return x - y
        if op == 'Mul':
            r = x * y
            if isint and ty['n'] not in ('usize', 'u64', 'u128', 'i64', 'i128'):
                self.require(st, mk_leq(r, hi), 'arithmetic overflow', e)
            return r
        if op in ('Div', 'Rem'):
            c = y.cval()
            if c is None:
                self.require(st, c_not(mk_eq(y)), 'division by zero', e)
                q = app('div', x, y, int=True)
                return q if op == 'Div' else x - q * y
            if c == 0:
                self.panic(st, 'division by zero', e)
                raise Dead()
            if c > 0 and c & (c - 1) == 0:
                k = c.bit_length() - 1
                return floor2(x, k) if op == 'Div' else low_bits(x, k)
            q, r = divmod_poly(x, c, st.f)
            return q if op == 'Div' else r
        if op == 'Shl':
            bits = INT_BITS[ty['n']] if isint else 64
            self.require(st, c_and(mk_leq(0, y), mk_lt(y, bits)), 'shift overflow', e)
            r = x * pow2(y)
            if x.cval() == 1:
                return r
            return self.fit(r, ty['n'], st) if isint else r
        if op == 'Shr':
            bits = INT_BITS[ty['n']] if isint else 64
            self.require(st, c_and(mk_leq(0, y), mk_lt(y, bits)), 'shift overflow', e)
            k = y.cval()
            if k is None:
                return app('shr', x, y, int=True)
            return floor2(x, k)
        if op == 'BitAnd':
            for a, b in ((x, y), (y, x)):
                c = b.cval()
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return low_bits(a, c.bit_length())
            return app('bitand', *sorted((x, y), key=id), int=True) if x.cval() is None or y.cval() is None else P(x.cval() & y.cval())
        if op in ('BitOr', 'BitXor'):
            if x.cval() is not None and y.cval() is not None:
                return P(x.cval() | y.cval() if op == 'BitOr' else x.cval() ^ y.cval())
            # disjoint bits: x is a multiple of 2^k and y < 2^k
            for a, b in ((x, y), (y, x)):
                lo_, hi_ = T.int_range(b)
                if lo_ is not None and lo_ >= 0 and hi_ is not None:
                    k = hi_.bit_length()
                    if low_bits(a, k).is_zero():
                        return a + b
            return app(op.lower(), *sorted((x, y), key=id), int=True)
        self.und('operator %s' % op, e)

    def fit(self, p, tn, st):
        """value of p reduced to the integer type tn"""
        lo, hi = int_bounds(tn)
        l, h = T.int_range(p)
        if l is not None and h is not None and lo <= l and h <= hi:
            return p
        if p.isint and st.f.prove(mk_leq(lo, p)) and st.f.prove(mk_leq(p, hi)):
            return p
        b = INT_BITS[tn]
        if l is None and p.isint and st.f.prove(mk_leq(0, p)):
            l = 0
        if l is not None and l > -(1 << 200):
            # value mod 2^b, then the two's complement reading of the top bit
            q = p if l >= 0 else p + (((-l >> b) + 1) << b)
            r = low_bits(q, b)
            return r if lo == 0 else r - ind(mk_leq(P(hi + 1), r)).scale(1 << b)
        return app('trunc' if lo == 0 else 'strunc', P(b), p, int=True)

    def x_cast(self, e, st):
        v = self.evv(e['a'], st)
        t = self.c.ty(e['t'])
        if t['k'] == 'int':
            if isinstance(v, Cond):
                return ind(v)
            if not isinstance(v, Poly):
                self.und('cast of %s' % type(v).__name__, e)
            ft = self.c.ty(e['from'])
            if ft['k'] == 'int':
                if ft['n'][0] == 'u' and INT_BITS[ft['n']] <= INT_BITS[t['n']] and (t['n'][0] == 'u' or INT_BITS[ft['n']] < INT_BITS[t['n']]):
                    return v
            return self.fit(v, t['n'], st)
        return v

    def x_coerce(self, e, st):
        return self.ev(e['a'], st)

    def x_closure(self, e, st):
        byval = set()
        for u in e.get('up') or []:
            if u['k'] in ('var', 'upvar'):
                byval.add(u['id'])
        b = self.c.bodies.get(e['p'])
        env = []
        used = set()
        if b is None:
            self.und('closure body %s missing' % e['p'], e)
        self.upvars(b['body'], used)
        for vid in sorted(used):
            cell = self.frame.cell(vid)
            if vid in byval and not isinstance(st.mem.get(cell), (MutRef, type(None))):
                env.append((vid, ('val', st.mem[cell])))
            else:
                env.append((vid, ('cell', cell)))
        return Closure(e['p'], env)

    def upvars(self, x, out):
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, dict):
                if y.get('k') == 'upvar':
                    out.add(y['id'])
                if y.get('k') == 'closure':
                    b = self.c.bodies.get(y['p'])
                    if b:
                        stack.append(b['body'])
                stack.extend(v for v in y.values() if isinstance(v, (dict, list)))
            elif isinstance(y, list):
                stack.extend(y)

    def x_zst(self, e, st):
        return FnRef(e)

    def x_const(self, e, st):
        c = e.get('callee') or ''
        last = c.split('::')[-1]
        if last == 'MODULUS_BIT_SIZE':
            return T.FIELD['bits']
        if last == 'NUM_LIMBS':
            return T.FIELD['limbs']
        if e.get('val') is not None:
            n = self.const_int(e['val'])
            if n is not None:
                return P(n)
        b = self.c.bodies.get(e.get('res') or c) or self.c.bodies.get(c)
        if b is not None:
            return self.call_body(b, [], st, {}, e)
        if last in ('TRUE', 'FALSE') and 'r1cs' in c:
            return Struct('R1Bool', None, [('c', TRUE if last == 'TRUE' else FALSE)])
        if last in ('ZERO',):
            return ZERO
        if last in ('ONE',):
            return ONE
        if last == 'MAX' or last == 'MIN':
            t = self.c.ty(e['t'])
            if t['k'] == 'int':
                return P(int_bounds(t['n'])[1 if last == 'MAX' else 0])
        if last == 'BITS':
            for tn in INT_BITS:
                if '<impl %s>' % tn in c:
                    return P(INT_BITS[tn])
        return Opaque('const', c)

    def x_static(self, e, st):
        self.und('static', e)

    def x_constparam(self, e, st):
        return sym('constparam:%s' % e.get('n'), int=True)

    def x_constblock(self, e, st):
        self.und('const block', e)

    def x_unsupported(self, e, st):
        self.und('unsupported expression', e)

    # ---------------------------------------------------------------- loops
    def forloop(self, e):
        """pieces of a desugared for loop"""
        try:
            it = e['e']['args'][0]
            lp = e['arms'][0]['b']
            while lp['k'] == 'block' and not lp['stmts']:
                lp = lp['e']
            if lp['k'] != 'loop':
                return None
            b = lp['b']
            while b['k'] == 'block' and not b['stmts']:
                b = b['e']
            if b['k'] == 'block':
                m = b['stmts'][0]['e']
            else:
                m = b
            some = [a for a in m['arms'] if a['p'].get('v') == 'Some'][0]
            pat = some['p']['f'][0][1] if some['p']['f'] else {'k': 'wild'}
            return it, pat, some['b'], lp.get('labels') or []
        except (KeyError, IndexError, TypeError):
            return None

    def run_for(self, fl, e, st):
        it, pat, body, labels = fl
        v = self.ev(it, st)
        seq = self.to_iter(v, st, e)

        def step(elem, s):
            c, binds = self.match(pat, elem, s)
            if simp(c, s.f).kind != 'T':
                self.und('refutable loop pattern', e)
            self.do_bind(binds, s)
            self.ev(body, s)
        return loops.run_seq(self, st, seq, step, e, labels)

    def x_loop(self, e, st):
        labels = e.get('labels') or []

        def step(i, s):
            self.ev(e['b'], s)
        return loops.run_sym(self, st, None, step, e, labels)

    def to_iter(self, v, st, e):
        """iterable value -> sequence of items"""
        raw = v
        if isinstance(v, MutRef):
            x = self.val(st, v)
            if isinstance(x, Seq):
                # iteration over &mut: items are references; over an iterator by reference: consume it
                return self.iter_mut(v, x)
            v = x
        if isinstance(v, Seq):
            return v
        if isinstance(v, Struct):
            t = v.ty
            if t.endswith('RangeInclusive'):
                lo, hi = self.val(st, v.get('start')), self.val(st, v.get('end')) + 1
                return self.range_seq(lo, hi, st)
            if t.endswith('ops::range::Range') or t.endswith('::Range') or t == 'Range':
                return self.range_seq(self.val(st, v.get('start')), self.val(st, v.get('end')), st)
            if t == 'Option' or t.endswith('option::Option'):
                return seq_of(v.get('0')) if v.variant == 'Some' else EMPTY_SEQ
            if t == 'Result' or t.endswith('result::Result'):
                return seq_of(v.get('0')) if v.variant == 'Ok' else EMPTY_SEQ
        if isinstance(v, Gate) and all(isinstance(x, Struct) and x.variant in ('Some', 'None', 'Ok', 'Err') for _, x in v.alts):
            return Seq([Seg(T.ind(c), x.get('0'), False, 0) for c, x in v.alts if x.variant in ('Some', 'Ok')])
        if isinstance(v, Opaque) and v.kind == 'stream':
            self.und('unbounded iterator', e)
        self.und('iteration over %s' % (v.ty if isinstance(v, Struct) else type(v).__name__), e)

    def iter_mut(self, r, s):
        n = seq_len(s)
        nme = fresh('e')
        declare(nme, int=True)
        j = sym(nme, int=True)
        return Seq([mk_seg(n, nme, MutRef(r.cell, r.path + (('i', j),)))])

    def range_seq(self, lo, hi, st):
        if not isinstance(lo, Poly) or not isinstance(hi, Poly):
            self.und('range bounds')
        n = hi - lo
        if not st.f.prove(mk_leq(0, n)):
            if st.f.prove(mk_leq(n, 0)):
                return EMPTY_SEQ
            n = ite(mk_leq(0, n), n, ZERO)
        return seq_fn(n, lambda i: lo + i)

    # ---------------------------------------------------------------- calls
    def x_call(self, e, st):
        if 'fun' in e:
            fv = self.ev(e['fun'], st)
            args = [self.ev(a, st) for a in e['args']]
            return self.callv(fv, args, st, e)
        args = [self.ev(a, st) for a in e['args']]
        return self.invoke(e, args, st)

    def local_target(self, e):
        if (e.get('trait') or '').startswith('core::ops::function::Fn'):
            return None               # a closure is called through its value, with what it captured
        for k in (e.get('res'), e.get('callee')):
            if k and k in self.c.bodies:
                return self.c.bodies[k]
        return None

    faults = None                     # fault injection: name -> {loc, fn, callee, facts when reached}

    def invoke(self, e, args, st):
        if self.faults is None:
            return self._invoke(e, args, st)
        return self.fault(e, self._invoke(e, args, st), st)

    def fault(self, e, v, st):
        """let a call of a fallible operation also fail"""
        callee = e.get('callee') or ''
        t = self.c.ty(e['t'])
        p = t.get('p') or ''
        if e.get('ctor') or t.get('k') != 'adt':
            return v
        m = callee.split('::')[-1]
        if p.endswith('result::Result'):
            if self.local_target(e) is None and not callee.startswith(FALLIBLE) and not (e.get('trait') or '').startswith(FALLIBLE):
                return v
            bad = Struct('Result', 'Err', [('0', Opaque('fault', m))])
        elif p.endswith('option::Option') and m in FALLIBLE_OPTION:
            bad = Struct('Option', 'None', [])
        else:
            return v
        v = self.val(st, v)
        n = self.name('fault', e.get('u', 0))
        fail = mk_bool(sym(n, *self.idx, int=True))
        self.faults[n] = {'loc': e.get('l'), 'fn': self.fnstack[-1] if self.fnstack else '', 'callee': callee, 'f': st.f, 'fail': fail}
        alts = v.alts if isinstance(v, Gate) else ((TRUE, v),)
        return mk_gate([(fail, bad)] + [(c_and(c_not(fail), c), x) for c, x in alts])

    def _invoke(self, e, args, st):
        callee = e.get('callee') or ''
        self.sites.add(e.get('u'))
        b = self.local_target(e)
        if b is not None and not b.get('derived'):
            return self.call_body(b, args, st, {}, e)
        if e.get('ctor'):
            p = e['ctor']
            return self.ctor(e, p, args, st)
        tr = e.get('trait')
        m = callee.split('::')[-1]
        if tr and not e.get('res'):
            k = self.trait_impl(tr, m, e, args, st)
            if k is not None:
                return self.call_body(self.c.bodies[k], args, st, {}, e)
        fn = self.prims.lookup(callee, m)
        if fn is None:
            self.und('no transfer function for %s' % callee, e)
        return fn(self, e, args, st)

    def trait_impl(self, tr, m, e, args, st):
        """method of a trait defined in the crate (or implemented by it) selected by the receiver's record type"""
        if not args:
            return None
        if tr.startswith(('core::', 'alloc::', 'ark_', 'num_traits', 'rayon', 'digest', 'std::')):
            return None
        try:
            v = self.val(st, args[0])
        except Undecided:
            return None
        tn = v.ty if isinstance(v, Struct) else None
        cands = []
        for im in self.c.impls:
            if im.get('trait') != tr:
                continue
            for it in im['items']:
                if it.split('::')[-1] == m and it in self.c.bodies:
                    s = self.c.ty(im['self']) if isinstance(im['self'], int) else {}
                    if tn is None and isinstance(v, (Poly, Cond, Seq)) and s.get('p') in self.c.adts:
                        continue       # a number or sequence is not a record of the crate
                    if tn is None or s.get('p') == tn or s.get('k') == 'param':
                        cands.append(it)
        if len(cands) == 1:
            return cands[0]
        return None

    def ctor(self, e, p, args, st):
        if p in TRANSPARENT:
            return self.val(st, args[0])
        callee = e.get('callee') or ''
        vname = callee.split('::')[-1]
        fs = [(str(i), a) for i, a in enumerate(args)]
        if p.endswith('option::Option'):
            return Struct('Option', vname, fs)
        if p.endswith('result::Result'):
            return Struct('Result', vname, fs)
        base = e['ctor']
        ad = self.c.adts.get(base) or self.c.adts.get('::'.join(base.split('::')[:-1]))
        if ad and ad['enum']:
            return Struct(ad['p'], vname, fs)
        if ad:
            return Struct(ad['p'], None, fs)
        if base.split('::')[-1] != vname:
            return Struct(base, vname, fs)
        return Struct('::'.join(base.split('::')), None, fs)


FALLIBLE = ('ark_groth16::', 'ark_relations::', 'ark_r1cs_std::', 'ark_snark::', 'ark_serialize::', 'ark_ec::', 'ark_ff::', 'serde', 'ark_poly')
FALLIBLE_OPTION = {'final_exponentiation'}

TRANSPARENT = {'ark_ec::pairing::PairingOutput', 'ark_ec::pairing::MillerLoopOutput', 'core::num::wrapping::Wrapping',
               'core::cmp::Reverse'}


class PyFn(Val):
    __slots__ = ('fn', 'names', 'h')

    def __init__(self, fn):
        self.fn = fn
        self.names = frozenset()
        self.h = 0

    def subst(self, s):
        return self


class Frame:
    __slots__ = ('id', 'env')

    def __init__(self, id, env):
        self.id, self.env = id, env

    def cell(self, vid):
        c = self.env.get(vid)
        return c if c is not None else self.id + '.' + vid.rsplit(').', 1)[-1].rstrip(')')
