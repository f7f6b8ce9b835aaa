"""Decision support for *differences* of abstract terms.

The prover (facts.py) establishes that two terms are equal by normal form.  When it cannot, the terms may
still be equal (prover too weak) or really different.  This module separates the two: it interprets the
abstract terms (never the program) over the integers and a prime field and looks for an interpretation of
the symbols that satisfies all path facts and makes the terms differ (polynomial identity test).  A
difference that has such an interpretation is a real disagreement between the specification and the code;
one without is reported as undecided, never as a violation.
"""
import hashlib
import random
import time
from fractions import Fraction
import term as T
from term import P, Poly, Cond, SYM_INFO, FIELD


class NoModel(Exception):
    pass


def order(x):
    return x[0].kind != 'ind'


class Limit(Exception):
    pass


def is_prime(n):
    if n < 4:
        return n > 1
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


_pr = {}


def prime(bits):
    if bits not in _pr:
        n = (1 << bits) - 1
        while not is_prime(n):
            n -= 2
        _pr[bits] = n
    return _pr[bits]


class Model:
    """one interpretation: symbol (name, index values) -> value, by hash unless overridden"""

    def __init__(self, seed, limbs=1, mode=0):
        self.seed = seed
        self.over = {('LIMBS', ()): limbs}
        gap = FIELD['gap']
        self.p = prime(64 * limbs - gap)
        self.touched = None
        self.steps = 0
        self.memo = {}
        self.mode = mode
        self.consts = ()

    def h(self, *k):
        x = hashlib.sha256(repr((self.seed, k)).encode()).digest() + hashlib.sha256(repr((k, self.seed)).encode()).digest()
        return int.from_bytes(x, 'big')

    def set(self, k, v):
        if v == 0 and SYM_INFO.get(k[0], {}).get('nz'):
            v = 1                      # generic elements are not zero
        self.over[k] = v
        self.memo = {}

    def sym(self, a, env):
        name, idx = a.args
        ix = tuple(self.poly(i, env) for i in idx)
        k = (name, ix)
        if self.touched is not None:
            self.touched[k] = a.isint
        v = self.over.get(k)
        if v is not None:
            return v
        v = self.h(name, ix)
        if not a.isint:
            v %= self.p
            return v if v or not a.nz else 1
        inf = SYM_INFO.get(name)
        lo = hi = None
        if inf and inf['rng']:
            lo, hi = inf['rng'](idx)
            lo = self.poly(P(lo), env) if lo is not None else None
            hi = self.poly(P(hi), env) if hi is not None else None
        if name.startswith('some:'):
            return v & 1
        if self.consts and v % 3 == 0 and (lo is None or lo >= 0):
            x = self.consts[(v >> 8) % len(self.consts)]
            if (lo is None or lo <= x) and (hi is None or x <= hi):
                return x
            v >>= 16
        if name.startswith('len:'):
            return v % 5
        if hi is not None and hi - (lo or 0) > 300 and self.mode == 0:
            hi = (lo or 0) + 20
        if lo is None:
            lo = 0
        if hi is None:
            hi = lo + 6
        if hi < lo:
            return lo
        return lo + v % (hi - lo + 1)

    def poly(self, p, env):
        self.steps += 1
        if self.steps > 1500000:
            raise Limit()
        key = None
        if self.touched is None:
            key = (p, tuple(sorted(env.items())))
            if key in self.memo:
                return self.memo[key]
        if p.isint:
            r = Fraction(0)
            for m, c in p.terms.items():
                t, none = Fraction(c), False
                for a, e in sorted(m, key=order) if len(m) > 1 else m:
                    if t == 0:
                        break
                    try:
                        v = self.atom(a, env)
                    except NoModel:
                        none = True
                        continue
                    if isinstance(e, Poly):
                        e = self.poly(e, env)
                    if e < 0 and v == 0:
                        raise NoModel('inverse of zero')
                    if abs(e) > 5000:
                        raise Limit()
                    t *= Fraction(v) ** e
                if none and t != 0:
                    raise NoModel('undefined factor')
                r += t
            if r.denominator == 1:
                r = int(r)
        else:
            q = self.p
            r = 0
            for m, c in p.terms.items():
                c = Fraction(c)
                t, none = c.numerator * pow(c.denominator, -1, q) % q, False
                # indicators first: they guard partial terms (a product with a zero factor is zero, whatever the others are)
                for a, e in sorted(m, key=order):
                    if t == 0:
                        break
                    try:
                        v = self.atom(a, env)
                    except NoModel:
                        none = True
                        continue
                    if isinstance(e, Poly):
                        e = self.poly(e, env)
                    if isinstance(v, Fraction):
                        v = v.numerator * pow(v.denominator, -1, q)
                    if e < 0 and v % q == 0:
                        raise NoModel('inverse of zero')
                    t = t * pow(v, e, q) % q
                if none and t:
                    raise NoModel('undefined factor')
                r = (r + t) % q
        if key is not None:
            self.memo[key] = r
        return r

    def atom(self, a, env):
        k = a.kind
        if k == 'sym':
            return self.sym(a, env)
        if k == 'bv':
            return env[a.args[0]]
        if k == 'num':
            return a.args[0]
        if k == 'two':
            return 2
        if k == 'ind':
            return 1 if self.cond(a.args[0], env) else 0
        if k == 'sum':
            his, b = a.args
            base = a.h - len(his)
            return self.sum(list(his), b, base + 1, dict(env), a.isint)
        if k == 'prod':
            hi, b = a.args
            n = self.poly(hi, env)
            r = 1
            e2 = dict(env)
            for i in range(max(0, self.cnt(n))):
                e2[a.h] = i
                r = r * self.poly(b, e2)
                if not a.isint:
                    r %= self.p
            return r
        if k == 'fl':
            return self.toint(a.args[0], env) >> a.args[1]
        if k == 'first':
            hi, c = a.args
            n = 2000 if hi is None else self.cnt(self.poly(hi, env))
            e2 = dict(env)
            r = self.root(c, a.h, e2) if n > 40 else None
            for i in range(max(0, n)) if r is None else [x for x in r if 0 <= x < n]:
                e2[a.h] = i
                if self.cond(c, e2):
                    return i
            raise NoModel('no such index')
        if k == 'app':
            return self.app(a, env)
        raise Limit('atom ' + k)

    def root(self, c, h, env):
        """the only index at which an equation linear in the bound variable can hold ([] / [i]), None when not of that form"""
        if c.kind != 'eq':
            return None
        p = c.args[0]
        for m in p.terms:
            d = 0
            for a, e in m:
                if a.kind == 'bv' and a.args[0] == h:
                    if e != 1:
                        return None
                    d += 1
                elif a.h >= h:
                    return None
            if d > 1:
                return None
        v = []
        for i in (0, 1):
            env[h] = i
            v.append(self.poly(p, env))
        k = v[1] - v[0]
        if p.isint:
            if k == 0:
                return None if v[0] == 0 else []
            r = Fraction(-v[0]) / Fraction(k)
            return [int(r)] if r.denominator == 1 else []
        k %= self.p
        if k == 0:
            return None if v[0] == 0 else []
        return [-v[0] * pow(k, -1, self.p) % self.p]

    def cnt(self, n):
        if n != int(n) or n > 70000:
            raise Limit()
        return int(n)

    def toint(self, p, env):
        v = self.poly(p, env)
        if v != int(v):
            raise NoModel('non-integral')
        return int(v)

    def sum(self, his, b, lvl, env, isint):
        if not his:
            return self.poly(b, env)
        n = self.cnt(self.poly(his[0], env))
        r = 0
        e2 = dict(env)
        for i in range(max(0, n)):
            e2[lvl] = i
            r += self.sum(his[1:], b, lvl + 1, e2, isint)
        return r if isint else r % self.p

    def app(self, a, env):
        f, args = a.args[0], a.args[1:]
        vs = []
        for x in args:
            vs.append(self.poly(x, env) if isinstance(x, Poly) else self.cond(x, env) if isinstance(x, Cond) else self.val(x, env))
        if f == 'byte':
            return (vs[0] >> (8 * vs[1])) & 255 if vs[1] >= 0 else 0
        if f == 'limb':
            return (int(vs[0]) >> (64 * vs[1])) & (2 ** 64 - 1) if vs[1] >= 0 else 0
        if f == 'r1low':
            return vs[0] & ((1 << max(0, vs[1])) - 1)
        if f == 'r1bit':
            return (vs[0] >> vs[1]) & 1 if vs[1] >= 0 else 0
        if f in ('trunc', 'strunc'):
            b = vs[0]
            v = int(vs[1]) & ((1 << b) - 1)
            return v - (1 << b) if f == 'strunc' and v >> (b - 1) else v
        if f in ('div', 'divc'):
            if vs[1] == 0:
                raise NoModel('division by zero')
            return vs[0] // vs[1]
        if f == 'shr':
            return int(vs[0]) >> int(vs[1])
        if f == 'bitand':
            return int(vs[0]) & int(vs[1])
        if f == 'tz':
            return (vs[0] & -vs[0]).bit_length() - 1 if vs[0] else 64
        if f == 'inv':
            if vs[0] % self.p == 0:
                raise NoModel('inverse of zero')
            return pow(vs[0], -1, self.p)
        if f == 'polybase':
            return vs[0]
        if f == 'is_pow2':
            return 1 if vs[0] > 0 and vs[0] & (vs[0] - 1) == 0 else 0
        v = self.h('app', f, tuple(vs))
        if f == 'hashb':
            return v & 255
        if f.startswith('frb_ok:'):
            return v & 1
        if f == 'winsize':
            return 3 if vs[0] < 32 else max(1, int(vs[0]).bit_length())
        if a.isint:
            r = T.APP_RANGE.get(f)
            if r:
                lo, hi = r(*args)
                lo = lo or 0
                return lo + v % ((hi if hi is not None else lo + 6) - lo + 1)
            return v % 7
        return v % self.p or 1

    def val(self, x, env):
        """a hashable interpretation of a structured argument"""
        import values as V
        if isinstance(x, V.Seq):
            out = []
            for g in x.segs:
                n = self.cnt(self.poly(P(g.n), env))
                for i in range(max(0, n)):
                    b = g.at(P(i))
                    if g.flat:
                        out += list(self.val(b, env))
                    else:
                        out.append(self.poly(b, env) if isinstance(b, Poly) else self.val(b, env))
            return tuple(out)
        if isinstance(x, V.Gate):
            for c, v in x.alts:
                if self.cond(c, env):
                    return self.val(v, env) if not isinstance(v, Poly) else self.poly(v, env)
            return None
        if isinstance(x, V.Struct):
            return (str(x.ty), x.variant, tuple((n, self.poly(v, env) if isinstance(v, Poly) else self.val(v, env)) for n, v in x.fields))
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, Cond):
            return self.cond(x, env)
        if isinstance(x, (tuple, list)):
            return tuple(self.val(y, env) for y in x)
        return repr(x)

    def cond(self, c, env):
        k = c.kind
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'le':
            return self.poly(c.args[0], env) <= 0
        if k == 'eq':
            return self.poly(c.args[0], env) == 0
        if k == 'b':
            return bool(self.atom(c.args[0], env))
        if k == 'not':
            return not self.cond(c.args[0], env)
        if k == 'and':
            return all(self.cond(x, env) for x in c.args)
        if k == 'or':
            return any(self.cond(x, env) for x in c.args)
        if k == 'all':
            n = self.cnt(self.poly(c.args[0], env))
            e2 = dict(env)
            r = self.root(c.args[1].args[0], c.h, e2) if n > 40 and c.args[1].kind == 'not' else None
            for i in range(max(0, n)) if r is None else [x for x in r if 0 <= x < n]:
                e2[c.h] = i
                if not self.cond(c.args[1], e2):
                    return False
            return True
        raise Limit('cond ' + k)

    # ------------------------------------------------------------ repair
    def fix(self, c, env, rnd, want=True):
        """change one symbol so that c becomes `want` (best effort)"""
        k = c.kind
        if k in 'TF':
            return (k == 'T') == want
        if self.cond(c, env) == want:
            return True
        if k == 'not':
            return self.fix(c.args[0], env, rnd, not want)
        if k in ('and', 'or'):
            xs = list(c.args)
            rnd.shuffle(xs)
            if (k == 'and') == want:
                ok = True
                for x in sorted(xs, key=lambda x: x.kind not in ('eq', 'le')):
                    ok = self.fix(x, env, rnd, want) and ok
                return ok
            for x in xs:
                if self.fix(x, env, rnd, want):
                    return True
            return False
        if k == 'all':
            n = self.cnt(self.poly(c.args[0], env))
            e2 = dict(env)
            if want:
                for i in range(max(0, n)):
                    e2[c.h] = i
                    self.fix(c.args[1], e2, rnd, True)
                return self.cond(c, env)
            if n <= 0:
                if not self.fix(T.mk_leq(1, c.args[0]), env, rnd, True):
                    return False
                n = self.cnt(self.poly(c.args[0], env))
                if n <= 0:
                    return False
            e2[c.h] = rnd.randrange(n)
            return self.fix(c.args[1], e2, rnd, False)
        if k == 'b':
            a = c.args[0]
            if a.kind == 'app' and a.args[0] == 'r1bit':
                # one bit of a field element: change that bit
                self.touched = {}
                v = self.poly(P(a.args[1]), env)
                t, self.touched = self.touched, None
                k = self.poly(P(a.args[2]), env)
                keys = [x for x in t if not t[x]]
                if k >= 0 and len(keys) == 1 and v == int(v):
                    v = int(v) | 1 << int(k) if want else int(v) & ~(1 << int(k))
                    if v < self.p:
                        self.set(keys[0], v)
                        if self.cond(c, env) == want:
                            return True
            if a.kind != 'sym':
                return self.vary(c, env, rnd, want)
            self.touched = {}
            self.atom(a, env)
            t, self.touched = self.touched, None
            self.set(list(t)[-1], 1 if want else 0)
            return self.cond(c, env) == want
        p = c.args[0]
        self.touched = {}
        v = self.poly(p, env)
        t, self.touched = self.touched, None
        keys = [x for x in t if x[0] != 'LIMBS']
        rnd.shuffle(keys)
        if p.isint:
            keys = [x for x in keys if t[x]]
        if env:     # a condition about one element of many: change what belongs to that element
            keys.sort(key=lambda x: not x[1])
        for key in keys[:40]:
            old = self.over.get(key)
            isint = t[key]
            xs, vs = (0, 1, 2) if isint else (1, 2, 3), []       # generic elements are not zero
            try:
                for x in xs:
                    self.set(key, x)
                    vs.append(self.poly(p, env))
                A = vs[1] - vs[0]
                if not p.isint:
                    A %= self.p
                if A != 0 and (vs[2] - vs[1] - A == 0 if p.isint else (vs[2] - vs[1] - A) % self.p == 0):
                    if p.isint:
                        root = xs[0] + Fraction(-vs[0]) / A
                        if k == 'eq' and want:
                            cand = [root] if root.denominator == 1 else []
                        elif k == 'eq':
                            cand = [root + 1, root - 1]
                        else:   # le
                            s = 1 if (A > 0) == want else -1
                            b = root.numerator // root.denominator if s == 1 else -((-root.numerator) // root.denominator)
                            ds = rnd.choice(((0, 1, 2), (0, 1, 2), (1, 0, 3), (7, 2, 1, 0), (40, 5, 1, 0), (300, 40, 3, 0)))
                            cand = [b - s * d for d in ds] if want else [b - s * d for d in (-1,) + ds[::-1]]
                        for x in cand:
                            x = int(x)
                            if x < 0:
                                continue
                            self.set(key, x)
                            if self.cond(c, env) == want and self.in_range(key, x):
                                return True
                    elif not isint and k == 'eq' and want:
                        x = (xs[0] - vs[0] * pow(int(A), -1, self.p)) % self.p
                        self.set(key, x)
                        if self.cond(c, env) == want and not (x == 0 and key in self.nzkeys()):
                            return True
            except (NoModel, Limit, ZeroDivisionError):
                pass
            if old is None:
                self.over.pop(key, None)
                self.memo = {}
            else:
                self.set(key, old)
        return self.vary(c, env, rnd, want)

    def nzkeys(self):
        return [k for k in self.over if SYM_INFO.get(k[0], {}).get('nz')]

    def in_range(self, key, x):
        inf = SYM_INFO.get(key[0])
        if not inf or not inf['rng']:
            return True
        try:
            lo, hi = inf['rng'](tuple(P(i) for i in key[1]))
            return (lo is None or self.poly(P(lo), {}) <= x) and (hi is None or x <= self.poly(P(hi), {}))
        except Exception:
            return True

    def vary(self, c, env, rnd, want):
        self.touched = {}
        try:
            self.cond(c, env)
        finally:
            t, self.touched = self.touched, None
        keys = [k for k in t if k[0] != 'LIMBS']
        if not keys:
            return False
        for _ in range(6):
            key = rnd.choice(keys)
            old = self.over.get(key)
            x = rnd.choice((0, 1, 2, 3, 4, 8, 16, 255, 256)) if t[key] else rnd.choice((0, 1, rnd.randrange(self.p)))
            if not self.in_range(key, x):
                continue
            self.set(key, x)
            try:
                if self.cond(c, env) == want:
                    return True
            except (NoModel, Limit):
                pass
            if old is None:
                self.over.pop(key, None)
                self.memo = {}
            else:
                self.set(key, old)
        return False


def harvest(x, binders, conds, consts, seen):
    """the conditions that guard parts of a term (with the bound variables around them) and small constants"""
    if len(conds) > 400:
        return
    if isinstance(x, Poly):
        if x in seen:
            return
        seen.add(x)
        for m, c in x.terms.items():
            for a, e in m:
                harvest(a, binders, conds, consts, seen)
                if isinstance(e, Poly):
                    harvest(e, binders, conds, consts, seen)
    elif isinstance(x, Cond):
        k = x.kind
        if k in 'TF':
            return
        if k == 'all':
            harvest(x.args[0], binders, conds, consts, seen)
            harvest(x.args[1], binders + ((x.h, x.args[0]),), conds, consts, seen)
        elif k in ('and', 'or', 'not'):
            for y in x.args:
                harvest(y, binders, conds, consts, seen)
        else:
            conds.append((x, binders))
            if k in ('eq', 'le'):
                p = x.args[0]
                for m, c in p.terms.items():
                    if not m and c == int(c) and 0 < abs(c) < 3000:
                        consts.add(abs(int(c)))
                harvest(p, binders, conds, consts, seen)
            elif isinstance(x.args[0], T.Atom):
                harvest(x.args[0], binders, conds, consts, seen)
    elif isinstance(x, T.Atom):
        k = x.kind
        if k == 'ind':
            harvest(x.args[0], binders, conds, consts, seen)
        elif k == 'sum':
            his, b = x.args
            lvl = x.h - len(his) + 1
            for h in his:
                harvest(h, binders, conds, consts, seen)
                binders = binders + ((lvl, h),)
                lvl += 1
            harvest(b, binders, conds, consts, seen)
        elif k == 'fl':
            if x.args[1] <= 8:
                consts.add(1 << x.args[1])
                if binders:
                    conds.append((T.mk_leq(1 << x.args[1], x.args[0]), binders))
            harvest(P(x.args[0]), binders, conds, consts, seen)
        elif k in ('prod', 'first'):
            hi, b = x.args
            if hi is not None:
                harvest(hi, binders, conds, consts, seen)
            harvest(b, binders + ((x.h, hi),), conds, consts, seen)
        else:
            for y in x.args:
                if isinstance(y, (Poly, Cond, T.Atom)):
                    harvest(y, binders, conds, consts, seen)


def guide(m, hints, rnd):
    """give one or two of the guarding conditions a chosen truth value"""
    for c, binders in rnd.sample(hints, min(len(hints), rnd.choice((1, 1, 2)))):
        env = {}
        for h, hi in binders:
            n = 40 if hi is None else m.cnt(m.poly(hi, env))
            if n <= 0 and hi is not None:
                m.fix(T.mk_leq(rnd.choice((1, 2, 3)), hi), dict(env), rnd)
                n = m.cnt(m.poly(hi, env))
            if n <= 0:
                return
            env[h] = rnd.choice((0, n - 1, rnd.randrange(n)))
        now = m.cond(c, env)
        if binders and rnd.random() < 0.6 and stretch(m, c, binders, env, rnd, now):
            continue
        m.fix(c, env, rnd, not now)


def stretch(m, c, binders, env, rnd, now):
    """flip a condition by moving a bound variable, extending its range when needed"""
    h, hi = rnd.choice(binders)
    e = dict(env)
    for v in sorted({x for x in m.near} | set(range(6))):
        if v == env[h] or v < 0:
            continue
        e[h] = v
        if m.cond(c, e) != now:
            return hi is None or m.fix(T.mk_lt(P(v), hi), dict(env), rnd)
    return False


def find_model(facts, goal, tries=60, seed=1, limbs=(1, 2, 1, 4), terms=()):
    """an interpretation satisfying all `facts` and `goal` (conditions), or None.
    goal may be a Cond or a callable model -> bool; terms: what a callable goal looks at"""
    conds = list(facts)
    hints, consts = [], set()
    for x in terms if not isinstance(goal, Cond) else (goal,):
        harvest(x, (), hints, consts, set())
    for c in conds:
        harvest(c, (), [], consts, set())
    consts = sorted({x + d for x in consts for d in (-1, 0, 1)})
    c = FIELD['limbs'].cval()
    if c is not None:
        limbs = (int(c),)
    elif any('LIMBS' in c.names for c, _ in hints):
        limbs = limbs * 2 + (1, 8, 1, 15)
    if isinstance(goal, Cond):
        conds += goal.args if goal.kind == 'and' else (goal,)
    end = time.process_time() + SEARCH_TIME
    for t in range(tries):
        if time.process_time() > end:
            break
        rnd = random.Random(seed * 1000 + t)
        m = Model((seed, t), limbs[t % len(limbs)], mode=t % 3 == 2)
        m.near = consts
        if t % 4 == 3:
            m.consts = consts
        try:
            bad, stuck = None, 0
            for r in range(25):
                if hints and t % 2 == 1 and r % 6 == 0:
                    m.steps = 0
                    guide(m, hints, rnd)
                was = bad
                bad = [c for c in conds if not m.cond(c, {})]
                if not bad:
                    break
                if len(bad) == 1 and bad == was:
                    stuck += 1
                    if stuck > 3:
                        raise NoModel('stuck')
                rnd.shuffle(bad)
                # sizes before the equations over elements of that many entries
                for c in sorted(bad, key=lambda c: (c.kind == 'eq' and not c.args[0].isint, c.kind not in ('eq', 'all'))):
                    m.fix(c, {}, rnd)
            else:
                if TRACE is not None:
                    TRACE.append((t, m.over.get(('N', ())), 'facts', [repr(c)[:60] for c in conds if not m.cond(c, {})][:3]))
                continue
            m.steps = 0
            if isinstance(goal, Cond) or goal(m):
                return m
        except (NoModel, Limit, OverflowError, ZeroDivisionError, MemoryError) as x:
            if TRACE is not None:
                TRACE.append((t, m.over.get(('N', ())), type(x).__name__))
            continue
    return None


TRACE = None
SEARCH_TIME = 20      # seconds of processor time for one search


def differ(a, b, facts, **kw):
    """a model in which the polynomials a and b differ"""
    a, b = P(a), P(b)
    return find_model(facts, lambda m: m.poly(a, {}) != m.poly(b, {}), terms=(a, b), **kw)


def describe(m, limit=24):
    """the overridden and small-integer part of a model, for reports"""
    r = []
    for (n, ix), v in sorted(m.over.items(), key=lambda x: (x[0][0], repr(x[0][1]))):
        s = str(v) if isinstance(v, int) and abs(v) < 10 ** 6 else hex(v)[:14] + '…' if isinstance(v, int) else str(v)
        r.append('%s%s=%s' % (n, list(ix) if ix else '', s))
    return ', '.join(r[:limit]) + (' …' if len(r) > limit else '')
