"""Random interpretation of value graphs.

When two value graphs do not have the same normal form this module looks for a
valuation of their free symbols under which they differ.  The graphs are the
objects the dataflow analysis produced from the source; no program code runs.
A difference of normal forms is reported only if such a valuation exists.
"""
import random
from fractions import Fraction
from math import floor, ceil
from .terms import T, is_num


class Bot(object):
    """undefined value: kind in 'oob' (element outside a sequence), 'div'
    (division by zero), 'unk' (not modelled), 'lim' (evaluation limit), 'new'
    (allocated memory read before it is written)"""
    __slots__ = ('kind',)

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return '<%s>' % self.kind


OOB, DIV, UNK, LIM, NEW = Bot('oob'), Bot('div'), Bot('unk'), Bot('lim'), Bot('new')
PRI = {'lim': 4, 'unk': 3, 'div': 2, 'new': 1, 'oob': 0}
PINF, MINF = float('inf'), float('-inf')


def worst(*xs):
    b = None
    for x in xs:
        if isinstance(x, Bot) and (b is None or PRI[x.kind] > PRI[b.kind]):
            b = x
    return b


class MapV(object):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def key(self):
        return ('M', tuple(sorted(((repr(k), freeze(v)) for k, v in self.d.items()))))

    def __repr__(self):
        return '{' + ', '.join('%s: %s' % (show(k), show(v)) for k, v in sorted(self.d.items(), key=lambda kv: repr(kv[0]))) + '}'


class SetV(object):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = frozenset(d)

    def key(self):
        return ('S', tuple(sorted(repr(x) for x in self.d)))

    def __repr__(self):
        return '{' + ', '.join(show(k) for k in sorted(self.d, key=repr)) + '}'


class FunV(object):
    __slots__ = ('f', 'fkey')

    def __init__(self, f, fkey=None):
        self.f = f
        self.fkey = fkey


def freeze(v):
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, (MapV, SetV)):
        return v.key()
    if isinstance(v, Bot):
        return '<%s>' % v.kind
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if isinstance(v, (int, Fraction)):
        return str(Fraction(v))
    if isinstance(v, float):
        return str(v)
    if isinstance(v, FunV):
        return ('fun', v.fkey if v.fkey is not None else id(v))
    return v


def show(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, Fraction):
        return str(v.numerator) if v.denominator == 1 else '%d/%d' % (v.numerator, v.denominator)
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x) for x in v) + ')'
    return str(v)


class Limit(Exception):
    pass


def hashnum(*xs):
    import hashlib
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big')


class Valuation(object):
    """values of free symbols, drawn on demand from a seeded generator"""

    def __init__(self, seed, consts=(), strs=(), style=0, maxlen=4):
        self.rng = random.Random(seed)
        self.seed = seed
        self.consts = list(consts)
        self.strs = list(strs)
        self.style = style
        self.maxlen = maxlen
        self.vals = {}
        self.nonneg = ()
        self.steps = 0
        self.len = self.rng.randint(0, maxlen) if self.rng.random() < 0.6 else None
        cs = [c for c in self.consts if c != 0]
        self.unit = self.rng.choice(cs) / 2 if cs else Fraction(1, 2)
        self.odd = [abs(c) for c in cs if abs(c) < Fraction(1, 8) or abs(c) > 64]
        self.base = Fraction(self.rng.choice((0, 0, 1)))
        # nearly full tables over few keys and mostly one sign: inputs that fit together
        self.fit = style == 7 and seed % 8 == 0
        self.sign = -1 if seed // 8 % 2 else 1
        # inputs as large as the sizes the graphs mention
        ls = [abs(int(c)) for c in cs if c == int(c) and 4 <= abs(c) <= 40]
        self.large = self.rng.choice(ls) if ls and style == 7 and seed % 16 == 12 else None
        # all lists of one length, in a quarter of the valuations with small pools
        self.len7 = seed // 16 % 3 + 4 if seed % 16 == 4 else seed // 8 % 5 + 1 if seed % 8 == 2 else None

    def universe(self, sort):
        u = getattr(self, '_u', None)
        if u is None:
            u = self._u = {}
        r = u.get(sort)
        if r is None:
            r = u[sort] = self._universe(sort)
        return r

    def _universe(self, sort):
        if self.large and sort == 'i':
            return [Fraction(i) for i in range(self.large + 2)]
        if self.large and sort == 's':
            return ['a', 'b'] + ['c%d' % i for i in range(self.large)]
        if self.fit and sort == 'i':
            return [Fraction(0), Fraction(1), Fraction(2)]
        if self.fit and sort == 's':
            return ['a', 'b']
        if self.style == 7:
            if sort == 'i':
                return [Fraction(i) for i in ((0, 1, 2, 3, 4) if self.seed % 3 else (-1, 0, 1, 2, 3))]
            if sort == 's':
                return ['a', 'b'] + self.strs[:2]
        if sort == 'n':
            return [Fraction(i) for i in range(0, 9)]
        if sort == 'i':
            return [Fraction(i) for i in range(-2, 9)]
        if sort == 'b':
            return [False, True]
        if sort == 's':
            return ['a', 'b', 'bc', '', 'c', 'ab'] + self.strs[:2]
        if sort == 'r':
            return [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2)]
        if isinstance(sort, tuple) and sort[0] == 'rec':
            out = [()]
            for _, s in sort[2]:
                out = [o + (x,) for o in out for x in self.universe(s)]
                if len(out) > 200:
                    out = out[:200]
            return out
        return [('u', i) for i in range(3)]

    def draw(self, sort, name, depth=0):
        r = self.rng
        if self.style == 7:
            # small pools, so that independently drawn inputs often refer to each other
            if self.large:
                if sort == 'n' and r.random() < 0.8:
                    return Fraction(self.large + r.randint(-1, 2))
                if isinstance(sort, tuple) and depth == 0:
                    if sort[0] == 'v':
                        return tuple(self.draw(sort[1], name, 1) for _ in range(self.large + r.randint(-1, 2)))
                    if sort[0] == 'm':
                        u = self.universe(sort[1])
                        return MapV({kk: self.draw(sort[2], name, 1) for kk in r.sample(u, max(0, len(u) - r.choice((0, 0, 1, 2))))})
                    if sort[0] == 'set':
                        u = self.universe(sort[1])
                        return SetV(r.sample(u, max(0, len(u) - r.choice((0, 0, 1, 2)))))
            if self.fit:
                if sort == 'n':
                    return Fraction(r.randint(3, 5))
                if sort == 'i':
                    return Fraction(r.randint(0, 2))
                if sort == 's':
                    return r.choice(('a', 'b'))
                if sort == 'r':
                    return Fraction(r.choice((1, 2, 3, 5)), r.choice((1, 1, 2))) * (self.sign if r.random() < 0.9 else -self.sign)
                if isinstance(sort, tuple) and sort[0] == 'm':
                    u = self.universe(sort[1])
                    return MapV({kk: self.draw(sort[2], name, depth + 1) for kk in r.sample(u, max(0, len(u) - r.choice((0, 0, 0, 1, 1, 2))))})
            if sort == 'n':
                return Fraction(r.choice((1, 2, 3, 4, 4, 4, 5) if self.seed % 16 != 4 else (2, 3, 5, 5, 6)))
            if sort == 'i' and r.random() < 0.9:
                return Fraction(r.randint(0, 4))
            if sort == 's':
                return r.choice(('a', 'a', 'b')) if r.random() < 0.95 else r.choice(self.universe('s'))
            if sort == 'r' and self.seed % 16 == 4:
                # one large value among small ones
                return Fraction(r.choice((1, 1, 2, 3, 64)), r.choice((1, 1, 2)))
            if sort == 'r':
                x = Fraction(r.choice((1, 2, 3, 1, -1, -2, 4, 0)), r.choice((1, 1, 2)))
                if self.odd and r.random() < 0.15:
                    x *= r.choice(self.odd) / 2
                return x
            if isinstance(sort, tuple):
                if sort[0] == 'v':
                    return tuple(self.draw(sort[1], name, depth + 1) for _ in range(r.choice((0, 1, 1, 2, 3)) if depth or self.len7 is None or sort[1] != 'r' else self.len7))
                if sort[0] == 'm':
                    u = self.universe(sort[1])
                    return MapV({kk: self.draw(sort[2], name, depth + 1) for kk in r.sample(u, min(len(u), r.choice((0, 1, 1, 2, 2, 3))))})
                if sort[0] == 'set':
                    u = self.universe(sort[1])
                    return SetV(r.sample(u, min(len(u), r.choice((0, 0, 1, 1, 2)))))
        if sort == 'n':
            if self.consts and r.random() < 0.05:
                c = r.choice(self.consts)
                c = Fraction(int(c)) + r.choice((-1, 0, 1))
                if 0 <= c < 60:
                    return c
            return Fraction(r.randint(0, self.maxlen if self.style != 1 else 2))
        if sort == 'i':
            if self.consts and r.random() < 0.1:
                c = r.choice(self.consts)
                return Fraction(int(c)) + r.choice((-1, 0, 1))
            if self.style == 2:
                return Fraction(r.randint(-2, 5))
            return Fraction(r.randint(0, 4)) if r.random() < 0.85 else Fraction(r.randint(-3, 6))
        if sort == 'r':
            x = r.random()
            if self.consts and self.style < 5 and x < (0.12 if self.style != 3 else 0.45):
                c = r.choice(self.consts)
                y = r.random()
                return c if y < 0.25 else c * 2 if y < 0.45 else c / 2 if y < 0.65 else -c if y < 0.7 else c + Fraction(r.randint(-20, 20), 16)
            if self.style == 5:
                return self.base + self.unit * r.randint(-1, 4)
            if self.style == 6:
                return Fraction(r.randint(0, 4), r.choice((1, 2, 4)))
            if self.style == 4:
                return Fraction(r.randint(1, 40), r.choice((1, 2, 3, 4)))
            if x < 0.3 or self.style == 1:
                return Fraction(r.choice((0, 0, 1, -1, 2, -2, 1)))
            return Fraction(r.randint(-16, 32), r.choice((1, 2, 4, 3)))
        if sort == 'b':
            return r.random() < (0.88 if name.startswith('alloc') else 0.5)     # requests for memory seldom fail
        if sort == 's':
            return r.choice(self.universe('s'))
        if isinstance(sort, tuple):
            k = sort[0]
            if k == 'v':
                n = self.len if self.len is not None and depth == 0 else r.randint(0, self.maxlen if depth == 0 else 3)
                return tuple(self.draw(sort[1], name, depth + 1) for _ in range(n))
            if k == 'm':
                u = self.universe(sort[1])
                n = r.randint(0, min(len(u), 4))
                ks = r.sample(u, n)
                return MapV({kk: self.draw(sort[2], name, depth + 1) for kk in ks})
            if k == 'set':
                u = self.universe(sort[1])
                u = [x for x in u if not is_neg(x)] if r.random() < 0.8 else u
                return SetV(r.sample(u, r.randint(0, min(len(u), 4))))
            if k == 'rec':
                return tuple(self.draw(s, name, depth) for _, s in sort[2])
            if k == 'fun':
                return FunV(None)
            return ('u', name, r.randint(0, 2))
        return ('u', name, r.randint(0, 2))

    def get(self, t):
        v = self.vals.get(t)
        if v is None:
            v = self.draw(t.sort, t.a[0])
            if t.a[0] in self.nonneg:
                v = absolute(v, self.scale(t.a[0]))
            self.vals[t] = v
        return v

    def scale(self, name):
        """unit of the values called name: 1, or near a constant of the graphs"""
        if self.style != 7:
            return 1
        r = random.Random(hashnum(self.seed, 'scale', name))
        cs = sorted(c for c in self.consts if 0 < c < 10 ** 20)
        if not cs or r.random() < 0.5:
            return 1
        return r.choice(cs) / r.choice((1, 2, 4))

    def from_hash(self, sort, key):
        """value of an uninterpreted function application"""
        h = hashnum(self.seed, sort, key)
        r = random.Random(h)
        keep = self.rng
        self.rng = r
        try:
            return self.draw(sort, 'f%d' % (h % 1000))
        finally:
            self.rng = keep


def absolute(v, scale=1):
    """v without its minus signs (values of a map, not its keys)"""
    if isinstance(v, (Fraction, float)):
        return abs(v) * scale
    if isinstance(v, tuple):
        return tuple(absolute(x, scale) for x in v)
    if isinstance(v, MapV):
        return MapV({k: absolute(x, scale) for k, x in v.d.items()})
    return v


def is_neg(x):
    return isinstance(x, Fraction) and x < 0


_bvs = {}


def free_bvs(t):
    """indices of bound variables free in t"""
    r = _bvs.get(t)
    if r is not None:
        return r
    if t.h == 0:
        r = ()
    elif t.op == 'bv':
        r = (t.a[0],)
    else:
        acc = set()
        own = ()
        stack = [t.a]
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                acc.update(free_bvs(x))
            elif isinstance(x, tuple):
                stack.extend(x)
        if t.op in BINDERS:
            own = [v.a[0] for v in t.a[1]]
            # the binder's own variables are numbered above everything inside
            acc.difference_update(own)
        r = tuple(sorted(acc))
    _bvs[t] = r
    return r


BINDERS = ('sum', 'ex', 'first', 'last', 'maxr', 'minr', 'arr', 'flat', 'seg', 'map', 'set', 'lam', 'fold')


class Evaluator(object):
    def __init__(self, val, limit=60000, interp_fn=None):
        self.val = val
        self.memo = {}
        self.steps = 0
        self.limit = limit
        self.interp_fn = interp_fn or {}
        self.gatecount = 0
        self.shrink = {}            # size thresholds lowered to within reach of small inputs
        self.rounded = False        # some value was cut to 300 binary places

    def ev(self, t, env=None):
        env = env or {}
        return self._ev(t, env)

    def _ev(self, t, env):
        fb = free_bvs(t)
        key = (t,) + tuple(env.get(i) for i in fb) if fb else t
        try:
            r = self.memo.get(key)
            hashable = True
        except TypeError:
            r = None
            hashable = False
        if r is not None:
            return r
        self.steps += 1
        if self.steps > self.limit:
            raise Limit()
        m = getattr(self, 'o_' + OPN.get(t.op, t.op), None)
        if m is None:
            r = UNK
        else:
            r = m(t, env)
        if hashable:
            self.memo[key] = r
        return r

    # ---- leaves
    def o_sym(self, t, env):
        return self.val.get(t)

    def o_bv(self, t, env):
        return env.get(t.a[0], UNK)

    def o_unk(self, t, env):
        return NEW if t.a[0].split('.')[0] == 'malloc' else UNK

    def o_true(self, t, env):
        return True

    def o_false(self, t, env):
        return False

    def o_null(self, t, env):
        return ('null',)

    def o_inf(self, t, env):
        return PINF if t.a[0] > 0 else MINF

    def o_str(self, t, env):
        return t.a[0]

    def o_poly(self, t, env):
        tot = Fraction(0)
        bad = None
        for m, c in t.a:
            p = c
            for x, e in m:
                v = self._ev(x, env)
                if isinstance(v, Bot):
                    # an element that is not there, zero times
                    if v.kind != 'oob' or not any(y is not x and self._ev(y, env) == 0 for y, _ in m):
                        bad = worst(bad, v)
                    p = None
                    break
                if isinstance(v, bool):
                    v = Fraction(int(v))
                if not isinstance(v, (Fraction, int, float)):
                    return UNK
                if e < 0:
                    if v == 0:
                        bad = worst(bad, DIV)
                        p = None
                        break
                    if isinstance(v, float):
                        p = p * 0 if not isinstance(p, float) else UNK
                        if p is UNK:
                            return UNK
                        continue
                    p = p * v ** e
                else:
                    if isinstance(v, float) or isinstance(p, float):
                        if v == 0 or p == 0:
                            bad = worst(bad, DIV)
                            p = None
                            break
                        p = float(p) * float(v) ** e
                    else:
                        p = p * v ** e
            if p is None:
                continue
            if isinstance(p, float) or isinstance(tot, float):
                s = float(tot) + float(p)
                if s != s:
                    bad = worst(bad, DIV)
                    continue
                tot = s
            else:
                tot += p
                if abs(tot.numerator) > 10**500 or tot.denominator > 10**500:
                    raise Limit()
        return bad if bad is not None else tot

    def o_inv(self, t, env):
        v = self._ev(t.a[0], env)
        if isinstance(v, Bot):
            return v
        if v == 0:
            return DIV
        if isinstance(v, float):
            return Fraction(0)
        return 1 / Fraction(v)

    def o_mulx(self, t, env):
        a, b = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(a, b)
        if w is not None:
            return w
        if (a == 0 or b == 0) and (isinstance(a, float) or isinstance(b, float)):
            return DIV
        if isinstance(a, float) or isinstance(b, float):
            return float(a) * float(b)
        return a * b

    def o_idiv(self, t, env):
        a, b = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(a, b)
        if w is not None:
            return w
        if b == 0:
            return DIV
        q = Fraction(a) / b
        return Fraction(floor(q) if q >= 0 else ceil(q))

    def o_imod(self, t, env):
        a, b = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(a, b)
        if w is not None:
            return w
        if b == 0:
            return DIV
        q = Fraction(a) / b
        return a - b * (floor(q) if q >= 0 else ceil(q))

    # ---- gates
    def o_ite(self, t, env):
        # iterative along the chain
        g = self._ev(t.a[0], env)
        if isinstance(g, Bot):
            a = self._ev(t.a[1], env)
            b = self._ev(t.a[2], env)
            if freeze(a) == freeze(b):
                return a
            return g
        return self._ev(t.a[1] if g else t.a[2], env)

    def o_le(self, t, env):
        v = self._ev(t.a[0], env)
        return (UNK if v is DIV else v) if isinstance(v, Bot) else v <= self.shrink.get(t.a[1], t.a[1])

    def o_lt(self, t, env):
        v = self._ev(t.a[0], env)
        return (UNK if v is DIV else v) if isinstance(v, Bot) else v < t.a[1]

    def o_negq(self, t, env):
        v = self._ev(t.a[0], env)
        if isinstance(v, Bot):
            return UNK if v is DIV else v
        if not isinstance(v, (Fraction, int, float)):
            return UNK
        return v < 0 if t.a[1] else v <= 0

    def o_eq(self, t, env):
        a, b = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(a, b)
        if w is not None:
            return UNK if w is DIV else w
        return freeze(a) == freeze(b)

    def o_slt(self, t, env):
        a, b = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(a, b)
        if w is not None:
            return w
        return lessv(a, b)

    def o_isnull(self, t, env):
        v = self._ev(t.a[0], env)
        if isinstance(v, Bot):
            return v
        if v == ('null',):
            return True
        return bool(isinstance(v, tuple) and len(v) == 3 and v[0] == 'u' and v[2] == 0)

    # ---- records
    def o_rec(self, t, env):
        return tuple(self._ev(x, env) for x in t.a[1:])

    def o_fld(self, t, env):
        x, f = t.a
        v = self._ev(x, env)
        if isinstance(v, Bot):
            return v
        for i, (n, s) in enumerate(x.sort[2]):
            if n == f:
                return v[i]
        return UNK

    # ---- sequences
    def num(self, v):
        return v

    def o_arr(self, t, env):
        (n,), (b,), (body,) = t.a
        if body is None:
            return ()
        k = self._ev(n, env)
        if isinstance(k, Bot):
            return k
        if isinstance(k, float):
            return LIM
        if k > 400:
            return LIM
        out = []
        for i in range(max(0, int(k))):
            e2 = dict(env)
            e2[b.a[0]] = Fraction(i)
            out.append(self._ev(body, e2))
        return tuple(out)

    def o_cat(self, t, env):
        out = ()
        for x in t.a:
            v = self._ev(x, env)
            if isinstance(v, Bot):
                return v
            out += v
        return out

    def rng(self, r, env):
        if r[0] == 'n':
            k = self._ev(r[1], env)
            if isinstance(k, Bot):
                return k
            if k > 400:
                return LIM
            return [Fraction(i) for i in range(max(0, int(k)))]
        return sorted(self.val.universe(r[1]), key=ordkey)

    def o_flat(self, t, env):
        (r,), (b,), (body,) = t.a
        ks = self.rng(r, env)
        if isinstance(ks, Bot):
            return ks
        out = ()
        for k in ks:
            e2 = dict(env)
            e2[b.a[0]] = k
            v = self._ev(body, e2)
            if isinstance(v, Bot):
                return v
            out += v
        return out

    def o_seg(self, t, env):
        (r,), (b,), (ln, el) = t.a
        ks = self.rng(r, env)
        if isinstance(ks, Bot):
            return ks
        out = ()
        for k in ks:
            e2 = dict(env)
            e2[b.a[0]] = k
            n = self._ev(ln, e2)
            v = self._ev(el, e2)
            w = worst(n, v)
            if w is not None:
                return w
            n = int(n)
            out += tuple(v[:n]) + (OOB,) * (n - len(v))
        return out

    def o_at(self, t, env):
        v, i = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(v, i)
        if w is not None:
            return w
        if not isinstance(v, tuple):
            return UNK
        if i < 0 or i >= len(v) or i != int(i):
            return OOB
        return v[int(i)]

    def o_size(self, t, env):
        v = self._ev(t.a[0], env)
        if isinstance(v, Bot):
            return v
        if not isinstance(v, tuple):
            return UNK
        return Fraction(len(v))

    # ---- maps
    def o_map(self, t, env):
        _, (b,), (has, val) = t.a
        d = {}
        for k in self.val.universe(t.sort[1]):
            e2 = dict(env)
            e2[b.a[0]] = k
            h = self._ev(has, e2)
            if isinstance(h, Bot):
                return h
            if h:
                d[k] = self._ev(val, e2)
        return MapV(d)

    def o_set(self, t, env):
        _, (b,), (has,) = t.a
        d = []
        for k in self.val.universe(t.sort[1]):
            e2 = dict(env)
            e2[b.a[0]] = k
            h = self._ev(has, e2)
            if isinstance(h, Bot):
                return h
            if h:
                d.append(k)
        return SetV(d)

    def o_has(self, t, env):
        m, k = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(m, k)
        if w is not None:
            return w
        if worstin(k):
            return worstin(k)
        if not isinstance(m, (MapV, SetV)):
            return UNK
        return k in m.d

    def o_mat(self, t, env):
        m, k = self._ev(t.a[0], env), self._ev(t.a[1], env)
        w = worst(m, k)
        if w is not None:
            return w
        if worstin(k):
            return worstin(k)
        if not isinstance(m, MapV):
            return UNK
        if k not in m.d:
            return OOB
        return m.d[k]

    # ---- reductions
    def o_sum(self, t, env):
        (r,), (b,), (body,) = t.a
        ks = self.rng(r, env)
        if isinstance(ks, Bot):
            return ks
        tot = Fraction(0)
        bad = None
        for k in ks:
            e2 = dict(env)
            e2[b.a[0]] = k
            v = self._ev(body, e2)
            if isinstance(v, Bot):
                bad = worst(bad, v)
                continue
            tot = tot + v
        return bad if bad is not None else tot

    def o_ex(self, t, env):
        (r,), (b,), (body,) = t.a
        ks = self.rng(r, env)
        if isinstance(ks, Bot):
            return ks
        bad = None
        for k in ks:
            e2 = dict(env)
            e2[b.a[0]] = k
            v = self._ev(body, e2)
            if isinstance(v, Bot):
                bad = worst(bad, v)
            elif v:
                return True
        return bad if bad is not None else False

    def o_first(self, t, env):
        (r,), (b,), (body,) = t.a
        ks = self.rng(r, env)
        if isinstance(ks, Bot):
            return ks
        for k in ks:
            e2 = dict(env)
            e2[b.a[0]] = k
            v = self._ev(body, e2)
            if isinstance(v, Bot):
                return v
            if v:
                return k
        if r[0] == 'n':
            return Fraction(len(ks))
        return OOB

    def o_last(self, t, env):
        (r,), (b,), (g, val) = t.a
        ks = self.rng(r, env)
        if isinstance(ks, Bot):
            return ks
        for k in reversed(ks):
            e2 = dict(env)
            e2[b.a[0]] = k
            v = self._ev(g, e2)
            if isinstance(v, Bot):
                return v
            if v:
                return self._ev(val, e2)
        return OOB

    def o_maxr(self, t, env):
        (r, init), (b,), (body,) = t.a
        ks = self.rng(r, env)
        if isinstance(ks, Bot):
            return ks
        cur = None
        if init is not None:
            cur = self._ev(init, env)
            if isinstance(cur, Bot):
                return cur
        for k in ks:
            e2 = dict(env)
            e2[b.a[0]] = k
            v = self._ev(body, e2)
            if isinstance(v, Bot):
                return v
            if cur is None or (v > cur if t.op == 'maxr' else v < cur):
                cur = v
        return OOB if cur is None else cur

    o_minr = o_maxr

    # ---- functions
    def o_lam(self, t, env):
        _, bs, (body,) = t.a

        def f(*args):
            e2 = dict(env)
            for b, a in zip(bs, args):
                e2[b.a[0]] = a
            return self._ev(body, e2)
        return FunV(f, (t.id, tuple(freeze(env.get(i)) for i in free_bvs(t))))

    def apply(self, f, args, sort=None):
        if isinstance(f, Bot):
            return f
        if isinstance(f, MemoFun):
            return f(args)
        if isinstance(f, FunV) and f.f is not None:
            return f.f(*args)
        return UNK

    def o_app(self, t, env):
        f = self._ev(t.a[0], env)
        args = [self._ev(x, env) for x in t.a[1:]]
        w = worst(*args)
        if w is not None:
            return w
        return self.apply(f, args)

    def o_foldp(self, t, env):
        f, i = t.a
        res = self.fold(f, env)
        if isinstance(res, Bot):
            return res
        n, vals = res
        if i == -1:
            return Fraction(n)
        return vals[i]

    def fold(self, f, env):
        key = ('fold', f) + tuple(freeze(env.get(i)) for i in free_bvs(f))
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._fold(f, env)
        self.memo[key] = r
        return r

    def _fold(self, f, env):
        (kind, rng, inits, sorts), bvs, bodies = f.a
        tb = bvs[0].a[0]
        mus = [b.a[0] for b in bvs[1:]]
        cond, bods = bodies[0], bodies[1:]
        cur = []
        for x in inits:
            v = self._ev(x, env)
            cur.append(v)
        if rng is None:
            ks = None
        else:
            ks = self.rng(rng, env)
            if isinstance(ks, Bot):
                return ks
        n = 0
        while True:
            if ks is not None and n >= len(ks):
                break
            e2 = dict(env)
            e2[tb] = Fraction(n) if ks is None else ks[n]
            for m, v in zip(mus, cur):
                e2[m] = v
            if cond is not None:
                c = self._ev(cond, e2)
                if isinstance(c, Bot):
                    return c
                if not c:
                    break
            new = []
            for s, b in zip(sorts, bods):
                v = self._ev(b, e2)
                if isinstance(v, FunV) and v.f is not None:
                    v = MemoFun(v.f, (f.id, n, b.id, len(new)), self)
                new.append(v)
            cur = new
            n += 1
            if n > 5000:
                raise Limit()
        return n, cur

    def o_fold(self, t, env):
        return UNK

    def o_fn(self, t, env):
        name, args = t.a
        if name == 'oob':
            return OOB
        if name == 'undef':
            return UNK
        if name == 'seal':
            return self._ev(args[0], env)
        vs = [self._ev(x, env) for x in args]
        h = self.interp_fn.get(name)
        if h is not None:
            r = h(self, vs, t)
            if r is not NotImplemented:
                return r
        w = worst(*vs) if vs else None
        if w is not None:
            return w
        if name == 'trunc':
            return Fraction(floor(vs[0]) if vs[0] >= 0 else ceil(vs[0]))
        if isinstance(t.sort, tuple) and t.sort[0] == 'o':
            return ('f', name) + tuple(freeze(v) for v in vs)
        v = self.val.from_hash(t.sort, (name, tuple(freeze(v) for v in vs)))
        return absolute(v, self.val.scale(vs[0])) if name == 'elem' and vs[0] in self.val.nonneg else v

    # ---- locations as values (structural)
    def struct(self, t, env):
        out = [t.op]
        for x in t.a:
            if isinstance(x, T):
                v = self._ev(x, env)
                if isinstance(v, Bot):
                    return v
                out.append(freeze(v))
            else:
                out.append(x)
        return tuple(out)

    o_root = o_lf = o_li = o_lk = o_leloc = o_lv = o_lroot = o_fnptr = o_mit = o_mend = o_mbeg = o_mnext = struct

    def o_padd(self, t, env):
        v = self.struct(t, env)
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[1], tuple) and len(v[1]) == 3 and v[1][0] == 'padd':
            v = ('padd', v[1][1], str(Fraction(v[1][2]) + Fraction(v[2])))
        return v

    def o_exc(self, t, env):
        return ('exc', t.a[0])


OPN = {'neg?': 'negq', 'le_': 'leloc'}


HUGE = 1 << 300


class MemoFun(object):
    """tabulated loop-state function"""
    __slots__ = ('f', 'tab', 'key', 'ev')

    def __init__(self, f, key, ev):
        self.f = f
        self.tab = {}
        self.key = key
        self.ev = ev

    def __call__(self, args):
        k = tuple(freeze(a) for a in args)
        r = self.tab.get(k)
        if r is None:
            r = self.f(*args)
            if isinstance(r, Fraction) and r.denominator > HUGE:
                r = Fraction(round(r * HUGE), HUGE)
                self.ev.rounded = True
            self.tab[k] = r
        return r


def worstin(v):
    if isinstance(v, Bot):
        return v
    if isinstance(v, tuple):
        for x in v:
            w = worstin(x)
            if w is not None:
                return w
    return None


def ordkey(v):
    if isinstance(v, tuple):
        return (2,) + tuple(ordkey(x) for x in v)
    if isinstance(v, str):
        return (1, v)
    if isinstance(v, bool):
        return (0, int(v))
    return (0, v)


def lessv(a, b):
    return ordkey(a) < ordkey(b)


def compare(a, b, tol=None):
    """a: implementation, b: reference.  'same' | 'diff' | 'weak' (defined where
    the reference divides by zero) | 'open'"""
    if isinstance(a, Bot) or isinstance(b, Bot):
        ka = a.kind if isinstance(a, Bot) else 'ok'
        kb = b.kind if isinstance(b, Bot) else 'ok'
        if ka in ('unk', 'lim') or kb in ('unk', 'lim'):
            return 'open'
        if ka == kb:
            return 'same'
        if kb == 'new':
            return 'open'
        if 'div' in (ka, kb) and not (ka == 'div' and kb == 'ok'):
            return 'weak'
        return 'diff'
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return 'diff'
        res = 'same'
        for x, y in zip(a, b):
            r = compare(x, y, tol)
            if r == 'diff':
                return 'diff'
            if r != 'same':
                res = r if res != 'open' else res
        return res
    if isinstance(a, MapV) and isinstance(b, MapV):
        if set(a.d) != set(b.d):
            return 'diff'
        res = 'same'
        for k in a.d:
            r = compare(a.d[k], b.d[k], tol)
            if r == 'diff':
                return 'diff'
            if r != 'same':
                res = r
        return res
    if tol is not None and isinstance(a, Fraction) and isinstance(b, Fraction):
        return 'same' if abs(a - b) <= tol * max(abs(a), abs(b), tol) else 'diff'
    return 'same' if freeze(a) == freeze(b) else 'diff'


def thresholds(terms):
    """large integers that integers are only compared with: {threshold: stand-in}"""
    seen, st, gates, other = set(), list(terms), set(), set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'le' and x.a[0].sort in ('i', 'n') and x.a[1] >= 256:
                gates.add(x.a[1])
            elif x.op == 'poly':
                other.update(abs(c) for _, c in x.a if abs(c) >= 250)
            st.extend(x.a)
    return {k: Fraction(2) for k in gates if not any(abs(k - o) < 3 for o in other)}


def collect(t, consts, strs, syms, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('le', 'lt'):
                if x.a[1] != 0:
                    consts.add(x.a[1])
            elif x.op == 'poly':
                for m, c in x.a:
                    if m == () and abs(c) not in (0, 1):
                        consts.add(c)
            elif x.op == 'str':
                strs.add(x.a[0])
            elif x.op == 'sym':
                syms.add(x)
            st.extend(y for y in x.a if isinstance(y, (T, tuple)))
        elif isinstance(x, tuple):
            st.extend(x)
