"""Hash-consed value terms: gated values (decision diagrams over comparison
gates), polynomial/rational normal forms, lambda containers, reductions.

Every value the analysis computes is a term `T`.  Gated values are reduced
ordered decision diagrams (op 'ite') whose leaves are ungated terms, so two
computations have the same normal form iff they are the same T object.
"""
import sys
from fractions import Fraction
from math import gcd, floor, ceil

sys.setrecursionlimit(200000)


class T(object):
    __slots__ = ('op', 'a', 'sort', 'id', 'h', 'fs', 'unk', '_k')

    def __repr__(self):
        return show(self)


_tab = {}
_ctr = [0]
CUR = [None]        # source position being analysed
PROV = {}           # term id -> source position that first produced it
EMPTY = frozenset()


def _scan(x, acc):
    if isinstance(x, T):
        if x.h > acc[0]:
            acc[0] = x.h
        if x.fs:
            acc[1] = acc[1] | x.fs if acc[1] else x.fs
        if x.unk:
            acc[2] = True
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, acc)


def mk(op, a, sort):
    key = (op, a, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.sort = sort
    _ctr[0] += 1
    t.id = _ctr[0]
    acc = [0, EMPTY, False]
    _scan(a, acc)
    t.h, t.fs, t.unk = acc
    if op == 'bv':
        t.h = a[0]
    elif op == 'sym':
        t.fs = frozenset((t.id,))
    elif op == 'unk':
        t.unk = True
    t._k = None
    _tab[key] = t
    if CUR[0] is not None:
        PROV[t.id] = CUR[0]
    return t


# --------------------------------------------------------------------------
# sorts:  'i' int, 'n' non-negative int, 'r' real, 'b' bool, 's' string,
#         ('v',S) sequence, ('m',K,S) map, ('set',K), ('rec',tag,((f,S)..)),
#         ('p',typename) pointer, ('o',name) opaque, ('fun',nparams,S)
# --------------------------------------------------------------------------

def is_num(s):
    return s in ('i', 'n', 'r')


def sym(name, sort):
    return mk('sym', (name,), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return mk('sym', ('%s$%d' % (prefix, _fresh[0]),), sort)


def unk(why, sort='i'):
    _fresh[0] += 1
    t = mk('unk', (why, _fresh[0]), sort)
    return expand(t, sort)


TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')
NULL = mk('null', (), ('p', ''))
INF = mk('inf', (1,), 'r')
NINF = mk('inf', (-1,), 'r')


def isleaf(t):
    return t.op != 'ite'


# --------------------------------------------------------------------------
# Gates and decision diagrams
# --------------------------------------------------------------------------

def rank(atom):
    k = atom._k
    if k is None:
        if atom.op == 'le':
            k = (atom.a[0].id, atom.a[1], 1)
        elif atom.op == 'lt':
            k = (atom.a[0].id, atom.a[1], 0)
        else:
            k = (atom.id, 0, 0)
        atom._k = k
    return k


def family(atom):
    return atom.a[0] if atom.op in ('le', 'lt') else None


def cof(f, atom, val):
    """cofactor of f wrt atom, where atom ranks at or before every atom of f"""
    if f.op != 'ite':
        return f
    fa = f.a[0]
    if fa is atom:
        return f.a[1] if val else f.a[2]
    if val and atom.op in ('le', 'lt'):
        fam = atom.a[0]
        while f.op == 'ite' and f.a[0].op in ('le', 'lt') and f.a[0].a[0] is fam:
            f = f.a[1]
    return f


def lin_multiple(d, p, k):
    """is poly d == c*(p-k) for a constant c ?"""
    q = padd(p, pconst(-k))
    if d.op != 'poly' or not q.a or not d.a:
        return False
    if len(d.a) != len(q.a):
        return False
    r = None
    for (m1, c1), (m2, c2) in zip(d.a, q.a):
        if m1 != m2:
            return False
        x = c1 / c2
        if r is None:
            r = x
        elif r != x:
            return False
    return True


_node_cache = {}


def node(atom, hi, lo):
    if hi is lo:
        return hi
    key = (atom, hi, lo)
    r = _node_cache.get(key)
    if r is not None:
        return r
    r = _node(atom, hi, lo)
    _node_cache[key] = r
    return r


def _node(atom, hi, lo):
    if hi.op == 'rec' and lo.op == 'rec' and hi.sort == lo.sort:
        return mk('rec', (hi.a[0],) + tuple(node(atom, x, y) for x, y in zip(hi.a[1:], lo.a[1:])), hi.sort)
    # the element of an empty sequence: any value will do
    if _is_oob(hi):
        return lo
    if _is_oob(lo):
        return hi
    # canonical placement of the boundary point for continuous switches
    # (min / max / |x| written with < or <= are the same value)
    if atom.op in ('lt', 'le') and hi.op == 'poly':
        p, k = atom.a
        if atom.op == 'lt':
            nxt = mk('le', (p, k), 'b')
            kk = k
        elif p.sort == 'i':
            nxt = mk('le', (p, k + 1), 'b')
            kk = k + 1
        else:
            nxt = None
        if nxt is not None:
            if lo.op == 'ite' and lo.a[0] is nxt:
                e, rest = lo.a[1], lo.a[2]
            else:
                e, rest = lo, lo
            if e.op == 'poly' and e is not hi and lin_multiple(psub(e, hi), p, kk):
                if family_top(rest) is p and rest.a[0].a[1] == kk and rest.a[0].op == nxt.op:
                    pass
                else:
                    return node(nxt, hi, rest)
            if e is hi and rest is not e:
                # same value on the boundary: drop the finer gate
                return node(nxt, hi, rest)
    # no key satisfies phi: a map whose keys satisfy phi is empty anyway
    if atom.op == 'ex' and hi.op in ('map', 'set') and atom.a[0][0][0] in ('k', 'u') \
            and all(x is hi or x is default_of(hi.sort) for x in leaves(lo)):
        x = fresh('o', hi.a[1][0].sort)
        if atom.a[1][0].sort == x.sort:
            xv = expand(x, x.sort)
            if band(subst(hi.a[2][0], {hi.a[1][0]: xv}), bnot(subst(atom.a[2][0], {atom.a[1][0]: xv}))) is FALSE:
                return hi
    s = hi.sort if hi.sort == lo.sort else (
        'r' if is_num(hi.sort) and is_num(lo.sort) and 'r' in (hi.sort, lo.sort)
        else 'i' if is_num(hi.sort) and is_num(lo.sort) else hi.sort)
    if hi.op == 'null':
        s = lo.sort
    return mk('ite', (atom, hi, lo), s)


def _is_oob(x):
    if x.op == 'poly':
        if len(x.a) != 1 or len(x.a[0][0]) != 1 or x.a[0][1] != 1:
            return False
        x = x.a[0][0][0][0]
    return x.op == 'fn' and x.a[0] == 'oob'


def family_top(f):
    return f.a[0].a[0] if f.op == 'ite' and f.a[0].op in ('le', 'lt') else None


_ite_cache = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ite_cache.get(key)
    if r is not None:
        return r
    if a.op == 'rec' and b.op == 'rec' and a.sort == b.sort:
        r = mk('rec', (a.a[0],) + tuple(ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])), a.sort)
    else:
        at = c.a[0]
        for z in (a, b):
            if z.op == 'ite' and rank(z.a[0]) < rank(at):
                at = z.a[0]
        r = node(at, ite(cof(c, at, True), cof(a, at, True), cof(b, at, True)),
                 ite(cof(c, at, False), cof(a, at, False), cof(b, at, False)))
    _ite_cache[key] = r
    return r


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def bor(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def bxor(a, b):
    return ite(a, bnot(b), b)


def biff(a, b):
    return ite(a, b, bnot(b))


def batom(t):
    """boolean leaf term -> diagram"""
    if t in (TRUE, FALSE) or t.op == 'ite':
        return t
    return node(t, TRUE, FALSE)


_lift_cache = {}


def lift(name, fn, *args):
    """apply fn leafwise over gated arguments"""
    for x in args:
        if x.op == 'ite':
            break
    else:
        return fn(*args)
    key = (name, args)
    r = _lift_cache.get(key)
    if r is not None:
        return r
    at = None
    for x in args:
        if x.op == 'ite' and (at is None or rank(x.a[0]) < rank(at)):
            at = x.a[0]
    hi = lift(name, fn, *[cof(x, at, True) for x in args])
    lo = lift(name, fn, *[cof(x, at, False) for x in args])
    # results may contain arbitrary gates: combine with full ite
    r = ite(node(at, TRUE, FALSE), hi, lo)
    _lift_cache[key] = r
    return r


def atoms_of(f, acc=None):
    """all gates at the top of a gated value (looking into record fields)"""
    if acc is None:
        acc = {}
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            acc[x.a[0]] = True
            st.append(x.a[1])
            st.append(x.a[2])
        elif x.op == 'rec':
            st.extend(x.a[1:])
    return acc


def leaves(f):
    seen = set()
    st = [f]
    out = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.a[2])
            st.append(x.a[1])
        else:
            out.append(x)
    return out


def assign_atom(f, atom, val, _memo=None):
    """f with the gate `atom` fixed (atom anywhere in the diagram, records included)"""
    if _memo is None:
        _memo = {}
    if f in _memo:
        return _memo[f]
    if f.op == 'rec':
        r = mk('rec', (f.a[0],) + tuple(assign_atom(x, atom, val, _memo) for x in f.a[1:]), f.sort)
    elif f.op != 'ite':
        r = f
    else:
        b = f.a[0]
        v = implied(atom, val, b)
        if v is True:
            r = assign_atom(f.a[1], atom, val, _memo)
        elif v is False:
            r = assign_atom(f.a[2], atom, val, _memo)
        else:
            hi = assign_atom(f.a[1], atom, val, _memo)
            lo = assign_atom(f.a[2], atom, val, _memo)
            r = ite(node(b, TRUE, FALSE), hi, lo)
    _memo[f] = r
    return r


def implied(atom, val, b):
    """truth of gate b given gate atom == val (None if open)"""
    if atom is b:
        return val
    if atom.op in ('le', 'lt') and b.op in ('le', 'lt') and atom.a[0] is b.a[0]:
        ra = (atom.a[1], 0 if atom.op == 'lt' else 1)
        rb = (b.a[1], 0 if b.op == 'lt' else 1)
        if val and ra <= rb:
            return True
        if not val and rb <= ra:
            return False
    return None


def implied_eqs(g):
    """{atom: value} for integer atoms the boolean diagram g fixes in terms of others"""
    fams = {}
    for a in atoms_of(g):
        if a.op == 'le' and a.a[0].sort == 'i':
            fams.setdefault(a.a[0], set()).add(a.a[1])
    out = {}
    for q, ks in sorted(fams.items(), key=lambda x: x[0].id):
        for k in sorted(ks):
            if band(g, bnot(node(mk('le', (q, k), 'b'), TRUE, FALSE))) is FALSE and \
               band(g, _thr(q, k - 1, False, True)) is FALSE:
                best = None
                for m, c in q.a:
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                        x = m[0][0]
                        if best is None or x.id > best[0].id:
                            best = (x, c)
                if best is not None:
                    x, c = best
                    rest = psub(pconst(k), psub(q, pscale(pvar(x), c)))
                    v = pscale(rest, 1 / c)
                    if not any(y is x or x.fs and x in subterms_of(y) for mm, _ in v.a for y, _ in mm):
                        out[x] = v
                break
    return out


def subterms_of(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            st.extend(x.a)
    return seen


def assume(f, g):
    """simplify f using the unit consequences of boolean diagram g"""
    if g is TRUE or f.op not in ('ite', 'rec'):
        return f
    for atom in atoms_of(f):
        A = node(atom, TRUE, FALSE)
        if band(g, A) is FALSE:
            f = assign_atom(f, atom, False)
        elif band(g, bnot(A)) is FALSE:
            f = assign_atom(f, atom, True)
    for p in _totals(g):
        for atom in atoms_of(f):
            if atom.op != 'le' or atom.a[0].sort != 'i' or not _cancels(atom.a[0], p):
                continue
            q = psub(atom.a[0], pconst(atom.a[1]))
            if _lt0(padd(q, p), False) is FALSE:        # q >= q + p > 0
                f = assign_atom(f, atom, False)
            elif _lt0(psub(q, p), False) is TRUE:       # q <= q - p <= 0
                f = assign_atom(f, atom, True)
    return f


_TOTALS = {}


def _totals(g):
    """polynomials p with p <= 0 under g that mention the size of a component list"""
    r = _TOTALS.get(g)
    if r is None:
        r = []
        for at in atoms_of(g):
            if at.op != 'le' or not any(x.op == 'fn' and x.a[0] == 'sccstart' for m, _ in at.a[0].a for x, _ in m):
                continue
            A = node(at, TRUE, FALSE)
            q = psub(at.a[0], pconst(at.a[1]))
            if band(g, bnot(A)) is FALSE:
                r.append(q)
            elif band(g, A) is FALSE:
                r.append(psub(ONE, q))
        _TOTALS[g] = r
    return r


def _cancels(q, p):
    d = dict(p.a)
    return any(m != () and m in d for m, _ in q.a)


# --------------------------------------------------------------------------
# Polynomials (rational coefficients, integer exponents)
# --------------------------------------------------------------------------

def _monokey(m):
    return tuple((x.id, e) for x, e in m)


def atom_int(x):
    return x.sort in ('i', 'n')


def pmake(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: _monokey(mc[0]))
    s = 'i'
    for m, c in items:
        if c.denominator != 1:
            s = 'r'
            break
        for x, e in m:
            if e < 0 or not atom_int(x):
                s = 'r'
                break
        if s == 'r':
            break
    return mk('poly', tuple(items), s)


def pconst(c):
    c = Fraction(c)
    return mk('poly', (((), c),), 'i' if c.denominator == 1 else 'r') if c != 0 else ZERO


ZERO = mk('poly', (), 'i')
ONE = pconst(1)


def pvar(x):
    return mk('poly', ((((x, 1),), Fraction(1)),), 'i' if atom_int(x) else 'r')


def const_of(t):
    """Fraction value of a constant polynomial, else None"""
    if t.op == 'poly':
        if not t.a:
            return Fraction(0)
        if len(t.a) == 1 and t.a[0][0] == ():
            return t.a[0][1]
    return None


def padd(a, b):
    d = dict(a.a)
    for m, c in b.a:
        d[m] = d.get(m, 0) + c
    return pmake(d)


def pscale(a, k):
    k = Fraction(k)
    if k == 1:
        return a
    return pmake({m: c * k for m, c in a.a})


def psub(a, b):
    return padd(a, pscale(b, -1))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for x, e in m1:
        d[x] = d.get(x, 0) + e
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: xe[0].id))


def pmul(a, b):
    d = {}
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    p = pmake(d)
    return preduce(p)


def preduce(p):
    """normal form of rational terms: for each inv(P), bring the value to
    quotient + remainder*inv(P) by exact polynomial division"""
    invs = set()
    for m, c in p.a:
        for x, e in m:
            if x.op == 'inv' and e > 0:
                invs.add(x)
    if not invs:
        return p
    for _ in range(4):
        q = p
        for x in sorted(invs, key=lambda t: t.id):
            q = _preduce1(q, x)
        if q is p:
            break
        p = q
    return p


def _rawmul(a, b):
    d = {}
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return pmake(d)


def _preduce1(p, x):
    P = x.a[0]
    by = {}
    for m, c in p.a:
        e = 0
        for y, ee in m:
            if y is x:
                e = ee
        by.setdefault(e, {})[tuple((y, ee) for y, ee in m if y is not x)] = c
    top = max(by)
    if top <= 0:
        return p
    while top > 1:
        q, r = pdivmod(pmake(by[top]), P)
        by[top] = dict(r.a)
        lowd = dict(by.get(top - 1, {}))
        for m, c in q.a:
            lowd[m] = lowd.get(m, 0) + c
        by[top - 1] = lowd
        top -= 1
    N = padd(_rawmul(pmake(by.get(0, {})), P), pmake(by.get(1, {})))
    q, r = pdivmod(N, P)
    by[0], by[1] = dict(q.a), dict(r.a)
    d = {}
    for e, dd in by.items():
        for m, c in dd.items():
            mm = mmul(m, ((x, e),)) if e else m
            d[mm] = d.get(mm, 0) + c
    return pmake(d)


def pdivmod(N, P):
    """division of a Laurent polynomial by P (monomial content of N cleared)"""
    if not N.a:
        return ZERO, ZERO
    mn = {}
    for m, c in N.a:
        for y, e in m:
            if e < 0 and y.op != 'inv':
                mn[y] = min(mn.get(y, 0), e)
    clear = tuple(sorted(((y, -e) for y, e in mn.items()), key=lambda t: t[0].id))
    back = tuple((y, -e) for y, e in clear)
    A = pmake({mmul(m, clear): c for m, c in N.a})
    lm, lc = lead(P)
    q, r = {}, {}
    cur = dict(A.a)
    for _ in range(400):
        if not cur:
            break
        m = max(cur, key=_ordkey)
        c = cur.pop(m)
        if mdivides(lm, m):
            f = mmul(m, tuple((y, -e) for y, e in lm))
            q[f] = q.get(f, 0) + c / lc
            for m2, c2 in P.a:
                if m2 == lm:
                    continue
                mm = mmul(f, m2)
                v = cur.get(mm, 0) - c / lc * c2
                if v == 0:
                    cur.pop(mm, None)
                else:
                    cur[mm] = v
        else:
            r[m] = r.get(m, 0) + c
    for m, c in cur.items():
        r[m] = r.get(m, 0) + c
    return (pmake({mmul(m, back): c for m, c in q.items()}),
            pmake({mmul(m, back): c for m, c in r.items()}))


def _ordkey(m):
    return (sum(e for _, e in m), tuple(sorted(((x.id, e) for x, e in m), reverse=True)))


def lead(P):
    """leading monomial in graded lexicographic order"""
    m = max((m for m, _ in P.a), key=_ordkey)
    return m, dict(P.a)[m]


def mdivides(lm, m):
    if not lm:
        return False
    d = dict(m)
    for x, e in lm:
        if e < 0 or d.get(x, 0) < e:
            return False
    return True


def pinv(p):
    c = const_of(p)
    if c is not None:
        if c == 0:
            return INF          # only reached on paths the program excludes
        return pconst(1 / c)
    if len(p.a) == 1:
        m, c = p.a[0]
        return pmake({tuple((x, -e) for x, e in m): 1 / c})
    # factor common monomial
    common = None
    for m, _ in p.a:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for x in sorted(set(common) | set(d), key=lambda y: y.id):
                v = min(common.get(x, 0), d.get(x, 0))
                if v:
                    nc[x] = v
            common = nc
    lm, lc = lead(p)
    cm = tuple(sorted(((x, e) for x, e in common.items() if e), key=lambda xe: xe[0].id))
    inv_cm = tuple((x, -e) for x, e in cm)
    q = pmake({mmul(m, inv_cm): c / lc for m, c in p.a})
    a = mk('inv', (q,), 'r')
    return pmake({mmul(((a, 1),), inv_cm): 1 / lc})


# gated arithmetic --------------------------------------------------------

def _add(a, b):
    if a.op == 'poly' and b.op == 'poly':
        r = sumfuse(padd(a, b))
        return endfuse(r) if r.op == 'poly' else r
    if a.op == 'inf' and b.op != 'inf':
        return a
    if b.op == 'inf' and a.op != 'inf':
        return b
    if a.op == 'inf' and a is b:
        return a
    if a.op in ('li',) and b.op == 'poly':
        return ptradd(a, b)
    return unk('add', 'r')


def _mul(a, b):
    if a.op == 'poly' and b.op == 'poly':
        return pmul(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'inf' and y.op == 'poly':
            c = const_of(y)
            if c is not None and c != 0:
                return INF if (x.a[0] > 0) == (c > 0) else NINF
    return pvar(mk('mulx', tuple(sorted((a, b), key=lambda t: t.id)), 'r'))


def _inv(a):
    if a.op == 'poly':
        return pinv(a)
    if a.op == 'inf':
        return ZERO
    return unk('inv', 'r')


def add(a, b):
    return lift('add', _add, a, b)


def neg(a):
    return lift('neg', lambda x: pscale(x, -1) if x.op == 'poly' else (NINF if x is INF else INF if x is NINF else unk('neg', 'r')), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return lift('mul', _mul, a, b)


def rdiv(a, b):
    return mul(a, lift('inv', _inv, b))


def _idiv(a, b):
    ca, cb = const_of(a), const_of(b)
    if cb is not None and cb != 0:
        if ca is not None:
            q = ca / cb
            return pconst(floor(q) if q >= 0 else ceil(q))
        if all((c / cb).denominator == 1 for _, c in a.a):
            return pscale(a, 1 / cb)
        # split off the exactly divisible part (valid for non-negative operands)
        if nonneg(a) and cb > 0:
            d1, d2 = {}, {}
            for m, c in a.a:
                ((d1 if (c / cb).denominator == 1 else d2))[m] = c
            if d1:
                return padd(pscale(pmake(d1), 1 / cb), _idiv(pmake(d2), b))
    if a is b:
        return ONE
    return pvar(mk('idiv', (a, b), 'n' if nonneg(a) and nonneg(b) else 'i'))


def _imod(a, b):
    ca, cb = const_of(a), const_of(b)
    if cb is not None and cb != 0:
        if ca is not None:
            q = ca / cb
            return pconst(ca - cb * (floor(q) if q >= 0 else ceil(q)))
        if all((c / cb).denominator == 1 for _, c in a.a):
            return ZERO
        if nonneg(a):
            d = {m: c for m, c in a.a if (c / cb).denominator != 1}
            if len(d) != len(a.a):
                return _imod(pmake(d), b)
    return pvar(mk('imod', (a, b), 'n' if nonneg(a) and nonneg(b) else 'i'))


def idiv(a, b):
    return lift('idiv', lambda x, y: _idiv(x, y) if x.op == 'poly' and y.op == 'poly' else unk('idiv'), a, b)


def imod(a, b):
    return lift('imod', lambda x, y: _imod(x, y) if x.op == 'poly' and y.op == 'poly' else unk('imod'), a, b)


def atom_nonneg(x):
    return x.sort == 'n'


def nonneg(p):
    if p.op != 'poly':
        return p is INF
    for m, c in p.a:
        if c < 0:
            return False
        for x, e in m:
            if not atom_nonneg(x) and e % 2:
                return False
    return True


# comparisons -------------------------------------------------------------

def _lt0(p, strict):
    """gate for  p < 0  (strict) or  p <= 0"""
    if p.op == 'inf':
        return TRUE if p.a[0] < 0 else FALSE
    if p.op != 'poly':
        return batom(mk('neg?', (p, strict), 'b'))
    c = const_of(p)
    if c is not None:
        return TRUE if (c < 0 if strict else c <= 0) else FALSE
    c0 = Fraction(0)
    rest = {}
    for m, c in p.a:
        if m == ():
            c0 = c
        else:
            rest[m] = c
    q = pmake(rest)
    isint = all(all(atom_int(x) and e > 0 for x, e in m) for m in rest)
    if any(len(m) == 1 and m[0][0].op == 'fn' and m[0][0].a[0] in BOUNDED for m in rest):
        b = _index_bound(rest, c0, strict)
        if b is not None:
            return b
    if isint and len(rest) > 1 and any(len(m) == 1 and m[0][0].op == 'fn' and m[0][0].a[0] in MONOTONE for m in rest):
        b = _mono_bound(rest, c0, strict)
        if b is not None:
            return b
    L = q.a[0][1]
    if isint:
        den = 1
        for _, c in q.a:
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for _, c in q.a:
            g = gcd(g, int(c * den))
        L = Fraction(g, den) * (1 if L > 0 else -1)
    q = pscale(q, 1 / L)
    k = -c0 / L
    # L>0:  q < k ;  L<0:  q > k
    if L > 0:
        return _thr(q, k, strict, isint)
    return bnot(_thr(q, k, not strict, isint))


STRICT = {'sccstart'}
MONOTONE = {'sccstart': 1, 'gstart': 2}      # function -> position of the argument it does not decrease in


def _mono_bound(rest, c0, strict):
    """use f(a) <= f(b) where a <= b, for functions known not to decrease"""
    fs = [(m, c) for m, c in rest.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].a[0] in MONOTONE]
    for i, (m1, c1) in enumerate(fs):
        for m2, c2 in fs:
            if c1 <= 0 or c2 != -c1:
                continue
            x, y = m1[0][0], m2[0][0]
            k = MONOTONE[x.a[0]]
            if x.a[0] != y.a[0] or any(j != k and a is not b for j, (a, b) in enumerate(zip(x.a[1], y.a[1]))):
                continue
            a, b = x.a[1][k], y.a[1][k]
            if a.op != 'poly' or b.op != 'poly':
                continue
            d = const_of(psub(b, a))
            if d is None:
                if nonneg(psub(b, a)):
                    d = 1
                elif nonneg(psub(a, b)):
                    d = -1
            if d is None:
                if c0 == 0 and len(rest) == 2 and x.a[0] in STRICT:
                    return lt(a, b) if strict else le(a, b)
                continue
            other = pmake(dict([(m, c) for m, c in rest.items() if m not in (m1, m2)] + [((), c0)]))
            if d >= 0 and nonneg(psub(pscale(other, -1), ONE) if strict else pscale(other, -1)):
                return TRUE
            if d <= 0 and nonneg(other if strict else psub(other, ONE)):
                return FALSE
    return None


def monotone_in(p, s):
    """integer polynomial p does not decrease in s"""
    for m, c in p.a:
        if not any(s.id in x.fs for x, _ in m):
            continue
        if c < 0 or len(m) != 1 or m[0][1] != 1:
            return False
        x = m[0][0]
        if x is s:
            continue
        if x.op != 'fn' or x.a[0] not in MONOTONE:
            return False
        k = MONOTONE[x.a[0]]
        if any(s.id in a.fs for j, a in enumerate(x.a[1]) if j != k and isinstance(a, T)):
            return False
        a = x.a[1][k]
        if a.op != 'poly' or const_of(psub(a, pvar(s))) is None:
            return False
    return True


def edge(d, s, n):
    """some s < n with P(s) <= 0, P monotone: true at the first or last s"""
    if d.op != 'ite' or d.a[0].op not in ('le', 'lt') or {d.a[1], d.a[2]} != {TRUE, FALSE}:
        return None
    p = d.a[0].a[0]
    if p.op != 'poly' or not all(x.sort in ('i', 'n') and e == 1 for m, _ in p.a for x, e in m):
        return None
    up, down = monotone_in(p, s), monotone_in(pscale(p, -1), s)
    if up is down:
        return None
    if d.a[2] is TRUE:
        up = not up
    return band(lt(ZERO, n), subst(d, {s: ZERO if up else sub(n, ONE)}))


def cover(d, s, n):
    """some s < n with P(s) <= 0 < P(s+1), P not decreasing:  P(0) <= 0 < P(n)"""
    lits = []
    f = d
    while f.op == 'ite':
        at = f.a[0]
        if at.op != 'le' or not all(atom_int(x) and e > 0 for m, _ in at.a[0].a for x, e in m):
            return None
        if f.a[2] is FALSE:
            lits.append(psub(at.a[0], pconst(at.a[1])))
            f = f.a[1]
        elif f.a[1] is FALSE:
            lits.append(psub(pconst(at.a[1] + 1), at.a[0]))
            f = f.a[2]
        else:
            return None
    if f is not TRUE or len(lits) != 2:
        return None
    for x, y in (lits, lits[::-1]):
        if s.id in x.fs and subst(x, {s: add(pvar(s), ONE)}) is psub(ONE, y) and monotone_in(x, s):
            g = band(le(subst(x, {s: ZERO}), ZERO), lt(ZERO, subst(x, {s: n})))
            return g if nonneg(n) else band(g, lt(ZERO, n))
    return None


def flatten(t, s, n):
    """binder t over i < F(s+1) - F(s) with a body that uses i and s through F(s) + i alone, for every s < n:
    (range, symbol, body) of the one binder over all of F(0) .. F(n)"""
    rng = t.a[0][0]
    if rng[0] != 'n' or rng[1].op != 'poly' or s.id not in rng[1].fs:
        return None
    r = rng[1]
    F = pmake({m: -c for m, c in r.a if c < 0 and any(s.id in x.fs for x, _ in m)})
    if not F.a or subst(F, {s: add(pvar(s), ONE)}) is not padd(r, F) or not monotone_in(F, s):
        return None
    j = fresh('o', 'n')
    body = subst(t.a[2][0], {t.a[1][0]: psub(pvar(j), F)})
    if s.id in body.fs:
        return None
    lo, hi = subst(F, {s: ZERO}), subst(F, {s: n})
    return ('n', psub(hi, lo)), j, body if lo is ZERO else subst(body, {j: padd(pvar(j), lo)})


def telescope(body, s, n):
    """sum of f(s+1) - f(s)  parts of a polynomial body: (closed part, remaining body)"""
    ms = [(m, c) for m, c in body.a if any(s.id in x.fs for x, _ in m)]
    if len(ms) < 2 or len(ms) > 8:
        return None
    for m1, c1 in ms:
        f = pmake({m1: Fraction(1)})
        up = subst(f, {s: add(pvar(s), ONE)})
        if up.op != 'poly' or len(up.a) != 1 or up.a[0][1] != 1:
            continue
        m2 = up.a[0][0]
        for m, c in ms:
            if m == m2 and c == -c1 and m2 != m1:
                z = pscale(psub(subst(f, {s: ZERO}), subst(f, {s: n})), c1)
                return z, pmake({mm: cc for mm, cc in body.a if mm not in (m1, m2)})
    return None


def _scc_nv(s):
    while s.op == 'fn' and s.a[0] == 'sccrev':
        s = s.a[1][0]
    return s.a[1][0] if s.op == 'fn' and s.a[0] in ('sccall', 'sccreach') else None


def _total_bound(a):
    """all components together have at most the number of vertices"""
    return _scc_nv(a[0]) if a[1] is pvar(mk('fn', ('sccn', (a[0],)), 'n')) else None


def _less(v):
    return psub(v, ONE) if v is not None and v.op == 'poly' else None


# functions with non-negative values and a known largest value
BOUNDED = {
    'index': lambda a: _less(a[2]),
    'sccvert': lambda a: _less(_scc_nv(a[0])),
    'gnb': lambda a: _less(a[1]),
    'sccstart': _total_bound,
}


def _index_bound(rest, c0, strict):
    """use 0 <= f(...) <= largest value, for the functions in BOUNDED"""
    lo = hi = pconst(c0)
    used = False
    for m, c in rest.items():
        x = m[0][0]
        b = None
        if len(m) == 1 and m[0][1] == 1 and x.op == 'fn' and x.a[0] in BOUNDED:
            b = BOUNDED[x.a[0]](x.a[1])
        if b is not None and b.op == 'poly':
            used = True
            t = pscale(b, c)
            if c > 0:
                hi = padd(hi, t)
            else:
                lo = padd(lo, t)
        else:
            t = pmake({m: c})
            lo, hi = padd(lo, t), padd(hi, t)
    if not used:
        return None
    if nonneg(lo if strict else psub(lo, ONE)):
        return FALSE
    if nonneg(pscale(hi, -1) if not strict else psub(pscale(hi, -1), ONE)):
        return TRUE
    return None


def _thr(q, k, strict, isint):
    """q < k / q <= k with q normalised and constant-free"""
    if isint:
        if strict:
            k = Fraction(ceil(k) - 1)
        else:
            k = Fraction(floor(k))
        strict = False
    if isint and abs(k) >= (1 << 62) and all(abs(c) <= 1024 and len(m) <= 2 for m, c in q.a):
        return TRUE if k > 0 else FALSE
    lo = nonneg(q)
    if lo and (k < 0 or (k == 0 and strict)):
        return FALSE
    up = nonneg(pscale(q, -1))
    if up and (k > 0 or (k == 0 and not strict)):
        return TRUE
    # a maximum is below a bound iff every member is
    if len(q.a) == 1 and q.a[0][1] == 1 and len(q.a[0][0]) == 1 and q.a[0][0][0][1] == 1:
        x = q.a[0][0][0][0]
        if x.op in ('maxr', 'minr') and not isinstance(k, T):
            return minmax_cmp(x, k, strict)
    elif any(len(m) == 1 and m[0][0].op in ('maxr', 'minr') and m[0][1] == 1 and abs(c) == 1 for m, c in q.a):
        for m, c in q.a:
            if len(m) == 1 and m[0][0].op in ('maxr', 'minr') and m[0][1] == 1 and abs(c) == 1:
                x = m[0][0]
                r = pmake({mm: cc for mm, cc in q.a if mm != m})
                # c*x + r (<|<=) k
                if c == 1:
                    return minmax_cmp_poly(x, psub(pconst(k), r), strict)
                # -x + r < k  <=> x > r - k  <=> not (x <= r-k)
                return bnot(minmax_cmp_poly(x, psub(r, pconst(k)), not strict))
    return node(mk('lt' if strict else 'le', (q, k), 'b'), TRUE, FALSE)


def minmax_cmp(x, k, strict):
    return minmax_cmp_poly(x, pconst(k), strict)


def minmax_cmp_poly(x, bound, strict):
    """max over range of body (with initial value) <|<= bound, and dually for min"""
    (rng, init), (bvv,), (body,) = x.a
    s = fresh('u', bvv.sort)
    bd = subst(body, {bvv: expand(s, bvv.sort)})
    f = lt if strict else le
    if x.op == 'maxr':
        r = mk_all(rng, s, f(bd, bound))
        return r if init is None else band(r, f(init, bound))
    r = mk_ex(rng, s, f(bd, bound))
    return r if init is None else bor(r, f(init, bound))


def lt(a, b):
    return lift('lt', lambda x, y: _cmp(x, y, True), a, b)


def le(a, b):
    return lift('le', lambda x, y: _cmp(x, y, False), a, b)


def _cmp(x, y, strict):
    if x.op == 'poly' and y.op == 'poly':
        return _lt0(psub(x, y), strict)
    if x.op == 'inf' or y.op == 'inf':
        if x.op == 'inf' and y.op == 'inf':
            return TRUE if (x.a[0] < y.a[0] or (not strict and x is y)) else FALSE
        if x.op == 'inf':
            return TRUE if x.a[0] < 0 else FALSE
        return TRUE if y.a[0] > 0 else FALSE
    if x.op == 'li' and y.op == 'li' and x.a[0] is y.a[0]:
        return lift('lt' if strict else 'le', lambda p, q: _cmp(p, q, strict), x.a[1], y.a[1])
    if x is y:
        return FALSE if strict else TRUE
    if x.sort == 's' or y.sort == 's' or (isinstance(x.sort, tuple) and x.sort[0] in ('rec', 'o', 'v', 'm', 'set')):
        # total order on opaque values: gate on one orientation of '<'
        if x.op == 'rec' and y.op == 'rec' and len(x.a) == len(y.a):
            return _reccmp(x, y, strict)
        if strict:
            return slt(x, y)
        return bnot(slt(y, x))
    return unk('cmp', 'b')


def _reccmp(x, y, strict):
    r = FALSE if strict else TRUE
    for p, q in reversed(list(zip(x.a[1:], y.a[1:]))):
        r = bor(lt(p, q), band(eq(p, q), r))
    return r


def slt(x, y):
    """x < y for opaque ordered values, consistent with eq and its converse"""
    if x is y:
        return FALSE
    e = eqatom(x, y)
    a, b = (x, y) if x.id < y.id else (y, x)
    l = batom(mk('slt', (a, b), 'b'))
    if x is a:
        return band(bnot(e), l)
    return band(bnot(e), bnot(l))


def eqatom(x, y):
    a, b = (x, y) if x.id < y.id else (y, x)
    return batom(mk('eq', (a, b), 'b'))


def _eq(x, y):
    if x is y:
        return TRUE
    if x.op == 'poly' and y.op == 'poly':
        d = psub(x, y)
        return band(_lt0(d, False), bnot(_lt0(d, True)))
    if x.op == 'inf' or y.op == 'inf':
        return FALSE
    if x.op == 'rec' and y.op == 'rec' and len(x.a) == len(y.a):
        return band(*[eq(p, q) for p, q in zip(x.a[1:], y.a[1:])])
    if x.op == 'li' and y.op == 'li' and x.a[0] is y.a[0]:
        return eq(x.a[1], y.a[1])
    if x.op == 'null' or y.op == 'null':
        z = y if x.op == 'null' else x
        if z.op in ('li', 'lf', 'root', 'lk'):
            return FALSE
        return batom(mk('isnull', (z,), 'b'))
    if x.op in ('true', 'false') or y.op in ('true', 'false'):
        return biff(x, y)
    if x.op in ('root', 'li', 'lf') and y.op in ('root', 'li', 'lf'):
        rx, ry = locroot(x), locroot(y)
        if rx is not ry:
            return FALSE
    if x.op == 'str' and y.op == 'str':
        return FALSE
    return eqatom(x, y)


def eq(a, b):
    if a.sort == 'b' and b.sort == 'b':
        return biff(a, b)
    return lift('eq', _eq, a, b)


def locroot(l):
    while l.op in ('li', 'lf', 'lk', 'le_'):
        l = l.a[0]
    return l


def vmin(a, b):
    return ite(lt(b, a), b, a)


def vmax(a, b):
    return ite(lt(a, b), b, a)


def vabs(a):
    return ite(lt(a, ZERO), neg(a), a)


def ptradd(p, n):
    return mk_li(p.a[0], add(p.a[1], n))


# --------------------------------------------------------------------------
# expansion of opaque terms by sort (eta)
# --------------------------------------------------------------------------

def expand(x, sort):
    if is_num(sort):
        return pvar(x)
    if sort == 'b':
        return batom(x)
    if isinstance(sort, tuple) and sort[0] == 'rec':
        return mk('rec', (sort[1],) + tuple(expand(fld_raw(x, f, s), s) for f, s in sort[2]), sort)
    return x


def fld_raw(x, f, s):
    return mk('fld', (x, f), s)


def getf(v, f):
    """field of a record value"""
    def g(x):
        if x.op == 'rec':
            for i, (n, s) in enumerate(x.sort[2]):
                if n == f:
                    return x.a[1 + i]
        if isinstance(x.sort, tuple) and x.sort[0] == 'rec':
            for n, s in x.sort[2]:
                if n == f:
                    return expand(fld_raw(x, f, s), s)
        return unk('field %s' % f)
    return lift('getf.' + f, g, v)


def setf(v, f, w):
    if v.op == 'ite':
        return ite(node(v.a[0], TRUE, FALSE), setf(v.a[1], f, w), setf(v.a[2], f, w))
    if v.op != 'rec':
        return unk('setfield %s' % f, v.sort)
    for i, (n, s) in enumerate(v.sort[2]):
        if n == f:
            a = list(v.a)
            a[1 + i] = w
            return mk('rec', tuple(a), v.sort)
    return unk('setfield %s' % f, v.sort)


def rec(sort, vals):
    return mk('rec', (sort[1],) + tuple(vals), sort)


def mkrec(tag, **kw):
    s = ('rec', tag, tuple((k, v.sort) for k, v in kw.items()))
    return rec(s, list(kw.values()))


# --------------------------------------------------------------------------
# substitution and binders
# --------------------------------------------------------------------------

def bv(i, sort):
    return mk('bv', (i,), sort)


def close(syms, bodies):
    """bind the symbols: returns (bvs, bodies)"""
    j = 0
    for b in bodies:
        if b is not None and b.h > j:
            j = b.h
    bvs = tuple(bv(j + 1 + i, s.sort) for i, s in enumerate(syms))
    m = {s: expand(v, v.sort) for s, v in zip(syms, bvs)}
    return bvs, tuple(None if b is None else subst(b, m) for b in bodies)


def open_(t):
    """open binder term: returns (params, fresh syms, bodies)"""
    params, bvs, bodies = t.a
    syms = tuple(fresh('o', v.sort) for v in bvs)
    m = {v: expand(s, s.sort) for v, s in zip(bvs, syms)}
    return params, syms, tuple(None if b is None else subst(b, m) for b in bodies)


BIND = {}       # op -> rebuild(t, params, syms, bodies)
BUILD = {}      # op -> rebuild(t, newargs)


def subst(t, m, memo=None):
    """m: {sym or bv T: replacement value}"""
    if memo is None:
        memo = {}
    keys = frozenset(k.id for k in m if k.op == 'sym')
    for k in m:
        if k.op not in ('sym', 'bv'):
            keys = keys | k.fs
    hasbv = [k.a[0] for k in m if k.op == 'bv']
    minbv = min(hasbv) if hasbv else None
    return _subst(t, m, keys, minbv, memo)


def _subst(t, m, keys, minbv, memo):
    if t is None:
        return None
    if not (t.fs & keys) and (minbv is None or t.h < minbv):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op not in ('sym', 'bv') and t in m:
        return m[t]
    if op == 'ite':
        at = _subst_atom(t.a[0], m, keys, minbv, memo)
        hi = _subst(t.a[1], m, keys, minbv, memo)
        lo = _subst(t.a[2], m, keys, minbv, memo)
        r = ite(at, hi, lo)
    elif op in ('sym', 'bv'):
        r = m.get(t)
        r = expand(t, t.sort) if r is None else r
    elif op == 'poly':
        r = ZERO
        for mono, c in t.a:
            p = pconst(c)
            for x, e in mono:
                y = _subst(x, m, keys, minbv, memo) if ((x.fs & keys) or (minbv is not None and x.h >= minbv)) else pvar(x)
                if not (y.op == 'ite' or y.op in ('poly', 'inf')):
                    y = expand(y, y.sort)
                if e < 0:
                    y = rdiv(ONE, y)
                    e = -e
                for _ in range(e):
                    p = mul(p, y)
            r = add(r, p)
    elif op in BIND:
        key = (t, tuple(sorted(((k.id, v.id) for k, v in m.items()
                                if (k.id in t.fs if k.op == 'sym' else k.op != 'bv' or k.a[0] <= t.h)))))
        r = _BMEMO.get(key)
        if r is not None:
            memo[t] = r
            return r
        params, bvs, bodies = t.a
        np_ = _subst_any(params, m, keys, minbv, memo)
        bfs = any(b is not None and b.fs & keys for b in bodies)
        lowbv = minbv is not None and any(_has_bv(b, m) for b in bodies if b is not None)
        if op == 'fold' and not bfs and not lowbv and np_ != params and t in DISTINCT:
            r = mk('fold', (np_, bvs, bodies), 'fold')
            DISTINCT.add(r)
            r = (r, list(range(len(bvs) - 1)))
        elif bfs or lowbv or np_ != params:
            used = t.fs
            for v in m.values():
                used = used | v.fs
            syms = tuple(_opensym(v, used) for v in bvs)
            m2 = dict(m)
            for v, s in zip(bvs, syms):
                m2[v] = expand(s, s.sort)
            nb = tuple(None if b is None else subst(b, m2) for b in bodies)
            r = BIND[op](t, np_, syms, nb)
        else:
            r = t
            if is_num(t.sort):
                r = pvar(t)
            elif t.sort == 'b':
                r = batom(t)
        if len(_BMEMO) > 400000:
            _BMEMO.clear()
        _BMEMO[key] = r
    else:
        na = _subst_any(t.a, m, keys, minbv, memo)
        if na == t.a:
            r = t
            if is_num(t.sort) and op not in ('inf',):
                r = pvar(t)
            elif t.sort == 'b' and op not in ('true', 'false'):
                r = batom(t)
        elif op == 'rec':
            r = mk('rec', na, t.sort)
        else:
            r = BUILD[op](t, na)
    memo[t] = r
    return r


_BMEMO = {}
DISTINCT = set()        # folds whose components are told apart by their bodies alone


def _opensym(v, used):
    s = mk('sym', ('$o%d' % v.a[0],), v.sort)
    return fresh('o', v.sort) if s.id in used else s


def _has_bv(t, m):
    # conservative
    for k in m:
        if k.op == 'bv' and t.h >= k.a[0]:
            return True
    return False


def _subst_atom(at, m, keys, minbv, memo):
    if not (at.fs & keys) and (minbv is None or at.h < minbv):
        return node(at, TRUE, FALSE)
    if at.op == 'le':
        p = _subst(at.a[0], m, keys, minbv, memo)
        return le(p, pconst(at.a[1]))
    if at.op == 'lt':
        p = _subst(at.a[0], m, keys, minbv, memo)
        return lt(p, pconst(at.a[1]))
    r = _subst(at, m, keys, minbv, memo)
    return batom(r)


def _subst_any(x, m, keys, minbv, memo):
    if isinstance(x, T):
        return _subst(x, m, keys, minbv, memo)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, m, keys, minbv, memo) for y in x)
    return x


def renorm(t, memo):
    """t built anew from the inside out, binders opened with symbols that depend on the term alone: undoes what the
    order of construction left behind (bound variables of an unneeded height, order of the components of a loop)"""
    if t is None:
        return None
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'ite':
        at = t.a[0]
        if at.op in ('le', 'lt'):
            p = renorm(at.a[0], memo)
            g = (le if at.op == 'le' else lt)(p, pconst(at.a[1]))
        else:
            g = renorm(at, memo)
            g = batom(g) if g.op not in ('true', 'false', 'ite') else g
        r = ite(g, renorm(t.a[1], memo), renorm(t.a[2], memo))
    elif op == 'poly':
        r = ZERO
        for mono, c in t.a:
            p = pconst(c)
            for x, e in mono:
                y = renorm(x, memo)
                if not (y.op == 'ite' or y.op in ('poly', 'inf')):
                    y = expand(y, y.sort)
                if e < 0:
                    y = rdiv(ONE, y)
                    e = -e
                for _ in range(e):
                    p = mul(p, y)
            r = add(r, p)
    elif op in BIND:
        params, bvs, bodies = t.a
        np_ = _renorm_any(params, memo)
        syms = []
        k = 0
        for v in bvs:
            while True:
                x = mk('sym', ('$r%d' % k,), v.sort)
                k += 1
                if x.id not in t.fs:
                    break
            syms.append(x)
        m2 = {v: expand(x, x.sort) for v, x in zip(bvs, syms)}
        nb = tuple(None if b is None else renorm(subst(b, m2), memo) for b in bodies)
        r = BIND[op](t, np_, tuple(syms), nb)
    elif op in ('sym', 'bv', 'inf', 'true', 'false') or not t.a:
        r = t
    elif op == 'rec':
        r = mk('rec', _renorm_any(t.a, memo), t.sort)
    else:
        na = _renorm_any(t.a, memo)
        if na == t.a:
            r = t
            if is_num(t.sort):
                r = pvar(t)
            elif t.sort == 'b':
                r = batom(t)
        else:
            r = BUILD[op](t, na)
    memo[t] = r
    return r


def _renorm_any(x, memo):
    if isinstance(x, T):
        return renorm(x, memo)
    if isinstance(x, tuple):
        return tuple(_renorm_any(y, memo) for y in x)
    return x


def mkbind(op, params, syms, bodies, sort):
    bvs, bs = close(syms, bodies)
    return mk(op, (params, bvs, bs), sort)


def depends(t, s):
    """does term (or tuple) depend on symbol s"""
    if t is None:
        return False
    if isinstance(t, tuple):
        return any(depends(x, s) for x in t if isinstance(x, (T, tuple)))
    return s.id in t.fs


def wrap(t):
    """raw term -> value"""
    return expand(t, t.sort)


# --------------------------------------------------------------------------
# ranges:  ('n', N)  numeric 0..N-1 ;  ('k', K)  all keys of sort K, ascending
#          ('u', K)  all keys in unspecified order
# --------------------------------------------------------------------------

def rng_n(n):
    return ('n', n)


def split_invariant(f, s):
    """a gate of f not depending on s, or None"""
    best = None
    for at in atoms_of(f):
        if s.id not in at.fs and (best is None or rank(at) < rank(best)):
            best = at
    return best


def hoist(f, s, build):
    at = split_invariant(f, s)
    if at is None:
        return None
    A = node(at, TRUE, FALSE)
    return ite(A, build(assign_atom(f, at, True)), build(assign_atom(f, at, False)))


def lin_in(p, s):
    """p as (coef, rest) with p = coef*s + rest, rest free of s; None if not linear"""
    coef = Fraction(0)
    rest = {}
    for m, c in p.a:
        if any(s.id in x.fs for x, _ in m):
            if m == ((s, 1),):
                coef += c
            else:
                return None
        else:
            rest[m] = c
    return coef, pmake(rest)


def eq_points(f, s):
    """candidate e with an integer gate  s == e  in f"""
    fam = {}
    for at in atoms_of(f):
        if at.op == 'le' and s.id in at.a[0].fs:
            fam.setdefault(at.a[0], []).append(at.a[1])
    out = []
    for p, ks in fam.items():
        l = lin_in(p, s)
        if l is None or abs(l[0]) != 1:
            continue
        for k in ks:
            if k - 1 in ks or True:
                # p == k  <=>  s == (k - rest)/coef
                e = pscale(psub(pconst(k), l[1]), 1 / l[0])
                out.append((p, k, e))
    return out


def key_points(f, s):
    """candidate equalities between key symbol s and other terms (through eq gates)"""
    out = []
    for at in atoms_of(f):
        if at.op == 'eq':
            for x, y in ((at.a[0], at.a[1]), (at.a[1], at.a[0])):
                if x is s and s.id not in y.fs:
                    out.append(y)
                elif x.op == 'fld' and x.a[0] is s and s.id not in y.fs:
                    out.append((x.a[1], y))
    return out


def in_range(e, n):
    return band(le(ZERO, e), lt(e, n))


def region(f, p, k):
    """values of f for p<k, p==k, p>k (integer family), None where not uniform"""
    def cut(f, facts):
        for at in atoms_of(f):
            if at.op == 'le' and at.a[0] is p:
                t = at.a[1]
                if facts == 'lt':       # p <= k-1
                    if t >= k - 1:
                        f = assign_atom(f, at, True)
                elif facts == 'eq':
                    f = assign_atom(f, at, t >= k)
                else:                   # p >= k+1
                    if t <= k:
                        f = assign_atom(f, at, False)
        return f
    return cut(f, 'lt'), cut(f, 'eq'), cut(f, 'gt')


def range_assume(f, s, n):
    """simplify f for 0 <= s < n"""
    if f.op not in ('ite', 'rec'):
        return f
    g = lt(pvar(s), n) if is_num(s.sort) else TRUE
    return assume(f, g)


# --------------------------------------------------------------------------
# sums
# --------------------------------------------------------------------------

def trip(n):
    """max(0,n)"""
    return ite(lt(n, ZERO), ZERO, n)


def low_edge(f, s):
    """smallest constant k >= 0 with a gate  s <= k  in f"""
    best = None
    v = pvar(s)
    for at in atoms_of(f):
        if at.op == 'le' and at.a[0] is v and 0 <= at.a[1] <= 3:
            if best is None or at.a[1] < best:
                best = at.a[1]
    return best


def unedge(f, s):
    """f without the gate s <= 0 where the general case gives the value at 0 as well"""
    if f.op != 'ite':
        return f
    at = mk('le', (pvar(s), Fraction(0)), 'b')
    if at not in atoms_of(f):
        return f
    hi = assign_atom(f, at, False)
    return hi if subst(assign_atom(f, at, True), {s: ZERO}) is subst(hi, {s: ZERO}) else f


def pin(f, s):
    """s := 0 where a gate says s <= 0 (s a natural number)"""
    v = pvar(s)
    for at in atoms_of(f):
        if at.op == 'le' and at.a[0] is v and at.a[1] == 0:
            g = node(at, TRUE, FALSE)
            hi = assume(f, g)
            if s.id in hi.fs:
                return ite(g, subst(hi, {s: ZERO}), assume(f, bnot(g)))
    return f


def mk_sum(rng, s, body):
    """sum over s in rng of body (numeric gated value)"""
    if rng[0] == 'n':
        n = rng[1]
        if n.op == 'ite':
            return lift('sumn%d.%d' % (s.id, body.id), lambda x: mk_sum(('n', x), s, body), n)
        cn = const_of(n)
        if cn is not None and cn <= 0:
            return ZERO
        c0 = dict(n.a).get((), 0) if n.op == 'poly' else 0
        if c0 >= 1 and c0.denominator == 1 and c0 <= 8 and (cn is not None or nonneg(psub(n, pconst(c0)))):
            m1 = psub(n, ONE)
            return add(mk_sum(('n', m1), s, body), subst(body, {s: m1}))
        body = range_assume(body, s, n)
        lowk = low_edge(body, s)
        if lowk is not None:
            kk = pconst(lowk)
            g = node(mk('le', (pvar(s), lowk), 'b'), TRUE, FALSE)
            r = ZERO
            lowb, highb = assume(body, g), assume(body, bnot(g))
            for j in range(int(lowk) + 1):
                r = add(r, ite(lt(pconst(j), n), subst(lowb, {s: pconst(j)}), ZERO))
            m = psub(n, padd(kk, ONE))
            up = subst(highb, {s: padd(pvar(s), padd(kk, ONE))})
            return add(r, mk_sum(('n', m), s, up))
    if any(l.op == 'inf' for l in leaves(body)) or any(l.op not in ('poly',) for l in leaves(body)):
        return pvar(mkbind('sum', (norm_rng(rng),), (s,), (body,), 'r'))
    r = hoist(body, s, lambda f: mk_sum(rng, s, f))
    if r is not None:
        return r
    if body is ZERO:
        return ZERO
    # point elimination
    if rng[0] == 'n':
        for p, k, e in eq_points(body, s):
            lo, mid, hi = region(body, p, k)
            if lo is hi and lo is not mid:
                em = subst(mid, {s: e})
                el = subst(lo, {s: e})
                return add(mk_sum(rng, s, lo), ite(in_range(e, rng[1]), sub(em, el), ZERO))
    else:
        r = key_elim(body, s, ZERO)
        if r is not None:
            return r
    if rng[0] == 'n' and body.op == 'poly' and nonneg(rng[1]):
        z = telescope(body, s, rng[1])
        if z is not None:
            return add(z[0], mk_sum(rng, s, z[1]))
    # split per monomial
    monos = {}
    def coef_of(f, m):
        def g(x):
            for mm, c in x.a:
                if mm == m:
                    return pconst(c)
            return ZERO
        return lift('coef%d' % hash(m), g, f) if False else _coef(f, m, {})
    allm = []
    seen = set()
    for l in leaves(body):
        for m, _ in l.a:
            if m not in seen:
                seen.add(m)
                allm.append(m)
    total = ZERO
    parts = {}
    for m in allm:
        cf = _coef(body, m, {})
        inside = tuple((x, e) for x, e in m if s.id in x.fs)
        outside = tuple((x, e) for x, e in m if s.id not in x.fs)
        parts.setdefault(inside, []).append((outside, cf))
    for inside, lst in parts.items():
        # group equal outside monomials happens naturally (distinct m)
        for outside, cf in lst:
            # scale so the first coefficient met is 1
            sc = None
            for l in leaves(cf):
                c = const_of(l)
                if c != 0:
                    sc = c if sc is None else sc
            cfn = _scale_const(cf, 1 / sc)
            total = add(total, pscale_any(_sum_atom(rng, s, inside, cfn), outside, sc))
    return total


def _scale_const(f, k):
    return lift('sc%s' % k, lambda x: pscale(x, k), f)


def pscale_any(v, mono, c):
    return mul(v, pmake({mono: Fraction(c)}))


def _coef(f, m, memo):
    if f in memo:
        return memo[f]
    if f.op == 'ite':
        r = ite(node(f.a[0], TRUE, FALSE), _coef(f.a[1], m, memo), _coef(f.a[2], m, memo))
    else:
        r = ZERO
        for mm, c in f.a:
            if mm == m:
                r = pconst(c)
                break
    memo[f] = r
    return r


def norm_rng(rng):
    return rng


def _sum_atom(rng, s, inside, cf):
    if rng[0] == 'n' and not inside and const_of(cf) is not None:
        return mul(trip(rng[1]), cf)
    body = mul(cf, pmake({inside: Fraction(1)}))
    if rng[0] == 'n':
        if len(inside) == 1 and inside[0][1] == 1 and inside[0][0].op == 'sum' and cf is ONE:
            c = flatten(inside[0][0], s, rng[1])
            if c is not None:
                return mk_sum(*c)
        t1 = mkbind('sum', (rng,), (s,), (body,), _sumsort(body))
        # reversed orientation
        s2 = fresh('o', 'n')
        flipped = subst(body, {s: sub(sub(rng[1], ONE), pvar(s2))})
        flipped = range_assume(flipped, s2, rng[1])
        t2 = mkbind('sum', (rng,), (s2,), (flipped,), _sumsort(body))
        t = t1 if t1.id < t2.id else t2
        return pvar(t)
    rr = ('k', rng[1]) if rng[0] == 'u' else rng
    return pvar(mkbind('sum', (rr,), (s,), (body,), _sumsort(body)))


def _sumsort(body):
    if all(l.op == 'poly' and nonneg(l) and l.sort == 'i' for l in leaves(body)):
        return 'n'
    if all(l.op == 'poly' and l.sort == 'i' for l in leaves(body)):
        return 'i'
    return 'r'


def endfuse(p):
    """sum over m-1 of f, plus f(m-1)  =  sum over m of f   (for m > 0)"""
    for m, c in p.a:
        for i, (x, e) in enumerate(m):
            if x.op != 'sum' or e != 1 or x.a[0][0][0] != 'n':
                continue
            n = x.a[0][0][1]
            if n.op != 'poly':
                continue
            c0 = dict(n.a).get((), 0)
            if c0 >= 0 or c0.denominator != 1:
                continue
            bvv = x.a[1][0]
            last = subst(x.a[2][0], {bvv: n})
            if last.op != 'poly' or not last.a:
                continue
            rest = m[:i] + m[i + 1:]
            add_ = pmul(last, pmake({rest: c}))
            d = dict(p.a)
            if all(d.get(mm) == cc for mm, cc in add_.a):
                s = fresh('o', bvv.sort)
                n1 = padd(n, ONE)
                whole = mk_sum(('n', n1), s, subst(x.a[2][0], {bvv: expand(s, s.sort)}))
                left = psub(psub(p, add_), pmake({m: c}))
                fused = add(left, mul(whole, pmake({rest: c})))
                return ite(lt(ZERO, n1), fused, p)
    return p


def sumfuse(p):
    """merge sums over the same range, monomial and cofactor (a no-op unless
    two sums of one monomial under different gates meet)"""
    groups = {}
    for m, c in p.a:
        for i, (x, e) in enumerate(m):
            if x.op == 'sum' and e == 1:
                body = x.a[2][0]
                lv = leaves(body)
                mon = None
                for l in lv:
                    if l.op != 'poly':
                        mon = None
                        break
                    if l.a:
                        if len(l.a) != 1 or (mon is not None and mon != l.a[0][0]):
                            mon = None
                            break
                        mon = l.a[0][0]
                if mon is None:
                    continue
                # body height differs with the gates: key on opened monomial
                rest = m[:i] + m[i + 1:]
                groups.setdefault((x.a[0], rest), []).append((m, c, x))
                break
    todo = []
    for key, lst in groups.items():
        if len(lst) < 2:
            continue
        # group by monomial after opening with a common symbol
        by = {}
        for m, c, x in lst:
            bvv = x.a[1][0]
            s = commonsym(bvv.sort)
            body = subst(x.a[2][0], {bvv: expand(s, s.sort)})
            mon = None
            for l in leaves(body):
                if l.op == 'poly' and l.a:
                    mon = l.a[0][0]
            by.setdefault(mon, []).append((m, c, x, body, s))
        for mon, l2 in by.items():
            if len(l2) > 1:
                todo.append((key, l2))
    if not todo:
        return p
    r = p
    for (prm, rest), l2 in todo:
        tot = ZERO
        d = dict(r.a)
        for m, c, x, body, s in l2:
            if m in d:
                del d[m]
            tot = add(tot, mul(body, pconst(c)))
        r = pmake(d)
        extra = mul(mk_sum(prm[0], s, tot), pmake({rest: Fraction(1)}))
        r = add(r, extra)
    return r


_common = {}


def commonsym(sort):
    s = _common.get(sort)
    if s is None:
        s = _common[sort] = sym('$common', sort)
    return s


def key_elim(body, s, zero):
    """sum over keys: body nonzero only where s equals a given key"""
    for kp in key_points(body, s):
        if isinstance(kp, tuple):
            f, y = kp
            # record key with a single field
            if len(s.sort[2]) == 1:
                e = rec(s.sort, [y])
            else:
                e = None
                # all fields pinned?
                vals = []
                for fn, fs in s.sort[2]:
                    c = [z[1] for z in key_points(body, s) if isinstance(z, tuple) and z[0] == fn]
                    vals.append(c[0] if c else None)
                if all(v is not None for v in vals):
                    e = rec(s.sort, vals)
            if e is None:
                continue
        else:
            e = kp
        cond = eq(expand(s, s.sort), e)
        other = assume(body, bnot(cond))
        if ite(cond, zero, body) is zero or _all_zero(ite(cond, zero, body), zero):
            return subst(assume(body, cond), {s: e})
        del other
    if is_num(s.sort):
        for p, k, e in eq_points(body, s):
            lo, mid, hi = region(body, p, k)
            if lo is hi and lo is zero and mid is not zero:
                return subst(mid, {s: e})
    return None


def _all_zero(f, z):
    return all(l is z for l in leaves(f))


def _bind_sum(t, params, syms, bodies):
    return mk_sum(params[0], syms[0], bodies[0])


BIND['sum'] = _bind_sum


# --------------------------------------------------------------------------
# existential gates
# --------------------------------------------------------------------------

def cubes(f):
    """all prime implicants of boolean diagram f, as tuples of (gate, value)"""
    return _primes(f, {})


def _primes(f, memo):
    if f is TRUE:
        return [()]
    if f is FALSE:
        return []
    if f in memo:
        return memo[f]
    at, f1, f0 = f.a
    both = band(f1, f0)
    pb = _primes(both, memo)
    out = list(pb)
    for val, g in ((True, f1), (False, f0)):
        for c in _primes(g, memo):
            cd = cube_dd(c)
            # covered by an implicant not mentioning the gate?
            if any(band(cd, bnot(cube_dd(p))) is FALSE for p in pb):
                continue
            out.append(((at, val),) + c)
    memo[f] = out
    return out


def cube_dd(c):
    r = TRUE
    for at, v in c:
        A = node(at, TRUE, FALSE)
        r = band(r, A if v else bnot(A))
    return r


def mk_ex(rng, s, body):
    if body is FALSE:
        return FALSE
    if rng[0] == 'n':
        n = rng[1]
        if n.op == 'ite':
            return lift('exn%d.%d' % (s.id, body.id), lambda x: mk_ex(('n', x), s, body), n)
        cn = const_of(n)
        if cn is not None and cn <= 0:
            return FALSE
        body = range_assume(body, s, n)
        if body is TRUE:
            return lt(ZERO, n)
    r = hoist(body, s, lambda f: mk_ex(rng, s, f))
    if r is not None:
        return r
    res = FALSE
    dds = []
    for c in cubes(body):
        d = cube_dd(c)
        if d is FALSE:
            continue
        dds.append(d)
    # absorption
    keep = []
    for i, d in enumerate(dds):
        if any(j != i and band(d, bnot(e)) is FALSE and (d is not e or j < i) for j, e in enumerate(dds)):
            continue
        keep.append(d)
    for d in keep:
        res = bor(res, _ex_cube(rng, s, d))
    return res


def _ex_cube(rng, s, d):
    r = hoist(d, s, lambda f: _ex_cube(rng, s, f) if f is not FALSE else FALSE)
    if r is not None:
        return r
    if d is FALSE:
        return FALSE
    if rng[0] == 'n':
        n = rng[1]
        if d is TRUE:
            return lt(ZERO, n)
        for p, k, e in eq_points(d, s):
            lo, mid, hi = region(d, p, k)
            if lo is FALSE and hi is FALSE:
                return band(in_range(e, n), subst(mid, {s: e}))
        if d.op == 'ite' and d.a[0].op == 'ex' and d.a[1] is TRUE and d.a[2] is FALSE:
            c = flatten(d.a[0], s, n)
            if c is not None:
                return mk_ex(*c)
        c = edge(d, s, n) or cover(d, s, n)
        if c is not None:
            return c
        t1 = mkbind('ex', (rng,), (s,), (d,), 'b')
        s2 = fresh('o', 'n')
        fl = subst(d, {s: sub(sub(n, ONE), pvar(s2))})
        fl = range_assume(fl, s2, n)
        t2 = mkbind('ex', (rng,), (s2,), (fl,), 'b')
        return batom(t1 if t1.id < t2.id else t2)
    if d is TRUE:
        return TRUE
    r = key_elim_b(d, s)
    if r is not None:
        return r
    return batom(mkbind('ex', (('k', rng[1]),), (s,), (d,), 'b'))


def key_elim_b(d, s):
    for kp in key_points(d, s):
        if isinstance(kp, tuple):
            vals = []
            for fn, fs in s.sort[2]:
                c = [z[1] for z in key_points(d, s) if isinstance(z, tuple) and z[0] == fn]
                vals.append(c[0] if c else None)
            if any(v is None for v in vals):
                continue
            e = rec(s.sort, vals)
        else:
            e = kp
        cond = eq(expand(s, s.sort), e)
        if band(d, bnot(cond)) is FALSE:
            return subst(assume(d, cond), {s: e})
    if is_num(s.sort):
        for p, k, e in eq_points(d, s):
            lo, mid, hi = region(d, p, k)
            if lo is FALSE and hi is FALSE:
                r = subst(mid, {s: e})
                return r
    return None


def mk_all(rng, s, body):
    return bnot(mk_ex(rng, s, bnot(body)))


BIND['ex'] = lambda t, params, syms, bodies: mk_ex(params[0], syms[0], bodies[0])


# first index below n satisfying the gate, n if there is none
def mk_first(rng, s, body):
    if rng[0] == 'n':
        n = rng[1]
        if body is FALSE:
            return trip(n)
        if n.op == 'ite':
            return lift('firstn%d.%d' % (s.id, body.id), lambda x: mk_first(('n', x), s, body), n)
        body = range_assume(body, s, n)
        r = hoist(body, s, lambda f: mk_first(rng, s, f))
        if r is not None:
            return r
        if body is TRUE:
            return ZERO
        return pvar(mkbind('first', (rng,), (s,), (body,), 'n'))
    t = mkbind('first', (rng,), (s,), (body,), s.sort)
    return expand(t, t.sort)


BIND['first'] = lambda t, params, syms, bodies: mk_first(params[0], syms[0], bodies[0])


# value at the last position satisfying guard (only used under the matching ex gate)
def mk_last(rng, s, guard, val):
    if val.op == 'rec':
        return mk('rec', (val.a[0],) + tuple(mk_last(rng, s, guard, x) for x in val.a[1:]), val.sort)
    val = assume(val, guard)
    if not depends(val, s):
        return val
    nat = val.sort == 'i' and all(nonneg(x) for x in leaves(val))
    t = mkbind('last', (rng,), (s,), (guard, val), 'n' if nat else val.sort)
    return expand(t, t.sort)


def _bind_last(t, params, syms, bodies):
    rng, s = params[0], syms[0]
    return solve_assign(rng, s, bodies[0], bodies[1], None)


BIND['last'] = _bind_last


def equate(val, guard, s):
    """rewrite val with the equalities guard implies between a term of s and a term free of s"""
    if guard.op != 'ite' or s.id not in val.fs:
        return val
    for a in atoms_of(guard):
        if a.op == 'eq' and s.id in a.fs and band(guard, bnot(node(a, TRUE, FALSE))) is FALSE:
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if s.id in y.fs and y is not s and s.id not in x.fs:
                    val = subst(val, {y: x})
                    break
    for q, k in _point_atoms(guard):
        if s.id not in q.fs or s.id not in val.fs:
            continue
        dep = [(m, c) for m, c in q.a if any(s.id in x.fs for x, _ in m)]
        if len(dep) != 1 or len(dep[0][0]) != 1 or dep[0][0][0][1] != 1 or abs(dep[0][1]) != 1 or dep[0][0][0][0] is s:
            continue
        if band(guard, bnot(node(mk('le', (q, k), 'b'), TRUE, FALSE))) is FALSE and band(guard, _thr(q, k - 1, False, True)) is FALSE:
            m, c = dep[0]
            val = subst(val, {m[0][0]: pscale(psub(pconst(k), psub(q, pmake({m: c}))), 1 / c)})
    return val


def _point_atoms(g):
    """integer polynomials q and k with gates q <= k-1 and q <= k in g"""
    fams = {}
    for a in atoms_of(g):
        if a.op == 'le' and a.a[0].sort == 'i':
            fams.setdefault(a.a[0], []).append(a.a[1])
    return [(q, k) for q, ks in fams.items() for k in ks if k - 1 in ks]


def solve_assign(rng, s, guard, val, x0):
    """value after: for s in rng: if (guard) x = val;   (x0 initially; None: undefined)"""
    if guard is FALSE:
        return x0
    val = equate(val, guard, s)
    if rng[0] == 'n':
        n = rng[1]
        if n.op == 'ite' and x0 is not None:
            return lift('asgn%d.%d.%d.%d' % (s.id, guard.id, val.id, x0.id), lambda x: solve_assign(('n', x), s, guard, val, x0), n)
        guard = range_assume(guard, s, n) if n.op != 'ite' else guard
        val = assume(val, guard)
        for p, k, e in eq_points(guard, s):
            lo, mid, hi = region(guard, p, k)
            if lo is FALSE and hi is FALSE:
                ve = subst(assume(val, guard), {s: e})
                if x0 is None:
                    return ve
                return ite(band(in_range(e, n), subst(mid, {s: e})), ve, x0)
        if guard is TRUE:
            ve = subst(val, {s: sub(n, ONE)})
            return ve if x0 is None else ite(lt(ZERO, n), ve, x0)
    else:
        val = assume(val, guard)
        if val.op != 'rec' or True:
            for e in key_candidates(guard, s):
                cond = eq(expand(s, s.sort), e)
                if band(guard, bnot(cond)) is FALSE:
                    ve = subst(assume(val, guard), {s: e})
                    if x0 is None:
                        return ve
                    return ite(subst(assume(guard, cond), {s: e}), ve, x0)
    v = mk_last(rng, s, guard, val)
    if x0 is None:
        return v
    return ite(mk_ex(rng, s, guard), v, x0)


def key_candidates(f, s, raw=False):
    out = []
    kps = key_points(f, s)
    if isinstance(s.sort, tuple) and s.sort[0] == 'rec':
        vals = []
        for fn, fs in s.sort[2]:
            c = [z[1] for z in kps if isinstance(z, tuple) and z[0] == fn]
            if not c and is_num(fs):
                x = mk('fld', (s, fn), fs)
                for p, k, e in eq_points_atom(f, x):
                    c.append(e)
            vals.append(c[0] if c else None)
        if all(v is not None for v in vals):
            out.append(rec(s.sort, vals))
    elif is_num(s.sort):
        for p, k, e in eq_points(f, s):
            if raw:
                out.append(e)
                continue
            lo, mid, hi = region(f, p, k)
            if lo is FALSE and hi is FALSE:
                out.append(e)
    else:
        out.extend(kps)
    return out


def eq_points_atom(f, x):
    """like eq_points for a numeric atom x (field of a record key)"""
    out = []
    fam = {}
    for at in atoms_of(f):
        if at.op == 'le':
            fam.setdefault(at.a[0], []).append(at.a[1])
    for p, ks in fam.items():
        coef = Fraction(0)
        rest = {}
        ok = True
        for m, c in p.a:
            if m == ((x, 1),):
                coef = c
            elif any(y is x for y, _ in m):
                ok = False
            else:
                rest[m] = c
        if not ok or abs(coef) != 1:
            continue
        for k in ks:
            e = pscale(psub(pconst(k), pmake(rest)), 1 / coef)
            lo, mid, hi = region(f, p, k)
            if lo is FALSE and hi is FALSE:
                out.append((p, k, e))
    return out


# maxima / minima over a range ----------------------------------------------

def mk_maxr(op, rng, init, s, body):
    """init: value or None (non-empty range assumed)"""
    if rng[0] == 'n' and rng[1].op == 'ite':
        return lift('%s%d.%d.%d' % (op, s.id, body.id, init.id if init is not None else 0),
                    lambda x: mk_maxr(op, ('n', x), init, s, body), rng[1])
    if init is not None and init.op == 'ite':
        return lift('%si%d.%d' % (op, s.id, body.id), lambda x: mk_maxr(op, rng, x, s, body), init)
    if not depends(body, s):
        v = body if init is None else (vmax if op == 'maxr' else vmin)(init, body)
        if rng[0] == 'n':
            return v if init is None else ite(lt(ZERO, rng[1]), v, init)
    srt = 'r'
    if all(l.sort in ('i', 'n') for l in leaves(body)) and (init is None or init.sort in ('i', 'n')):
        srt = 'i'
        if init is not None and nonneg(init) and op == 'maxr':
            srt = 'n'
    return pvar(mkbind(op, (('k', rng[1]) if rng[0] == 'u' else rng, init), (s,), (body,), srt))


BIND['maxr'] = lambda t, params, syms, bodies: mk_maxr('maxr', params[0], params[1], syms[0], bodies[0])
BIND['minr'] = lambda t, params, syms, bodies: mk_maxr('minr', params[0], params[1], syms[0], bodies[0])


# --------------------------------------------------------------------------
# sequences
# --------------------------------------------------------------------------

def default_of(sort):
    if is_num(sort):
        return ZERO
    if sort == 'b':
        return FALSE
    if sort == 's':
        return mk('str', ('',), 's')
    if sort[0] == 'v':
        return mk_arr(ZERO, fresh('o', 'n'), None, sort)
    if sort[0] == 'm':
        return mk_map(fresh('o', sort[1]), FALSE, default_of(sort[2]), sort)
    if sort[0] == 'set':
        return mk_set(fresh('o', sort[1]), FALSE, sort)
    if sort[0] == 'rec':
        return rec(sort, [default_of(s) for _, s in sort[2]])
    if sort[0] == 'p':
        return NULL
    return mk('fn', ('default', ()), sort)


_arr_cache = {}


def mk_arr(n, s, body, sort):
    """sequence of length n, element body at index s"""
    key = (n, s, body, sort)
    r = _arr_cache.get(key)
    if r is None:
        if len(_arr_cache) > 100000:
            _arr_cache.clear()
        r = _arr_cache[key] = _mk_arr(n, s, body, sort)
    return r


def _mk_arr(n, s, body, sort):
    if n.op == 'ite':
        return lift('arrn%d.%d' % (s.id, body.id if body is not None else 0), lambda x: mk_arr(x, s, body, sort), n)
    cn = const_of(n)
    if (cn is not None and cn <= 0) or body is None:
        return mk('arr', ((ZERO,), (bv(1, 'n'),), (None,)), sort)
    body = range_assume(body, s, n)
    if cn == 1:
        body = subst(body, {s: ZERO})
    else:
        body = unedge(pin(body, s), s)
    r = hoist(body, s, lambda f: mk_arr(n, s, f, sort))
    if r is not None:
        return r
    # eta
    src = eta_source(body, s)
    if src is not None:
        if size(src) is n:
            return src
    return mkbind('arr', (n,), (s,), (body,), sort)


def eta_source(body, s):
    if body.op == 'poly':
        if len(body.a) == 1 and body.a[0][1] == 1 and len(body.a[0][0]) == 1 and body.a[0][0][0][1] == 1:
            x = body.a[0][0][0][0]
        else:
            return None
    elif body.op == 'ite' and body.a[1] is TRUE and body.a[2] is FALSE:
        x = body.a[0]
    elif body.op == 'rec':
        srcs = [eta_source(y, s) if False else _fldsrc(y) for y in body.a[1:]]
        if not srcs or any(z is None for z in srcs):
            return None
        x = srcs[0][0]
        for (z, f), (fn, _) in zip(srcs, body.sort[2]):
            if z is not x or f != fn:
                return None
    else:
        x = body
    if x.op == 'at' and s.id not in x.a[0].fs and x.a[1] is pvar(s):
        return x.a[0]
    return None


def _fldsrc(v):
    """(x, f) when v is the expanded field f of opaque x"""
    if v.op == 'poly' and len(v.a) == 1 and v.a[0][1] == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0][1] == 1:
        v = v.a[0][0][0][0]
    elif v.op == 'ite' and v.a[1] is TRUE and v.a[2] is FALSE:
        v = v.a[0]
    elif v.op == 'rec':
        inner = [_fldsrc(y) for y in v.a[1:]]
        if not inner or any(z is None for z in inner):
            return None
        x = inner[0][0]
        for (z, f), (fn, _) in zip(inner, v.sort[2]):
            if z is not x or f != fn:
                return None
        v = x
    if v.op == 'fld':
        return v.a[0], v.a[1]
    return None


def contract(v):
    """opaque term whose expansion is v, else v (inverse of expand)"""
    if v.op == 'poly' and len(v.a) == 1 and v.a[0][1] == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0][1] == 1:
        return v.a[0][0][0][0]
    if v.op == 'ite' and v.a[1] is TRUE and v.a[2] is FALSE:
        return v.a[0]
    if v.op == 'rec':
        inner = [_fldsrc(y) for y in v.a[1:]]
        if inner and all(z is not None for z in inner):
            x = inner[0][0]
            if all(z is x and f == fn for (z, f), (fn, _) in zip(inner, v.sort[2])) and x.sort == v.sort:
                return x
    return v


def elem_sort(sort):
    return sort[1] if sort[0] == 'v' else 'i'


def size(v):
    def g(x):
        if x.op == 'arr':
            return trip(x.a[0][0])
        if x.op == 'cat':
            r = ZERO
            for p in x.a:
                r = add(r, size(p))
            return r
        if x.op == 'flat':
            params, syms, bodies = open_(x)
            return mk_sum(params[0], syms[0], size(bodies[0]))
        if x.op == 'seg':
            params, syms, bodies = open_(x)
            return mk_sum(params[0], syms[0], bodies[0])
        if x.op == 'fn' and x.a[0] in ('sort', 'sortby', 'seal'):
            return size(x.a[1][0])
        return pvar(mk('size', (x,), 'n'))
    return lift('size', g, v)


def oob(es):
    """element outside a sequence"""
    return expand(mk('fn', ('oob', ()), es), es)


def at(v, i):
    def g(x, j):
        es = elem_sort(x.sort)
        if x.op == 'arr':
            bvv = x.a[1][0]
            if x.a[2][0] is None:
                return oob(es)
            return subst(x.a[2][0], {bvv: j})
        if x.op == 'cat':
            off = ZERO
            parts = []
            for p in x.a:
                parts.append((off, p))
                off = add(off, size(p))
            r = at(parts[-1][1], sub(j, parts[-1][0]))
            for o, p in reversed(parts[:-1]):
                r = ite(lt(j, add(o, size(p))), at(p, sub(j, o)), r)
            return r
        if x.op == 'seg':
            r = seg_at(x, j)
            if r is not None:
                return r
        if es == 'i' and x.op == 'fn' and x.a[0] == 'seal' and all_nat(x.a[1][0]):
            es = 'n'
        return expand(mk('at', (x, j), es), es)
    return lift('at', g, v, i)


def all_nat(x):
    """all elements of the sequence are non-negative"""
    if x.op == 'arr':
        b = x.a[2][0]
        return b is None or all(nonneg(y) for y in leaves(b))
    if x.op == 'cat':
        return all(all_nat(y) for y in x.a)
    if x.op in ('flat', 'seg'):
        return all(all_nat(y) if isinstance(y.sort, tuple) else nonneg(y) for y in leaves(x.a[2][-1]))
    return x.op == 'fn' and x.a[0] == 'seal' and all_nat(x.a[1][0])


def larger(t, n):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if len(seen) > n:
                return True
            if not (x.op == 'fn' and x.a[0] == 'seal'):
                st.extend(x.a)
    return False


def has_pointer(s):
    return isinstance(s, tuple) and (s[0] == 'p' or (
        any(has_pointer(x) for _, x in s[2]) if s[0] == 'rec' else any(has_pointer(x) for x in s[1:])))


def seal(v, n, old=None):
    """v with its large sequences (other than those of old) made names: equal to themselves, elements not looked into"""
    if v is old:
        return v
    if v.op == 'rec':
        olds = old.a[1:] if old is not None and old.op == 'rec' and len(old.a) == len(v.a) else [None] * len(v.a)
        return mk('rec', (v.a[0],) + tuple(seal(x, n, o) for x, o in zip(v.a[1:], olds)), v.sort)
    if not (isinstance(v.sort, tuple) and v.sort[0] == 'v'):
        return v
    if v.op == 'ite':
        return ite(node(v.a[0], TRUE, FALSE), seal(v.a[1], n), seal(v.a[2], n))
    if v.op == 'arr' and size(v) is ONE and isinstance(v.sort[1], tuple) and v.sort[1][0] == 'rec':
        # one object on the heap: its members, not the object
        o = at(old, ZERO) if old is not None and old.op == 'arr' and size(old) is ONE else None
        return const_seq(ONE, seal(at(v, ZERO), n, o), v.sort)
    if v.op in ('arr', 'cat', 'flat', 'seg', 'foldp') and larger(v, n) and not has_pointer(v.sort):
        return mk('fn', ('seal', (v,)), v.sort)
    return v


def seg_at(x, j):
    """element of a concatenation of segments at  prefix(t) + i"""
    (rng,), (bvv,), (ln, el) = x.a
    # j = sum_{u<t} len(u) + i  ?
    for m, c in j.a:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
            sm = m[0][0]
            r2 = sm.a[0][0]
            if r2[0] != 'n':
                continue
            s = commonsym('n')
            b1 = subst(sm.a[2][0], {sm.a[1][0]: pvar(s)})
            b2 = subst(ln, {bvv: pvar(s)})
            if b1 is b2:
                t = r2[1]
                i = psub(j, pvar(sm))
                return at(subst(el, {bvv: t}), i)
    # segment 0
    return None


def set_at(v, i, w):
    """v with element i replaced"""
    n = size(v)
    s = fresh('o', 'n')
    body = ite(eq(pvar(s), i), w, at(v, pvar(s)))
    return mk_arr(n, s, body, v.sort if v.op != 'ite' else leaves(v)[0].sort)


def vsort(v):
    return v.sort


def const_seq(n, w, sort):
    return mk_arr(n, fresh('o', 'n'), w, sort)


def one(w, sort):
    return mk_arr(ONE, fresh('o', 'n'), w, sort)


def is_pure_arr(x):
    """sequence given by length and element function"""
    return x.op in ('arr', 'sym', 'at', 'mat', 'fld', 'fn', 'app', 'last')


def cat(*ps):
    """concatenation"""
    r = ps[0]
    for p in ps[1:]:
        r = lift('cat', _cat2, r, p)
    return r


def _cat2(a, b):
    if a.op == 'arr' and a.a[2][0] is None:
        return b
    if b.op == 'arr' and b.a[2][0] is None:
        return a
    la = list(a.a) if a.op == 'cat' else [a]
    lb = list(b.a) if b.op == 'cat' else [b]
    parts = la + lb
    out = [parts[0]]
    for p in parts[1:]:
        q = out[-1]
        if is_fixed(q) and is_fixed(p):
            m = joinarr(q, p)
            if m.op != 'ite' and m.op != 'cat':
                out[-1] = m
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out), a.sort)


def is_fixed(x):
    if x.op == 'arr':
        return True
    return x.op in ('sym', 'at', 'mat', 'fld', 'fn', 'last') and not is_seqvar(x)


def is_seqvar(x):
    return x.op == 'sym' and x.a[0].startswith('mu')


def joinarr(a, b):
    na, nb = size(a), size(b)
    s = fresh('o', 'n')
    return mk_arr(add(na, nb), s, ite(lt(pvar(s), na), at(a, pvar(s)), at(b, sub(pvar(s), na))), a.sort)


def mk_flat(rng, s, body, sort):
    """concatenation over s of the sequences body"""
    if rng[0] == 'n' and rng[1].op == 'ite':
        return lift('flat%d.%d' % (s.id, body.id), lambda x: mk_flat(('n', x), s, body, sort), rng[1])
    if rng[0] == 'n':
        body = range_assume(body, s, rng[1])
    r = hoist(body, s, lambda f: mk_flat(rng, s, f, sort))
    if r is not None:
        return r
    lv = leaves(body)
    if len(lv) == 1 and lv[0].op == 'arr' and lv[0].a[2][0] is None:
        return lv[0]
    if rng[0] == 'n' and all(l.op == 'arr' and const_of(l.a[0][0]) == 1 for l in lv):
        el = at(body, ZERO)
        return mk_arr(trip(rng[1]), s, el, sort)
    if rng[0] == 'k':
        nothing = default_of(sort)
        for e in key_candidates(body, s, raw=True):
            c = eq(expand(s, s.sort), e)
            if ite(c, body, nothing) is body:
                return subst(assume(body, c), {s: e})
    return mkbind('flat', (rng,), (s,), (body,), sort)


BIND['flat'] = lambda t, params, syms, bodies: mk_flat(params[0], syms[0], bodies[0], t.sort)
BIND['arr'] = lambda t, params, syms, bodies: mk_arr(params[0], syms[0], bodies[0], t.sort)


def mk_seg(rng, s, ln, el, sort):
    """concatenation over s<n of the first ln(s) elements of sequence el(s)"""
    return mkbind('seg', (rng,), (s,), (ln, el), sort)


BIND['seg'] = lambda t, params, syms, bodies: mk_seg(params[0], syms[0], bodies[0], bodies[1], t.sort)


def slice_(v, lo, n):
    s = fresh('o', 'n')
    return mk_arr(n, s, at(v, add(lo, pvar(s))), vsort1(v))


def vsort1(v):
    return v.sort


# --------------------------------------------------------------------------
# maps and sets
# --------------------------------------------------------------------------

def mk_map(s, has, val, sort):
    val = assume(val, has)
    if has is FALSE:
        val = default_of(sort[2])
    val = ite(has, val, default_of(sort[2])) if has is not TRUE else val
    return _mk_map_raw(s, has, val, sort)


def _mk_map_raw(s, has, val, sort):
    for f in (has, val):
        at_ = split_invariant(f, s)
        if at_ is not None:
            A = node(at_, TRUE, FALSE)
            return ite(A, _mk_map_raw(s, assign_atom(has, at_, True), assign_atom(val, at_, True), sort),
                       _mk_map_raw(s, assign_atom(has, at_, False), assign_atom(val, at_, False), sort))
    # eta
    if has.op == 'ite' and has.a[1] is TRUE and has.a[2] is FALSE and has.a[0].op == 'has':
        m, k = has.a[0].a
        if k is expand(s, s.sort) and s.id not in m.fs and m.sort == sort:
            raw = ite(has, expand(mk('mat', (m, k), sort[2]), sort[2]), default_of(sort[2]))
            if val is raw:
                return m
    return mkbind('map', (), (s,), (has, val), sort)


BIND['map'] = lambda t, params, syms, bodies: _mk_map_raw(syms[0], bodies[0], bodies[1], t.sort)


def mk_set(s, has_, sort):
    at_ = split_invariant(has_, s)
    if at_ is not None:
        A = node(at_, TRUE, FALSE)
        return ite(A, mk_set(s, assign_atom(has_, at_, True), sort), mk_set(s, assign_atom(has_, at_, False), sort))
    if has_.op == 'ite' and has_.a[1] is TRUE and has_.a[2] is FALSE and has_.a[0].op == 'has':
        m, k = has_.a[0].a
        if k is expand(s, s.sort) and s.id not in m.fs and m.sort == sort:
            return m
    return mkbind('set', (), (s,), (has_,), sort)


BIND['set'] = lambda t, params, syms, bodies: mk_set(syms[0], bodies[0], t.sort)


def has(m, k):
    def g(x, kk):
        if x.op in ('map', 'set'):
            return subst(x.a[2][0], {x.a[1][0]: kk})
        return batom(mk('has', (x, kk), 'b'))
    return lift('has', g, m, k) if k.op != 'rec' else _has_rec(m, k)


def _has_rec(m, k):
    # record keys may have gated fields: lift them first
    fs = k.a[1:]
    return lift('hasrec%s' % (k.sort,), lambda mm, *ff: _has1(mm, rec(k.sort, ff)), m, *fs)


def _has1(x, kk):
    if x.op in ('map', 'set'):
        return subst(x.a[2][0], {x.a[1][0]: kk})
    return batom(mk('has', (x, kk), 'b'))


def mat(m, k):
    """mapped value, default value where absent"""
    if k.op == 'rec':
        return lift('matrec%s' % (k.sort,), lambda mm, *ff: _mat1(mm, rec(k.sort, ff)), m, *k.a[1:])
    return lift('mat', _mat1, m, k)


def _mat1(x, kk):
    if x.op == 'map':
        return subst(x.a[2][1], {x.a[1][0]: kk})
    vs = x.sort[2]
    return ite(_has1(x, kk), expand(mk('mat', (x, kk), vs), vs), default_of(vs))


def map_set(m, k, v):
    s = fresh('o', m.sort[1])
    ks = expand(s, s.sort)
    c = eq(ks, k)
    return _mk_map_raw(s, ite(c, TRUE, has(m, ks)), ite(c, v, mat(m, ks)), m.sort)


def map_erase(m, k):
    s = fresh('o', m.sort[1])
    ks = expand(s, s.sort)
    c = eq(ks, k)
    if m.sort[0] == 'set':
        return mk_set(s, ite(c, FALSE, has(m, ks)), m.sort)
    return _mk_map_raw(s, ite(c, FALSE, has(m, ks)), ite(c, default_of(m.sort[2]), mat(m, ks)), m.sort)


def set_insert(m, k):
    s = fresh('o', m.sort[1])
    ks = expand(s, s.sort)
    return mk_set(s, ite(eq(ks, k), TRUE, has(m, ks)), m.sort)


def msize(m):
    s = fresh('o', m.sort[1])
    return mk_sum(('k', m.sort[1]), s, ite(has(m, expand(s, s.sort)), ONE, ZERO))


def mempty(m):
    s = fresh('o', m.sort[1])
    return bnot(mk_ex(('k', m.sort[1]), s, has(m, expand(s, s.sort))))


# --------------------------------------------------------------------------
# functions (component state of loops)
# --------------------------------------------------------------------------

def app(f, *args):
    """apply a function-sorted symbol / lambda / fold projection"""
    if f.op == 'lam':
        _, bvs, bodies = f.a
        return subst(bodies[0], dict(zip(bvs, args)))
    if f.op == 'ite':
        return ite(node(f.a[0], TRUE, FALSE), app(f.a[1], *args), app(f.a[2], *args))
    return lift('app%d' % f.id, lambda *xs: expand(mk('app', (f,) + xs, f.sort[2]), f.sort[2]), *args) if args else \
        expand(mk('app', (f,), f.sort[2]), f.sort[2])


def lam(syms, body):
    return mkbind('lam', (), tuple(syms), (body,), ('fun', tuple(s.sort for s in syms), body.sort))


BIND['lam'] = lambda t, params, syms, bodies: _lam_rebuild(t, syms, bodies[0])


def _lam_rebuild(t, syms, body):
    return mkbind('lam', (), syms, (body,), t.sort)


# fold: loop-carried state that has no closed form ---------------------------
# a = ((kind, range|None, inits), (t, mu...), (cond|None, body...))   [binder]
# projection: ('foldp', (fold, index))

def _rebuild_fold(t, params, syms, bodies):
    kind, rng, inits, sorts = params
    return canon_fold(kind, rng, list(inits), syms[0], list(syms[1:]), bodies[0], list(bodies[1:]))


def canon_fold(kind, rng, inits, t, mus, cond, bodies):
    """canonical order of the state functions by colour refinement; returns the
    fold term.  inits/bodies are function-sorted values (lam or others)."""
    n = len(mus)
    if kind == 'w' and rng is not None:
        kind = 'n'          # a while loop found to be counted
    # colours: first from the sort, then from the body with the state functions coloured
    col = [sym('$c', mus[i].sort) for i in range(n)]
    t0 = mk('sym', ('$ct',), t.sort)
    for _ in range(n + 1):
        if len(set(col)) == n:
            break
        m = {mus[i]: col[i] for i in range(n)}
        m[t] = expand(t0, t.sort)
        ncol = [sym('$c%d' % subst(bodies[i], m).id, mus[i].sort) for i in range(n)]
        if _ > 0 and _stable(col, ncol):
            col = ncol
            break
        col = ncol
    distinct = len(set(col)) == n
    order = sorted(range(n), key=lambda i: (col[i].a[0], str(col[i].sort), inits[i].id, i))
    inits2 = tuple(inits[i] for i in order)
    mus2 = tuple(mus[i] for i in order)
    bodies2 = tuple(bodies[i] for i in order)
    sorts = tuple(mu.sort for mu in mus2)
    f = mkbind('fold', (kind, rng, inits2, sorts), (t,) + mus2, (cond,) + bodies2, 'fold')
    if distinct:
        DISTINCT.add(f)
    return f, order


def _stable(a, b):
    pa = {}
    for i, x in enumerate(a):
        pa.setdefault(x, set()).add(i)
    pb = {}
    for i, x in enumerate(b):
        pb.setdefault(x, set()).add(i)
    return sorted(map(sorted, pa.values())) == sorted(map(sorted, pb.values()))


BIND['fold'] = lambda t, params, syms, bodies: _rebuild_fold(t, params, syms, bodies)


def mk_foldp(f, i):
    """final value of state component i (i == -1: number of iterations)"""
    if i == -1:
        return expand(mk('foldp', (f, -1), 'n'), 'n')
    kind, rng, inits, sorts = f.a[0]
    if kind == 'n' and rng is not None and const_of(rng[1]) is not None and const_of(rng[1]) <= 0:
        return inits[i]
    so = sorts[i]
    if so == 'i' and kind != 'k' and grows(f, i) and all(x.op == 'poly' and nonneg(x) for x in leaves(inits[i])):
        so = 'n'
    t = mk('foldp', (f, i), so)
    return expand(t, t.sort)


_grows = {}


def grows(f, i):
    """state component i never decreases from one iteration to the next"""
    r = _grows.get((f, i))
    if r is None:
        _grows[f, i] = False
        r = _grows[f, i] = all(at_least(x, f.a[1][i + 1]) for x in leaves(f.a[2][i + 1]))
    return r


def at_least(x, b):
    """x >= b, as b plus something non-negative or as the result of a loop that starts from b and never decreases it"""
    if x.op != 'poly':
        return False
    if nonneg(psub(x, pvar(b))):
        return True
    for m, c in x.a:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'foldp' and m[0][0].a[1] >= 0:
            y = m[0][0]
            g, j = y.a
            if nonneg(psub(x, pvar(y))) and g.a[0][0] != 'k' and grows(g, j) and all(at_least(z, b) for z in leaves(g.a[0][2][j])):
                return True
    return False


def _build_foldp(t, na):
    f = na[0]
    if isinstance(f, tuple):        # canon_fold result after substitution
        g, order = f
        return mk_foldp(g, order.index(t.a[1]) if t.a[1] >= 0 else -1)
    return mk_foldp(f, t.a[1])


BUILD['foldp'] = _build_foldp


# --------------------------------------------------------------------------
# rebuild of the remaining ops under substitution
# --------------------------------------------------------------------------

def mk_li(base, idx):
    return lift('li', lambda b, i: mk('li', (b, i), ('p', 'elem')), base, idx)


def mk_lk(base, key):
    return mk('lk', (base, key), ('p', 'mapped'))


def mk_le(base, key):
    return mk('le_', (base, key), ('p', 'entry'))


def _b(f):
    return f


BUILD['at'] = lambda t, na: at(na[0], na[1])
BUILD['size'] = lambda t, na: size(na[0])
BUILD['has'] = lambda t, na: has(na[0], na[1])
BUILD['mat'] = lambda t, na: _build_mat(t, na)
BUILD['fld'] = lambda t, na: getf_any(na[0], na[1], t.sort)
BUILD['app'] = lambda t, na: app(na[0], *na[1:])
BUILD['idiv'] = lambda t, na: idiv(na[0], na[1])
BUILD['imod'] = lambda t, na: imod(na[0], na[1])
BUILD['inv'] = lambda t, na: lift('inv', _inv, na[0])
BUILD['mulx'] = lambda t, na: mul(na[0], na[1])
BUILD['eq'] = lambda t, na: eq(na[0], na[1])
BUILD['slt'] = lambda t, na: _build_slt(na[0], na[1])
BUILD['cat'] = lambda t, na: cat(*na)
BUILD['li'] = lambda t, na: mk_li(na[0], na[1])
BUILD['lk'] = lambda t, na: mk_lk(na[0], na[1])
BUILD['le_'] = lambda t, na: mk_le(na[0], na[1])
BUILD['lf'] = lambda t, na: mk('lf', na, t.sort)
BUILD['isnull'] = lambda t, na: eq(na[0], NULL)
BUILD['neg?'] = lambda t, na: batom(mk('neg?', na, 'b'))
BUILD['le'] = lambda t, na: le(na[0], pconst(na[1]))
BUILD['lt'] = lambda t, na: lt(na[0], pconst(na[1]))
BUILD['mit'] = lambda t, na: mk('mit', na, t.sort)
BUILD['mnext'] = lambda t, na: mk('mnext', na, t.sort)
BUILD['mend'] = lambda t, na: mk('mend', na, t.sort)
BUILD['mbeg'] = lambda t, na: mk('mbeg', na, t.sort)
BUILD['lroot'] = lambda t, na: mk('lroot', na, t.sort)


def _build_slt(x, y):
    # stored oriented pair (a,b) with a.id<b.id; reorient
    if x is y:
        return FALSE
    if x.op == 'ite' or y.op == 'ite' or x.op == 'rec':
        return lift('slt', lambda p, q: slt(p, q), x, y)
    return slt(x, y)


def _build_mat(t, na):
    m, k = na
    if k.op == 'rec':
        return lift('matraw%s' % (k.sort,), lambda mm, *ff: _matraw(mm, rec(k.sort, ff)), m, *k.a[1:])
    return lift('matraw', _matraw, m, k)


def _matraw(x, kk):
    if x.op == 'map':
        return subst(x.a[2][1], {x.a[1][0]: kk})
    vs = x.sort[2]
    return expand(mk('mat', (x, kk), vs), vs)


def getf_any(x, f, s):
    if x.op in ('rec', 'ite'):
        return getf(x, f)
    return expand(mk('fld', (x, f), s), s)


def fn(name, args, sort):
    """uninterpreted function"""
    return expand(mk('fn', (name, tuple(args)), sort), sort)


def fnl(name, args, sort):
    """uninterpreted function, lifted over gated arguments"""
    return lift('fn.' + name + str(sort), lambda *xs: fn(name, xs, sort), *args) if args else fn(name, (), sort)


BUILD['fn'] = lambda t, na: _build_fn(t, na)
def _sccstart(a):
    if const_of(a[1]) == 0:
        return ZERO
    # all vertices are in some component of a full search
    base = a[0]
    while base.op == 'fn' and base.a[0] == 'sccrev':
        base = base.a[1][0]
    if base.op == 'fn' and base.a[0] == 'sccall' and a[1] is pvar(mk('fn', ('sccn', (a[0],)), 'n')):
        return base.a[1][0]
    return None


FNSIMP = {
    'sccstart': lambda a, s: _sccstart(a),
    'gstart': lambda a, s: ZERO if const_of(a[2]) == 0 else None,
}


def _build_fn(t, na):
    simp = FNSIMP.get(na[0])
    if simp is not None:
        r = simp(na[1], t.sort)
        if r is not None:
            return r
    return expand(mk('fn', na, t.sort), t.sort)


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------

def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    op = t.op
    if op == 'ite':
        return 'if[%s]{%s}else{%s}' % (show(t.a[0], d), show(t.a[1], depth), show(t.a[2], depth))
    if op == 'poly':
        if not t.a:
            return '0'
        out = []
        for m, c in t.a:
            s = '*'.join(show(x, d) + ('^%d' % e if e != 1 else '') for x, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return ' + '.join(out)
    if op == 'sym':
        return t.a[0]
    if op == 'bv':
        return '#%d' % t.a[0]
    if op in ('le', 'lt'):
        return '%s %s %s' % (show(t.a[0], depth), '<=' if op == 'le' else '<', t.a[1])
    if op in ('true', 'false', 'null'):
        return op
    if op == 'inf':
        return 'inf' if t.a[0] > 0 else '-inf'
    if op == 'rec':
        return '{' + ', '.join('%s=%s' % (f, show(x, d)) for (f, _), x in zip(t.sort[2], t.a[1:])) + '}'
    if op == 'at':
        return '%s[%s]' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'size':
        return '|%s|' % show(t.a[0], d)
    if op == 'fld':
        return '%s.%s' % (show(t.a[0], d), t.a[1])
    if op == 'str':
        return repr(t.a[0])
    if op == 'eq':
        return '%s==%s' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'fn':
        return '%s(%s)' % (t.a[0], ', '.join(show(x, d) for x in t.a[1]))
    if op == 'app':
        return '%s(%s)' % (show(t.a[0], d), ', '.join(show(x, d) for x in t.a[1:]))
    if op in ('sum', 'ex', 'first', 'flat'):
        rng = t.a[0][0]
        return '%s[%s in %s](%s)' % (op, show(t.a[1][0]), show(rng[1], d) if rng[0] == 'n' else 'keys', show(t.a[2][0], depth))
    if op == 'arr':
        return 'seq[%s<%s](%s)' % (show(t.a[1][0]), show(t.a[0][0], d), show(t.a[2][0], depth) if t.a[2][0] is not None else '')
    if op == 'map':
        return 'map[%s](has=%s; val=%s)' % (show(t.a[1][0]), show(t.a[2][0], depth), show(t.a[2][1], depth))
    if op == 'fold':
        return 'loop[%s %s init=%s step=%s]' % (t.a[0][0], show(t.a[0][1], d) if t.a[0][1] else '', show(t.a[0][2], d), show(t.a[2], d))
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in t.a))
