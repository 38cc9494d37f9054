"""Probe pairs: the summary of `impl_X` (library called through its public
interface) is compared with that of `spec_X` (reference in the same language)."""
import os, time
from fractions import Fraction
from . import terms as tm
from . import evalt
from .terms import T, TRUE, FALSE, NULL, ite, band, bor, bnot, expand, sym, default_of, mk
from .interp import Interp, State, Frame, Unmodelled, restrict, OSTREAM
from .loops import LoopMixin
from .stdmodel import Models


class Engine(LoopMixin, Interp):
    pass


class Outcome(object):
    """exc: {type: guard}, normal guard, result and final reference arguments"""

    def __init__(self):
        self.exc = {}
        self.exlines = {}
        self.normal = FALSE
        self.vals = []          # [(name, value)]
        self.stats = None


def param_value(I, p):
    t = p['t'].noref()
    s = I.sort(t)
    if s == OSTREAM:
        return tm.rec(s, [default_of(s[2][0][1])] + [expand(sym('%s.%s' % (p['n'], f), 'i'), 'i') for f, _ in s[2][1:]])
    return expand(sym(p['n'], s), s)


def summarise(prog, fname, opaque=None, config=None, alloc=False, engine=None):
    fos = prog.byname.get(fname)
    if not fos:
        raise Unmodelled('no function ' + fname)
    fo = fos[0]
    I = (engine or Engine)(prog, Models(), opaque or {}, alloc, config)
    st = State({}, TRUE)
    I.heap_start(st)
    args = []
    outs = []
    for p in fo['ps']:
        v = param_value(I, p)
        if p['t'].k == 'ref':
            r = I.root('P:' + p['n'])
            st.mem[r] = v
            args.append(r)
            if not p['t'].to.c:
                outs.append((p['n'], r))
        else:
            args.append(v)
    rt = fo['info']['rt']
    r = I.call_user(fo, None, args, st)
    o = Outcome()
    for x in I.exits:
        if x.kind == 'throw':
            n = x.val.a[0]
            o.exc[n] = bor(o.exc.get(n, FALSE), x.g)
            o.exlines.setdefault(n, []).append(x.line)
    o.normal = st.pc
    if st.pc is not FALSE:
        if rt.k != 'void':
            o.vals.append(('return value', r))
        for n, root in outs:
            o.vals.append((n, st.mem[root]))
    o.engine = I
    o.stats = I.stats
    o.assume = TRUE
    for a in I.assumptions:
        o.assume = band(o.assume, a)
    return o


def canon_text(v):
    """text of a stream log: adjacent pieces joined"""
    return v


def components(nv, A, J, starts):
    """strong components reachable from the start vertices, each after those it leads to"""
    idx, low, on, stack, out = {}, {}, set(), [], []

    def visit(v):
        idx[v] = low[v] = len(idx)
        stack.append(v)
        on.add(v)
        for w in J[A[v]:A[v + 1]]:
            if w not in idx:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(tuple(c))
    for v in starts:
        if v not in idx:
            visit(v)
    return out


def semantics():
    from functools import cmp_to_key
    F = evalt.Fraction

    def index(E, vs, t):
        w = evalt.worst(*vs)
        if w is not None:
            return w
        tag, k, hi = vs
        if hi <= 0:
            return evalt.OOB
        return F(evalt.hashnum(E.val.seed, 'index', tag, str(k)) % int(hi))

    def sort(E, vs, t):
        v = vs[0]
        if isinstance(v, evalt.Bot):
            return v
        w = evalt.worstin(v)
        if w is not None:
            return w
        return tuple(sorted(v, key=evalt.ordkey))

    def sortby(E, vs, t):
        v, f = vs
        if isinstance(v, evalt.Bot):
            return v
        w = evalt.worstin(v)
        if w is not None:
            return w

        def cmp(a, b):
            x = E.apply(f, (a, b))
            if isinstance(x, evalt.Bot):
                raise evalt.Limit()
            if x:
                return -1
            y = E.apply(f, (b, a))
            if isinstance(y, evalt.Bot):
                raise evalt.Limit()
            return 1 if y else 0
        return tuple(sorted(v, key=cmp_to_key(cmp)))

    def setf(E, vs, t):
        w = evalt.worst(*vs)
        if w is not None:
            return w
        o, b, m = [int(x) for x in vs]
        return F((o & ~m) | (b & m))

    def arg(mx):
        def f(E, vs, t):
            v = vs[0]
            if isinstance(v, evalt.Bot):
                return v
            w = evalt.worstin(v)
            if w is not None or not v:
                return w or evalt.OOB
            best = 0
            for i in range(1, len(v)):
                if (v[best] < v[i]) if mx else (v[i] < v[best]):
                    best = i
            return F(best)
        return f

    def bit(op):
        def f(E, vs, t):
            w = evalt.worst(*vs)
            if w is not None:
                return w
            a, b = int(vs[0]), int(vs[1])
            return F(a & b if op == '&' else a | b if op == '|' else a ^ b)
        return f

    def concat(E, vs, t):
        w = evalt.worst(*vs)
        if w is not None:
            return w
        return vs[0] + vs[1]

    def strlen(E, vs, t):
        return vs[0] if isinstance(vs[0], evalt.Bot) else F(len(vs[0]))
    def graph(E, tag, n):
        """one random graph per name and size; a trailing ' asks for the same graph with its edges turned"""
        memo = E.__dict__.setdefault('_graphs', {})
        key = (tag, n)
        if key not in memo:
            base = tag.rstrip("'")
            edges = []
            dense = evalt.hashnum(E.val.seed, 'density', base) % 4 + 1
            acyclic = evalt.hashnum(E.val.seed, 'acyclic', base) % 3
            loops = base.startswith('d') or evalt.hashnum(E.val.seed, 'loops', base) % 3 == 0
            for i in range(n):
                for j in range(n):
                    if (j > i or not acyclic) and evalt.hashnum(E.val.seed, 'edge', base, i, j) % 5 < dense and \
                            (i != j or loops):
                        w = F(evalt.hashnum(E.val.seed, 'weight', base, i, j) % 5 + 1) / (1 if acyclic else 4)
                        if not base.startswith('g'):    # the graph itself takes any weight; the solver is given fluxes
                            w -= evalt.hashnum(E.val.seed, 'sign', base, i, j) % 4
                        edges.append((j, i, w) if tag != base else (i, j, w))
            edges.sort()
            if base.startswith('d'):        # any directed graph: loops, repeated edges, rows in any order
                edges += [e for e in edges if evalt.hashnum(E.val.seed, 'again', base, e[:2]) % 6 == 0]
                edges.sort(key=lambda e: (e[0], evalt.hashnum(E.val.seed, 'place', base, e[:2])))
            st = [sum(1 for e in edges if e[0] < k) for k in range(n + 1)]
            memo[key] = st, [e[1] for e in edges], [e[2] for e in edges]
        return memo[key]

    def gpart(which):
        def f(E, vs, t):
            w = evalt.worst(*vs)
            if w is not None:
                return w
            tag, n, k = vs
            if n > 12 or n < 0:
                return evalt.UNK
            L = graph(E, tag, int(n))[which]
            if which == 0 and k >= len(L):
                return F(L[-1])
            return F(L[int(k)]) if 0 <= k < len(L) else evalt.OOB
        return f

    def scc(E, vs, t):
        w = evalt.worst(*vs)
        for v in vs:
            w = w or evalt.worstin(v)
        if w is not None:
            return w
        nv, A, J = int(vs[0]), [int(x) for x in vs[1]], [int(x) for x in vs[2]]
        if len(A) < nv + 1 or A[0] != 0 or any(A[i] > A[i + 1] for i in range(nv)) or A[nv] > len(J) or \
                any(not 0 <= j < nv for j in J[:A[nv]]):
            return evalt.OOB
        starts = list(range(nv))
        if len(vs) > 3:
            starts = [int(x) for x in vs[3]]
            if any(not 0 <= x < nv for x in starts):
                return evalt.OOB
        comps = components(nv, A, J, starts)
        off = [0]
        for c in comps:
            off.append(off[-1] + len(c))
        return ('scc', nv, tuple(off), tuple(v for c in comps for v in c))

    def sccrev(E, vs, t):
        s = vs[0]
        if isinstance(s, evalt.Bot):
            return s
        comps = [s[3][s[2][i]:s[2][i + 1]] for i in range(len(s[2]) - 1)][::-1]
        off = [0]
        for c in comps:
            off.append(off[-1] + len(c))
        return ('scc', s[1], tuple(off), tuple(v for c in comps for v in c))

    def sccn(E, vs, t):
        return vs[0] if isinstance(vs[0], evalt.Bot) else F(len(vs[0][2]) - 1)

    def sccstart(E, vs, t):
        w = evalt.worst(*vs)
        if w is not None:
            return w
        off, k = vs[0][2], int(vs[1])
        if k < 0:
            return evalt.OOB
        return F(off[k]) if k < len(off) else F(off[-1] + k - len(off) + 1)

    def sccvert(E, vs, t):
        w = evalt.worst(*vs)
        if w is not None:
            return w
        k = int(vs[1])
        return F(vs[0][3][k]) if 0 <= k < len(vs[0][3]) else evalt.OOB
    return {'gstart': gpart(0), 'gnb': gpart(1), 'gw': gpart(2), 'sccall': scc, 'sccreach': scc, 'sccrev': sccrev,
            'sccn': sccn, 'sccstart': sccstart, 'sccvert': sccvert, 'index': index, 'sort': sort, 'sortby': sortby, 'setf': setf, 'argmax': arg(True), 'argmin': arg(False),
            'bit&': bit('&'), 'bit|': bit('|'), 'bit^': bit('^'), 'concat': concat, 'strlen': strlen}


SEM = semantics()


def join_log(v):
    """evaluated stream log -> text pieces"""
    out = []
    for x in v:
        if isinstance(x, tuple) and len(x) > 2 and x[0] == 'f' and x[1] == 'outs' and x[3] in ('0', 0):
            s = x[2]
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
        else:
            out.append(x)
    return tuple(out)


def norm_value(v, sort):
    if isinstance(v, evalt.Bot):
        return v
    if sort == OSTREAM and isinstance(v, tuple):
        return (join_log(v[0]) if isinstance(v[0], tuple) else v[0],) + v[1:]
    return v


def eval_outcome(o, E):
    """('exc', type) | ('ret', values) | Bot | None (assumption violated)"""
    a = E.ev(o.assume)
    if a is False:
        return None
    if isinstance(a, evalt.Bot):
        return None
    for n, g in o.exc.items():
        x = E.ev(g)
        if isinstance(x, evalt.Bot):
            return x
        if x:
            return ('exc', n)
    x = E.ev(o.normal)
    if isinstance(x, evalt.Bot):
        return x
    if not x:
        return None
    return ('ret', tuple(norm_value(E.ev(v), v.sort) for _, v in o.vals))


class Verdict(object):
    def __init__(self, status, what='', detail=None):
        self.status = status        # 'equal' | 'differs' | 'undecided'
        self.what = what
        self.detail = detail or {}


def same_normal_form(a, b):
    mism = []
    asm = band(a.assume, b.assume)
    def eqg(x, y):
        return x is y or band(asm, x) is band(asm, y) or same_value(x, y, asm) or same_value(x, y, band(asm, bor(x, y)))
    for n in sorted(set(a.exc) | set(b.exc)):
        if not eqg(a.exc.get(n, FALSE), b.exc.get(n, FALSE)):
            mism.append('condition for %s' % n)
    if not eqg(a.normal, b.normal):
        mism.append('condition for normal return')
    if [n for n, _ in a.vals] != [n for n, _ in b.vals]:
        if a.vals and b.vals and len(a.vals) != len(b.vals):
            mism.append('results')
    for (n, x), (_, y) in zip(a.vals, b.vals):
        if not same_value(x, y, band(asm, a.normal)):
            mism.append(n)
    return mism


def pins(v):
    return [a for a in tm.atoms_of(v) if a.op == 'le' and a.a[1] == 0 and len(a.a[0].a) == 1 and a.a[0].a[0][1] == 1 and
            len(a.a[0].a[0][0]) == 1 and a.a[0].a[0][0][0][1] == 1 and a.a[0].a[0][0][0][0].sort == 'n']


def radix(f, g):
    """row-major positions n*a+c, n*b+d with 0 <= c,d < n compare like (a,c), (b,d)"""
    for at in tm.atoms_of(f):
        if at.op != 'le' or at.a[1] not in (0, -1) or len(at.a[0].a) != 4:
            continue
        quad = [(m, c) for m, c in at.a[0].a if len(m) == 2 and m[0][1] == m[1][1] == 1]
        lin = [(m, c) for m, c in at.a[0].a if len(m) == 1 and m[0][1] == 1]
        if len(quad) != 2 or len(lin) != 2 or {c for _, c in quad} != {1, -1} or {c for _, c in lin} != {1, -1}:
            continue
        pos = {x for x, _ in [m for m, c in quad if c == 1][0]}
        neg = {x for x, _ in [m for m, c in quad if c == -1][0]}
        com = pos & neg
        if len(com) != 1 or len(pos) != 2 or len(neg) != 2:
            continue
        n = tm.pvar(com.pop())
        a = tm.pvar((pos - neg).pop())
        b = tm.pvar((neg - pos).pop())
        c = tm.pvar([m for m, k in lin if k == 1][0][0][0])
        d = tm.pvar([m for m, k in lin if k == -1][0][0][0])
        if any(band(g, bnot(band(tm.le(tm.ZERO, z), tm.lt(z, n)))) is not FALSE for z in (c, d)):
            continue
        lexi = bor(tm.lt(a, b), band(tm.eq(a, b), (tm.lt if at.a[1] == -1 else tm.le)(c, d)))
        return radix(ite(lexi, tm.assign_atom(f, at, True), tm.assign_atom(f, at, False)), g)
    return f


def ex_atoms(f):
    return sorted((a for a in tm.atoms_of(f) if a.op == 'ex'), key=lambda a: a.id)


def opened(e, s):
    return tm.subst(e.a[2][0], {e.a[1][0]: expand(s, s.sort)})


def witnesses(body, never):
    """facts  E -> not Q(t)  for a gate E = (some j has f(j) == t) of body, where no j has Q(f(j))"""
    out = TRUE
    for e in ex_atoms(body):
        for q in never:
            if q.a[0] != e.a[0] or q is e or q.a[1][0].sort != e.a[1][0].sort:
                continue
            j = tm.fresh('o', e.a[1][0].sort)
            be, bq = opened(e, j), opened(q, j)
            for at in tm.atoms_of(be):
                if at.op not in ('req', 'eq', 'keq') or band(be, bnot(tm.node(at, TRUE, FALSE))) is not FALSE:
                    continue
                l, r = at.a[0], at.a[1]
                if not (isinstance(l, T) and isinstance(r, T)):
                    continue
                if tm.depends(r, j):
                    l, r = r, l
                if not tm.depends(l, j) or tm.depends(r, j):
                    continue
                z = tm.subst(bq, {l: r})
                if not tm.depends(z, j):
                    out = band(out, bor(bnot(tm.node(e, TRUE, FALSE)), bnot(z)))
    return out


def by_witness(x, y, g):
    """x with its quantified gates replaced by equal ones of y"""
    never = [a for a in ex_atoms(g) if band(g, tm.node(a, TRUE, FALSE)) is FALSE]
    if not never:
        return x
    ax, ay = ex_atoms(x), ex_atoms(y)
    for e in ax:
        if e in ay:
            continue
        for f in ay:
            if f in ax or f.a[0] != e.a[0] or f.a[1][0].sort != e.a[1][0].sort:
                continue
            i = tm.fresh('o', e.a[1][0].sort)
            be, bf = opened(e, i), opened(f, i)
            w = band(witnesses(be, never), witnesses(bf, never))
            if w is not TRUE and band(w, be) is band(w, bf):
                x = ite(tm.node(f, TRUE, FALSE), tm.assign_atom(x, e, True), tm.assign_atom(x, e, False))
                break
    return x


def same_value(x, y, g, depth=4, wit=True):
    if x is y:
        return True
    if g is FALSE:
        return True
    d = default_of(x.sort) if x.sort == y.sort else None
    if restrict(x, g) is restrict(y, g):
        return True
    if d is not None and ite(g, x, d) is ite(g, y, d):
        return True
    if tm.assume(x, g) is tm.assume(y, g):
        return True
    x2, y2 = radix(x, g), radix(y, g)
    if x2 is not x or y2 is not y:
        return same_value(x2, y2, radix(g, g), depth)
    if wit:
        x1 = by_witness(x, y, g)
        if x1 is not x and same_value(x1, y, g, depth, False):
            return True
    m = tm.implied_eqs(g)
    if m:
        x1, y1 = tm.subst(tm.assume(x, g), m), tm.subst(tm.assume(y, g), m)
        if x1 is y1 or tm.assume(x1, g) is tm.assume(y1, g):
            return True
    if depth:
        # case split on emptiness of an input the values are gated on
        for at in sorted(set(pins(x)) | set(pins(y)), key=lambda q: q.id):
            z = at.a[0].a[0][0][0][0]
            m = {z: tm.ZERO}
            A = tm.node(at, TRUE, FALSE)
            return same_value(tm.subst(x, m), tm.subst(y, m), tm.subst(g, m), depth - 1) and \
                same_value(tm.assume(x, bnot(A)), tm.assume(y, bnot(A)), tm.assume(g, bnot(A)), depth - 1)
    return False


def rebuilt(o, memo):
    r = Outcome()
    r.assume = tm.renorm(o.assume, memo)
    r.exc = {n: tm.renorm(g, memo) for n, g in o.exc.items()}
    r.normal = tm.renorm(o.normal, memo)
    r.vals = [(n, tm.renorm(v, memo)) for n, v in o.vals]
    return r


def component_list(r, E):
    """a component list up to what the search promises: the components as sets, and whether a component comes
    after those it leads to"""
    if not (isinstance(r, tuple) and r[0] == 'ret'):
        return r
    try:
        (start, vert), = r[1]
        start, vert = [int(x) for x in start], [int(x) for x in vert]
    except (TypeError, ValueError, AttributeError):
        return r
    if start != sorted(start) or start[-1] != len(vert):
        return r
    comps = [sorted(vert[p:q]) for p, q in zip(start, start[1:])]
    place = {v: k for k, c in enumerate(comps) for v in c}
    good = True
    for (tag, n), (ia, ja, _) in E.__dict__.get('_graphs', {}).items():
        if tag == 'd':
            good = good and all(place[ja[k]] <= place[u] for u in range(n) for k in range(ia[u], ia[u + 1])
                                if u in place and ja[k] in place)
    return 'ret', (tuple(tuple(Fraction(x) for x in c) for c in sorted(comps)), good)


CANON = {'components': component_list}


def compare(a, b, samples=400, seed=1, budget=60.0, maxlen=4, nonneg=(), canon=None):
    mism = same_normal_form(a, b)
    if mism:
        memo = {}
        a2, b2 = rebuilt(a, memo), rebuilt(b, memo)
        mism = same_normal_form(a2, b2)
    if not mism:
        return Verdict('equal')
    consts, strs, syms = set(), set(), set()
    seen = set()
    for o in (a, b):
        for t in list(o.exc.values()) + [o.normal, o.assume] + [v for _, v in o.vals]:
            evalt.collect(t, consts, strs, syms, seen)
    consts = sorted(consts)
    # values for inputs compared against: keep the list short
    t0 = time.time()
    n_ok = n_open = n_skip = n_exc = 0
    weak = None
    errs = {}
    low = evalt.thresholds([x for o in (a, b) for x in list(o.exc.values()) + [o.normal] + [v for _, v in o.vals]])
    k = -1
    while n_ok + n_open < samples and k < 24 * samples:
        k += 1
        if time.time() - t0 > budget:
            break
        V = evalt.Valuation(seed * 100003 + k, consts, strs, style=7 if k % 2 else (k // 2) % 7, maxlen=maxlen if k % 3 else 3)
        V.nonneg = nonneg
        E = evalt.Evaluator(V, interp_fn=SEM)
        if low and k % 5 > 2:
            E.shrink = low
        try:
            ra = eval_outcome(a, E)
            rb = eval_outcome(b, E)
        except evalt.Limit:
            n_open += 1
            continue
        except RecursionError:
            n_open += 1
            continue
        if ra is None or rb is None:
            n_skip += 1
            continue
        if canon is not None:
            ra, rb = CANON[canon](ra, E), CANON[canon](rb, E)
        c = cmp_outcome(ra, rb, TOL if E.rounded else None)
        if c == 'diff':
            return Verdict('differs', ', '.join(mism), dict(inputs={s.a[0]: evalt.show(v) for s, v in V.vals.items()},
                           implementation=fmt(ra, a), reference=fmt(rb, b), sample=k,
                           **({'with thresholds lowered': sorted(int(x) for x in low)} if E.shrink else {})))
        if c == 'weak':
            weak = weak or dict(inputs={s.a[0]: evalt.show(v) for s, v in V.vals.items()},
                                implementation=fmt(ra, a), reference=fmt(rb, b), sample=k)
        if c == 'open':
            n_open += 1
        elif isinstance(ra, tuple) and ra[0] == 'exc':
            n_exc += 1
        else:
            n_ok += 1
    return Verdict('undecided', ', '.join(mism), dict(agreeing=n_ok, both_reject=n_exc, open=n_open, skipped=n_skip, weak=weak))


def counted_stop(a, b):
    """a loop of a, not one of b, whose stopping test holds from some fixed iteration on, whatever the data"""
    def folds(o):
        out, seen = {}, set()
        st = list(o.exc.values()) + [o.normal, o.assume] + [v for _, v in o.vals]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == 'fold':
                    out[x] = True
                st.extend(x.a)
        return out
    theirs = folds(b)
    for f in folds(a):
        if f in theirs:
            continue
        (kind, rng, inits, sorts), bvs, bodies = f.a
        cond = bodies[0]
        if cond is None or cond is FALSE:
            continue
        if rng is not None:
            if tm.const_of(rng[1]) is not None:
                return 'the count reaches %s' % tm.const_of(rng[1])
            continue
        n = tm.pconst(10 ** 15)
        if tm.subst(cond, {bvs[0]: n}) is FALSE and tm.subst(cond, {bvs[0]: tm.ZERO}) is not FALSE:
            return 'its counter is large: goes on while ' + str(cond)[:300]
    return None


def fmt(r, o):
    if isinstance(r, tuple) and r[0] == 'ret':
        return 'returns ' + ', '.join('%s=%s' % (n, evalt.show(v)) for (n, _), v in zip(o.vals, r[1]))
    if isinstance(r, tuple):
        return 'throws ' + r[1]
    return repr(r)


TOL = Fraction(1, 10 ** 30)


def cmp_outcome(a, b, tol=None):
    if isinstance(a, evalt.Bot) or isinstance(b, evalt.Bot):
        return evalt.compare(a, b)
    if a[0] != b[0]:
        return 'diff'
    if a[0] == 'exc':
        return 'same' if a[1] == b[1] else 'diff'
    return evalt.compare(a[1], b[1], tol)
