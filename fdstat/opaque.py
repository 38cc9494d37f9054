"""Components treated as uninterpreted functions of the values they are given
(their own properties are decided by other checks)."""
from . import terms as tm
from .terms import mk, expand, ite, TRUE, FALSE, NULL, ZERO, rec


def deep(I, v, st, depth=6):
    """the value with every pointer replaced by what it points to"""
    s = v.sort
    if v.op == 'ite' and isinstance(s, tuple) and s[0] == 'p':
        return ite(tm.node(v.a[0], TRUE, FALSE), deep(I, v.a[1], st, depth), deep(I, v.a[2], st, depth))
    if isinstance(s, tuple) and s[0] == 'p':
        if v is NULL or v.op in ('fnptr', 'fn', 'unk') or depth == 0:
            return v
        x = I.load(v, st)
        return deep(I, x, st, depth - 1) if x is not None else v
    if isinstance(s, tuple) and s[0] == 'rec' and v.op == 'rec':
        return mk('fn', ('deep', tuple(deep(I, x, st, depth) for x in v.a[1:])), ('o', 'deep'))
    return v


def argv(I, fn, args, st):
    out = []
    for a, p in zip(args, fn.get('ps', [])):
        if p.k in ('ref', 'ptr'):
            out.append(deep(I, I.load(a, st) if p.k == 'ref' else a, st))
        else:
            out.append(deep(I, a, st))
    return out


def pure(name):
    """result is a function of object and arguments; the object is unchanged"""
    def h(I, fn, obj, args, e, st):
        s = I.sort(e['t'])
        vs = ([deep(I, I.load(obj, st), st)] if obj is not None else []) + argv(I, fn, args, st)
        v = expand(mk('fn', (name, tuple(vs)), s), s)
        if e.get('v') in ('l', 'x'):
            return I.new_tmp(st, v)
        return v
    return h


def update(name):
    """the object becomes a function of itself and the arguments"""
    def h(I, fn, obj, args, e, st):
        o = I.load(obj, st)
        v = expand(mk('fn', (name, tuple([deep(I, o, st)] + argv(I, fn, args, st))), o.sort), o.sort)
        I.store(obj, v, st)
        return ZERO
    return h


OPAQUE = {
    'Opm::AssembledConnections::compress': update('compress'),
    'Opm::FlowDiagnostics::TracerTofSolver::solveGlobal': pure('solveGlobal'),
    'Opm::FlowDiagnostics::TracerTofSolver::solveLocal': pure('solveLocal'),
}


# ---------------------------------------------------------------- component search
# The result of a search is an object described by accessor functions of its
# arguments: sccn (number of components), sccstart(k) (prefix sums of the
# sizes), sccvert(i) (all vertices, component by component).
SCC = ('o', 'scc')
SCCREC = ('rec', '$scc', (('s', SCC), ('verts', ('v', 'i'))))


def seq_at(I, p, n, st):
    """the sequence of n values p points to"""
    if p.op == 'ite':
        g = I.fullpc(st)
        p = tm.assume(p, g)
    if p.op != 'li':
        return None
    v = I.load(p.a[0], st)
    if not (isinstance(v.sort, tuple) and v.sort[0] == 'v'):
        return None
    if p.a[1] is ZERO and tm.size(v) is n:
        return v
    k = tm.fresh('o', 'n')
    return tm.mk_arr(n, k, tm.at(v, tm.add(p.a[1], tm.pvar(k))), v.sort)


def scc_n(s):
    return tm.lift('sccn', lambda x: tm.fn('sccn', (x,), 'n'), s)


def scc_start(s, k):
    return tm.lift('sccstart', lambda x, i: tm._sccstart((x, i)) or tm.fn('sccstart', (x, i), 'n'), s, k)


def scc_object(I, s, st):
    k = tm.fresh('o', 'n')
    verts = tm.mk_arr(scc_start(s, scc_n(s)), k, tm.lift('sccvert', lambda x: tm.fn('sccvert', (x, tm.pvar(k)), 'n'), s), ('v', 'i'))
    return rec(SCCREC, [s, verts])


def may_fail(I, st):
    I.nheap += 1
    ok = tm.batom(tm.sym('alloc%d' % I.nheap, 'b'))
    st.mem[I.FAILED] = tm.bor(st.mem[I.FAILED], tm.bnot(ok))
    return ok


def obtained(I, root, st):
    if not I.alloc_may_fail:
        return root
    ok = may_fail(I, st)
    I.on_alloc(root, st)
    I.on_alloc_guard(root, ok, st)
    return tm.ite(ok, root, tm.NULL)


def released(I, fn, obj, args, e, st):
    I.on_free(args[0], st)
    return ZERO


def tarjan_search(I, fn, obj, args, e, st):
    nv, ia, ja = args[:3]
    A = seq_at(I, ia, tm.add(nv, tm.ONE), st)
    if A is None or ja.op != 'li' or ja.a[1] is not ZERO:
        return NotImplemented
    J = I.load(ja.a[0], st)
    if len(args) > 3:
        S = seq_at(I, args[4], args[3], st)
        if S is None:
            return NotImplemented
        s = mk('fn', ('sccreach', (nv, A, J, S)), SCC)
    else:
        s = mk('fn', ('sccall', (nv, A, J)), SCC)
    return obtained(I, I.new_heap(st, scc_object(I, s, st), 'SCC'), st)


def scc_of(I, p, st):
    if p.op == 'ite':
        p = tm.assume(p, I.fullpc(st))
    if p.op != 'root':
        return None
    v = I.load(p, st)
    if v is None or v.sort != SCCREC:
        return None
    s = I.load(I.lf(p, 's'), st)
    return tm.assume(s, I.fullpc(st)) if s.op == 'ite' else s


def tarjan_reverse(I, fn, obj, args, e, st):
    s = scc_of(I, args[0], st)
    if s is None:
        return NotImplemented
    s = tm.lift('sccrev', lambda x: x.a[1][0] if x.op == 'fn' and x.a[0] == 'sccrev' else mk('fn', ('sccrev', (x,)), SCC), s)
    if I.alloc_may_fail:
        ok = may_fail(I, st)
        I.store(args[0], tm.ite(ok, scc_object(I, s, st), I.load(args[0], st)), st)
        return tm.ite(ok, tm.ONE, ZERO)
    I.store(args[0], scc_object(I, s, st), st)
    return tm.ONE


def tarjan_count(I, fn, obj, args, e, st):
    s = scc_of(I, args[0], st)
    return NotImplemented if s is None else scc_n(s)


def tarjan_component(I, fn, obj, args, e, st):
    s = scc_of(I, args[0], st)
    if s is None:
        return NotImplemented
    srt = I.sort(e['t'])
    a, b = scc_start(s, args[1]), scc_start(s, tm.add(args[1], tm.ONE))
    f = {'size': tm.sub(b, a), 'vertex': tm.mk_li(I.lf(args[0], 'verts'), a)}
    if not (isinstance(srt, tuple) and srt[0] == 'rec' and {n for n, _ in srt[2]} == set(f)):
        return NotImplemented
    return rec(srt, [f[n] for n, _ in srt[2]])


def tarjan_workspace(I, fn, obj, args, e, st):
    return obtained(I, I.new_heap(st, mk('fn', ('workspace', (args[0],)), ('o', 'ws')), 'WS'), st)


def nothing(I, fn, obj, args, e, st):
    return ZERO


OPAQUE.update({
    'tarjan': tarjan_search,
    'tarjan_reachable_sccs': tarjan_search,
    'tarjan_reverse_sccresult': tarjan_reverse,
    'tarjan_get_numcomponents': tarjan_count,
    'tarjan_get_strongcomponent': tarjan_component,
    'create_tarjan_workspace': tarjan_workspace,
    'destroy_tarjan_workspace': released,
    'destroy_tarjan_sccresult': released,
})
TARJAN = ['tarjan', 'tarjan_reachable_sccs', 'tarjan_reverse_sccresult', 'tarjan_get_numcomponents', 'tarjan_get_strongcomponent',
          'create_tarjan_workspace', 'destroy_tarjan_workspace', 'destroy_tarjan_sccresult']
