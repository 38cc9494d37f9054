"""Dataflow analysis of the extracted program over gated value graphs.

Every function is analysed once per calling context; control-flow merges join
the two states with a gate, loops are replaced by their summaries (loops.py),
standard-library facilities by their models (stdmodel.py).  No path is ever
enumerated and no input is chosen: all inputs are symbols.
"""
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, TRUE, FALSE, NULL, ZERO, ONE, INF, NINF, ite, band, bor, bnot, lift, eq, lt, le,
                    add, sub, mul, rdiv, idiv, imod, neg, pconst, pvar, const_of, nonneg, getf, setf, rec,
                    expand, sym, fresh, unk, at, size, set_at, mk_arr, cat, has, mat, map_set, default_of,
                    is_num, mk_li, mk_lk, mk_le, leaves, assume)


class Unmodelled(Exception):
    pass


class State(object):
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)

    def take(self, o):
        self.mem = o.mem
        self.pc = o.pc


class Exit(object):
    __slots__ = ('kind', 'g', 'val', 'mem', 'line')

    def __init__(self, kind, g, val, mem, line=None):
        self.kind, self.g, self.val, self.mem, self.line = kind, g, val, mem, line


class Frame(object):
    __slots__ = ('env', 'this', 'fn', 'scopes', 'depth')

    def __init__(self, fn, this, depth):
        self.env = {}
        self.this = this
        self.fn = fn
        self.scopes = [[]]
        self.depth = depth


def restrict(f, c, memo=None):
    """simplify f using care set c (values outside c are irrelevant)"""
    if c is TRUE or c is FALSE or f.op not in ('ite', 'rec'):
        return f
    if f.op == 'rec':
        return mk('rec', (f.a[0],) + tuple(restrict(x, c) for x in f.a[1:]), f.sort)
    if memo is None:
        memo = {}
    key = (f, c)
    r = memo.get(key)
    if r is not None:
        return r
    af = f.a[0]
    ac = c.a[0]
    if tm.rank(ac) < tm.rank(af) and not (af.op in ('le', 'lt') and tm.family(ac) is af.a[0]):
        r = restrict(f, bor(c.a[1], c.a[2]), memo)
    else:
        a = af if tm.rank(af) <= tm.rank(ac) else ac
        c1, c0 = tm.cof(c, a, True), tm.cof(c, a, False)
        f1, f0 = tm.cof(f, a, True), tm.cof(f, a, False)
        if c1 is FALSE:
            r = restrict(f0, c0, memo)
        elif c0 is FALSE:
            r = restrict(f1, c1, memo)
        else:
            A = tm.node(a, TRUE, FALSE)
            r = ite(A, restrict(f1, c1, memo), restrict(f0, c0, memo))
    memo[key] = r
    return r


OWNED, FAILED, MISUSED = (mk('root', ('$heap ' + x,), ('p', '')) for x in ('owned', 'failed', 'misused'))


def live(root):
    return mk('root', ('$live', root), ('p', ''))


def undef(why, sort):
    """value of an uninitialised object (poison)"""
    if isinstance(sort, tuple) and sort[0] == 'rec':
        return rec(sort, [undef(why + '.' + f, s) for f, s in sort[2]])
    return expand(mk('unk', (why, 0), sort), sort)


def moved_out(v):
    """value left behind by a move"""
    s = v.sort
    if v.op == 'ite' and isinstance(s, tuple) and s[0] in ('v', 'm', 'set'):
        return default_of(s)
    if isinstance(s, tuple):
        if s[0] in ('v', 'm', 'set'):
            return default_of(s)
        if s[0] == 'rec' and v.op == 'rec':
            return rec(s, [moved_out(x) for x in v.a[1:]])
        if s[0] == 'p' and len(s) > 2 and s[2] == 'u':
            return NULL
    return v


class Interp(object):
    OWNED, FAILED, MISUSED = OWNED, FAILED, MISUSED

    def __init__(self, prog, models, opaque=(), alloc_may_fail=False, config=None):
        self.prog = prog
        self.models = models
        self.opaque = opaque or {}
        self.alloc_may_fail = alloc_may_fail
        self.exits = []
        self.ctx = []               # enclosing path conditions
        self.nest = 0               # loops being summarised
        self.frame = None
        self.nheap = 0
        self.ntmp = 0
        self.stats = {'functions': set(), 'calls': 0, 'loops': 0, 'gates': 0, 'unmodelled': []}
        self.loopmods = {}
        self.sorts = {}
        self.assumptions = []
        self.config = config or {}
        self.stack = []
        self.events = None
        self.gvals = {}

    # ---------------------------------------------------------------- sorts
    def sort(self, ty):
        if ty is None:
            return 'i'
        s = ty._sort
        if s is None:
            s = self._sort(ty)
            ty._sort = s
        return s

    def _sort(self, ty):
        k = ty.k
        if k == 'bool':
            return 'b'
        if k == 'enum':
            return 'i'
        if k == 'int':
            return 'n' if ty.u else 'i'
        if k == 'flt':
            return 'r'
        if k == 'void':
            return 'i'
        if k in ('ptr', 'nullptr', 'fptr'):
            return ('p', '')
        if k == 'ref':
            return ('p', '')
        if k == 'arr':
            return ('v', self.sort(ty.to))
        if k == 'rec':
            n = ty.n
            if n == 'std::vector' or n == 'std::deque' or n == 'std::initializer_list' or n == 'std::array' or n == 'std::list':
                return ('v', self.sort(ty.a[0]))
            if n in ('std::map', 'std::unordered_map'):
                return ('m', self.sort(ty.a[0]), self.sort(ty.a[1]))
            if n in ('std::set', 'std::unordered_set'):
                return ('set', self.sort(ty.a[0]))
            if n == 'std::basic_string':
                return 's'
            if n == 'std::unique_ptr' or n == 'std::shared_ptr':
                return ('p', '', 'u')
            if n == 'std::tuple':
                return ('rec', 'std::tuple', tuple(('%d' % i, self.sort(x)) for i, x in enumerate(ty.a)))
            if n == 'std::pair':
                return ('rec', 'std::pair', (('first', self.sort(ty.a[0])), ('second', self.sort(ty.a[1]))))
            if 'iterator' in n:
                return ('p', '')
            if n == 'std::optional':
                return ('rec', 'std::optional', (('has', 'b'), ('val', self.sort(ty.a[0]))))
            if n in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ios', 'std::ios_base',
                     'std::basic_iostream', 'std::basic_ofstream'):
                return OSTREAM
            if n == 'std::reference_wrapper':
                return ('p', '')
            r = self.prog.records.get(ty.key)
            if r is not None:
                fs = []
                for i, b in enumerate(r.get('bases', [])):
                    fs.append(('#base%d' % i if i else '#base', self.sort(b)))
                for f in r['fields']:
                    fs.append((f['n'], self.sort(f['t'])))
                return ('rec', r['key'], tuple(fs))
            return ('o', n or ty.s)
        return ('o', ty.s)

    def is_map_iter(self, ty):
        n = ty.n if ty is not None and ty.k == 'rec' else ''
        return n in ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator') or (n or '').startswith('std::__detail::_Node')

    # ------------------------------------------------------------ locations
    def root(self, name, sort=None):
        return mk('root', (name,), ('p', ''))

    def new_tmp(self, st, v, hint='T'):
        self.ntmp += 1
        r = self.root('%s%d' % (hint, self.ntmp))
        st.mem[r] = v
        if self.frame is not None:
            self.frame.scopes[-1].append((r, None))
        return r

    def new_heap(self, st, v, hint='H'):
        self.nheap += 1
        r = self.root('%s%d' % (hint, self.nheap))
        st.mem[r] = v
        return r

    def lf(self, base, f):
        def g(b):
            if b.op == 'le_':
                if f == 'second':
                    return mk_lk(b.a[0], b.a[1])
                if f == 'first':
                    return mk('lv', (b.a[1],), ('p', ''))
            if b.op == 'lv':
                return mk('lv', (getf(b.a[0], f),), ('p', ''))
            return mk('lf', (b, f), ('p', ''))
        return lift('lf.' + f, g, base)

    def load(self, loc, st, sort=None):
        op = loc.op
        if op == 'root':
            v = st.mem.get(loc)
            if v is None:
                return unk('dangling ' + loc.a[0], sort or 'i')
            if self.alloc_may_fail:
                self.on_use(loc, st)
            return v
        if op == 'ite':
            a, b = loc.a[1], loc.a[2]
            pc = self.fullpc(st)
            A = tm.node(loc.a[0], TRUE, FALSE)
            if band(pc, A) is FALSE:
                return self.load(b, st, sort)
            if band(pc, bnot(A)) is FALSE:
                return self.load(a, st, sort)
            va = self.under(A, lambda: self.load(a, st, sort))
            vb = self.under(bnot(A), lambda: self.load(b, st, sort))
            return ite(A, va, vb)
        if op == 'lf':
            return getf(self.load(loc.a[0], st), loc.a[1])
        if op == 'li':
            return at(self.load(loc.a[0], st), loc.a[1])
        if op == 'lk':
            return mat(self.load(loc.a[0], st), loc.a[1])
        if op == 'le_':
            m = self.load(loc.a[0], st)
            v = mat(m, loc.a[1])
            return rec(('rec', 'std::pair', (('first', loc.a[1].sort), ('second', m.sort[2]))), [loc.a[1], v])
        if op in ('lv', 'lvx'):
            return loc.a[0]
        if op == 'null':
            if self.alloc_may_fail:
                self.misuse(TRUE, st)
            return unk('null dereference', sort or 'i')
        if op in ('mit', 'mend', 'mbeg', 'mnext'):
            return unk('iterator deref', sort or 'i')
        # opaque pointer
        r = mk('lroot', (loc,), ('p', ''))
        v = st.mem.get(r)
        if v is None:
            if sort is None:
                return unk('load through unknown pointer', 'i')
            v = expand(mk('fn', ('pointee', (loc,)), sort), sort)
            st.mem[r] = v
        return v

    def store(self, loc, v, st):
        op = loc.op
        if op == 'root':
            if self.alloc_may_fail:
                self.on_use(loc, st)
            st.mem[loc] = v
        elif op == 'ite':
            A = tm.node(loc.a[0], TRUE, FALSE)
            pc = self.fullpc(st)
            if band(pc, A) is FALSE:
                self.store(loc.a[2], v, st)
            elif band(pc, bnot(A)) is FALSE:
                self.store(loc.a[1], v, st)
            else:
                pre = st.mem
                outs = []
                for br, val in ((loc.a[1], True), (loc.a[2], False)):
                    st.mem = dict(pre)
                    if br is not NULL:
                        self.under(A if val else bnot(A), lambda: self.store(br, tm.assign_atom(v, loc.a[0], val), st))
                    elif self.alloc_may_fail:
                        self.misuse(A if val else bnot(A), st)
                    outs.append(st.mem)
                hi, lo = outs
                for r in list(hi) + [x for x in lo if x not in hi]:
                    a, b = hi.get(r), lo.get(r)
                    hi[r] = a if b is None else b if a is None else a if a is b else ite(A, a, b)
                st.mem = hi
        elif op == 'lf':
            self.store(loc.a[0], setf(self.load(loc.a[0], st), loc.a[1], v), st)
        elif op == 'li':
            self.store(loc.a[0], set_at(self.load(loc.a[0], st), loc.a[1], v), st)
        elif op == 'lk':
            self.store(loc.a[0], map_set(self.load(loc.a[0], st), loc.a[1], v), st)
        elif op == 'le_':
            self.store(loc.a[0], map_set(self.load(loc.a[0], st), loc.a[1], getf(v, 'second')), st)
        elif op == 'lv':
            pass
        elif op == 'null':
            self.note('store through null')
            if self.alloc_may_fail:
                self.misuse(TRUE, st)
        else:
            r = mk('lroot', (loc,), ('p', ''))
            st.mem[r] = v

    # heap events (where allocations may fail: who owns what, and whether anything is misused)
    def globals_start(self, st):
        """mutable variables outside the objects of the caller: earlier calls may have left anything there"""
        for g in self.prog.globals:
            if not g['cst']:
                s = self.sort(g['t'].noref())
                st.mem[self.root('G:' + g['n'])] = expand(mk('sym', ('global ' + g['n'],), s), s)

    def heap_start(self, st):
        self.globals_start(st)
        if self.alloc_may_fail:
            st.mem[OWNED] = ZERO         # objects obtained and not released
            st.mem[FAILED] = FALSE       # some allocation failed
            st.mem[MISUSED] = FALSE      # released twice, not obtained, or used while not obtained

    def on_alloc(self, root, st):
        if self.alloc_may_fail:
            st.mem[live(root)] = TRUE
            st.mem[OWNED] = add(st.mem[OWNED], ONE)

    def on_alloc_guard(self, root, ok, st):
        st.mem[live(root)] = ok
        st.mem[OWNED] = add(st.mem[OWNED], ite(ok, ZERO, pconst(-1)))
        st.mem[FAILED] = bor(st.mem[FAILED], bnot(ok))

    def misuse(self, g, st):
        g = band(g, self.fullpc(st))
        if g is not FALSE:
            st.mem[MISUSED] = bor(st.mem[MISUSED], g)

    def on_free(self, p, st):
        if not self.alloc_may_fail:
            return
        p = assume(p, self.fullpc(st)) if p.op == 'ite' else p

        def go(x, g):
            if x.op == 'ite':
                A = tm.node(x.a[0], TRUE, FALSE)
                go(x.a[1], band(g, A))
                go(x.a[2], band(g, bnot(A)))
                return
            if g is FALSE or x is NULL:
                return
            r = x.a[0] if x.op == 'li' and x.a[1] is ZERO else x
            l = st.mem.get(live(r)) if r.op == 'root' else None
            if l is None:
                self.misuse(g, st)
                return
            self.misuse(band(g, bnot(l)), st)
            st.mem[OWNED] = add(st.mem[OWNED], ite(band(g, l), pconst(-1), ZERO))
            st.mem[live(r)] = band(l, bnot(g))
        go(p, TRUE)

    def under(self, g, f):
        self.ctx.append(g)
        try:
            return f()
        finally:
            self.ctx.pop()

    def on_use(self, loc, st):
        """an object on the heap is read or written"""
        l = st.mem.get(live(loc))
        if l is not None and l is not TRUE:
            self.misuse(bnot(l), st)

    def note(self, what):
        self.stats['unmodelled'].append((what, tm.CUR[0]))

    def poison(self, what, sort):
        self.note(what)
        return unk(what, sort)

    # ------------------------------------------------------------- contexts
    def fullpc(self, st):
        r = st.pc
        for c in self.ctx:
            r = band(r, c)
        return r

    def simp(self, c, st):
        if c.op != 'ite':
            return c
        pc = self.fullpc(st)
        if pc is TRUE:
            return c
        if band(pc, c) is FALSE:
            return FALSE
        if band(pc, bnot(c)) is FALSE:
            return TRUE
        return assume(c, pc)

    # ----------------------------------------------------------- joins
    def join(self, st, c, s1, s2):
        """st := c ? s1 : s2"""
        if s1.pc is FALSE:
            st.take(s2)
            return
        if s2.pc is FALSE:
            st.take(s1)
            return
        m = {}
        m1, m2 = s1.mem, s2.mem
        for r, v in m1.items():
            w = m2.get(r)
            if w is v or w is None:
                m[r] = v
            else:
                m[r] = ite(c, v, w)
        for r, w in m2.items():
            if r not in m1:
                m[r] = w
        st.mem = m
        st.pc = bor(s1.pc, s2.pc)

    def merge(self, alts):
        """alts: [(guard, val|None, mem)] disjoint -> (guard, val, mem)"""
        alts = [a for a in alts if a[0] is not FALSE]
        if not alts:
            return FALSE, None, {}
        if len(alts) == 1:
            return alts[0]
        total = bor(*[a[0] for a in alts])
        g, val, mem = alts[-1]
        mem = dict(mem)
        for g, v2, m2 in reversed(alts[:-1]):
            if v2 is not val:
                if v2 is None or val is None:
                    val = v2 if val is None else val
                else:
                    val = ite(g, v2, val)
            for r, v in m2.items():
                w = mem.get(r)
                if w is None:
                    mem[r] = v
                elif w is not v:
                    mem[r] = ite(g, v, w)
        if total is not TRUE:
            if val is not None:
                val = restrict(val, total)
            ref = alts[0][2]
            for r in mem:
                if mem[r] is not ref.get(r):
                    mem[r] = restrict(mem[r], total)
        return total, val, mem

    # ----------------------------------------------------------- statements
    def exec(self, s, st):
        if s is None or st.pc is FALSE:
            return
        k = s['k']
        if s.get('l'):
            tm.CUR[0] = (s['l'], self.frame.fn['n'] if self.frame.fn else '')
        if k == 'expr':
            self.ev(s['e'], st, discard=True)
        elif k == 'block':
            self.exec_block(s['b'], st)
        elif k == 'decl':
            for v in s['b']:
                self.declare(v, st)
        elif k == 'if':
            self.push_scope()
            mark = len(self.exits)
            if s.get('init'):
                self.exec(s['init'], st)
            if s.get('cv'):
                self.exec(s['cv'], st)
            c = self.cond(s['c'], st)
            self.branch(c, st, lambda q: self.exec(s.get('a'), q), lambda q: self.exec(s.get('b'), q))
            self.pop_scope(st, mark)
        elif k == 'ret':
            v = None
            if s.get('e') is not None:
                v = self.ev(s['e'], st)
                if isinstance(v, T) is False:
                    v = None
            self.exits.append(Exit('ret', st.pc, v, st.mem, s.get('l')))
            st.pc = FALSE
        elif k == 'break':
            self.exits.append(Exit('break', st.pc, None, st.mem))
            st.pc = FALSE
        elif k == 'cont':
            self.exits.append(Exit('cont', st.pc, None, st.mem))
            st.pc = FALSE
        elif k == 'for':
            self.push_scope()
            mark = len(self.exits)
            if s.get('init'):
                self.exec(s['init'], st)
            def cnd(q):
                if s.get('cv'):
                    self.exec(s['cv'], q)
                return self.cond(s['c'], q) if s.get('c') else TRUE
            self.loop(st, cnd, lambda q: self.exec(s['b'], q),
                      (lambda q: self.ev(s['inc'], q, discard=True)) if s.get('inc') else None, s)
            self.pop_scope(st, mark)
        elif k == 'while':
            self.push_scope()
            mark = len(self.exits)
            def cnd2(q):
                if s.get('cv'):
                    self.exec(s['cv'], q)
                return self.cond(s['c'], q)
            self.loop(st, cnd2, lambda q: self.exec(s['b'], q), None, s)
            self.pop_scope(st, mark)
        elif k == 'do':
            self.do_loop(st, lambda q: self.cond(s['c'], q), lambda q: self.exec(s['b'], q), s)
        elif k == 'rfor':
            self.push_scope()
            mark = len(self.exits)
            if s.get('init'):
                self.exec(s['init'], st)
            self.exec(s['range'], st)
            self.exec(s['begin'], st)
            self.exec(s['end'], st)
            def body(q):
                self.push_scope()
                m2 = len(self.exits)
                self.exec(s['var'], q)
                self.exec(s['b'], q)
                self.pop_scope(q, m2)
            self.loop(st, lambda q: self.cond(s['c'], q), body, lambda q: self.ev(s['inc'], q, discard=True), s)
            self.pop_scope(st, mark)
        elif k == 'null':
            pass
        elif k == 'try':
            self.exec_try(s, st)
        elif k == 'switch':
            self.exec_switch(s, st)
        elif k in ('case', 'default'):
            self.exec(s['b'], st)
        else:
            raise Unmodelled('statement %s' % s.get('why', k))

    def push_scope(self):
        self.frame.scopes.append([])

    def pop_scope(self, st, mark):
        sc = self.frame.scopes.pop()
        if not sc:
            return
        ds = [(r, d) for r, d in sc if d is not None]
        for r, d in reversed(ds):
            self.run_dtor(r, d, st, mark)
        dead = [r for r, d in sc]
        for r in dead:
            st.mem.pop(r, None)

    def run_dtor(self, r, dtor, st, mark):
        todo = [x for x in self.exits[mark:] if x.mem.get(r) is not None]
        if st.pc is not FALSE and r in st.mem:
            dtor(r, st)
        for x in todo:
            s2 = State(dict(x.mem), x.g)
            keep = self.exits
            self.exits = []
            dtor(r, s2)
            self.exits = keep
            x.mem = s2.mem

    def exec_block(self, b, st):
        self.push_scope()
        mark = len(self.exits)
        for s in b:
            if st.pc is FALSE:
                break
            self.exec(s, st)
        self.pop_scope(st, mark)

    def branch(self, c, st, fa, fb):
        c = self.simp(c, st)
        if c is TRUE:
            fa(st)
            return
        if c is FALSE:
            fb(st)
            return
        s1 = st.copy()
        s1.pc = band(st.pc, c)
        s2 = st.copy()
        s2.pc = band(st.pc, bnot(c))
        fa(s1)
        fb(s2)
        self.join(st, c, s1, s2)

    def declare(self, v, st):
        t = v['t']
        f = self.frame
        if v.get('static'):
            return          # referred to as a global; what is mutable has an arbitrary history
        if t.k == 'ref':
            x = self.ev(v['init'], st)
            f.env[v['d']] = x
            return
        r = self.root('L%d:%s' % (f.depth, v['d']))
        if v.get('init') is not None:
            x = self.ev(v['init'], st)
            if not isinstance(x, T):
                x = self.poison('initialiser', self.sort(t))
        else:
            x = undef('uninitialised ' + v['n'], self.sort(t))
        st.mem[r] = x
        f.env[v['d']] = r
        f.scopes[-1].append((r, self.dtor_of(t)))
        for b in v.get('binds', []) or []:
            if 'd' in b:
                y = self.ev(b['init'], st)
                f.env[b['d']] = y

    def dtor_of(self, t):
        if t is None or t.k != 'rec':
            return None
        if t.user:
            r = self.prog.records.get(t.key)
            if r is not None and r.get('dtor'):
                fn = self.prog.functions.get(r['dtor'])
                if fn is not None and fn['body'] and fn['body'].get('b'):
                    return lambda root, st: self.call_user(fn, root, [], st)
            return None
        if t.n == 'std::unique_ptr' and self.alloc_may_fail:
            return lambda root, st: self.models.uptr_destroy(self, root, t, st)
        return None

    def exec_try(self, s, st):
        keep = self.exits
        self.exits = []
        q = st.copy()
        outer = st.pc
        self.exec(s['b'], q)
        inner = self.exits
        self.exits = keep
        alts = [(q.pc, None, q.mem)]
        for x in inner:
            if x.kind != 'throw':
                self.exits.append(x)
                continue
            handled = False
            for h in s['hs']:
                if h['all'] or self.catches(h['t'], x.val):
                    hs = State(dict(x.mem), x.g)
                    self.push_scope()
                    mark = len(self.exits)
                    if not h['all'] and h.get('v'):
                        r = self.root('L%d:%s' % (self.frame.depth, h['v']['d']))
                        hs.mem[r] = mk('fn', ('exception', (x.val,)), ('o', 'exception'))
                        self.frame.env[h['v']['d']] = r
                    old = getattr(self, 'curexc', None)
                    self.curexc = x.val
                    self.exec(h['b'], hs)
                    self.curexc = old
                    self.pop_scope(hs, mark)
                    alts.append((hs.pc, None, hs.mem))
                    handled = True
                    break
            if not handled:
                self.exits.append(x)
        g, _, mem = self.merge(alts)
        st.pc = g
        if g is not FALSE:
            st.mem = mem

    EXBASE = {'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
              'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error',
              'std::length_error': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
              'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
              'std::underflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
              'std::system_error': 'std::runtime_error', 'std::exception': None}

    def catches(self, t, exc):
        n = t.noref().n or t.noref().s
        x = exc.a[0]
        while x is not None:
            if x == n:
                return True
            if x in self.EXBASE:
                x = self.EXBASE[x]
            else:
                b = None
                for r in self.prog.records.values():
                    if r['n'] == x and r.get('bases'):
                        b = r['bases'][0].n
                x = b
        return False

    def exec_switch(self, s, st):
        if s.get('init'):
            self.exec(s['init'], st)
        c = self.ev(s['c'], st)
        items = s['b'].get('b', []) if s['b']['k'] == 'block' else [s['b']]
        # flatten labels: segments start at case/default
        segs = []       # (labels, stmts)
        for it in items:
            labels = []
            x = it
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x.get('val') if x['k'] == 'case' else None)
                x = x['b']
            if labels:
                segs.append((labels, [x] if x is not None else []))
            elif segs:
                segs[-1][1].append(it)
        allv = [l for ls, _ in segs for l in ls if l is not None]
        keep = self.exits
        self.exits = []
        alts = []
        self.push_scope()
        mark = 0
        cur = State(dict(st.mem), FALSE)
        for ls, body in segs:
            g = FALSE
            for l in ls:
                if l is None:
                    d = TRUE
                    for v in allv:
                        d = band(d, bnot(eq(c, pconst(int(v)))))
                    g = bor(g, d)
                else:
                    g = bor(g, eq(c, pconst(int(l))))
            g = band(st.pc, self.simp(g, st))
            ent = State(dict(st.mem), g)
            gg, _, mem = self.merge([(cur.pc, None, cur.mem), (ent.pc, None, ent.mem)])
            cur = State(mem, gg)
            for b in body:
                self.exec(b, cur)
        none = st.pc
        if None not in [l for ls, _ in segs for l in ls]:
            for v in allv:
                none = band(none, bnot(eq(c, pconst(int(v)))))
            alts.append((none, None, st.mem))
        alts.append((cur.pc, None, cur.mem))
        inner = self.exits
        self.exits = keep
        for x in inner:
            if x.kind == 'break':
                alts.append((x.g, None, x.mem))
            else:
                self.exits.append(x)
        g, _, mem = self.merge(alts)
        st.pc = g
        if g is not FALSE:
            st.mem = mem
        self.pop_scope(st, mark)

    # ---------------------------------------------------------- expressions
    def cond(self, e, st):
        v = self.ev(e, st)
        return self.tobool(v)

    def tobool(self, v):
        if not isinstance(v, T):
            return self.poison('condition', 'b')
        if v.sort == 'b':
            return v
        if is_num(v.sort) or v.op in ('poly', 'inf'):
            return bnot(eq(v, ZERO))
        if isinstance(v.sort, tuple) and v.sort[0] == 'p':
            return bnot(eq(v, NULL))
        return self.poison('condition of sort %s' % (v.sort,), 'b')

    def ev(self, e, st, discard=False):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.poison('expression %s' % e['k'], self.sort(e['t']))
        if st.pc is FALSE:
            return undef('unreachable', self.sort(e['t']))
        return m(e, st)

    def ev_val(self, e, st):
        """value of e, loading glvalues"""
        v = self.ev(e, st)
        if e.get('v') in ('l', 'x') and isinstance(v, T):
            return self.load(v, st, self.sort(e['t']))
        return v

    def ev_loc(self, e, st):
        """location of e, materialising prvalues"""
        v = self.ev(e, st)
        if e.get('v') in ('l', 'x'):
            return v
        return self.new_tmp(st, v)

    def e_int(self, e, st):
        return pconst(int(e['val']))

    def e_flt(self, e, st):
        return pconst(Fraction(e['val']))

    def e_bool(self, e, st):
        return TRUE if e['val'] else FALSE

    def e_str(self, e, st):
        return mk('lv', (mk('str', (e['val'],), 's'),), ('p', ''))

    def e_null(self, e, st):
        return NULL

    def e_this(self, e, st):
        return self.frame.this

    def e_zero(self, e, st):
        return default_of(self.sort(e['t']))

    def e_ref(self, e, st):
        dk = e['dk']
        if dk == 'enum':
            return pconst(int(e['val']))
        if dk == 'func':
            return mk('fnptr', (e['fn']['key'], e['fn']['n']), ('p', ''))
        if dk == 'bind':
            if 'e' in e:
                return self.ev(e['e'], st)
            return self.poison('binding', self.sort(e['t']))
        f = self.frame
        while f is not None:
            l = f.env.get(e['d'])
            if l is not None:
                return l
            break
        if e.get('g'):
            return self.global_loc(e, st)
        l = self.lookup_outer(e['d'])
        if l is not None:
            return l
        return self.poison('unbound variable %s' % e['n'], ('p', ''))

    def lookup_outer(self, d):
        for f in reversed(self.stack):
            if d in f.env:
                return f.env[d]
        return None

    def global_loc(self, e, st):
        r = self.root('G:' + e['gn'])
        if r not in st.mem:
            v = self.gvals.get(r)
            if v is None:
                gi = self.prog.ginits.get(e['d'])
                mv = self.models.global_value(self, e)
                if mv is not None:
                    v = mv
                elif gi is not None:
                    fr = self.frame
                    self.frame = Frame(fr.fn, None, fr.depth + 1)
                    s2 = State({}, TRUE)
                    v = self.ev(gi['init'], s2)
                    self.frame = fr
                else:
                    v = expand(mk('sym', ('global ' + e['gn'],), self.sort(e['t'].noref())), self.sort(e['t'].noref()))
                self.gvals[r] = v
            return mk('lv', (v,), ('p', '')) if self.is_const_global(e) else self._globroot(r, v, st)
        return r

    def is_const_global(self, e):
        return e['t'].c

    def _globroot(self, r, v, st):
        st.mem[r] = v
        return r

    def e_mem(self, e, st):
        b = e['b']
        if e['arrow']:
            base = self.ev(b, st)
            base = self.strip_null(base, st)
        else:
            base = self.ev(b, st)
            if b.get('v') == 'r':
                # member of a prvalue
                return getf(base, e['f'])
        loc = self.lf(base, e['f'])
        fld = self.field_type(b['t'], e['arrow'], e['f'])
        if fld is not None and fld.k == 'ref':
            return self.load(loc, st, ('p', ''))
        return loc

    def strip_null(self, p, st):
        """pointer about to be dereferenced: drop alternatives the path excludes"""
        if p.op != 'ite':
            return p
        p = assume(p, self.fullpc(st))
        return p

    def field_type(self, t, arrow, f):
        if t is None:
            return None
        if t.k == 'ref':
            t = t.to
        if arrow and t.k == 'ptr':
            t = t.to
        if t.k != 'rec':
            return None
        fo = self.prog.field(t.key, f)
        return fo['t'] if fo else None

    def e_memfn(self, e, st):
        return self.poison('member function value', ('p', ''))

    def e_tmp(self, e, st):
        v = self.ev(e['e'], st)
        if e['e'].get('v') in ('l', 'x'):
            return v
        if not isinstance(v, T):
            v = self.poison('temporary', self.sort(e['t']))
        r = self.new_tmp(st, v)
        return r

    def e_cast(self, e, st):
        ck = e['ck']
        x = e['e']
        if ck == 'LValueToRValue':
            l = self.ev(x, st)
            return self.load(l, st, self.sort(x['t']))
        if ck == 'ToVoid':
            self.ev(x, st)
            return ZERO
        v = self.ev(x, st)
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr',
                  'LValueBitCast', 'Dependent', 'NonAtomicToAtomic'):
            return v
        if ck == 'ArrayToPointerDecay':
            if v.op == 'lv' and v.a[0].op == 'str':
                return v
            return mk_li(v, ZERO)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            if v.sort == 'b':
                return ite(v, ONE, ZERO)
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(v)
        if ck == 'FloatingToIntegral':
            c = const_of(v)
            if c is not None:
                return pconst(int(c))
            if v.sort in ('i', 'n'):
                return v
            return tm.fnl('trunc', [v], 'i')
        if ck == 'NullToPointer':
            return NULL
        if ck == 'BitCast':
            return self.models.bitcast(self, e, v, st)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            src = x['t'].noref()
            if src.k == 'ptr':
                src = src.to
            if src.k == 'rec' and src.user and self.prog.records.get(src.key, {}).get('bases'):
                if e['v'] in ('l', 'x') or e['t'].k == 'ptr':
                    return self.lf(v, '#base')
                return getf(v, '#base')
            return v
        if ck == 'BaseToDerived':
            return v
        return self.poison('cast ' + ck, self.sort(e['t']))

    def wrapu(self, v, ty, st):
        """value of an unsigned operand (reduced modulo 2^w where it may be negative)"""
        if ty is None or ty.k != 'int' or not ty.u:
            return v
        if v.op == 'poly' and nonneg(v):
            return v
        w = ty.w or 64
        def g(x):
            if x.op != 'poly' or nonneg(x):
                return x
            n = self.simp(lt(x, ZERO), st)
            return ite(n, add(x, pconst(1 << w)), x)
        return lift('wrapu%d.%d' % (w, self.fullpc(st).id), g, v)

    def e_un(self, e, st):
        op = e['op']
        x = e['e']
        if op == '&':
            return self.ev(x, st)
        if op == '*':
            p = self.ev(x, st)
            return self.strip_null(p, st)
        if op in ('++', '--', 'p++', 'p--'):
            l = self.ev(x, st)
            old = self.load(l, st, self.sort(x['t']))
            new = self.addp(old, ONE if '+' in op else pconst(-1))
            self.store(l, new, st)
            if op[0] == 'p':
                return old
            return l if e.get('v') == 'l' else new
        v = self.ev(x, st)
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return self.truth(bnot(self.tobool(v)), e)
        if op == '~':
            c = const_of(v)
            if c is not None:
                return pconst(~int(c))
            return tm.fnl('bitnot', [v], 'i')
        if op in ('__extension__', '__real', '__imag'):
            return v
        return self.poison('unary ' + op, self.sort(e['t']))

    def addp(self, a, b):
        if isinstance(a.sort, tuple) and a.sort[0] == 'p':
            def g(p, n):
                if p.op == 'li':
                    return mk_li(p.a[0], add(p.a[1], n))
                if const_of(n) == 0:
                    return p
                if p.op == 'null':
                    return p
                if p.op == 'padd':
                    return g2(p.a[0], add(p.a[1], n))
                return g2(p, n)
            def g2(p, n):
                if const_of(n) == 0:
                    return p
                return mk('padd', (p, n), ('p', ''))
            return lift('addp', g, a, b)
        return add(a, b)

    def truth(self, v, e):
        """in C the value of a test is 1 or 0"""
        return ite(v, ONE, ZERO) if v.sort == 'b' and e['t'] is not None and e['t'].k == 'int' else v

    def e_bin(self, e, st):
        return self.truth(self.e_bin0(e, st), e)

    def e_bin0(self, e, st):
        op = e['op']
        a, b = e['a'], e['b']
        if op == ',':
            self.ev(a, st)
            return self.ev(b, st)
        if op in ('&&', '||'):
            ca = self.simp(self.cond(a, st), st)
            if op == '&&':
                if ca is FALSE:
                    return FALSE
                if ca is TRUE:
                    return self.cond(b, st)
                r = self.partial(ca, st, lambda q: self.cond(b, q), FALSE)
                return band(ca, r)
            if ca is TRUE:
                return TRUE
            if ca is FALSE:
                return self.cond(b, st)
            r = self.partial(bnot(ca), st, lambda q: self.cond(b, q), FALSE)
            return bor(ca, r)
        if op == '=':
            # right operand first (C++17)
            v = self.ev(b, st)
            l = self.ev(a, st)
            if b.get('v') in ('l', 'x') and isinstance(self.sort(b['t']), tuple) and b['t'].k == 'rec':
                v = self.load(v, st, self.sort(b['t']))
            self.store(l, v, st)
            return l if e.get('v') == 'l' else v         # in C an assignment is a value
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.ev(b, st)
            l = self.ev(a, st)
            old = self.load(l, st, self.sort(a['t']))
            nv = self.arith(op[:-1], old, v, e.get('ct') or e['t'], st)
            if a['t'].k == 'int' and nv.sort == 'r':
                nv = tm.fnl('trunc', [nv], 'i')
            if a['t'].k == 'bool':
                nv = self.tobool(nv)
            self.store(l, nv, st)
            return l if e.get('v') == 'l' else nv
        va = self.ev(a, st)
        vb = self.ev(b, st)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            ta = a['t']
            if ta is not None and ta.k == 'int' and ta.u:
                va = self.wrapu(va, ta, st)
                vb = self.wrapu(vb, ta, st)
            return self.compare(op, va, vb)
        if op == '-' and isinstance(va.sort, tuple) and isinstance(vb.sort, tuple):
            return self.ptrdiff(va, vb)
        return self.arith(op, va, vb, e['t'], st)

    def ptrdiff(self, va, vb):
        def g(p, q):
            p = p.a[1] if p.op == 'lvx' else p
            q = q.a[1] if q.op == 'lvx' else q
            if p.op == 'li' and q.op == 'li' and p.a[0] is q.a[0]:
                return sub(p.a[1], q.a[1])
            if p is q:
                return ZERO
            return unk('pointer difference', 'i')
        return lift('ptrdiff', g, va, vb)

    def partial(self, c, st, fn, other):
        """evaluate fn under c; st is joined with the resulting effects"""
        s1 = st.copy()
        s1.pc = band(st.pc, c)
        before = dict(s1.mem)
        v = fn(s1)
        s2 = State(st.mem, band(st.pc, bnot(c)))
        if s1.pc is not FALSE and s1.pc is band(st.pc, c) and all(s1.mem.get(r) is x for r, x in before.items()):
            # no effect on existing objects: keep new temporaries
            for r, x in s1.mem.items():
                if r not in before:
                    st.mem[r] = x
            return v
        self.join(st, c, s1, s2)
        return v

    def compare(self, op, a, b):
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return bnot(eq(a, b))
        if isinstance(a.sort, str) and a.sort == 'b':
            a = ite(a, ONE, ZERO)
        if isinstance(b.sort, str) and b.sort == 'b':
            b = ite(b, ONE, ZERO)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        return le(b, a)

    def arith(self, op, a, b, ty, st):
        if a.sort == 'b' and op not in ('&', '|', '^'):
            a = ite(a, ONE, ZERO)
        if b.sort == 'b' and op not in ('&', '|', '^'):
            b = ite(b, ONE, ZERO)
        if op == '+':
            if isinstance(b.sort, tuple) and b.sort[0] == 'p':
                a, b = b, a
            return self.addp(a, b)
        if op == '-':
            if isinstance(a.sort, tuple) and a.sort[0] == 'p':
                return self.addp(a, neg(b))
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if ty.k == 'flt':
                return rdiv(a, b)
            return idiv(a, b)
        if op == '%':
            return imod(a, b)
        if op in ('&', '|', '^'):
            if a.sort == 'b' and b.sort == 'b':
                return band(a, b) if op == '&' else bor(a, b) if op == '|' else tm.bxor(a, b)
            if a.sort == 'b':
                a = ite(a, ONE, ZERO)
            if b.sort == 'b':
                b = ite(b, ONE, ZERO)
            return bitop(op, a, b)
        if op in ('<<', '>>'):
            ca, cb = const_of(a), const_of(b)
            if cb is not None:
                if op == '<<':
                    return mul(a, pconst(1 << int(cb)))
                if ca is not None:
                    return pconst(int(ca) >> int(cb))
                if cb >= 0 and nonneg(a):
                    return idiv(a, pconst(1 << int(cb)))
            return tm.fnl('shift' + op, [a, b], 'i')
        return self.poison('operator ' + op, self.sort(ty))

    def e_cond(self, e, st):
        for br in (e['b'], e['a']):
            if self.is_assert_fail(br):
                return ZERO
        c = self.simp(self.cond(e['c'], st), st)
        if c is TRUE:
            return self.ev(e['a'], st)
        if c is FALSE:
            return self.ev(e['b'], st)
        s1 = st.copy()
        s1.pc = band(st.pc, c)
        s2 = st.copy()
        s2.pc = band(st.pc, bnot(c))
        va = self.ev(e['a'], s1)
        vb = self.ev(e['b'], s2)
        f1, f2 = s1.pc is FALSE, s2.pc is FALSE
        self.join(st, c, s1, s2)
        if f1:
            return vb
        if f2:
            return va
        return ite(c, va, vb)

    def is_assert_fail(self, e):
        while e is not None and e['k'] == 'cast':
            e = e['e']
        return e is not None and e['k'] == 'call' and isinstance(e.get('fn'), dict) and e['fn']['n'] in ('__assert_fail', '__assert_rtn', '__assert')

    def e_idx(self, e, st):
        a = self.ev(e['a'], st)
        b = self.ev(e['b'], st)
        if isinstance(b.sort, tuple) and b.sort[0] == 'p':
            a, b = b, a
        a = self.strip_null(a, st)
        return self.addp(a, b)

    def e_throw(self, e, st):
        if e.get('e') is None:
            exc = getattr(self, 'curexc', None) or mk('exc', ('?',), ('o', 'exc'))
        else:
            t = e['e']['t'].noref()
            if e['e']['k'] == 'ctor' or t.k == 'rec':
                exc = mk('exc', (t.n or t.s,), ('o', 'exc'))
            else:
                exc = mk('exc', (t.s,), ('o', 'exc'))
        self.exits.append(Exit('throw', st.pc, exc, dict(st.mem), e.get('l')))
        st.pc = FALSE
        return ZERO

    def raise_exc(self, name, guard, st):
        """std-library throw of exception `name` under guard"""
        g = self.simp(guard, st)
        if g is FALSE:
            return
        self.exits.append(Exit('throw', band(st.pc, g), mk('exc', (name,), ('o', 'exc')), dict(st.mem),
                               tm.CUR[0][0] if tm.CUR[0] else None))
        st.pc = band(st.pc, bnot(g))

    def e_ilist(self, e, st):
        t = e['t']
        s = self.sort(t)
        if s[0] == 'rec':
            vals = {}
            for n, x in zip(e['ns'], e['es']):
                ft = None
                r = self.prog.records.get(t.key)
                if r is not None:
                    for fo in r['fields']:
                        if fo['n'] == n:
                            ft = fo['t']
                v = self.ev(x, st)
                if not (ft is not None and ft.k == 'ref') and x.get('v') in ('l', 'x') and x['t'].k == 'rec':
                    v = self.load(v, st, self.sort(x['t']))
                vals[n] = v
            return rec(s, [vals.get(f, default_of(fs)) for f, fs in s[2]])
        if s[0] == 'v':
            n = len(e['es'])
            tot = n
            if t.k == 'arr' and isinstance(t.n, int):
                tot = t.n
            v = default_of(s)
            parts = []
            for x in e['es']:
                y = self.ev(x, st)
                if y.op == 'arr' and isinstance(y.sort, tuple) and y.sort == s and n == 1 and t.k != 'arr':
                    return y
                parts.append(tm.one(y, s))
            if tot > n:
                parts.append(tm.const_seq(pconst(tot - n), default_of(s[1]), s))
            return cat(*parts) if parts else v
        if len(e['es']) == 1:
            return self.ev(e['es'][0], st)
        if not e['es']:
            return default_of(s)
        return self.poison('initialiser list', s)

    def e_silist(self, e, st):
        v = self.ev(e['e'], st)
        if e['e'].get('v') in ('l', 'x'):
            v = self.load(v, st)
        return v

    def e_arrcopy(self, e, st):
        return self.ev_val(e['e'], st)

    def e_stmtexpr(self, e, st):
        self.exec(e['s'], st)
        return ZERO

    def e_unk(self, e, st):
        return self.poison('expression ' + e.get('why', '?'), self.sort(e['t']))

    def e_new(self, e, st):
        t = e['t'].to
        s = self.sort(t)
        if e.get('arr'):
            n = self.ev(e['n'], st)
            v = tm.const_seq(n, default_of(s) if e.get('e') else undef('new[]', s), ('v', s))
            return mk_li(self.new_heap(st, v), ZERO)
        if e.get('e') is not None:
            v = self.ev(e['e'], st)
            if e['e'].get('v') in ('l', 'x'):
                v = self.load(v, st, s)
        else:
            v = undef('new', s)
        return self.new_heap(st, v)

    def e_delete(self, e, st):
        self.ev(e['e'], st)
        return ZERO

    def e_lambda(self, e, st):
        fs = []
        vs = []
        for c in e['caps']:
            if c.get('this'):
                fs.append((c['f'], ('p', '')))
                vs.append(self.frame.this)
                continue
            v = self.ev(c['init'], st)
            if c.get('byref'):
                fs.append((c['f'], ('p', '')))
                vs.append(v)
            else:
                if c['init'].get('v') in ('l', 'x'):
                    v = self.load(v, st, self.sort(c['init']['t']))
                fs.append((c['f'], v.sort))
                vs.append(v)
        s = ('rec', e['t'].key, tuple(fs))
        self.prog.lambdas = getattr(self.prog, 'lambdas', {})
        self.prog.lambdas[e['t'].key] = (e, self.frame.fn)
        if not fs:
            return mk('rec', (s[1],), s)
        return rec(s, vs)

    # ---------------------------------------------------------------- calls
    def e_call(self, e, st):
        fn = e.get('fn')
        if fn is None:
            f = self.ev(e['fe'], st)
            args = [self.ev(a, st) for a in e['args']]
            if f.op == 'fnptr':
                fo = self.prog.functions.get(f.a[0])
                if fo is not None:
                    return self.call_user(fo, None, args, st, e)
            return self.poison('indirect call', self.sort(e['t']))
        return self.dispatch(fn, None, e['args'], e, st)

    def e_mcall(self, e, st):
        fn = e['fn']
        o = self.ev(e['o'], st)
        if e['o'].get('v') == 'r' and not e.get('arrow'):
            o = self.new_tmp(st, o)
        if e.get('arrow'):
            o = self.strip_null(o, st)
        return self.dispatch(fn, o, e['args'], e, st)

    def e_ocall(self, e, st):
        fn = e.get('fn')
        if fn is None:
            return self.poison('operator call', self.sort(e['t']))
        if fn.get('cls') is not None and not fn.get('static'):
            o = self.ev(e['args'][0], st)
            if e['args'][0].get('v') == 'r':
                o = self.new_tmp(st, o)
            return self.dispatch(fn, o, e['args'][1:], e, st)
        return self.dispatch(fn, None, e['args'], e, st)

    def eval_args(self, fn, argx, st):
        out = []
        ps = fn.get('ps', [])
        for i, a in enumerate(argx):
            v = self.ev(a, st)
            if not isinstance(v, T):
                v = self.poison('argument', self.sort(a['t']))
            if i < len(ps) and ps[i].k != 'ref' and a.get('v') in ('l', 'x') and a['t'].k == 'rec':
                v = self.load(v, st, self.sort(a['t']))
            out.append(v)
        return out

    def dispatch(self, fn, obj, argx, e, st):
        self.stats['calls'] += 1
        fo = self.prog.functions.get(fn['key'])
        op = self.opaque.get(fn['n'])
        if op is not None:
            args = self.eval_args(fn, argx, st)
            if st.pc is FALSE:
                return undef('unreachable', self.sort(e['t']))
            r = op(self, fn, obj, args, e, st)
            if r is not NotImplemented:
                return r
        if fn.get('user') or fo is not None:
            if fn['n'].startswith('fd::'):
                args = self.eval_args(fn, argx, st)
                r = self.models.intrinsic(self, fn, args, e, st)
                if r is not NotImplemented:
                    return r
            kind = fn.get('kind')
            if fo is None or fo.get('defaulted'):
                if kind in ('copyassign', 'moveassign'):
                    src = self.ev(argx[0], st)
                    v = self.load(src, st)
                    if kind == 'moveassign':
                        self.store(src, moved_out(v), st)
                    self.store(obj, v, st)
                    return obj
            if fo is None:
                args = self.eval_args(fn, argx, st)
                return self.unknown_call(fn, obj, args, e, st)
            args = self.eval_args(fn, argx, st)
            if st.pc is FALSE:
                return undef('unreachable', self.sort(e['t']))
            return self.call_user(fo, obj, args, st, e)
        if fn.get('noret') and fn['n'] in ('__assert_fail',):
            return ZERO
        return self.models.call(self, fn, obj, argx, e, st)

    def unknown_call(self, fn, obj, args, e, st):
        self.note('call to %s' % fn['n'])
        if obj is not None and not fn.get('const'):
            self.havoc(obj, st)
        for a, p in zip(args, fn.get('ps', [])):
            if p.k == 'ref' and not p.to.c or p.k == 'ptr' and not p.to.c:
                self.havoc(a, st)
        rt = e['t']
        if e.get('v') in ('l', 'x'):
            return self.new_tmp(st, unk('result of ' + fn['n'], self.sort(rt)))
        return unk('result of ' + fn['n'], self.sort(rt))

    def havoc(self, loc, st):
        l = loc
        while l.op == 'li' or l.op == 'ite':
            if l.op == 'ite':
                self.havoc(l.a[1], st)
                self.havoc(l.a[2], st)
                return
            l = l.a[0]
        if l.op in ('null', 'lv', 'fnptr'):
            return
        v = self.load(l, st)
        self.store(l, unk('havoc', v.sort), st)

    def call_user(self, fo, this, args, st, e=None):
        if len(self.stack) > 48 or sum(1 for f in self.stack if f.fn is fo) > 2:
            self.note('recursion in ' + fo['n'])
            return unk('recursion', self.sort(fo['info']['rt']))
        self.stats['functions'].add(fo['n'])
        fr = Frame(fo, this, (self.frame.depth if self.frame else 0) + 1)
        cls = fo['info'].get('cls')
        if cls is not None and cls.key in getattr(self.prog, 'lambdas', {}):
            self.bind_captures(fr, cls.key, this, st)
        for p, a in zip(fo['ps'], args):
            if p['t'].k == 'ref':
                fr.env[p['d']] = a
            else:
                r = self.root('L%d:%s' % (fr.depth, p['d']))
                st.mem[r] = a
                fr.env[p['d']] = r
                fr.scopes[-1].append((r, self.dtor_of(p['t'])))
        old = self.frame
        keep = self.exits
        cur = tm.CUR[0]
        outer = st.pc
        self.exits = []
        self.ctx.append(outer)
        if old is not None:
            self.stack.append(old)
        self.frame = fr
        try:
            q = State(st.mem, TRUE)
            if fo['info'].get('kind') in ('ctor', 'copyctor', 'movector', 'defctor'):
                self.ctor_inits(fo, this, q)
            self.exec(fo['body'], q)
            self.frame.scopes.append([])
            sc = fr.scopes[0]
            fr.scopes.pop()
            fr.scopes = [sc]
            self.pop_scope(q, 0)
        finally:
            self.frame = old
            if old is not None:
                self.stack.pop()
            self.ctx.pop()
            inner = self.exits
            self.exits = keep
            tm.CUR[0] = cur
        alts = []
        for x in inner:
            if x.kind == 'ret':
                alts.append((x.g, x.val, x.mem))
            elif x.kind == 'throw':
                x.g = band(outer, x.g)
                if x.g is not FALSE:
                    self.exits.append(x)
            else:
                raise Unmodelled('stray ' + x.kind)
        if q.pc is not FALSE:
            alts.append((q.pc, None, q.mem))
        g, val, mem = self.merge(alts)
        st.pc = band(outer, g)
        if g is not FALSE:
            st.mem = mem
            dead = [r for r in mem if r.op == 'root' and r.a[0].startswith('L%d:' % fr.depth)]
            if dead and old is not None and old.depth < fr.depth:
                st.mem = {r: v for r, v in mem.items() if r not in dead}
        if val is None:
            rt = fo['info']['rt']
            val = ZERO if rt.k == 'void' else undef('no return value', self.sort(rt))
        return val

    def bind_captures(self, fr, key, this, st):
        e, _ = self.prog.lambdas[key]
        for c in e['caps']:
            l = self.lf(this, c['f']) if this is not None else None
            if c.get('this'):
                fr.this = self.load(l, st, ('p', ''))
            elif c.get('byref'):
                fr.env[c['d']] = self.load(l, st, ('p', ''))
            else:
                fr.env[c['d']] = l

    def ctor_inits(self, fo, this, st):
        cls = fo['info']['cls']
        r = self.prog.records.get(cls.key)
        for io in fo.get('inits', []):
            if io.get('l'):
                tm.CUR[0] = (io['l'], fo['n'])
            if io.get('delegate'):
                v = self.ev(io['e'], st)
                self.store(this, v, st)
            elif 'f' in io:
                fo2 = self.prog.field(cls.key, io['f'])
                v = self.ev(io['e'], st)
                if not (fo2 and fo2['t'].k == 'ref') and io['e'].get('v') in ('l', 'x') and io['e']['t'].k == 'rec':
                    v = self.load(v, st, self.sort(io['e']['t']))
                self.store(self.lf(this, io['f']), v, st)
            elif io.get('base') is not None:
                if r is not None and r.get('bases'):
                    v = self.ev(io['e'], st)
                    self.store(self.lf(this, '#base'), v, st)

    def e_ctor(self, e, st):
        fn = e['fn']
        t = e['t']
        s = self.sort(t)
        op = self.opaque.get(fn['n'])
        if op is not None:
            args = self.eval_args(fn, e['args'], st)
            r = op(self, fn, None, args, e, st)
            if r is not NotImplemented:
                return r
        kind = fn['kind']
        if not fn.get('user'):
            return self.models.ctor(self, fn, e['args'], e, st)
        fo = self.prog.functions.get(fn['key'])
        if kind in ('copyctor', 'movector') and (fo is None or fo.get('defaulted')):
            src = self.ev(e['args'][0], st)
            if e['args'][0].get('v') == 'r':
                return src
            v = self.load(src, st, s)
            if kind == 'movector':
                self.store(src, moved_out(v), st)
            return v
        if fo is None:
            if kind == 'defctor':
                return self.default_init(t, st, e.get('zeroinit'))
            args = self.eval_args(fn, e['args'], st)
            return self.unknown_call(fn, None, args, e, st)
        args = self.eval_args(fn, e['args'], st)
        if st.pc is FALSE:
            return undef('unreachable', s)
        self.ntmp += 1
        r = self.root('C%d' % self.ntmp)
        if e.get('zeroinit'):
            st.mem[r] = default_of(s)
        else:
            st.mem[r] = undef('uninitialised ' + (t.n or ''), s)
        self.call_user(fo, r, args, st, e)
        if st.pc is FALSE:
            return undef('unreachable', s)
        return st.mem.pop(r)

    def default_init(self, t, st, zero=False):
        s = self.sort(t)
        if t.k != 'rec':
            return default_of(s) if zero else undef('uninitialised', s)
        r = self.prog.records.get(t.key)
        if r is None or not r.get('user'):
            return default_of(s)
        vals = []
        for b in r.get('bases', []):
            vals.append(self.default_init(b, st, zero))
        for f in r['fields']:
            if f.get('init') is not None:
                vals.append(self.ev(f['init'], st))
            else:
                vals.append(self.default_init(f['t'], st, zero))
        return rec(s, vals)

    # functor objects -----------------------------------------------------
    def call_value(self, f, args, st, locs=None):
        """call closure / function-object value f.  args: list of (value, loc|None)"""
        if f.op == 'ite':
            A = tm.node(f.a[0], TRUE, FALSE)
            s1 = st.copy(); s1.pc = band(st.pc, A)
            s2 = st.copy(); s2.pc = band(st.pc, bnot(A))
            v1 = self.call_value(f.a[1], args, s1)
            v2 = self.call_value(f.a[2], args, s2)
            self.join(st, A, s1, s2)
            return ite(A, v1, v2)
        if f.op == 'fnptr':
            fo = self.prog.functions.get(f.a[0])
            if fo is None:
                return self.poison('call of ' + f.a[1], 'i')
            return self.call_user(fo, None, self.conv_args(fo, args, st), st)
        if isinstance(f.sort, tuple) and f.sort[0] == 'o':
            n = f.sort[1]
            r = self.models.functor(self, n, f, args, st)
            if r is not None:
                return r
            return self.poison('call of ' + n, 'i')
        if f.op == 'rec':
            key = f.sort[1]
            cands = [fo for fo in self.prog.functions.values()
                     if fo['info'].get('cls') is not None and fo['info']['cls'].key == key and fo['n'].endswith('::operator()')
                     and len(fo['ps']) == len(args)]
            if not cands:
                return self.poison('call of closure', 'i')
            fo = self.pick(cands, args, st)
            loc = locs or self.new_tmp(st, f)
            r = self.call_user(fo, loc, self.conv_args(fo, args, st), st)
            if fo['info']['rt'].k == 'ref' and isinstance(r, T):
                r = self.load(r, st, self.sort(fo['info']['rt'].to))
            return r
        return self.poison('call of unknown value', 'i')

    def pick(self, cands, args, st):
        if len(cands) == 1:
            return cands[0]
        for fo in cands:
            ok = True
            for p, (v, l) in zip(fo['ps'], args):
                s = self.sort(p['t'].noref())
                vs = v.sort
                if is_num(s) != is_num(vs) or (isinstance(s, tuple) and s != vs):
                    ok = False
            if ok:
                return fo
        return cands[0]

    def conv_args(self, fo, args, st):
        out = []
        for p, (v, l) in zip(fo['ps'], args):
            if p['t'].k == 'ref':
                if l is None:
                    l = self.new_tmp(st, v)
                out.append(l)
            else:
                out.append(v)
        return out


def bitop(op, a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        x, y = int(ca), int(cb)
        return pconst(x & y if op == '&' else x | y if op == '|' else x ^ y)
    if op == '&' and cb is not None and cb > 0 and (int(cb) & (int(cb) + 1)) == 0 and nonneg(a):
        return imod(a, pconst(int(cb) + 1))
    def g(x, y):
        x, y = (x, y) if x.id < y.id else (y, x)
        return tm.fn('bit' + op, (x, y), 'i')
    return lift('bit' + op, g, a, b)


OSTREAM = ('rec', 'std::ostream', (('log', ('v', ('o', 'tok'))), ('prec', 'i'), ('flags', 'i'), ('width', 'i'), ('fill', 'i')))

tm.BUILD['lv'] = lambda t, na: mk('lv', na, t.sort)
tm.BUILD['padd'] = lambda t, na: mk('padd', na, t.sort)
tm.BUILD['exc'] = lambda t, na: mk('exc', na, t.sort)
