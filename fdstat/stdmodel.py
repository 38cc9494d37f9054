"""Models of the standard library facilities (value semantics of containers,
iterators, algorithms, streams, smart pointers, C memory functions)."""
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, TRUE, FALSE, NULL, ZERO, ONE, INF, NINF, ite, band, bor, bnot, lift, eq, lt, le,
                    add, sub, mul, neg, pconst, pvar, const_of, nonneg, getf, setf, rec, expand, sym, fresh, unk,
                    at, size, set_at, mk_arr, cat, has, mat, map_set, default_of, is_num, mk_li, mk_lk, mk_le, leaves,
                    slice_, one, const_seq)
from .interp import undef, moved_out, OSTREAM, State, Exit, restrict

SEQ = ('std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list')
MAPS = ('std::map', 'std::unordered_map')
SETS = ('std::set', 'std::unordered_set')
P = ('p', '')
TOK = ('o', 'tok')


def lv(v):
    return mk('lv', (v,), P)


def cls_of(n):
    return n.rsplit('::', 1)


def engine(t):
    """name of a generator or distribution type, with its parameters"""
    return t.key or t.s


class Models(object):

    # ------------------------------------------------------------ utilities
    def val(self, I, a, st, sort=None):
        """load a (location of a value)"""
        return I.load(a, st, sort)

    def args(self, I, fn, argx, st):
        return [self.onearray(I, a) for a in I.eval_args(fn, argx, st)]

    @staticmethod
    def onearray(I, a):
        """a gated pointer into one array as one place in it with a gated index"""
        if a.op == 'ite' and isinstance(a.sort, tuple) and a.sort[0] == 'p':
            b = I.into(a)
            if b is not None:
                return mk('li', (b, tm.lift('place', lambda x: x.a[1], a)), ('p', 'elem'))
        return a

    def vals(self, I, fn, argx, st):
        """argument values, references loaded"""
        out = []
        ps = fn.get('ps', [])
        for i, a in enumerate(I.eval_args(fn, argx, st)):
            if i < len(ps) and ps[i].k == 'ref':
                a = I.load(a, st, I.sort(ps[i].to))
            out.append(a)
        return out

    def ret(self, I, e, v, st):
        """wrap value v as the result of expression e"""
        if e.get('v') in ('l', 'x'):
            return lv(v)
        return v

    def bad(self, I, fn, e, st, obj=None, args=()):
        return I.unknown_call(fn, obj, list(args), e, st)

    # ----------------------------------------------------------- globals
    def global_value(self, I, e):
        gn = e.get('gn', '')
        if gn.startswith('std::ios_base::') or gn.startswith('std::_S_'):
            k = gn.rsplit('::', 1)[1]
            if k in IOS:
                return pconst(IOS[k])
        if gn == 'std::nullopt':
            return mk('fn', ('default', ()), I.sort(e['t'].noref()))
        return None

    # -------------------------------------------------------- dispatch
    def call(self, I, fn, obj, argx, e, st):
        n = fn['n']
        if '::' in n:
            c, m = cls_of(n)
        else:
            c, m = '', n
        h = None
        if obj is not None:
            if c in SEQ:
                h = getattr(self, 'v_' + OPS.get(m, m), None)
            elif c in MAPS or c in SETS:
                h = getattr(self, 'm_' + OPS.get(m, m), None)
            elif c == 'std::basic_string':
                h = self.string_method
            elif c in ('std::unique_ptr', 'std::shared_ptr'):
                h = self.uptr_method
            elif 'iterator' in c.lower() or c.startswith('std::__detail::_Node'):
                h = self.iter_method
            elif c in ('std::basic_ostream', 'std::ios_base', 'std::basic_ios', 'std::basic_ostringstream', 'std::basic_stringstream'):
                h = self.stream_method
            elif 'distribution' in c:
                h = self.dist_method
            elif c == 'std::random_device' and m == 'operator()':
                return self.entropy(I, 'n')
            elif c in ('std::mersenne_twister_engine', 'std::linear_congruential_engine', 'std::subtract_with_carry_engine'):
                h = self.engine_method
            elif c == 'std::function':
                h = self.function_method
            elif c in ('std::pair', 'std::tuple', 'std::optional'):
                h = self.rec_method
            elif c == 'std::reference_wrapper':
                return I.load(obj, st, P)
            elif c in ('std::plus', 'std::multiplies', 'std::minus', 'std::less', 'std::greater', 'std::divides',
                       'std::less_equal', 'std::greater_equal', 'std::negate', 'std::equal_to', 'std::logical_or', 'std::logical_and'):
                vs = self.vals(I, fn, argx, st)
                r = self.functor(I, c, None, [(v, None) for v in vs], st)
                if r is not None:
                    return r
            if h is not None:
                r = h(I, fn, obj, argx, e, st)
                if r is not NotImplemented:
                    return r
            args = self.args(I, fn, argx, st)
            if fn.get('kind') in ('copyassign', 'moveassign'):
                v = I.load(args[0], st)
                if fn['kind'] == 'moveassign':
                    I.store(args[0], moved_out(v), st)
                I.store(obj, v, st)
                return obj
            return self.bad(I, fn, e, st, obj, args)
        if c.startswith('std::numeric_limits') or c == 'std::numeric_limits':
            return self.limits(I, fn, m, e)
        if m in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            return self.rel(I, fn, m[8:], argx, e, st)
        if m == 'operator-' or m == 'operator+':
            vs = self.vals(I, fn, argx, st)
            return self.binplus(I, m, vs, e, st)
        if m == 'operator<<':
            return self.shl(I, fn, argx, e, st)
        if m == 'operator|' or m == 'operator&' or m == 'operator~':
            vs = self.vals(I, fn, argx, st)
            from .interp import bitop
            if len(vs) == 2:
                return bitop(m[8:], vs[0], vs[1])
            cc = const_of(vs[0])
            return pconst(~int(cc)) if cc is not None else tm.fnl('bitnot', vs, 'i')
        h = getattr(self, 'f_' + m, None)
        if h is not None and (c in ('', 'std', 'std::__cxx11') or c.startswith('std')):
            r = h(I, fn, argx, e, st)
            if r is not NotImplemented:
                return r
        args = self.args(I, fn, argx, st)
        return self.bad(I, fn, e, st, None, args)

    # -------------------------------------------------------------- ctors
    def ctor(self, I, fn, argx, e, st):
        t = e['t']
        n = t.n or ''
        s = I.sort(t)
        kind = fn['kind']
        if kind in ('copyctor', 'movector'):
            src = I.ev(argx[0], st)
            if argx[0].get('v') == 'r':
                return src
            v = I.load(src, st, s)
            if kind == 'movector':
                I.store(src, moved_out(v), st)
            return v
        if n in SEQ:
            return self.vec_ctor(I, fn, argx, e, st, s)
        if n in MAPS or n in SETS:
            return self.assoc_ctor(I, fn, argx, e, st, s)
        if n in ('std::unique_ptr', 'std::shared_ptr'):
            if not argx:
                return NULL
            a = self.args(I, fn, argx, st)[0]
            p0 = fn['ps'][0]
            if p0.k == 'ref':
                v = I.load(a, st, ('p', ''))
                if p0.rv:
                    I.store(a, NULL, st)
                return v
            return a
        if n == 'std::basic_string':
            if not argx:
                return default_of('s')
            vs = self.vals(I, fn, argx, st)
            v = vs[0]
            if v.op == 'lv':
                v = v.a[0]
            if v.sort == 's' and len([a for a in argx if 'allocator' not in str(a['t'])]) == 1:
                return v
            return tm.fn('string', tuple(vs), 's')
        if n == 'std::pair':
            if not argx:
                return default_of(s)
            vs = self.vals(I, fn, argx, st)
            if len(vs) == 2:
                return rec(s, [self.conv(v, fs) for v, (_, fs) in zip(vs, s[2])])
            if len(vs) == 1:
                v = vs[0]
                return rec(s, [getf(v, 'first'), getf(v, 'second')])
        if n == 'std::tuple':
            if not argx:
                return default_of(s)
            vs = self.vals(I, fn, argx, st)
            if len(vs) == len(s[2]):
                return rec(s, vs)
        if n == 'std::optional':
            if not argx:
                return rec(s, [FALSE, default_of(s[2][1][1])])
            vs = self.vals(I, fn, argx, st)
            if isinstance(vs[0].sort, tuple) and vs[0].sort[0] == 'o':
                return rec(s, [FALSE, default_of(s[2][1][1])])
            return rec(s, [TRUE, vs[0]])
        if 'iterator' in n.lower() or n.startswith('std::__detail::_Node'):
            if not argx:
                return NULL
            return self.vals(I, fn, argx, st)[0]
        if n == 'std::function':
            if not argx:
                return mk('fn', ('default', ()), s)
            return self.vals(I, fn, argx, st)[0]
        if n == 'std::reference_wrapper':
            return self.args(I, fn, argx, st)[0]
        if s == OSTREAM:
            for a in argx:
                I.ev(a, st)
            return rec(s, [default_of(s[2][0][1]), pconst(6), pconst(IOS['dec'] | IOS['skipws']), ZERO, pconst(32)])
        if 'distribution' in n or 'engine' in n or n == 'std::random_device':
            vs = self.vals(I, fn, argx, st)
            if n == 'std::random_device':
                return mk('fn', ('entropy', ()), s)
            if 'engine' in n:
                return mk('fn', (engine(t), tuple(vs) or (pconst(5489),)), s)
            if n in ('std::normal_distribution', 'std::uniform_real_distribution') and len(vs) < 2:
                vs = vs + [ZERO, ONE][len(vs):]
            return mk('fn', (engine(t), tuple(vs)), s)
        if n.startswith('std::allocator') or n in FUNCTORS or n.startswith('std::hash'):
            return mk('fn', ('default', ()), s)
        if n.startswith('std::') and (n.endswith('error') or n.endswith('argument') or n.endswith('exception') or n.endswith('range')):
            for a in argx:
                I.ev(a, st)
            return mk('fn', ('default', ()), s)
        args = self.args(I, fn, argx, st)
        return self.bad(I, fn, e, st, None, args)

    def conv(self, v, s):
        if v.sort == 'b' and is_num(s):
            return ite(v, ONE, ZERO)
        if v.op == 'lv' and s == 's':
            return v.a[0]
        return v

    # ------------------------------------------------------------ sequences
    def vec_ctor(self, I, fn, argx, e, st, s):
        real = [a for a in argx if 'allocator' not in str(a['t'])]
        if not real:
            return default_of(s)
        args = self.args(I, fn, argx, st)[:len(real)]
        ps = fn['ps']
        t0 = ps[0].noref()
        if t0.k == 'rec' and t0.n == 'std::initializer_list':
            return args[0] if ps[0].k != 'ref' else I.load(args[0], st)
        if t0.k == 'int':
            n = args[0]
            w = default_of(s[1])
            if len(args) > 1:
                w = I.load(args[1], st, s[1])
                w = self.conv(w, s[1])
            return const_seq(self.usize(I, n, st), w, s)
        if len(args) >= 2:
            a, b = args[0], args[1]
            return self.range_seq(I, a, b, s, st)
        if len(args) == 1 and t0.k == 'rec' and t0.n in SEQ:
            return I.load(args[0], st) if ps[0].k == 'ref' else args[0]
        return self.bad(I, fn, e, st, None, args)

    def usize(self, I, n, st):
        """a length: negative values do not occur (allocation would fail)"""
        return n

    def range_seq(self, I, a, b, s, st):
        """sequence of the elements in [a, b)"""
        def g(x, y):
            if x.op == 'li' and y.op == 'li' and x.a[0] is y.a[0]:
                v = I.load(x.a[0], st)
                n = sub(y.a[1], x.a[1])
                if x.a[1] is ZERO and y.a[1] is size(v):
                    return self.recast(v, s)
                return self.recast(slice_(v, x.a[1], n), s)
            if x.op == 'mbeg' and y.op == 'mend' and x.a[0] is y.a[0]:
                m = I.load(x.a[0], st)
                k = fresh('o', m.sort[1])
                kv = expand(k, k.sort)
                el = kv
                if m.sort[0] == 'm':
                    el = rec(('rec', 'std::pair', (('first', m.sort[1]), ('second', m.sort[2]))), [kv, mat(m, kv)])
                return tm.mk_flat(('k', m.sort[1]), k, ite(has(m, kv), one(el, s), default_of(s)), s)
            if x is NULL:
                return default_of(s)
            return unk('range', s)
        return lift('range%d' % id(st), g, a, b) if (a.op == 'ite' or b.op == 'ite') else g(a, b)

    def recast(self, v, s):
        if v.sort == s:
            return v
        if v.op == 'ite':
            return ite(tm.node(v.a[0], TRUE, FALSE), self.recast(v.a[1], s), self.recast(v.a[2], s))
        k = fresh('o', 'n')
        return mk_arr(size(v), k, at(v, pvar(k)), s)

    def v_size(self, I, fn, obj, argx, e, st):
        return size(I.load(obj, st))

    v_length = v_size

    def v_empty(self, I, fn, obj, argx, e, st):
        return eq(size(I.load(obj, st)), ZERO)

    def v_begin(self, I, fn, obj, argx, e, st):
        return mk_li(obj, ZERO)

    v_cbegin = v_begin
    v_data = v_begin

    def v_end(self, I, fn, obj, argx, e, st):
        return mk_li(obj, size(I.load(obj, st)))

    v_cend = v_end

    def v_clear(self, I, fn, obj, argx, e, st):
        v = I.load(obj, st)
        I.store(obj, default_of(self.vs(v)), st)
        return ZERO

    def vs(self, v):
        while v.op == 'ite':
            v = v.a[1]
        return v.sort

    def v_reserve(self, I, fn, obj, argx, e, st):
        self.args(I, fn, argx, st)
        return ZERO

    def v_shrink_to_fit(self, I, fn, obj, argx, e, st):
        return ZERO

    def v_index(self, I, fn, obj, argx, e, st):
        i = self.args(I, fn, argx, st)[0]
        return self.elem(I, obj, i, st)

    def elem(self, I, obj, i, st):
        if I.config.get('oob'):
            n = size(I.load(obj, st))
            g = bor(lt(i, ZERO), le(n, i))
            I.raise_exc('!out-of-bounds', g, st)
        return mk_li(obj, i)

    def v_at(self, I, fn, obj, argx, e, st):
        i = self.args(I, fn, argx, st)[0]
        n = size(I.load(obj, st))
        I.raise_exc('std::out_of_range', bor(lt(i, ZERO), le(n, i)), st)
        return mk_li(obj, i)

    def v_front(self, I, fn, obj, argx, e, st):
        return self.elem(I, obj, ZERO, st)

    def v_back(self, I, fn, obj, argx, e, st):
        return self.elem(I, obj, sub(size(I.load(obj, st)), ONE), st)

    def v_push_back(self, I, fn, obj, argx, e, st):
        a = self.args(I, fn, argx, st)[0]
        x = I.load(a, st)
        v = I.load(obj, st)
        s = self.vs(v)
        x = self.conv(x, s[1])
        if fn['ps'][0].rv and isinstance(s[1], tuple):
            I.store(a, moved_out(x), st)
        I.store(obj, cat(v, one(x, s)), st)
        return ZERO

    def v_emplace_back(self, I, fn, obj, argx, e, st):
        v = I.load(obj, st)
        s = self.vs(v)
        x = self.construct(I, fn, argx, s[1], fn['cls'].a[0] if fn.get('cls') is not None and fn['cls'].a else None, st)
        v = I.load(obj, st)
        I.store(obj, cat(v, one(x, s)), st)
        return mk_li(obj, size(v))

    def construct(self, I, fn, argx, s, ty, st):
        args = self.args(I, fn, argx, st)
        vs = []
        for a, p, x in zip(args, fn['ps'], argx):
            v = I.load(a, st, I.sort(p.to)) if p.k == 'ref' else a
            if p.k == 'ref' and p.rv and x.get('v') == 'x' and isinstance(v.sort, tuple):
                I.store(a, moved_out(v), st)
            vs.append(v)
        return self.construct_vals(I, vs, s, ty, st)

    def construct_vals(self, I, vs, s, ty, st):
        if not vs:
            return default_of(s) if ty is None or not ty.user else I.default_init(ty, st, True)
        if len(vs) == 1 and (vs[0].sort == s or (is_num(s) and is_num(vs[0].sort)) or s == 'b'):
            return vs[0]
        if isinstance(s, tuple) and s[0] == 'rec' and s[1] == 'std::pair' and len(vs) == 2:
            return rec(s, [self.conv(x, fs) for x, (_, fs) in zip(vs, s[2])])
        if isinstance(s, tuple) and s[0] == 'v' and len(vs) == 2 and is_num(vs[0].sort):
            return const_seq(vs[0], vs[1], s)
        if isinstance(s, tuple) and s[0] == 'v' and len(vs) == 1 and is_num(vs[0].sort):
            return const_seq(vs[0], default_of(s[1]), s)
        if ty is not None and ty.k == 'rec' and ty.user:
            r = self.user_ctor(I, ty, vs, st)
            if r is not None:
                return r
        if len(vs) == 1 and vs[0].op == 'lv':
            return vs[0].a[0]
        return I.poison('construction', s)

    def user_ctor(self, I, ty, vs, st):
        cands = []
        for fo in I.prog.functions.values():
            inf = fo['info']
            if inf.get('cls') is not None and inf['cls'].key == ty.key and inf.get('kind') in ('ctor', 'defctor') and len(fo['ps']) == len(vs):
                cands.append(fo)
        if not cands:
            r = I.prog.records.get(ty.key)
            if r is not None and len(r['fields']) == len(vs):
                return rec(I.sort(ty), vs)
            return None
        fo = I.pick(cands, [(v, None) for v in vs], st)
        I.ntmp += 1
        root = I.root('C%d' % I.ntmp)
        st.mem[root] = undef('uninitialised', I.sort(ty))
        I.call_user(fo, root, I.conv_args(fo, [(v, None) for v in vs], st), st)
        if st.pc is FALSE:
            return undef('unreachable', I.sort(ty))
        return st.mem.pop(root)

    def v_pop_back(self, I, fn, obj, argx, e, st):
        v = I.load(obj, st)
        I.store(obj, slice_(v, ZERO, sub(size(v), ONE)), st)
        return ZERO

    def v_resize(self, I, fn, obj, argx, e, st):
        args = self.args(I, fn, argx, st)
        v = I.load(obj, st)
        s = self.vs(v)
        n = args[0]
        w = default_of(s[1]) if len(args) < 2 else self.conv(I.load(args[1], st, s[1]), s[1])
        I.store(obj, self.resized(v, n, w, s), st)
        return ZERO

    def resized(self, v, n, w, s):
        k = fresh('o', 'n')
        return mk_arr(n, k, ite(lt(pvar(k), size(v)), at(v, pvar(k)), w), s)

    def v_assign(self, I, fn, obj, argx, e, st):
        args = self.args(I, fn, argx, st)
        v = I.load(obj, st)
        s = self.vs(v)
        t0 = fn['ps'][0].noref()
        if len(args) == 1:
            w = args[0] if fn['ps'][0].k != 'ref' else I.load(args[0], st)
            I.store(obj, w, st)
            return ZERO
        if is_num(args[0].sort) or args[0].op == 'poly':
            w = I.load(args[1], st, s[1]) if fn['ps'][1].k == 'ref' else args[1]
            I.store(obj, const_seq(args[0], self.conv(w, s[1]), s), st)
        else:
            I.store(obj, self.range_seq(I, args[0], args[1], s, st), st)
        return ZERO

    def v_insert(self, I, fn, obj, argx, e, st):
        args = self.args(I, fn, argx, st)
        v = I.load(obj, st)
        s = self.vs(v)
        pos = args[0]
        if pos.op == 'ite' or pos.op != 'li':
            return NotImplemented
        i = pos.a[1]
        if len(args) == 2:
            x = args[1]
            t1 = fn['ps'][1].noref()
            x = I.load(x, st) if fn['ps'][1].k == 'ref' else x
            mid = x if (t1.k == 'rec' and t1.n == 'std::initializer_list') else one(self.conv(x, s[1]), s)
        elif is_num(args[1].sort) or args[1].op == 'poly':
            mid = const_seq(args[1], I.load(args[2], st, s[1]), s)
        else:
            mid = self.range_seq(I, args[1], args[2], s, st)
        if i is size(v):
            nv = cat(v, mid)
        elif i is ZERO:
            nv = cat(mid, v)
        else:
            nv = cat(slice_(v, ZERO, i), mid, slice_(v, i, sub(size(v), i)))
        I.store(obj, nv, st)
        return mk_li(obj, i)

    def v_erase(self, I, fn, obj, argx, e, st):
        args = self.args(I, fn, argx, st)
        v = I.load(obj, st)
        a = args[0]
        b = args[1] if len(args) > 1 else None
        if a.op != 'li' or (b is not None and b.op != 'li'):
            return NotImplemented
        i = a.a[1]
        j = b.a[1] if b is not None else add(i, ONE)
        n = size(v)
        if j is n:
            nv = slice_(v, ZERO, i)
        else:
            nv = cat(slice_(v, ZERO, i), slice_(v, j, sub(n, j)))
        I.store(obj, nv, st)
        return mk_li(obj, i)

    def v_swap(self, I, fn, obj, argx, e, st):
        o = self.args(I, fn, argx, st)[0]
        self.swap_locs(I, obj, o, st)
        return ZERO

    def swap_locs(self, I, a, b, st):
        va, vb = I.load(a, st), I.load(b, st)
        I.store(a, vb, st)
        vb2 = va
        I.store(b, vb2, st)

    def v_assignop(self, I, fn, obj, argx, e, st):
        args = self.args(I, fn, argx, st)
        p = fn['ps'][0]
        if p.k == 'ref':
            v = I.load(args[0], st)
            if p.rv:
                I.store(args[0], moved_out(v), st)
        else:
            v = args[0]
        I.store(obj, v, st)
        return obj

    m_assignop = v_assignop

    # ------------------------------------------------------- maps and sets
    def assoc_ctor(self, I, fn, argx, e, st, s):
        real = [a for a, p in zip(argx, fn['ps']) if not any(x in str(p) for x in ('allocator', 'hash', 'equal_to', 'less'))
                or 'pair' in str(p) or 'initializer_list' in str(p)]
        if not argx:
            return default_of(s)
        args = self.args(I, fn, argx, st)
        p0 = fn['ps'][0].noref()
        if p0.k == 'rec' and p0.n == 'std::initializer_list':
            v = args[0] if fn['ps'][0].k != 'ref' else I.load(args[0], st)
            return self.assoc_from_seq(v, s)
        if len(args) >= 2 and isinstance(args[0].sort, tuple) and args[0].sort[0] == 'p':
            a, b = args[0], args[1]
            if a.op == 'li' and b.op == 'li' and a.a[0] is b.a[0]:
                es = s[1] if s[0] == 'set' else None
                v = I.load(a.a[0], st)
                return self.assoc_from_seq(slice_(v, a.a[1], sub(b.a[1], a.a[1])) if not (a.a[1] is ZERO and b.a[1] is size(v)) else v, s)
            if a.op == 'mbeg' and b.op == 'mend' and a.a[0] is b.a[0]:
                m = I.load(a.a[0], st)
                if m.sort == s:
                    return m
            return I.poison('range', s)
        if args and isinstance(args[0].sort, tuple) and args[0].sort[0] == 'o':
            return default_of(s)
        if p0.k == 'int':
            return default_of(s)
        return self.bad(I, fn, e, st, None, args)

    def assoc_from_seq(self, v, s):
        i = fresh('o', 'n')
        k = fresh('o', s[1])
        kv = expand(k, k.sort)
        if s[0] == 'set':
            return tm.mk_set(k, tm.mk_ex(('n', size(v)), i, eq(at(v, pvar(i)), kv)), s)
        el = at(v, pvar(i))
        g = eq(getf(el, 'first'), kv)
        # the first entry with a key stays
        E = tm.mk_ex(('n', size(v)), i, g)
        f = tm.mk_first(('n', size(v)), i, g)
        return tm.mk_map(k, E, getf(at(v, f), 'second'), s)

    def key(self, I, fn, argx, st):
        a = self.args(I, fn, argx, st)[0]
        return I.load(a, st) if fn['ps'][0].k == 'ref' else a

    def m_size(self, I, fn, obj, argx, e, st):
        return tm.msize(I.load(obj, st))

    def m_empty(self, I, fn, obj, argx, e, st):
        return tm.mempty(I.load(obj, st))

    def m_begin(self, I, fn, obj, argx, e, st):
        return mk('mbeg', (obj,), P)

    m_cbegin = m_begin

    def m_end(self, I, fn, obj, argx, e, st):
        return mk('mend', (obj,), P)

    m_cend = m_end

    def m_clear(self, I, fn, obj, argx, e, st):
        I.store(obj, default_of(self.vs(I.load(obj, st))), st)
        return ZERO

    def m_reserve(self, I, fn, obj, argx, e, st):
        self.args(I, fn, argx, st)
        return ZERO

    def m_count(self, I, fn, obj, argx, e, st):
        return ite(has(I.load(obj, st), self.key(I, fn, argx, st)), ONE, ZERO)

    def m_contains(self, I, fn, obj, argx, e, st):
        return has(I.load(obj, st), self.key(I, fn, argx, st))

    def m_find(self, I, fn, obj, argx, e, st):
        k = self.key(I, fn, argx, st)
        return ite(has(I.load(obj, st), k), self.mit(obj, k), mk('mend', (obj,), P))

    def mit(self, obj, k):
        return mk('mit', (obj, k), P)

    def m_at(self, I, fn, obj, argx, e, st):
        k = self.key(I, fn, argx, st)
        I.raise_exc('std::out_of_range', bnot(has(I.load(obj, st), k)), st)
        return mk_lk(obj, k)

    def m_index(self, I, fn, obj, argx, e, st):
        k = self.key(I, fn, argx, st)
        m = I.load(obj, st)
        h = I.simp(has(m, k), st)
        if h is not TRUE:
            I.store(obj, map_set(m, k, mat(m, k)), st)
        return mk_lk(obj, k)

    def pair_ib(self, I, e, it, b):
        s = ('rec', 'std::pair', (('first', P), ('second', 'b')))
        return rec(s, [it, b])

    def m_insert(self, I, fn, obj, argx, e, st):
        args = self.args(I, fn, argx, st)
        m = I.load(obj, st)
        s = self.vs(m)
        if len(args) == 2 and fn['ps'][0].k != 'ref' and isinstance(args[0].sort, tuple) and args[0].sort[0] == 'p':
            a, b = args
            hint = fn['ps'][1].k == 'ref'
            if hint:
                x = I.load(b, st)
                return self.insert1(I, obj, m, s, x, e, st, hint=True)
            src = self.range_src(I, a, b, st)
            if src is None:
                return I.poison('insert range', 'i')
            if src.sort[0] in ('m', 'set'):
                k = fresh('o', s[1])
                kv = expand(k, k.sort)
                if s[0] == 'set':
                    I.store(obj, tm.mk_set(k, bor(has(m, kv), has(src, kv)), s), st)
                else:
                    I.store(obj, tm.mk_map(k, bor(has(m, kv), has(src, kv)), ite(has(m, kv), mat(m, kv), mat(src, kv)), s), st)
                return ZERO
            other = self.assoc_from_seq(src, s)
            k = fresh('o', s[1])
            kv = expand(k, k.sort)
            if s[0] == 'set':
                I.store(obj, tm.mk_set(k, bor(has(m, kv), has(other, kv)), s), st)
            else:
                I.store(obj, tm.mk_map(k, bor(has(m, kv), has(other, kv)), ite(has(m, kv), mat(m, kv), mat(other, kv)), s), st)
            return ZERO
        p0 = fn['ps'][0]
        x = I.load(args[0], st) if p0.k == 'ref' else args[0]
        if p0.noref().n == 'std::initializer_list':
            other = self.assoc_from_seq(x, s)
            k = fresh('o', s[1])
            kv = expand(k, k.sort)
            if s[0] == 'set':
                I.store(obj, tm.mk_set(k, bor(has(m, kv), has(other, kv)), s), st)
            else:
                I.store(obj, tm.mk_map(k, bor(has(m, kv), has(other, kv)), ite(has(m, kv), mat(m, kv), mat(other, kv)), s), st)
            return ZERO
        return self.insert1(I, obj, m, s, x, e, st)

    def range_src(self, I, a, b, st):
        if a.op == 'li' and b.op == 'li' and a.a[0] is b.a[0]:
            v = I.load(a.a[0], st)
            if a.a[1] is ZERO and b.a[1] is size(v):
                return v
            return slice_(v, a.a[1], sub(b.a[1], a.a[1]))
        if a.op == 'mbeg' and b.op == 'mend' and a.a[0] is b.a[0]:
            return I.load(a.a[0], st)
        return None

    def insert1(self, I, obj, m, s, x, e, st, hint=False):
        if s[0] == 'set':
            h = has(m, x)
            I.store(obj, tm.set_insert(m, x), st)
            it = self.mit(obj, x)
        else:
            k, w = getf(x, 'first'), getf(x, 'second')
            h = has(m, k)
            I.store(obj, map_set(m, k, ite(h, mat(m, k), w)), st)
            it = self.mit(obj, k)
        if hint:
            return it
        return self.pair_ib(I, e, it, bnot(h))

    def m_emplace(self, I, fn, obj, argx, e, st):
        m = I.load(obj, st)
        s = self.vs(m)
        vs = self.vals(I, fn, argx, st)
        if s[0] == 'set':
            return self.insert1(I, obj, m, s, vs[0], e, st)
        if len(vs) == 2:
            ps = ('rec', 'std::pair', (('first', s[1]), ('second', s[2])))
            kty = fn['cls'].a[0]
            k = vs[0]
            if k.sort != s[1]:
                k = self.construct_vals(I, [k], s[1], kty, st)
            w = vs[1]
            if w.sort != s[2] and not (is_num(w.sort) and is_num(s[2])):
                w = self.construct_vals(I, [w], s[2], fn['cls'].a[1], st)
            return self.insert1(I, obj, I.load(obj, st), s, rec(ps, [k, w]), e, st)
        if len(vs) == 1:
            return self.insert1(I, obj, m, s, vs[0], e, st)
        return NotImplemented

    m_try_emplace = m_emplace

    def m_insert_or_assign(self, I, fn, obj, argx, e, st):
        vs = self.vals(I, fn, argx, st)
        m = I.load(obj, st)
        h = has(m, vs[0])
        I.store(obj, map_set(m, vs[0], vs[1]), st)
        return self.pair_ib(I, e, self.mit(obj, vs[0]), bnot(h))

    def m_erase(self, I, fn, obj, argx, e, st):
        args = self.args(I, fn, argx, st)
        m = I.load(obj, st)
        a = args[0]
        if fn['ps'][0].k == 'ref':
            a = I.load(a, st)
            h = has(m, a)
            I.store(obj, tm.map_erase(m, a), st)
            return ite(h, ONE, ZERO)
        if a.op == 'mit':
            I.store(obj, tm.map_erase(m, a.a[1]), st)
            return mk('mnext', (a,), P)
        return NotImplemented

    m_swap = v_swap

    # ------------------------------------------------------------ iterators
    def deref(self, I, p, st):
        p = I.strip_null(p, st)
        def g(x):
            if x.op == 'mit':
                m = I.load(x.a[0], st)
                if m.sort[0] == 'set':
                    return lv(x.a[1])
                return mk_le(x.a[0], x.a[1])
            if x.op == 'mbeg':
                m = I.load(x.a[0], st)
                k = fresh('o', m.sort[1])
                f = tm.mk_first(('k', m.sort[1]), k, has(m, expand(k, k.sort)))
                if m.sort[0] == 'set':
                    return lv(f)
                return mk_le(x.a[0], f)
            if x.op == 'mend' or x.op == 'mnext':
                I.note('dereference of end iterator')
                return lv(unk('end dereference', 'i'))
            if x.op == 'rit':
                return mk_li(x.a[0].a[0], sub(x.a[0].a[1], ONE))
            return x
        # drop the end() alternative: dereferencing it is never defined
        if p.op == 'ite':
            ends = [x for x in leaves(p) if x.op == 'mend']
            others = [x for x in leaves(p) if x.op != 'mend']
            if ends and len(others) == 1:
                return g(others[0])
            if ends:
                p = lift('dropend%d' % p.id, lambda x: others[0] if x.op == 'mend' else x, p)
            return self.liftloc(g, p)
        return g(p)

    def liftloc(self, g, p):
        if p.op == 'ite':
            return ite(tm.node(p.a[0], TRUE, FALSE), self.liftloc(g, p.a[1]), self.liftloc(g, p.a[2]))
        return g(p)

    def step(self, I, p, n):
        def g(x):
            if x.op == 'rit':
                return mk('rit', (I.addp(x.a[0], neg(n)),), P)
            if x.op in ('mit', 'mbeg', 'mend', 'mnext'):
                c = const_of(n)
                if c == 1:
                    return mk('mnext', (x,), P)
                if c == 0:
                    return x
                return mk('fn', ('mstep', (x, n)), P)
            return I.addp(x, n)
        return self.liftloc(g, p)

    def iter_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        p = I.load(obj, st, P)
        if m in ('operator*', 'operator->'):
            if p.op == 'binsert':
                return obj
            return self.deref(I, p, st)
        if m in ('operator++', 'operator--'):
            q = self.step(I, p, ONE if m == 'operator++' else pconst(-1)) if p.op != 'binsert' else p
            I.store(obj, q, st)
            return p if argx else obj
        args = self.args(I, fn, argx, st)
        if m == 'operator+':
            return self.step(I, p, args[0])
        if m == 'operator-':
            if is_num(args[0].sort) or args[0].op == 'poly':
                return self.step(I, p, neg(args[0]))
            return I.ptrdiff(p, I.load(args[0], st, P))
        if m in ('operator+=', 'operator-='):
            I.store(obj, self.step(I, p, args[0] if m == 'operator+=' else neg(args[0])), st)
            return obj
        if m == 'operator[]':
            return self.deref(I, self.step(I, p, args[0]), st)
        if m == 'base':
            return lv(p) if e.get('v') in ('l', 'x') else p
        if m == 'operator=':
            v = I.load(args[0], st, P) if fn['ps'][0].k == 'ref' else args[0]
            if p.op == 'binsert':
                vec = I.load(p.a[0], st)
                x = I.load(args[0], st)
                I.store(p.a[0], cat(vec, one(x, self.vs(vec))), st)
                return obj
            I.store(obj, v, st)
            return obj
        return NotImplemented

    def iter_eq(self, I, a, b, st):
        def g(x, y):
            mo = ('mit', 'mend', 'mbeg', 'mnext')
            if x.op in mo or y.op in mo:
                if x is y:
                    return TRUE
                for p, q in ((x, y), (y, x)):
                    if p.op == 'mend' and p.a[0] is (q.a[0] if q.a else None):
                        if q.op == 'mit':
                            return FALSE
                        if q.op == 'mbeg':
                            return tm.mempty(I.load(q.a[0], st))
                    if p.op == 'mit' and q.op == 'mit' and p.a[0] is q.a[0]:
                        return eq(p.a[1], q.a[1])
                return unk('iterator comparison', 'b')
            if x.op == 'rit' and y.op == 'rit':
                return eq(x.a[0], y.a[0])
            return eq(x, y)
        if a.op == 'ite':
            return ite(tm.node(a.a[0], TRUE, FALSE), self.iter_eq(I, a.a[1], b, st), self.iter_eq(I, a.a[2], b, st))
        if b.op == 'ite':
            return ite(tm.node(b.a[0], TRUE, FALSE), self.iter_eq(I, a, b.a[1], st), self.iter_eq(I, a, b.a[2], st))
        return g(a, b)

    def rel(self, I, fn, op, argx, e, st):
        vs = self.vals(I, fn, argx, st)
        a, b = vs[0], vs[1]
        a = a.a[0] if a.op == 'lv' else a
        b = b.a[0] if b.op == 'lv' else b
        if op in ('==', '!='):
            if isinstance(a.sort, tuple) and a.sort[0] == 'p':
                r = self.iter_eq(I, a, b, st)
            elif isinstance(a.sort, tuple) and a.sort[0] in ('v', 'm', 'set'):
                r = self.cont_eq(a, b)
            else:
                r = eq(a, b)
            return r if op == '==' else bnot(r)
        return I.compare(op, a, b)

    def cont_eq(self, a, b):
        if a is b:
            return TRUE
        if a.sort[0] == 'v':
            n, m = size(a), size(b)
            i = fresh('o', 'n')
            return band(eq(n, m), tm.mk_all(('n', n), i, eq(at(a, pvar(i)), at(b, pvar(i)))))
        return tm.lift('ceq', tm.eqatom, a, b)

    def binplus(self, I, m, vs, e, st):
        a, b = vs
        a = a.a[0] if a.op == 'lv' else a
        b = b.a[0] if b.op == 'lv' else b
        if a.sort == 's' or b.sort == 's':
            if a.op == 'str' and b.op == 'str':
                return mk('str', (a.a[0] + b.a[0],), 's')
            return tm.fnl('concat', [a, b], 's')
        if m == 'operator-':
            if isinstance(b.sort, tuple):
                return I.ptrdiff(a, b)
            return self.step(I, a, neg(b))
        if isinstance(b.sort, tuple) and b.sort[0] == 'p':
            a, b = b, a
        return self.step(I, a, b)

    # ------------------------------------------------------ smart pointers
    def uptr_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        p = I.load(obj, st, P)
        if m in ('operator->', 'operator*', 'get'):
            return I.strip_null(p, st)
        if m == 'operator bool':
            return bnot(eq(p, NULL))
        if m == 'reset':
            a = self.args(I, fn, argx, st)
            if I.alloc_may_fail:
                self.uptr_destroy(I, obj, fn['cls'], st)
            I.store(obj, a[0] if a else NULL, st)
            return ZERO
        if m == 'release':
            I.store(obj, NULL, st)
            return p
        if m == 'operator=':
            a = self.args(I, fn, argx, st)[0]
            if fn['ps'][0].k == 'ref':
                v = I.load(a, st, P)
                if fn['ps'][0].rv:
                    I.store(a, NULL, st)
            else:
                v = NULL
            if I.alloc_may_fail:
                self.uptr_destroy(I, obj, fn['cls'], st)
            I.store(obj, v, st)
            return obj
        if m == 'swap':
            self.swap_locs(I, obj, self.args(I, fn, argx, st)[0], st)
            return ZERO
        if m == 'operator[]':
            i = self.args(I, fn, argx, st)[0]
            return I.addp(p, i)
        return NotImplemented

    def uptr_destroy(self, I, root, t, st):
        p = I.load(root, st, P)
        if p is NULL:
            return
        # custom deleter: t.a[1] is the deleter record
        if len(t.a) > 1 and t.a[1].k == 'rec' and t.a[1].user:
            for fo in I.prog.functions.values():
                c = fo['info'].get('cls')
                if c is not None and c.key == t.a[1].key and fo['n'].endswith('operator()'):
                    c = I.simp(bnot(eq(p, NULL)), st)
                    I.branch(c, st, lambda q: I.call_user(fo, I.new_tmp(q, default_of(I.sort(t.a[1]))), [p], q), lambda q: None)
                    return

    def function_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        if m == 'operator()':
            f = I.load(obj, st)
            a = self.args(I, fn, argx, st)
            prs = [(I.load(x, st), x) if p.k == 'ref' else (x, None) for x, p in zip(a, fn['ps'])]
            return I.call_value(f, prs, st, obj)
        if m == 'operator=':
            v = self.vals(I, fn, argx, st)[0]
            I.store(obj, v, st)
            return obj
        if m == 'operator bool':
            return TRUE
        return NotImplemented

    def rec_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        if m == 'operator=':
            a = self.args(I, fn, argx, st)[0]
            v = I.load(a, st) if fn['ps'][0].k == 'ref' else a
            o = I.load(obj, st)
            if v.sort != o.sort and o.op == 'rec' and v.op == 'rec' and len(v.a) == len(o.a):
                # tuple of references (std::tie)
                if all(isinstance(s, tuple) and s[0] == 'p' for _, s in o.sort[2]):
                    for x, y in zip(o.a[1:], v.a[1:]):
                        I.store(x, y, st)
                    return obj
                v = rec(o.sort, v.a[1:])
            if fn['ps'][0].rv:
                I.store(a, moved_out(v), st)
            I.store(obj, v, st)
            return obj
        if m == 'swap':
            self.swap_locs(I, obj, self.args(I, fn, argx, st)[0], st)
            return ZERO
        if m in ('has_value', 'operator bool'):
            return getf(I.load(obj, st), 'has')
        if m in ('value', 'operator*', 'operator->'):
            return I.lf(obj, 'val')
        return NotImplemented

    # --------------------------------------------------------------- strings
    def string_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        v = I.load(obj, st, 's')
        if m in ('empty',):
            return eq(v, default_of('s'))
        vs = self.vals(I, fn, argx, st)
        vs = [x.a[0] if x.op == 'lv' else x for x in vs]
        if m == 'operator=':
            a = vs[0]
            if a.sort == 's':
                I.store(obj, a, st)
                return obj
            I.store(obj, tm.fn('string', tuple(vs), 's'), st)
            return obj
        if m in ('size', 'length'):
            return tm.fnl('strlen', [v], 'n')
        if m == 'compare' and len(vs) == 1:
            return ite(lt(v, vs[0]), pconst(-1), ite(eq(v, vs[0]), ZERO, ONE))
        if m in ('c_str', 'data'):
            return lv(v)
        if m in ('operator+=', 'append') and len(vs) == 1 and vs[0].sort == 's':
            I.store(obj, tm.fnl('concat', [v, vs[0]], 's'), st)
            return obj
        if m == 'clear':
            I.store(obj, default_of('s'), st)
            return ZERO
        if fn.get('const'):
            s = I.sort(e['t'])
            r = tm.fnl('string.' + m, [v] + vs, s)
            return self.ret(I, e, r, st)
        if m == 'swap':
            self.swap_locs(I, obj, self.args(I, fn, argx, st)[0], st)
            return ZERO
        I.store(obj, tm.fnl('string.' + m + '!', [v] + vs, 's'), st)
        return obj if e.get('v') in ('l', 'x') else ZERO

    # --------------------------------------------------------------- streams
    def stream_obj(self, I, obj, st):
        v = I.load(obj, st, OSTREAM)
        return v

    def put(self, I, obj, tok, st):
        v = self.stream_obj(I, obj, st)
        log = getf(v, 'log')
        v = setf(v, 'log', cat(log, one(tok, ('v', TOK))))
        I.store(obj, v, st)

    def fmt_tok(self, I, obj, x, kind, st):
        v = self.stream_obj(I, obj, st)
        if kind == 's':
            a = [x, getf(v, 'width'), getf(v, 'fill')]
        else:
            a = [x, getf(v, 'prec'), getf(v, 'flags'), getf(v, 'width'), getf(v, 'fill')]
        if kind == 'd':
            a = [x, getf(v, 'flags'), getf(v, 'width'), getf(v, 'fill')]
        self.put(I, obj, tm.fnl('out' + kind, a, TOK), st)
        v = self.stream_obj(I, obj, st)
        I.store(obj, setf(v, 'width', ZERO), st)

    def stream_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        if m == 'operator<<':
            p = fn['ps'][0]
            if p.k in ('ptr', 'fptr') and argx:
                a = I.ev(argx[0], st)
                while a.op == 'lv':
                    a = a.a[0]
                if a.op == 'fnptr':
                    return self.manip(I, obj, a.a[1], st)
                return NotImplemented
            x = self.vals(I, fn, argx, st)[0]
            self.fmt_tok(I, obj, x, 'f' if p.k == 'flt' else 'd', st)
            return obj
        v = self.stream_obj(I, obj, st)
        args = self.args(I, fn, argx, st)
        if m in ('precision', 'width', 'fill', 'flags'):
            f = {'precision': 'prec', 'width': 'width', 'fill': 'fill', 'flags': 'flags'}[m]
            old = getf(v, f)
            if args:
                I.store(obj, setf(v, f, args[0]), st)
            return old
        if m == 'setf':
            old = getf(v, 'flags')
            from .interp import bitop
            if len(args) == 2:
                c1, c2 = const_of(args[0]), const_of(args[1])
                if c1 is not None and c2 is not None:
                    new = tm.fnl('setf', [old, pconst(int(c1) & int(c2)), args[1]], 'i')
                else:
                    new = tm.fnl('setf', [old, args[0], args[1]], 'i')
            else:
                new = tm.fnl('setf', [old, args[0], args[0]], 'i')
            I.store(obj, setf(v, 'flags', new), st)
            return old
        if m == 'unsetf':
            I.store(obj, setf(v, 'flags', tm.fnl('setf', [getf(v, 'flags'), ZERO, args[0]], 'i')), st)
            return ZERO
        if m == 'copyfmt':
            o = I.load(args[0], st, OSTREAM)
            nv = v
            for f in ('prec', 'flags', 'width', 'fill'):
                nv = setf(nv, f, getf(o, f))
            I.store(obj, nv, st)
            return obj
        if m == 'put':
            self.put(I, obj, tm.fnl('outs', [tm.fnl('chr', [args[0]], 's') if const_of(args[0]) is None else mk('str', (chr(int(const_of(args[0]))),), 's'), ZERO, getf(v, 'fill')], TOK), st)
            return obj
        if m == 'write':
            x = args[0].a[0] if args[0].op == 'lv' else args[0]
            self.put(I, obj, tm.fnl('outs', [x, ZERO, getf(v, 'fill')], TOK), st)
            return obj
        if m == 'str':
            return tm.fnl('logstr', [getf(v, 'log')], 's')
        if m in ('flush', 'good', 'fail', 'operator bool', 'clear', 'rdstate', 'imbue'):
            return obj if e.get('v') in ('l', 'x') else (TRUE if I.sort(e['t']) == 'b' else ZERO)
        return NotImplemented

    def manip(self, I, obj, name, st):
        v = self.stream_obj(I, obj, st)
        k = name.rsplit('::', 1)[1]
        if k == 'endl':
            self.put(I, obj, tm.fnl('outs', [mk('str', ('\n',), 's'), ZERO, getf(v, 'fill')], TOK), st)
        elif k in ('scientific', 'fixed', 'defaultfloat', 'hexfloat'):
            ff = IOS['floatfield']
            b = {'scientific': IOS['scientific'], 'fixed': IOS['fixed'], 'defaultfloat': 0, 'hexfloat': ff}[k]
            I.store(obj, setf(v, 'flags', tm.fnl('setf', [getf(v, 'flags'), pconst(b), pconst(ff)], 'i')), st)
        elif k in ('left', 'right', 'internal'):
            I.store(obj, setf(v, 'flags', tm.fnl('setf', [getf(v, 'flags'), pconst(IOS[k]), pconst(IOS['adjustfield'])], 'i')), st)
        elif k in ('dec', 'hex', 'oct'):
            I.store(obj, setf(v, 'flags', tm.fnl('setf', [getf(v, 'flags'), pconst(IOS[k]), pconst(IOS['basefield'])], 'i')), st)
        elif k in ('showpos', 'showpoint', 'boolalpha', 'uppercase'):
            I.store(obj, setf(v, 'flags', tm.fnl('setf', [getf(v, 'flags'), pconst(IOS[k]), pconst(IOS[k])], 'i')), st)
        elif k.startswith('no') and k[2:] in IOS:
            I.store(obj, setf(v, 'flags', tm.fnl('setf', [getf(v, 'flags'), ZERO, pconst(IOS[k[2:]])], 'i')), st)
        elif k == 'flush':
            pass
        else:
            I.note('manipulator ' + k)
        return obj

    def shl(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        os, x = args[0], args[1]
        p = fn['ps'][1]
        if p.k == 'ref':
            x = I.load(x, st, I.sort(p.to))
        if x.op == 'lv':
            x = x.a[0]
        if isinstance(x.sort, tuple) and x.sort[0] == 'o':
            # std::setprecision / setw / setfill / setiosflags objects
            if x.op == 'fn' and x.a[0] in ('setprecision', 'setw', 'setfill'):
                f = {'setprecision': 'prec', 'setw': 'width', 'setfill': 'fill'}[x.a[0]]
                v = self.stream_obj(I, os, st)
                I.store(os, setf(v, f, x.a[1][0]), st)
                return os
            I.note('stream output of %s' % (x.sort,))
            self.put(I, os, tm.fn('outo', (x,), TOK), st)
            return os
        if x.sort == 's':
            self.fmt_tok(I, os, x, 's', st)
            return os
        if is_num(x.sort) or x.op == 'poly':
            # character
            c = const_of(x)
            self.fmt_tok(I, os, mk('str', (chr(int(c)),), 's') if c is not None and 0 <= c < 0x110000 else tm.fnl('chr', [x], 's'), 's', st)
            return os
        return self.bad(I, fn, e, st, None, args)

    def f_setprecision(self, I, fn, argx, e, st):
        return tm.fnl('setprecision', self.vals(I, fn, argx, st), ('o', 'manip'))

    def f_setw(self, I, fn, argx, e, st):
        return tm.fnl('setw', self.vals(I, fn, argx, st), ('o', 'manip'))

    def f_setfill(self, I, fn, argx, e, st):
        return tm.fnl('setfill', self.vals(I, fn, argx, st), ('o', 'manip'))

    # ---------------------------------------------------------------- random
    def entropy(self, I, sort):
        I.nsource = getattr(I, 'nsource', 0) + 1
        return sym('outside %d' % I.nsource, sort)

    def f_time(self, I, fn, argx, e, st):
        self.args(I, fn, argx, st)
        return self.entropy(I, 'i')

    f_clock = f_rand = f_random = f_now = f_time

    def dist_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        if m == 'operator()':
            g = self.args(I, fn, argx, st)[0]
            d = I.load(obj, st)
            s = I.load(g, st)
            rs = I.sort(e['t'])
            v = tm.fn('draw', (d, s), rs)
            I.store(g, mk('fn', ('advance', (d, s)), s.sort), st)
            I.store(obj, mk('fn', ('dadvance', (d, s)), d.sort), st)
            return v
        return NotImplemented

    def engine_method(self, I, fn, obj, argx, e, st):
        m = fn['n'].rsplit('::', 1)[1]
        s = I.load(obj, st)
        if m == 'operator()':
            I.store(obj, mk('fn', ('advance1', (s,)), s.sort), st)
            return tm.fn('draw1', (s,), 'n')
        if m == 'reset':
            return ZERO
        if m == 'seed':
            vs = self.vals(I, fn, argx, st)
            I.store(obj, mk('fn', (engine(fn['cls']), tuple(vs) or (pconst(5489),)), s.sort), st)
            return ZERO
        if m == 'discard':
            vs = self.vals(I, fn, argx, st)
            I.store(obj, mk('fn', ('discard', (s,) + tuple(vs)), s.sort), st)
            return ZERO
        return NotImplemented

    # ------------------------------------------------------------- limits
    def limits(self, I, fn, m, e):
        t = fn['cls'].a[0] if fn.get('cls') is not None and fn['cls'].a else e['t']
        if t.k == 'flt':
            if m == 'infinity':
                return INF
            import sys
            if m == 'max':
                return pconst(Fraction(sys.float_info.max if t.w != 32 else 3.4028234663852886e38))
            if m == 'lowest':
                return pconst(-Fraction(sys.float_info.max))
            if m == 'min':
                return pconst(Fraction(sys.float_info.min))
            if m == 'epsilon':
                return pconst(Fraction(sys.float_info.epsilon))
            return unk('limit', 'r')
        w = t.w or 32
        if m == 'max':
            return pconst((1 << w) - 1 if t.u else (1 << (w - 1)) - 1)
        if m in ('min', 'lowest'):
            return ZERO if t.u else pconst(-(1 << (w - 1)))
        return unk('limit', 'i')

    # ---------------------------------------------------------- utilities
    def f_move(self, I, fn, argx, e, st):
        if len(argx) == 3:
            return self.f_copy(I, fn, argx, e, st)
        return self.args(I, fn, argx, st)[0]

    def f_forward(self, I, fn, argx, e, st):
        return self.args(I, fn, argx, st)[0]

    f_as_const = f_forward
    f_addressof = f_forward
    f_ref = f_forward
    f_cref = f_forward

    def f_swap(self, I, fn, argx, e, st):
        a, b = self.args(I, fn, argx, st)
        self.swap_locs(I, a, b, st)
        return ZERO

    def f_iter_swap(self, I, fn, argx, e, st):
        a, b = self.args(I, fn, argx, st)
        self.swap_locs(I, self.deref(I, a, st), self.deref(I, b, st), st)
        return ZERO

    def f_exchange(self, I, fn, argx, e, st):
        a, b = self.args(I, fn, argx, st)
        old = I.load(a, st)
        v = I.load(b, st) if fn['ps'][1].k == 'ref' else b
        I.store(a, v, st)
        return old

    def _minmax(self, I, fn, argx, e, st, f):
        vs = self.vals(I, fn, argx, st)
        if len(vs) == 1:
            v = vs[0]
            n = const_of(size(v))
            if n is None:
                return NotImplemented
            r = at(v, ZERO)
            for i in range(1, int(n)):
                r = f(r, at(v, pconst(i)))
            return self.ret(I, e, r, st)
        if len(vs) == 3:
            c = I.call_value(vs[2], [(vs[0], None), (vs[1], None)] if f is tm.vmax else [(vs[1], None), (vs[0], None)], st)
            return self.ret(I, e, ite(I.tobool(c), vs[1], vs[0]), st)
        return self.ret(I, e, f(vs[0], vs[1]), st)

    def f_max(self, I, fn, argx, e, st):
        return self._minmax(I, fn, argx, e, st, tm.vmax)

    def f_min(self, I, fn, argx, e, st):
        return self._minmax(I, fn, argx, e, st, tm.vmin)

    def f_fmax(self, I, fn, argx, e, st):
        return self._minmax(I, fn, argx, e, st, tm.vmax)

    def f_fmin(self, I, fn, argx, e, st):
        return self._minmax(I, fn, argx, e, st, tm.vmin)

    def f_clamp(self, I, fn, argx, e, st):
        v, lo, hi = self.vals(I, fn, argx, st)[:3]
        return self.ret(I, e, tm.vmin(tm.vmax(v, lo), hi), st)

    def f_fabs(self, I, fn, argx, e, st):
        return tm.vabs(self.vals(I, fn, argx, st)[0])

    f_abs = f_fabs
    f___builtin_fabs = f_fabs

    def _mathfn(name):
        def f(self, I, fn, argx, e, st):
            return tm.fnl(name, self.vals(I, fn, argx, st), 'r')
        return f

    f_sqrt = _mathfn('sqrt')
    f_pow = _mathfn('pow')
    f_exp = _mathfn('exp')
    f_log = _mathfn('log')
    f_floor = _mathfn('floor')
    f_ceil = _mathfn('ceil')

    def f_isfinite(self, I, fn, argx, e, st):
        v = self.vals(I, fn, argx, st)[0]
        return lift('isfin', lambda x: FALSE if x.op == 'inf' else TRUE, v)

    def f_isnan(self, I, fn, argx, e, st):
        self.vals(I, fn, argx, st)
        return FALSE

    def f_isinf(self, I, fn, argx, e, st):
        v = self.vals(I, fn, argx, st)[0]
        return lift('isinf', lambda x: TRUE if x.op == 'inf' else FALSE, v)

    def f_make_pair(self, I, fn, argx, e, st):
        s = I.sort(e['t'])
        args = self.args(I, fn, argx, st)
        vs = []
        for a, p, x in zip(args, fn['ps'], argx):
            v = I.load(a, st, I.sort(p.to)) if p.k == 'ref' else a
            if p.k == 'ref' and x.get('v') == 'x' and x['k'] != 'tmp' and isinstance(v.sort, tuple):
                I.store(a, moved_out(v), st)
            vs.append(v)
        return rec(s, [self.conv(v, fs) for v, (_, fs) in zip(vs, s[2])])

    f_make_tuple = f_make_pair

    def f_tie(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        s = ('rec', 'std::tuple', tuple(('%d' % i, P) for i in range(len(args))))
        return rec(s, args)

    def f_get(self, I, fn, argx, e, st):
        a = self.args(I, fn, argx, st)[0]
        ta = fn.get('ta') or []
        i = None
        for x in ta:
            if isinstance(x, dict) and 'int' in x:
                i = int(x['int'])
                break
            if isinstance(x, (int, str)) and str(x).isdigit():
                i = int(x)
                break
        if i is None:
            return NotImplemented
        v = I.load(a, st)
        s = self.vs(v)
        return I.lf(a, s[2][i][0])

    def f_make_unique(self, I, fn, argx, e, st):
        t = e['t']
        ty = t.a[0]
        v = self.construct(I, fn, argx, I.sort(ty), ty, st)
        return I.new_heap(st, v)

    f_make_shared = f_make_unique

    def f_to_string(self, I, fn, argx, e, st):
        return tm.fnl('to_string', self.vals(I, fn, argx, st), 's')

    # --------------------------------------------------- iterator functions
    def cont(self, I, fn, argx, st):
        return self.args(I, fn, argx, st)[0]

    def f_begin(self, I, fn, argx, e, st):
        o = self.cont(I, fn, argx, st)
        v = I.load(o, st)
        s = self.vs(v)
        if s[0] == 'v':
            return mk_li(o, ZERO)
        if s[0] in ('m', 'set'):
            return mk('mbeg', (o,), P)
        return self.user_method(I, fn, o, 'begin', e, st)

    def f_end(self, I, fn, argx, e, st):
        o = self.cont(I, fn, argx, st)
        v = I.load(o, st)
        s = self.vs(v)
        if s[0] == 'v':
            return mk_li(o, size(v))
        if s[0] in ('m', 'set'):
            return mk('mend', (o,), P)
        return self.user_method(I, fn, o, 'end', e, st)

    f_cbegin = f_begin
    f_cend = f_end

    def user_method(self, I, fn, o, name, e, st):
        t = fn['ps'][0].noref()
        for fo in I.prog.functions.values():
            c = fo['info'].get('cls')
            if c is not None and c.key == t.key and fo['n'].endswith('::' + name) and not fo['ps']:
                return I.call_user(fo, o, [], st)
        return NotImplemented

    def f_size(self, I, fn, argx, e, st):
        v = I.load(self.cont(I, fn, argx, st), st)
        return size(v) if self.vs(v)[0] == 'v' else tm.msize(v)

    def f_empty(self, I, fn, argx, e, st):
        v = I.load(self.cont(I, fn, argx, st), st)
        return eq(size(v), ZERO) if self.vs(v)[0] == 'v' else tm.mempty(v)

    def f_data(self, I, fn, argx, e, st):
        return mk_li(self.cont(I, fn, argx, st), ZERO)

    def f_distance(self, I, fn, argx, e, st):
        a, b = self.args(I, fn, argx, st)
        if a.op == 'mbeg' and b.op == 'mend':
            return tm.msize(I.load(a.a[0], st))
        return I.ptrdiff(b, a)

    def f_advance(self, I, fn, argx, e, st):
        a, n = self.args(I, fn, argx, st)
        p = I.load(a, st, P)
        I.store(a, self.step(I, p, n), st)
        return ZERO

    def f_next(self, I, fn, argx, e, st):
        a = self.args(I, fn, argx, st)
        return self.step(I, a[0], a[1] if len(a) > 1 else ONE)

    def f_prev(self, I, fn, argx, e, st):
        a = self.args(I, fn, argx, st)
        return self.step(I, a[0], neg(a[1] if len(a) > 1 else ONE))

    def f_back_inserter(self, I, fn, argx, e, st):
        return mk('binsert', (self.args(I, fn, argx, st)[0],), P)

    # ------------------------------------------------------------ algorithms
    def over(self, I, a, b, st, body, key=None):
        """for each element location in [a,b): body(loc, t, q)"""
        if a.op == 'li' and b.op == 'li' and a.a[0] is b.a[0]:
            n = sub(b.a[1], a.a[1])
            I.for_n(st, I.nonneg_trip(n, st), lambda t, q: body(mk_li(a.a[0], add(a.a[1], t)), t, q), key)
            return n
        if a.op == 'mbeg' and b.op == 'mend' and a.a[0] is b.a[0]:
            m = I.load(a.a[0], st)
            def bd(k, q):
                body(lv(k) if m.sort[0] == 'set' else mk_le(a.a[0], k), None, q)
            I.for_keys(st, a.a[0], bd, key)
            return None
        I.note('algorithm range')
        raise _Range()

    def tmp(self, I, st, v):
        I.ntmp += 1
        r = I.root('A%d' % I.ntmp)
        st.mem[r] = v
        return r

    def put_out(self, I, d, t, v, q):
        if d.op == 'binsert':
            vec = I.load(d.a[0], q)
            I.store(d.a[0], cat(vec, one(v, self.vs(vec))), q)
        elif d.op == 'li':
            I.store(mk_li(d.a[0], add(d.a[1], t)), v, q)
        else:
            raise _Range()

    def adv_out(self, I, d, n):
        return d if d.op == 'binsert' else I.addp(d, n)

    def f_accumulate(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        acc = self.tmp(I, st, args[2])
        op = args[3] if len(args) > 3 else None
        if op is not None:
            f = self.tmp(I, st, op)
        isint = e['t'].k == 'int'

        def body(l, t, q):
            x = I.load(l, q)
            old = I.load(acc, q)
            if op is None:
                v = add(old, x) if is_num(old.sort) or old.op == 'poly' else self.binplus(I, 'operator+', [old, x], e, q)
            else:
                v = I.call_value(I.load(f, q), [(old, None), (x, l)], q, f)
            if isint and v.sort == 'r':
                v = tm.fnl('trunc', [v], 'i')
            I.store(acc, v, q)
        try:
            self.over(I, args[0], args[1], st, body)
        except _Range:
            return I.poison('accumulate', I.sort(e['t']))
        return I.load(acc, st)

    f_reduce = f_accumulate

    def f_inner_product(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        acc = self.tmp(I, st, args[3])

        def body(l, t, q):
            if t is None:
                raise _Range()
            x = I.load(l, q)
            y = I.load(I.addp(args[2], t), q)
            old = I.load(acc, q)
            if len(args) > 5:
                p = I.call_value(args[5], [(x, l), (y, None)], q)
                v = I.call_value(args[4], [(old, None), (p, None)], q)
            else:
                v = add(old, mul(x, y))
            I.store(acc, v, q)
        try:
            self.over(I, args[0], args[1], st, body)
        except _Range:
            return I.poison('inner_product', I.sort(e['t']))
        return I.load(acc, st)

    def f_partial_sum(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        a, b, d = args[:3]
        if a.op == 'li' and a.a[0].op in ('root', 'lf', 'li') :
            v = I.load(a.a[0], st)
            es = v.sort[1] if isinstance(v.sort, tuple) else 'r'
        else:
            es = 'r'
        acc = self.tmp(I, st, ZERO)
        src = self.range_src(I, a, b, st)
        if src is None or src.sort[0] != 'v':
            return I.poison('partial_sum', P)

        def body(t, q):
            x = at(src, t)
            old = I.load(acc, q)
            if len(args) > 3:
                v = ite(eq(t, ZERO), x, I.call_value(args[3], [(old, None), (x, None)], q))
            else:
                v = add(old, x)
            I.store(acc, v, q)
            self.put_out(I, d, t, v, q)
        try:
            I.for_n(st, I.nonneg_trip(size(src), st), body)
        except _Range:
            return I.poison('partial_sum', P)
        return self.adv_out(I, d, size(src))

    def f_copy(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        a, b, d = args[:3]
        return self.copy_core(I, a, b, d, st)

    def copy_core(self, I, a, b, d, st):
        src = self.range_src(I, a, b, st)
        if d.op == 'binsert' and src is not None:
            vec = I.load(d.a[0], st)
            s = self.vs(vec)
            I.store(d.a[0], cat(vec, self.range_seq(I, a, b, s, st)), st)
            return d
        try:
            if src is None or src.sort[0] != 'v':
                cnt = self.tmp(I, st, ZERO)

                def body2(l, t, q):
                    k = I.load(cnt, q)
                    self.put_out(I, d, k, I.load(l, q), q)
                    I.store(cnt, add(k, ONE), q)
                self.over(I, a, b, st, body2)
                return self.adv_out(I, d, I.load(cnt, st))
            I.for_n(st, I.nonneg_trip(size(src), st), lambda t, q: self.put_out(I, d, t, at(src, t), q))
        except _Range:
            if d.op == 'li':
                I.havoc(d, st)
            return I.poison('copy', P)
        return self.adv_out(I, d, size(src))

    def f_copy_n(self, I, fn, argx, e, st):
        a, n, d = self.args(I, fn, argx, st)[:3]
        return self.copy_core(I, a, I.addp(a, n), d, st)

    def f_copy_if(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        a, b, d, p = args
        cnt = self.tmp(I, st, ZERO)
        f = self.tmp(I, st, p)

        def body(l, t, q):
            c = I.simp(I.tobool(I.call_value(I.load(f, q), [(I.load(l, q), l)], q, f)), q)

            def yes(r):
                k = I.load(cnt, r)
                self.put_out(I, d, k, I.load(l, r), r)
                if d.op != 'binsert':
                    I.store(cnt, add(k, ONE), r)
            I.branch(c, q, yes, lambda r: None)
        try:
            self.over(I, a, b, st, body)
        except _Range:
            return I.poison('copy_if', P)
        return self.adv_out(I, d, I.load(cnt, st))

    def f_fill(self, I, fn, argx, e, st):
        a, b, v = self.args(I, fn, argx, st)
        v = I.load(v, st)
        self.fill_core(I, a, b, v, st)
        return ZERO

    def fill_core(self, I, a, b, v, st):
        if a.op == 'li' and b.op == 'li' and a.a[0] is b.a[0]:
            vec = I.load(a.a[0], st)
            s = self.vs(vec)
            v = self.conv(v, s[1])
            if a.a[1] is ZERO and b.a[1] is size(vec):
                I.store(a.a[0], const_seq(size(vec), v, s), st)
                return
        try:
            self.over(I, a, b, st, lambda l, t, q: I.store(l, v, q))
        except _Range:
            I.havoc(a, st)

    def f_fill_n(self, I, fn, argx, e, st):
        a, n, v = self.args(I, fn, argx, st)
        v = I.load(v, st)
        if a.op == 'binsert':
            vec = I.load(a.a[0], st)
            I.store(a.a[0], cat(vec, const_seq(n, v, self.vs(vec))), st)
            return a
        b = I.addp(a, n)
        self.fill_core(I, a, b, v, st)
        return b

    def f_iota(self, I, fn, argx, e, st):
        a, b, v = self.args(I, fn, argx, st)
        try:
            self.over(I, a, b, st, lambda l, t, q: I.store(l, add(v, t), q))
        except _Range:
            I.havoc(a, st)
        return ZERO

    def f_generate(self, I, fn, argx, e, st):
        a, b, g = self.args(I, fn, argx, st)
        f = self.tmp(I, st, g)
        try:
            self.over(I, a, b, st, lambda l, t, q: I.store(l, I.call_value(I.load(f, q), [], q, f), q))
        except _Range:
            I.havoc(a, st)
        return ZERO

    def f_generate_n(self, I, fn, argx, e, st):
        a, n, g = self.args(I, fn, argx, st)
        f = self.tmp(I, st, g)
        try:
            I.for_n(st, I.nonneg_trip(n, st), lambda t, q: self.put_out(I, a, t, I.call_value(I.load(f, q), [], q, f), q))
        except _Range:
            I.havoc(a, st)
        return self.adv_out(I, a, n)

    def f_transform(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        f = self.tmp(I, st, args[-1])
        binary = len(args) == 5
        d = args[3] if binary else args[2]
        cnt = None

        def body(l, t, q):
            if t is None and (binary or d.op != 'binsert'):
                raise _Range()
            x = I.load(l, q)
            if binary:
                l2 = I.addp(args[2], t)
                v = I.call_value(I.load(f, q), [(x, l), (I.load(l2, q), l2)], q, f)
            else:
                v = I.call_value(I.load(f, q), [(x, l)], q, f)
            self.put_out(I, d, t, v, q)
        try:
            n = self.over(I, args[0], args[1], st, body)
        except _Range:
            I.havoc(d if d.op != 'binsert' else d.a[0], st)
            return I.poison('transform', P)
        return self.adv_out(I, d, n) if n is not None else d

    def f_for_each(self, I, fn, argx, e, st):
        a, b, g = self.args(I, fn, argx, st)
        f = self.tmp(I, st, g)

        def body(l, t, q):
            I.call_value(I.load(f, q), [(I.load(l, q), l)], q, f)
        try:
            self.over(I, a, b, st, body)
        except _Range:
            I.note('for_each range')
        return I.load(f, st)

    def _scan(self, I, fn, argx, st, want):
        """boolean term of the predicate at the t-th element, evaluated without effects"""
        args = self.args(I, fn, argx, st)
        a, b = args[0], args[1]
        p = args[2]
        isval = fn['n'] in ('std::find', 'std::count')
        if isval:
            pv = I.load(p, st)
        src = self.range_src(I, a, b, st)
        if src is None:
            raise _Range()
        K = 'n' if src.sort[0] == 'v' else src.sort[1]
        s = fresh('o', K)
        sv = expand(s, s.sort)
        rng = ('n', size(src)) if src.sort[0] == 'v' else ('k', K)
        q = State(dict(st.mem), TRUE)
        keep = I.exits
        I.exits = []
        I.ctx.append(st.pc)
        g = TRUE
        if src.sort[0] == 'v':
            l = mk_li(a.a[0], add(a.a[1], sv))
            I.ctx.append(lt(sv, size(src)))
        else:
            g = has(src, sv)
            I.ctx.append(g)
            l = lv(sv) if src.sort[0] == 'set' else mk_le(a.a[0], sv)
        try:
            x = I.load(l, q)
            if isval:
                c = eq(x, pv)
            else:
                f = self.tmp(I, q, p)
                c = I.tobool(I.call_value(p, [(x, l)], q, f))
        finally:
            I.ctx.pop()
            I.ctx.pop()
            ex = I.exits
            I.exits = keep
        if any(x.g is not FALSE for x in ex):
            raise _Range()
        return rng, s, g, c, src, a, b

    def f_any_of(self, I, fn, argx, e, st):
        try:
            rng, s, g, c, src, a, b = self._scan(I, fn, argx, st, None)
        except _Range:
            return I.poison('any_of', 'b')
        return tm.mk_ex(rng, s, band(g, c))

    def f_none_of(self, I, fn, argx, e, st):
        return bnot(self.f_any_of(I, fn, argx, e, st))

    def f_all_of(self, I, fn, argx, e, st):
        try:
            rng, s, g, c, src, a, b = self._scan(I, fn, argx, st, None)
        except _Range:
            return I.poison('all_of', 'b')
        return bnot(tm.mk_ex(rng, s, band(g, bnot(c))))

    def f_count_if(self, I, fn, argx, e, st):
        try:
            rng, s, g, c, src, a, b = self._scan(I, fn, argx, st, None)
        except _Range:
            return I.poison('count_if', 'i')
        return tm.mk_sum(rng, s, ite(band(g, c), ONE, ZERO))

    f_count = f_count_if

    def f_find_if(self, I, fn, argx, e, st):
        try:
            rng, s, g, c, src, a, b = self._scan(I, fn, argx, st, None)
        except _Range:
            return I.poison('find_if', P)
        c = band(g, c)
        f = tm.mk_first(rng, s, c)
        if rng[0] == 'n':
            return mk_li(a.a[0], add(a.a[1], f))
        return ite(tm.mk_ex(rng, s, c), self.mit(a.a[0], f), b)

    f_find = f_find_if

    def f_max_element(self, I, fn, argx, e, st):
        return self._extr(I, fn, argx, st, True)

    def f_min_element(self, I, fn, argx, e, st):
        return self._extr(I, fn, argx, st, False)

    def _extr(self, I, fn, argx, st, mx):
        args = self.args(I, fn, argx, st)
        a, b = args[:2]
        src = self.range_src(I, a, b, st)
        if src is None or src.sort[0] != 'v' or len(args) > 2:
            return I.poison('max_element', P)
        n = size(src)
        s = fresh('o', 'n')
        s2 = fresh('o', 'n')
        el = at(src, pvar(s))
        if is_num(src.sort[1]):
            ext = tm.mk_maxr('maxr' if mx else 'minr', ('n', n), None, s, el)
            # the location of an extremal element: reading it yields the extremum
            pos = tm.fn('argmax' if mx else 'argmin', (src,), 'n')
            loc = mk('lvx', (ext, mk_li(a.a[0], add(a.a[1], pos))), P)
            return ite(eq(n, ZERO), b, loc)
        return I.poison('max_element', P)

    def cmp_lam(self, I, f, es, st):
        x = fresh('cx', es)
        y = fresh('cy', es)
        q = State(dict(st.mem), TRUE)
        keep = I.exits
        I.exits = []
        c = I.tobool(I.call_value(f, [(expand(x, es), None), (expand(y, es), None)], q))
        I.exits = keep
        return x, y, c

    def f_sort(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        a, b = args[:2]
        if not (a.op == 'li' and b.op == 'li' and a.a[0] is b.a[0]):
            I.havoc(a, st)
            return ZERO
        v = I.load(a.a[0], st)
        s = self.vs(v)
        whole = a.a[1] is ZERO and b.a[1] is size(v)
        src = v if whole else slice_(v, a.a[1], sub(b.a[1], a.a[1]))
        if len(args) > 2:
            x, y, c = self.cmp_lam(I, args[2], s[1], st)
            d = lt(expand(x, s[1]), expand(y, s[1]))
            if c is d:
                r = tm.fnl('sort', [src], s)
            else:
                r = tm.fnl('sortby', [src, tm.lam((x, y), c)], s)
        else:
            r = tm.fnl('sort', [src], s)
        if not whole:
            k = fresh('o', 'n')
            r = mk_arr(size(v), k, ite(band(le(a.a[1], pvar(k)), lt(pvar(k), b.a[1])), at(r, sub(pvar(k), a.a[1])), at(v, pvar(k))), s)
        I.store(a.a[0], r, st)
        return ZERO

    f_stable_sort = f_sort

    def f_reverse(self, I, fn, argx, e, st):
        a, b = self.args(I, fn, argx, st)[:2]
        if not (a.op == 'li' and b.op == 'li' and a.a[0] is b.a[0]):
            I.havoc(a, st)
            return ZERO
        v = I.load(a.a[0], st)
        k = fresh('o', 'n')
        kk = pvar(k)
        lo, hi = a.a[1], b.a[1]
        r = mk_arr(size(v), k, ite(band(le(lo, kk), lt(kk, hi)), at(v, sub(sub(add(lo, hi), ONE), kk)), at(v, kk)), self.vs(v))
        I.store(a.a[0], r, st)
        return ZERO

    def f_equal(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        if len(args) == 3:
            x = self.range_src(I, args[0], args[1], st)
            if x is not None and args[2].op == 'li':
                y = I.load(args[2].a[0], st)
                i = fresh('o', 'n')
                return tm.mk_all(('n', size(x)), i, eq(at(x, pvar(i)), at(y, add(args[2].a[1], pvar(i)))))
        return I.poison('equal', 'b')

    def f_unique(self, I, fn, argx, e, st):
        args = self.args(I, fn, argx, st)
        I.havoc(args[0], st)
        return I.poison('unique', P)

    f_remove_if = f_unique
    f_remove = f_unique

    # -------------------------------------------------------------- C memory
    def f_malloc(self, I, fn, argx, e, st):
        n = self.args(I, fn, argx, st)[0]
        I.nheap += 1
        r = I.root('M%d' % I.nheap)
        st.mem[r] = mk('fn', ('bytes', (n,)), ('o', 'bytes'))
        return self.alloc(I, r, st)

    def f_calloc(self, I, fn, argx, e, st):
        k, sz = self.args(I, fn, argx, st)
        I.nheap += 1
        r = I.root('M%d' % I.nheap)
        st.mem[r] = mk('fn', ('zbytes', (mul(k, sz),)), ('o', 'bytes'))
        return self.alloc(I, r, st)

    def alloc(self, I, r, st):
        p = mk_li(r, ZERO)
        I.on_alloc(r, st)
        if I.alloc_may_fail:
            ok = sym('alloc%d' % I.nheap, 'b')
            I.on_alloc_guard(r, tm.batom(ok), st)
            return ite(tm.batom(ok), p, NULL)
        return p

    def f_free(self, I, fn, argx, e, st):
        p = self.args(I, fn, argx, st)[0]
        I.on_free(p, st)
        return ZERO

    def f_memcpy(self, I, fn, argx, e, st):
        d, s, n = self.args(I, fn, argx, st)
        d, s = I.strip_null(d, st), I.strip_null(s, st)
        sz = None
        x = argx[0]
        while x['k'] == 'cast':
            x = x['e']
        t = x['t'].noref()
        if t.k == 'ptr' or t.k == 'arr':
            sz = sizeof(I, t.to)
        if sz is None:
            I.havoc(d, st)
            return d
        cnt = tm.idiv(n, pconst(sz))
        self.copy_core(I, s, I.addp(s, cnt), d, st)
        return d

    f_memmove = f_memcpy

    def f_memset(self, I, fn, argx, e, st):
        d, v, n = self.args(I, fn, argx, st)
        x = argx[0]
        while x['k'] == 'cast':
            x = x['e']
        t = x['t'].noref()
        sz = sizeof(I, t.to) if t.k in ('ptr', 'arr') else None
        c = const_of(v)
        if sz is None or c is None or (c not in (0, -1, 255)):
            I.havoc(d, st)
            return d
        w = ZERO if c == 0 else pconst(-1)
        self.fill_core(I, d, I.addp(d, tm.idiv(n, pconst(sz))), w, st)
        return d

    def bitcast(self, I, e, v, st):
        t = e['t']
        if t.k != 'ptr':
            return v
        to = t.to
        for x in leaves(v):
            if x.op == 'li' and x.a[0].op == 'root' and x.a[1] is ZERO:
                m = st.mem.get(x.a[0])
                if m is not None and m.op == 'fn' and m.a[0] in ('bytes', 'zbytes') and to.k != 'void':
                    sz = sizeof(I, to)
                    if sz is None:
                        continue
                    s = I.sort(to)
                    w = undef('malloc', s) if m.a[0] == 'bytes' else default_of(s)
                    n = tm.idiv(m.a[1][0], pconst(sz))
                    if n is ONE and to.k == 'rec':       # one object
                        st.mem[x.a[0]] = w
                        v = on_leaf(v, x, x.a[0])
                        continue
                    st.mem[x.a[0]] = const_seq(n, w, ('v', s))
        return v

    # -------------------------------------------------------------- functors
    def functor(self, I, name, f, args, st):
        vs = [a[0] for a in args]
        b = name.split('<')[0]
        if b == 'std::plus':
            return add(vs[0], vs[1])
        if b == 'std::minus':
            return sub(vs[0], vs[1])
        if b == 'std::multiplies':
            return mul(vs[0], vs[1])
        if b == 'std::divides':
            return tm.rdiv(vs[0], vs[1])
        if b == 'std::negate':
            return neg(vs[0])
        if b == 'std::less':
            return lt(vs[0], vs[1])
        if b == 'std::greater':
            return lt(vs[1], vs[0])
        if b == 'std::less_equal':
            return le(vs[0], vs[1])
        if b == 'std::greater_equal':
            return le(vs[1], vs[0])
        if b == 'std::equal_to':
            return eq(vs[0], vs[1])
        if b == 'std::logical_or':
            return bor(vs[0], vs[1])
        if b == 'std::logical_and':
            return band(vs[0], vs[1])
        return None

    # ----------------------------------------------------------- intrinsics
    def intrinsic(self, I, fn, args, e, st):
        n = fn['n'][4:].split('<')[0]
        h = getattr(self, 'x_' + n, None)
        if h is None:
            return NotImplemented
        return h(I, fn, args, e, st)

    def tag(self, a):
        while a.op in ('lv', 'li'):
            a = a.a[0]
        return a.a[0] if a.op == 'str' else repr(a)

    def x_reals(self, I, fn, args, e, st):
        return self.symseq(args[1], self.tag(args[0]), 'r')

    def x_posreals(self, I, fn, args, e, st):
        """positive reals: 1/(1+x^2)-free form: declared through assumptions"""
        return self.symseq(args[1], '+' + self.tag(args[0]), 'r')

    def symseq(self, n, tag, es):
        base = mk('sym', (tag,), ('v', es))
        k = fresh('o', 'n')
        el = mk('fn', ('elem', (mk('str', (tag,), 's'), pvar(k))), es)
        return mk_arr(n, k, expand(el, es), ('v', es))

    def x_owned(self, I, fn, args, e, st):
        return st.mem[I.OWNED]

    def x_failed(self, I, fn, args, e, st):
        return st.mem[I.FAILED]

    def x_misused(self, I, fn, args, e, st):
        return st.mem[I.MISUSED]

    def x_place(self, I, fn, args, e, st):
        """how far into its array a pointer points"""
        p = args[0]
        if all(x.op == 'li' for x in leaves(p)):
            return tm.lift('place', lambda x: x.a[1], p)
        return I.poison('place', 'n')

    def x_ints(self, I, fn, args, e, st):
        """integers in [0, hi)"""
        tag = self.tag(args[0])
        k = fresh('o', 'n')
        el = mk('fn', ('index', (mk('str', (tag,), 's'), pvar(k), args[2])), 'n')
        return mk_arr(args[1], k, pvar(el), ('v', 'i'))

    def x_assume(self, I, fn, args, e, st):
        c = args[0]
        I.assumptions.append(bor(bnot(I.fullpc(st)), c))
        st.pc = band(st.pc, c)
        if c is not TRUE:
            g = I.fullpc(st)
            for r in list(st.mem):
                v = st.mem[r]
                if v is not None:
                    st.mem[r] = restrict(v, g)
        return ZERO

    def x_real(self, I, fn, args, e, st):
        return expand(sym(self.tag(args[0]), 'r'), 'r')

    def x_integer(self, I, fn, args, e, st):
        return expand(sym(self.tag(args[0]), 'i'), 'i')

    def x_nat(self, I, fn, args, e, st):
        return expand(sym(self.tag(args[0]), 'n'), 'n')

    def x_flag(self, I, fn, args, e, st):
        v = (I.config or {}).get('flags', {}).get(self.tag(args[0]))
        if v is not None:
            return TRUE if v else FALSE
        return tm.batom(sym(self.tag(args[0]), 'b'))

    def x_graph(self, I, fn, args, e, st):
        """a compressed graph with symbolic contents, set through what its accessors return"""
        g, tag, n = args[0], mk('str', (self.tag(args[1]),), 's'), args[2]
        k = fresh('o', 'n')
        kk = pvar(k)
        nnz = tm.fn('gstart', (tag, n, n), 'n')
        parts = {'startPointers': mk_arr(add(n, ONE), k, tm.fn('gstart', (tag, n, kk), 'n'), ('v', 'n')),
                 'neighbourhood': mk_arr(nnz, k, tm.fn('gnb', (tag, n, kk), 'i'), ('v', 'i')),
                 'connectionWeight': mk_arr(nnz, k, tm.fn('gw', (tag, n, kk), 'r'), ('v', 'r'))}
        for m, v in parts.items():
            fo = I.prog.byname['Opm::AssembledConnections::' + m][0]
            I.store(I.call_user(fo, g, [], st), v, st)
        return ZERO

    def x_havoc(self, I, fn, args, e, st):
        """replace the numbers held by the object with fresh symbols (sizes kept)"""
        loc = args[0]
        tag = self.tag(args[1])
        v = I.load(loc, st)
        I.store(loc, self.scramble(v, tag, ()), st)
        return ZERO

    def x_fill(self, I, fn, args, e, st, sign=1):
        """replace the numbers held in sequences of the object with fresh symbols (sizes and counters kept)"""
        loc = args[0]
        tag = self.tag(args[1])

        def go(v, t):
            s = v.sort
            if isinstance(s, tuple) and s[0] == 'v':
                return self.scramble(v, t, (), sign)
            if isinstance(s, tuple) and s[0] == 'rec' and v.op == 'rec':
                return rec(s, [go(x, t + '.' + f) for (f, _), x in zip(s[2], v.a[1:])])
            return v
        I.store(loc, go(I.load(loc, st), tag), st)
        return ZERO

    def x_fill_negated(self, I, fn, args, e, st):
        return self.x_fill(I, fn, args, e, st, -1)

    def scramble(self, v, tag, idx, sign=1, s=None):
        s = s or v.sort
        if is_num(s) or v.op == 'poly':
            x = tm.fnl('hv', [mk('str', (tag,), 's')] + list(idx), s if s != 'n' else 'n')
            return x if sign == 1 else tm.neg(x)
        if s == 'b':
            return tm.fnl('hv', [mk('str', (tag,), 's')] + list(idx), 'b')
        if isinstance(s, tuple) and s[0] == 'v':
            k = fresh('o', 'n')
            return mk_arr(size(v), k, self.scramble(at(v, pvar(k)), tag, idx + (pvar(k),), sign, s[1]), s)
        if isinstance(s, tuple) and s[0] == 'rec' and v.op == 'rec':
            return rec(s, [self.scramble(x, tag + '.' + f, idx, sign, q) for (f, q), x in zip(s[2], v.a[1:])])
        return v


class _Range(Exception):
    pass


def on_leaf(v, x, y):
    return y if v is x else ite(tm.node(v.a[0], tm.TRUE, tm.FALSE), on_leaf(v.a[1], x, y), on_leaf(v.a[2], x, y)) \
        if v.op == 'ite' else v


def sizeof(I, t):
    if t.k in ('int', 'flt', 'enum'):
        return max(1, (t.w or 32) // 8)
    if t.k == 'bool':
        return 1
    if t.k in ('ptr', 'ref', 'fptr'):
        return 8
    if t.k == 'rec':
        r = I.prog.records.get(t.key)
        if r is None:
            return None
        off, al = 0, 1
        for f in r['fields']:
            s = sizeof(I, f['t'])
            a = alignof(I, f['t'])
            if s is None:
                return None
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return max(1, (off + al - 1) // al * al)
    if t.k == 'arr' and isinstance(t.n, int):
        s = sizeof(I, t.to)
        return s * t.n if s else None
    return None


def alignof(I, t):
    if t.k == 'rec':
        r = I.prog.records.get(t.key)
        return max([1] + [alignof(I, f['t']) for f in r['fields']]) if r else 8
    if t.k == 'arr':
        return alignof(I, t.to)
    return sizeof(I, t) or 8


OPS = {'operator[]': 'index', 'operator=': 'assignop'}
FUNCTORS = ('std::plus', 'std::multiplies', 'std::minus', 'std::less', 'std::greater', 'std::equal_to', 'std::divides',
            'std::less_equal', 'std::greater_equal', 'std::negate', 'std::logical_or', 'std::logical_and')
IOS = {'boolalpha': 1, 'dec': 2, 'fixed': 4, 'hex': 8, 'internal': 16, 'left': 32, 'oct': 64, 'right': 128, 'scientific': 256,
       'showbase': 512, 'showpoint': 1024, 'showpos': 2048, 'skipws': 4096, 'unitbuf': 8192, 'uppercase': 16384,
       'adjustfield': 176, 'basefield': 74, 'floatfield': 260}


def _setf(args, sort):
    old, b, m = args
    co, cb, cm = const_of(old), const_of(b), const_of(m)
    if co is not None and cb is not None and cm is not None:
        return pconst((int(co) & ~int(cm)) | (int(cb) & int(cm)))
    return None


tm.FNSIMP['setf'] = _setf
for _o in ('binsert', 'rit', 'lvx'):
    tm.BUILD[_o] = (lambda o: lambda t, na: mk(o, na, t.sort))(_o)
