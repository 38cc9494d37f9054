"""Loads the JSON written by fdextract and resolves types, records, functions."""
import json


class Ty(object):
    __slots__ = ('k', 'c', 's', 'u', 'w', 'to', 'n', 'key', 'user', 'a', 'rv', 'tu', '_sort')

    def __repr__(self):
        return self.s

    def noref(self):
        return self.to if self.k == 'ref' else self


class Program(object):
    def __init__(self):
        self.functions = {}     # key -> function dict (body etc.)
        self.records = {}       # key -> record dict
        self.globals = []
        self.ginits = {}
        self.tus = []
        self.types = {}         # tu -> [Ty]
        self.byname = {}        # qualified name -> [function]

    def load(self, path):
        d = json.load(open(path))
        tu = d['tu']
        self.tus.append(tu)
        tys = []
        for o in d['types']:
            t = Ty()
            t.tu = tu
            t.k = o['k']
            t.c = o['c']
            t.s = o['s']
            t.u = o.get('u', False)
            t.w = o.get('w', 0)
            t.to = o.get('to')
            t.n = o.get('n')
            t.key = o.get('key')
            t.user = o.get('user', False)
            t.a = o.get('a', [])
            t.rv = o.get('rv', False)
            t._sort = None
            tys.append(t)
        for t in tys:
            if t.to is not None:
                t.to = tys[t.to]
            t.a = [tys[x] if isinstance(x, int) else x for x in t.a]
        self.types[tu] = tys

        def res(x):
            """resolve type indices in the AST in place"""
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ('t', 'ct', 'rt', 'cls', 'base') and isinstance(v, int) and not isinstance(v, bool):
                        x[k] = tys[v] if v >= 0 else None
                    elif k in ('ps', 'ta') and isinstance(v, list):
                        x[k] = [tys[y] if isinstance(y, int) else (res(y) or y) for y in v]
                    elif isinstance(v, (dict, list)):
                        res(v)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)):
                        res(y)
        for r in d['records']:
            res(r['fields'])
            r['bases'] = [tys[b] for b in r.get('bases', [])]
            if r['key'] not in self.records:
                self.records[r['key']] = r
        for f in d['functions']:
            res(f)
            if f['key'] not in self.functions:
                self.functions[f['key']] = f
                self.byname.setdefault(f['n'], []).append(f)
        for g in d['globals']:
            g['t'] = tys[g['t']]
            g['tu'] = tu
            self.globals.append(g)
        for g in d['ginits']:
            res(g)
            self.ginits[g['d']] = g
        return tu

    def field(self, key, name):
        r = self.records.get(key)
        if r is None:
            return None
        for f in r['fields']:
            if f['n'] == name:
                return f
        return None
