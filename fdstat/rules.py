"""Rules over the whole extracted program (C28): no shared mutable state, nothing outside consulted."""
import re

OUTSIDE = {
    'clock': {'time', 'clock', 'gettimeofday', 'clock_gettime', 'localtime', 'gmtime', 'ftime'},
    'entropy': {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'rand_r', 'arc4random', 'getrandom', 'getentropy'},
    'environment': {'getenv', 'secure_getenv', 'setenv', 'putenv', 'unsetenv', 'getpid', 'getppid', 'gethostname', 'getcwd', 'sysconf', 'uname',
                    'setlocale', 'localeconv', 'fesetround', 'fegetround', 'fesetenv', 'system', 'popen', 'signal', 'raise'},
    'file': {'fopen', 'freopen', 'fread', 'fscanf', 'fgets', 'fgetc', 'getc', 'getchar', 'scanf', 'open', 'read', 'write', 'mmap', 'tmpfile',
             'tmpnam', 'remove', 'rename', 'stat', 'opendir', 'socket', 'dlopen'},
    'thread': {'pthread_create', 'pthread_self', 'fork', 'sched_getcpu'},
}
OUTSIDE_RE = [
    ('clock', re.compile(r'^std::(chrono::.*::now|time|clock)$')),
    ('entropy', re.compile(r'^std::(random_device(::.*)?|rand|srand)$')),
    ('environment', re.compile(r'^std::(getenv|setlocale|localeconv|locale::global|fesetround|system|signal|raise)$')),
    ('file', re.compile(r'^std::(basic_(i|o)?fstream(::.*)?|basic_filebuf(::.*)?|filesystem::.*|fopen|freopen|remove|rename|tmpfile)$')),
    ('thread', re.compile(r'^std::(thread(::.*)?|jthread(::.*)?|async|this_thread::.*|promise(::.*)?)$')),
]


def library(f):
    return str(f.get('tu', '')).startswith('opm/') or '/opm/' in str(f.get('l', ''))


def walk(x, up=()):
    """all nodes of a body with the nodes above them (nearest first)"""
    if isinstance(x, dict):
        if 'k' in x:
            yield x, up
            up = (x,) + up[:3]
        for k, v in x.items():
            if k in ('t', 'fn', 'ct', 'rt', 'cls'):
                continue
            if isinstance(v, (dict, list)):
                yield from walk(v, up)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from walk(v, up)


def bodies(prog):
    for f in prog.functions.values():
        if library(f):
            yield f


def parts(f):
    for k in ('body', 'inits', 'ps'):
        if f.get(k):
            yield f[k]


def where(f, n=None):
    l = (n or {}).get('l') or f['l']
    if isinstance(l, int):
        l = '%s:%d' % (str(f['l']).rsplit(':', 1)[0], l)
    return '%s (%s)' % (l, f['n'])


def only_read(n, up):
    """a reference whose variable cannot be changed through it"""
    if not up:
        return False
    p = up[0]
    if p['k'] == 'cast':
        if p.get('ck') == 'LValueToRValue':
            return True
        if p.get('ck') == 'NoOp' and p['t'] is not None and p['t'].c:
            return True
        if p.get('ck') == 'ArrayToPointerDecay':
            return only_read(p, up[1:]) or (len(up) > 1 and up[1]['k'] in ('idx',) and only_read(up[1], up[2:]))
        return False
    if p['k'] == 'idx' and p.get('a') is n:
        return only_read(p, up[1:])
    if p['k'] == 'mem':
        return only_read(p, up[1:])
    fn = p.get('fn')
    if isinstance(fn, dict) and fn.get('const') and p.get('obj') is n:
        return True
    return False


def shared_state(prog, ctx):
    """every variable with static storage duration in the library is constant or never written"""
    bad, seen = [], 0
    refs = {}
    nfun = 0
    for f in bodies(prog):
        nfun += 1
        for b in parts(f):
            for n, up in walk(b):
                if n['k'] == 'ref' and n.get('g'):
                    refs.setdefault(n.get('gn'), []).append((f, n, up))
    names = set()
    for g in prog.globals:
        if not (str(g['tu']).startswith('opm/') or '/opm/' in str(g['l'])):
            continue
        if g['n'] in names:
            continue
        names.add(g['n'])
        seen += 1
        mutable = False
        r = prog.records.get(g['t'].key) if g['t'].k == 'rec' else None
        if r is not None and any(x.get('mut') for x in r['fields']):
            mutable = True
        if g['cst'] and not mutable:
            continue
        ws = [(f, n) for f, n, up in refs.get(g['n'], []) if not only_read(n, up)]
        if ws:
            bad.append(dict(what='%s %s is mutable and shared by all callers; written or exposed in %s'
                            % ('static local' if g['local'] else 'variable', g['n'], ws[0][0]['n']), where=where(ws[0][0], ws[0][1])))
    return dict(rule='no mutable state outside the objects of the caller', verdict='violated' if bad else 'holds', violations=bad,
                variables=seen, functions=nfun, references=sum(len(v) for v in refs.values()))


def outside(prog, ctx):
    """no library function consults a clock, the environment, a file, an entropy source, a thread or an address"""
    bad, calls = [], 0
    for f in bodies(prog):
        for b in parts(f):
            for n, up in walk(b):
                fn = n.get('fn')
                if isinstance(fn, dict) and not fn.get('user'):
                    calls += 1
                    name = fn.get('n') or ''
                    kind = None
                    if '::' not in name:
                        kind = next((k for k, s in OUTSIDE.items() if name in s), None)
                    kind = kind or next((k for k, p in OUTSIDE_RE if p.match(name)), None)
                    if kind:
                        bad.append(dict(what='%s calls %s (%s)' % (f['n'], name, kind), where=where(f, n)))
                if n['k'] == 'ref' and n.get('gn') in ('std::cin', 'environ', 'stdin'):
                    bad.append(dict(what='%s reads %s' % (f['n'], n['gn']), where=where(f, n)))
                if n['k'] == 'cast' and n.get('ck') == 'PointerToIntegral':
                    bad.append(dict(what='%s turns an address into a number' % f['n'], where=where(f, n)))
    return dict(rule='nothing outside the arguments is consulted', verdict='violated' if bad else 'holds', violations=bad, calls=calls,
                functions=sum(1 for _ in bodies(prog)))
