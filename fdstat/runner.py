"""Decides one property: runs its probe pairs and rules on the current /repo,
writes the evidence file and reports violations."""
import json, os, sys, time, traceback, threading, multiprocessing
from . import build, probe, terms as tm
from .checks import CHECKS
from .opaque import OPAQUE

VERIF = build.VERIF
BUDGET = {'quick': 600.0, 'thorough': 850.0}
SAMPLES = {'quick': 2000, 'thorough': 10000}


class Finding(object):
    def __init__(self, what, where, detail):
        self.what, self.where, self.detail = what, where, detail


def positions(a, b):
    """source positions of the smallest values the implementation computes and the reference does not"""
    def roots(o):
        return list(o.exc.values()) + [o.normal] + [v for _, v in o.vals]

    def subs(o):
        seen = set()
        st = list(roots(o))
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, tm.T) and x not in seen:
                seen.add(x)
                st.extend(x.a)
        return seen
    try:
        sa, sb = subs(a), subs(b)
    except RecursionError:
        return []
    new = [t for t in sa if t not in sb and t.id in tm.PROV]

    def kids(t):
        st, out = list(t.a), []
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, tm.T):
                out.append(x)
        return out
    minimal = [t for t in new if all(k in sb or k.op in ('bv', 'poly') for k in kids(t))] or new
    out = []
    for t in sorted(minimal, key=lambda t: t.id):
        p = tm.PROV[t.id]
        if isinstance(p, tuple) and p[0] and 'spec/' not in str(p[0]) and p not in out:
            out.append(p)
        if len(out) >= 6:
            break
    return out


def label(ck):
    fl = (ck.get('config') or {}).get('flags')
    return ck['name'] + ('[%s]' % ', '.join('%s%s' % ('' if v else 'not ', k) for k, v in sorted(fl.items())) if fl else '') + ck.get('tag', '')


def run_pair(prog, ck, tier, seed):
    """one probe pair -> dict"""
    t0 = time.time()
    r = dict(probe=label(ck), spec=ck['spec'])
    try:
        opq = {k: OPAQUE[k] for k in ck.get('opaque', ())}
        a = probe.summarise(prog, 'impl_' + ck['name'], opaque=opq, config=ck.get('config'), alloc=ck.get('alloc', False))
        b = probe.summarise(prog, 'spec_' + ck['name'], opaque=opq, config=ck.get('config'), alloc=ck.get('alloc', False))
        v = probe.compare(a, b, samples=ck.get('samples', SAMPLES[tier]), seed=seed, budget=ck.get('budget', 120.0),
                          maxlen=ck.get('maxlen', 4), nonneg=ck.get('nonneg', ()), canon=ck.get('canon'))
        if v.status == 'undecided' and ck.get('uncounted'):
            n = probe.counted_stop(a, b)
            if n:
                v = probe.Verdict('differs', 'an iteration that has to go on until the changes are small is also ended by a count, which',
                                  dict(implementation='ends when ' + n, reference='ends when the changes are small'))
        r['verdict'] = v.status
        r['what'] = v.what
        r['detail'] = v.detail
        fns = sorted(f for f in a.stats['functions'] if not f.startswith(('impl_', 'spec_')))
        r['functions'] = fns
        r['calls'] = a.stats['calls']
        r['loops'] = a.stats['loops']
        r['unmodelled'] = sorted(set(str(x) for x in a.stats['unmodelled']))[:8]
        if v.status == 'differs':
            r['where'] = [list(map(str, p)) for p in positions(a, b)]
    except Exception as ex:
        r['verdict'] = 'undecided'
        r['what'] = 'not analysable: %s: %s' % (type(ex).__name__, str(ex)[:300])
        r['functions'] = []
        r['trace'] = traceback.format_exc()[-1500:]
    r['wall_s'] = round(time.time() - t0, 2)
    return r


def child(prog, ck, tier, seed, q):
    try:
        q.send(run_pair(prog, ck, tier, seed))
    except BaseException as ex:
        try:
            q.send(dict(probe=label(ck), spec=ck['spec'], verdict='undecided', what='analysis failed: %r' % (ex,), functions=[]))
        except Exception:
            pass


def run_all(prog, cks, tier, seed, deadline, width=8):
    """each pair in its own forked process, with a memory and time limit"""
    import resource
    todo = list(cks)
    running = {}
    res = {}
    while todo or running:
        while todo and len(running) < width:
            ck = todo.pop(0)
            rd, wr = multiprocessing.Pipe(False)

            def body(ck=ck, wr=wr):
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                threading.stack_size(512 << 20)
                t = threading.Thread(target=child, args=(prog, ck, tier, seed, wr))
                t.start()
                t.join()
            p = multiprocessing.get_context('fork').Process(target=body)
            p.start()
            wr.close()
            running[label(ck)] = (p, rd, ck, time.time())
        for n in list(running):
            p, rd, ck, t0 = running[n]
            out = None
            if rd.poll(0.02):
                try:
                    out = rd.recv()
                except EOFError:
                    out = dict(probe=n, spec=ck['spec'], verdict='undecided', what='analysis process ended', functions=[])
            elif time.time() - t0 > ck.get('limit', 300) or time.time() > deadline:
                p.kill()
                out = dict(probe=n, spec=ck['spec'], verdict='undecided', what='time limit', functions=[])
            elif not p.is_alive() and not rd.poll(0.05):
                out = dict(probe=n, spec=ck['spec'], verdict='undecided', what='analysis process ended', functions=[])
            if out is not None:
                res[n] = out
                p.join()
                del running[n]
    return [res[label(c)] for c in cks]


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN-FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                out.append(l[8:].strip())
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in BUDGET:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    deadline = t0 + BUDGET[tier]
    spec = CHECKS[pid]
    pairs = [c for c in spec['pairs'] if tier == 'thorough' or not c.get('thorough')]
    files = sorted({c['spec'] for c in pairs})
    results, rules, notes = [], [], []
    prog = None
    try:
        prog, missing = build.extract_tolerant(files)
        for m in missing:
            notes.append('not analysable: %s' % (m,))
    except Exception as ex:
        notes.append('extraction failed: %s' % (str(ex)[:600],))
    if prog is not None:
        results = run_all(prog, pairs, tier, seed, deadline)
        for rf in spec.get('rules', ()):
            try:
                rules.append(rf(prog, dict(tier=tier, seed=seed)))
            except Exception as ex:
                rules.append(dict(rule=getattr(rf, '__name__', 'rule'), verdict='undecided', what='%r' % (ex,),
                                  trace=traceback.format_exc()[-1500:]))
    findings = []
    for r in results:
        if r['verdict'] == 'differs':
            where = '; '.join('%s (%s)' % (p[0], p[1]) for p in r.get('where', [])) or 'value computed through ' + ', '.join(r['functions'][:4])
            findings.append(Finding('%s: %s differs from the reference' % (r['probe'], r['what']), where, r))
    for r in rules:
        if r['verdict'] == 'violated':
            for w in r['violations']:
                findings.append(Finding('%s: %s' % (r['rule'], w['what']), w['where'], w))
    known = known_findings()
    fresh = []
    for f in findings:
        k = [l for l in known if l.startswith('property=%s ' % pid) and ('key=' + f.what.split(':')[0]) in l]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, f.what))
        else:
            fresh.append(f)
    undecided = [r for r in results if r['verdict'] == 'undecided'] + [r for r in rules if r['verdict'] == 'undecided']
    ev = evidence(pid, tier, seed, spec, results, rules, notes, time.time() - t0, len(fresh))
    d = os.environ.get('FD_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    n_eq = sum(r['verdict'] == 'equal' for r in results)
    print('%s: %d probe pairs (%d with identical normal forms, %d undecided), %d rules, %d library functions analysed, %.1f s'
          % (pid, len(results), n_eq, len([r for r in results if r['verdict'] == 'undecided']), len(rules),
             len({f for r in results for f in r['functions']}), time.time() - t0))
    for r in undecided:
        print('UNDECIDED %s: %s' % (r.get('probe') or r.get('rule'), r.get('what')))
    for n in notes:
        print('NOTE ' + n)
    if not fresh:
        return 0
    rd = os.path.join(d, 'replay')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, pid + '.json')
    with open(path, 'w') as fh:
        json.dump([dict(what=f.what, where=f.where, detail=f.detail) for f in fresh], fh, indent=1, default=str)
    for f in fresh:
        print('  %s' % f.what)
        print('    at: %s' % f.where)
        d = f.detail.get('detail') or {}
        for k in ('inputs', 'implementation', 'reference'):
            if k in d:
                print('    %s: %s' % (k, str(d[k])[:400]))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def evidence(pid, tier, seed, spec, results, rules, notes, wall, nviol):
    fns = sorted({f for r in results for f in r['functions']})
    samples = []
    for r in results[:6]:
        samples.append(dict(probe=r['probe'], verdict=r['verdict'], functions=r['functions'][:8], wall_s=r.get('wall_s')))
    for r in rules:
        samples.append({k: v for k, v in r.items() if k not in ('trace',)})
    dis = [r for r in results if r['verdict'] != 'equal']
    cov = dict(
        programs=len(results) + len(rules),
        disagreements_checked=len(dis),
        normal_forms_identical=sum(r['verdict'] == 'equal' for r in results),
        undecided=[dict(probe=r['probe'], what=r['what'],
                        filter={k: v for k, v in (r.get('detail') or {}).items() if k in ('agreeing', 'both_reject', 'open', 'skipped')})
                   for r in results if r['verdict'] == 'undecided'],
        library_functions=fns,
        call_sites=sum(r.get('calls', 0) for r in results),
        loops_summarised=sum(r.get('loops', 0) for r in results),
        unmodelled=sorted({u for r in results for u in r.get('unmodelled', [])}),
        rules=[{k: v for k, v in r.items() if k != 'trace'} for r in rules],
        rule=spec['rule'],
        samples=samples or [dict(note='nothing analysed')],
        notes=notes)
    cov['explanation'] = spec['rule']
    return dict(property=pid, tier=tier, seed=seed, level=spec['level'], coverage=cov,
                assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=nviol)
