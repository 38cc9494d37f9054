"""Builds the extractor (once) and extracts the current sources of /repo."""
import hashlib, os, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from .ir import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FD_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
SRC = os.path.join(VERIF, 'extract', 'fdextract.cpp')
ENV = dict(os.environ, PATH='/usr/local/bin:/usr/bin:/bin')


def extractor():
    h = hashlib.sha1(open(SRC, 'rb').read()).hexdigest()[:12]
    d = os.path.join(VERIF, 'build')
    out = os.path.join(d, 'fdextract-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    tmp = '%s.tmp%d' % (out, os.getpid())
    cmd = ['/usr/bin/g++', '-O1', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', SRC, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.18.1']
    subprocess.run(cmd, check=True, env=ENV)
    os.rename(tmp, out)
    return out


def sources(repo):
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, 'opm')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.cc', '.cxx', '.c')):
                out.append(os.path.relpath(os.path.join(root, f), repo))
    return out


class ExtractError(Exception):
    pass


def extract_tolerant(specs):
    """like extract, but a probe file that does not compile is left out and reported"""
    try:
        return extract(specs), []
    except ExtractError as ex:
        good, bad = [], []
        for s in specs:
            try:
                extract([s], only=())
                good.append(s)
            except ExtractError as e2:
                bad.append('probe file %s: %s' % (s, str(e2)[-400:]))
        if not bad:
            raise
        return extract(good), bad


def extract(specs=(), repo=None, only=None):
    """Program with all library translation units and the given probe files"""
    repo = repo or REPO
    ex = extractor()
    work = tempfile.mkdtemp(prefix='fdx.')
    jobs = []
    for s in sources(repo):
        if only is not None and s not in only:
            continue
        jobs.append((os.path.join(repo, s), s))
    for s in specs:
        jobs.append((os.path.join(VERIF, 'spec', s), 'spec/' + s))

    def run(j):
        src, tu = j
        out = os.path.join(work, tu.replace('/', '_') + '.json')
        std = ['-xc', '-std=c99'] if src.endswith('.c') else ['-std=c++17']
        p = subprocess.run([ex, out, tu, repo + ':' + os.path.join(VERIF, 'spec'), src, '--'] + std +
                           ['-I' + repo, '-I' + os.path.join(VERIF, 'spec'), '-resource-dir', LLVM + '/lib/clang/18', '-w'],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
        if p.returncode != 0 or not os.path.exists(out):
            return (tu, p.stderr.decode(errors='replace')[-2000:])
        return out
    try:
        with ThreadPoolExecutor(8) as ex_:
            res = list(ex_.map(run, jobs))
        bad = [r for r in res if isinstance(r, tuple)]
        if bad:
            raise ExtractError('%s: %s' % bad[0])
        prog = Program()
        for r in res:
            prog.load(r)
        return prog
    finally:
        shutil.rmtree(work, ignore_errors=True)
