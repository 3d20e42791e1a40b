"""Build the exporter, run it over translation units, cache facts by content."""
import fcntl
import hashlib
import os
import re
import subprocess
import sys
import time
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .core import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18'
CXX = '/usr/bin/clang++'


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _walk(*roots):
    out = []
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x not in ('.git', '_build', 'build')]
            for f in fs:
                if f.endswith(('.cpp', '.hpp', '.h', '.in', '.proto', '.inc')):
                    out.append(os.path.join(d, f))
    return out


def exporter():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, 'ext', 'export.cpp')
    out = os.path.join(CACHE, 'export-' + _sha([src]))
    if os.path.exists(out):
        return out
    with open(os.path.join(CACHE, 'export.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([CXX, '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
                            '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1',
                            '-Wl,-rpath,' + LLVM + '/lib'], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('cannot build the exporter: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def gen_config():
    """configure.hpp as the real build configures it (libaio present)"""
    src = os.path.join(REPO, 'lib/include/sse/configure.hpp.in')
    d = os.path.join(CACHE, 'gen-' + _sha([src]), 'sse')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'configure.hpp')
    if not os.path.exists(p):
        with open(src) as f:
            t = f.read()
        t = re.sub(r'#cmakedefine\s+HAS_LIBAIO\b.*', '#define HAS_LIBAIO', t)
        t = re.sub(r'#cmakedefine\s+(\w+).*', r'/* #undef \1 */', t)
        tmp = p + '.tmp%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(t)
        os.rename(tmp, p)
    return os.path.dirname(d)


def flags():
    g = gen_config()
    return ['-std=gnu++17', '-DNDEBUG', '-w', '-I' + REPO + '/lib/include', '-I' + g, '-I' + REPO + '/lib',
            '-I' + g + '/sse', '-I' + REPO + '/lib/include/sse/schemes', '-isystem' + VERIF + '/stubs',
            '-I' + REPO, '-I' + REPO + '/lib/include/sse/runners', '-ferror-limit=0',
            '-Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec',
            '-resource-dir', LLVM + '/lib/clang/18']


def src_of(tu):
    if tu.startswith('tus/'):
        return os.path.join(VERIF, tu)
    return os.path.join(REPO, tu)


def facts(tus):
    """-> {tu: path of the fact file}; analyses the current tree"""
    exp = exporter()
    fl = flags()
    dig = _sha(_walk(REPO + '/lib', REPO + '/src', VERIF + '/stubs', VERIF + '/tus')) + '-' + \
        hashlib.sha256((os.path.basename(exp) + ' '.join(fl)).encode()).hexdigest()[:10]
    d = os.path.join(CACHE, 'facts-' + dig)
    os.makedirs(d, exist_ok=True)
    _prune(d)
    res = {}

    def one(tu):
        out = os.path.join(d, tu.replace('/', '_') + '.json')
        if not os.path.exists(out):
            src = src_of(tu)
            if not os.path.exists(src):
                raise AnalysisBroken('translation unit missing: ' + src)
            tmp = out + '.tmp%d' % os.getpid()
            r = subprocess.run([exp, tmp, REPO + ':' + VERIF + '/tus', src, '--'] + fl, capture_output=True,
                               text=True, timeout=600)
            if not os.path.exists(tmp):
                raise AnalysisBroken('cannot parse %s: %s' % (tu, r.stderr[-1500:]))
            with open(out + '.log', 'w') as f:
                f.write(r.stderr)
            os.rename(tmp, out)
        return tu, out
    with ThreadPoolExecutor(max_workers=8) as ex:
        for tu, out in ex.map(one, tus):
            res[tu] = out
    return res


def _prune(keep):
    """keep the cache small"""
    try:
        ds = [os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith('facts-')]
        ds = sorted((x for x in ds if x != keep), key=os.path.getmtime)
        for x in ds[:-4]:
            if time.time() - os.path.getmtime(x) < 900:
                continue    # another run may be using it
            for f in os.listdir(x):
                os.unlink(os.path.join(x, f))
            os.rmdir(x)
    except OSError:
        pass


def program(tus):
    p = Program()
    for tu, path in facts(tus).items():
        p.load(path, tu)
    return p
