"""Build the real library of /repo together with native/dump.cpp and run it on inputs (replay / bounded checks)."""
import hashlib
import json
import os
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor
from . import project as P

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NFLAGS = ['-std=c++17', '-O0', '-fsanitize=undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-w', '-pthread']


def inc():
    R = P.REPO
    return ['-I' + R + '/lib/include', '-I' + R + '/lib/src/parse', '-I' + R + '/lib/src/gen', '-I' + R + '/lib/src', '-I/usr/include/libxml2']


def lib_srcs():
    out = []
    for d in ('parse', 'gen'):
        p = os.path.join(P.REPO, 'lib/src', d)
        for root, _, fs in os.walk(p):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    out.append(os.path.join(root, f))
    return sorted(out)


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for d in ('lib',):
        for root, ds, fs in sorted(os.walk(os.path.join(P.REPO, d))):
            ds.sort()
            if '/test' in root:
                continue
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'native/dump.cpp'), 'rb').read())
    h.update(' '.join(NFLAGS).encode())
    return h.hexdigest()[:24]


STD = ('algorithm cassert cctype cstdint cstdlib filesystem fstream functional iomanip iostream iterator limits list map memory numeric set '
       'sstream string tuple type_traits utility vector cmath cstring').split()


def make_pch(d):
    h = os.path.join(d, 'pch.h')
    g = os.path.join(P.REPO, 'lib/include/commsdsl/gen')
    gh = [os.path.join(g, x) for x in sorted(os.listdir(g)) if x.endswith('.h')]
    with open(h, 'w') as f:
        f.write(''.join('#include <%s>\n' % x for x in STD) + '#include <libxml/parser.h>\n#include <libxml/tree.h>\n')
        f.write(''.join('#include "%s"\n' % x for x in P.parse_headers() + gh))
    r = subprocess.run([P.CXX] + NFLAGS + inc() + ['-x', 'c++-header', h, '-o', h + '.pch'], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-1500:])
    return h + '.pch'


_built = None
_lock = threading.Lock()


def build():
    global _built
    with _lock:
        if _built:
            return _built
        cache = os.environ.get('IRV_CACHE')
        key = None
        if cache:
            key = os.path.join(cache, 'dump-' + tree_hash())
            if os.path.exists(key):
                _built = key
                return key
        d = P.tmpdir()
        srcs = lib_srcs() + [os.path.join(VERIF, 'native/dump.cpp')]

        srcs.sort(key=lambda s: -os.path.getsize(s))

        def build_objs(extra):
            def one(s):
                o = os.path.join(d, 'n_%s.o' % hashlib.md5(s.encode()).hexdigest()[:12])
                r = subprocess.run([P.CXX] + NFLAGS + extra + inc() + ['-c', s, '-o', o], capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError('%s: %s' % (s, r.stderr[-1500:]))
                return o
            with ThreadPoolExecutor(8) as ex:
                return list(ex.map(one, srcs))
        # a precompiled header of the tree's own headers only saves time; without it the same sources are compiled
        try:
            objs = build_objs(['-include-pch', make_pch(d)])
        except BuildError:
            objs = build_objs([])
        exe = os.path.join(d, 'dump')
        r = subprocess.run([P.CXX] + NFLAGS + objs + ['-o', exe, '-lxml2', '-lstdc++fs'], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stderr[-3000:])
        for o in objs:
            os.unlink(o)
        if key:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(exe, key + '.tmp')
            os.replace(key + '.tmp', key)
        _built = exe
        return exe


def _run_chunk(args):
    exe, chunk, wd = args
    os.makedirs(wd, exist_ok=True)
    p = subprocess.Popen([exe, wd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    data = b''.join(k.encode() + b' ' + str(len(d)).encode() + b'\n' + d for k, d in chunk)
    out, _ = p.communicate(data)
    lines = out.decode('utf-8', 'replace').split('\n')
    res = []
    for i in range(len(chunk)):
        if i < len(lines) and lines[i].strip():
            try:
                res.append(json.loads(lines[i]))
            except ValueError:
                res.append({'crash': 'unparsable output: ' + lines[i][:200]})
        else:
            res.append({'crash': 'no output'})
    return res


def run(cmds):
    """cmds: list of (kind, text); returns the list of observations"""
    exe = build()
    cmds = [(k, d.encode('utf-8') if isinstance(d, str) else d) for k, d in cmds]
    n = 8
    if not cmds:
        return []
    step = max(1, min(200, (len(cmds) + n - 1) // n))
    chunks = [(exe, cmds[i:i + step], os.path.join(P.tmpdir(), 'w%d' % i)) for i in range(0, len(cmds), step)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(_run_chunk, chunks))
    return [r for c in res for r in c]


def schemas(xmls):
    return run([('S', x) for x in xmls])
