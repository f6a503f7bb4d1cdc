"""Compile the real sources of /repo to LLVM IR and record layouts; load them."""
import os
import re
import subprocess
import sys
import tempfile
import shutil
import atexit
from concurrent.futures import ThreadPoolExecutor
from .llparse import Module

REPO = os.environ.get('IRV_REPO', '/repo')
CXX = 'clang++-18'
FLAGS = ['-std=c++17', '-O0', '-fno-discard-value-names', '-gline-tables-only', '-w',
         '-I' + REPO + '/lib/include', '-I' + REPO + '/lib/src/parse', '-I' + REPO + '/lib/src/gen', '-I' + REPO + '/lib/src',
         '-I/usr/include/libxml2']

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='irv-')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class CompileError(Exception):
    pass


def compile_ir(src, extra=()):
    m = re.search(r'/app/(\w+)/src/', src)
    out = os.path.join(tmpdir(), (m.group(1) + '.' if m else '') + os.path.basename(src).replace('.cpp', '') + '.ll')
    r = subprocess.run([CXX] + FLAGS + list(extra) + ['-S', '-emit-llvm', src, '-o', out], capture_output=True, text=True)
    if r.returncode != 0:
        raise CompileError('%s: %s' % (src, r.stderr[-2000:]))
    return out


def compile_all(srcs, extra=()):
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda s: compile_ir(s, extra), srcs))


# ------------------------------------------------------------ layouts
class Layout:
    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.f = {}          # off -> (path, type)

    def at(self, off):
        return self.f.get(off)


LEAF = re.compile(r'^(?:class |struct |union )?(std::(?:vector|multimap|map|set|multiset|list|function|unique_ptr|shared_ptr|basic_stringstream|basic_ostringstream|basic_ofstream|basic_ifstream|filesystem::path)<.*|std::basic_string<char>|std::filesystem::path) (\w+)$')


def norm_type(t):
    t = re.sub(r'\b(class|struct|union|enum) ', '', t)
    t = t.replace('std::basic_string<char>', 'std::string').replace('basic_string<char>', 'std::string').replace('std::__cxx11::', 'std::')
    return t.strip()


def parse_layouts(text, out=None):
    out = {} if out is None else out
    for chunk in text.split('*** Dumping AST Record Layout\n')[1:]:
        lines = chunk.split('\n')
        m = re.match(r'\s*0 \| (?:class|struct|union) (.*?)(?: \(empty\))?$', lines[0])
        if not m:
            continue
        name = norm_type(m.group(1))
        if name in out:
            continue
        L = Layout(name, 0)
        skip = None
        path = []
        for ln in lines[1:]:
            mm = re.match(r'\s*\| \[sizeof=(\d+)', ln)
            if mm:
                L.size = int(mm.group(1))
                break
            mm = re.match(r'\s*(\d+)(?::[\d-]+)? \|( *)(.*)$', ln)
            if not mm:
                continue
            off = int(mm.group(1))
            ind = len(mm.group(2))
            rest = mm.group(3)
            if skip is not None:
                if ind > skip:
                    continue
                skip = None
            while path and path[-1][0] >= ind:
                path.pop()
            ml = LEAF.match(rest)
            if ml:
                nm = '.'.join([p[1] for p in path if p[1]] + [ml.group(2)])
                L.f.setdefault(off, (nm, norm_type(ml.group(1))))
                skip = ind
                continue
            if rest.endswith(('(base)', '(primary base)', '(virtual base)', '(base) (empty)', '(empty)', '(primary virtual base)')):
                bm = LEAF.match(re.sub(r' \((primary |virtual )*base\).*', ' base', rest))
                if bm:
                    L.f.setdefault(off, ('base', norm_type(bm.group(1))))
                    skip = ind
                    continue
                path.append((ind, ''))
                continue
            mp = re.match(r'\((.*) vtable pointer\)$', rest)
            if mp:
                L.f.setdefault(off, ('_vptr', 'vptr'))
                continue
            mv = re.match(r'(.*?)\s*([A-Za-z_]\w*)$', rest)
            if not mv:
                continue
            ty, nm = norm_type(mv.group(1)), mv.group(2)
            full = '.'.join([p[1] for p in path if p[1]] + [nm])
            isrec = re.match(r'(class|struct|union) ', mv.group(1)) and not mv.group(1).rstrip().endswith(('*', '&'))
            if not isrec:
                L.f.setdefault(off, (full, ty))
            path.append((ind, nm if isrec else nm))
        out[name] = L
    return out


def dump_layouts(headers, classes):
    """record layouts of the given classes (a synthetic TU takes sizeof of each)"""
    src = os.path.join(tmpdir(), 'layouts%d.cpp' % len(os.listdir(tmpdir())))
    with open(src, 'w') as f:
        for h in headers:
            f.write('#include "%s"\n' % h)
        for i, c in enumerate(classes):
            f.write('char x%d[sizeof(%s)];\n' % (i, c))
    r = subprocess.run([CXX] + FLAGS + ['-fno-access-control', '-ferror-limit=0', '-fsyntax-only', '-Xclang', '-fdump-record-layouts', src],
                       capture_output=True, text=True)
    if '*** Dumping' not in r.stdout:
        raise CompileError(r.stderr[-2000:])
    return parse_layouts(r.stdout)


def header_classes(hs):
    out = []
    for h in hs:
        ns = 'commsdsl::parse' if '/parse' in h else 'commsdsl::gen'
        for ln in open(h, encoding='utf-8', errors='replace'):
            m = re.match(r'(?:class|struct)\s+(?:COMMSDSL_\w+\s+)?(\w+)[^;]*$', ln)
            if m:
                out.append('%s::%s' % (ns, m.group(1)))
    return out


def load(srcs, headers=None, extra=(), classes=(), ready=None):
    from .engine import Program
    with ThreadPoolExecutor(max_workers=8) as ex:
        fl = ex.submit(dump_layouts, headers, header_classes(headers) + list(classes)) if headers else None
        irs = list(ex.map(lambda s: compile_ir(s, extra), srcs))
        lay = fl.result() if fl else {}
    if ready:
        ready()
    mods = [Module(p, os.path.basename(p)) for p in irs]
    names = set()
    for m in mods:
        names |= set(m.fns) | set(m.decls) | set(m.globs)
    names = sorted(names)
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n', capture_output=True, text=True).stdout.split('\n')
    dem = dict(zip(names, r))
    return Program(mods, dem, lay)


def parse_headers():
    d = REPO + '/lib/src/parse'
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.h')]


def parse_srcs():
    d = REPO + '/lib/src/parse'
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]
