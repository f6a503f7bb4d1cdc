"""runs dump.cpp (linked against the library built in the current directory's tree) on inputs"""
import json, os, subprocess, sys, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
T = tempfile.mkdtemp(prefix='demo-')
atexit.register(lambda: shutil.rmtree(T, ignore_errors=True))


def build():
    r = os.getcwd()
    inc = ['-I' + r + '/lib/include', '-I' + r + '/lib/src/parse', '-I' + r + '/lib/src/gen', '-I' + r + '/lib/src', '-I/usr/include/libxml2']
    p = subprocess.run(['g++', '-std=c++17', '-O0', '-w'] + inc + [HERE + '/dump.cpp', r + '/_build/commsdsl/lib/src/libcommsdsl.a', '-lxml2', '-pthread', '-o', T + '/dump'],
                       capture_output=True, text=True)
    if p.returncode:
        print(p.stderr[-2000:])
        sys.exit(3)


build()


def run(kind, text):
    d = text.encode('utf-8', 'surrogateescape')
    p = subprocess.run([T + '/dump', T], input=kind.encode() + b' ' + str(len(d)).encode() + b'\n' + d, capture_output=True)
    return json.loads(p.stdout.decode('utf-8', 'replace').split('\n')[0])


def schema(fields='', rest='', **kw):
    a = dict(name='S', id=1, endian='little')
    a.update(kw)
    return '<?xml version="1.0" encoding="UTF-8"?>\n<schema%s>%s%s</schema>' % (''.join(' %s="%s"' % x for x in a.items()), '<fields>%s</fields>' % fields if fields else '', rest)


def parse(*a, **kw):
    return run('S', schema(*a, **kw))


def field(o, i=-1):
    return o['schemas'][0]['ns'][0]['fields'][i]


def ok(o):
    return 'crash' not in o and o['parse'] and o['valid']


def check(c, msg):
    if not c:
        print('FAILED:', msg)
        sys.exit(1)
