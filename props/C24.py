"""C24: a generator that ends with status 0 has parsed and validated its inputs and written every output file completely."""
import glob
import json
import os
import re
import shutil
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from irv import project as P
from irv import outcome as O

LEVEL = 'proof'
WALL = 600
TECHNIQUE = ('contract-based deductive verification: contracts on the outcome of every function of the generator library and of the seven generators (true, or status 0, only when everything that was opened, '
             'written, flushed, copied or created since the function was entered is known to have worked), verification conditions generated from their LLVM IR on every run, discharged function by function by z3')
NOTE = 'replay: every generator of the tree is run with each of its output files in turn replaced by one that cannot be opened or cannot hold anything'
BOUND = ('the seven generators, 2 schemas, default and customised options (extra bundles, platforms, injected code with a changed main namespace), each output file in turn is a directory or a link to /dev/full, '
         'each output directory in turn is a file; the same with every file replaced by the user\'s and with a second schema in the run; 22 shapes of schemas with nothing in the way; 4 rejected schemas')
ASSUME = [
    'a stream says so (fail, bad, good) when an open, a write or a flush has failed; what was flushed is in the file',
    'an exception leaving main is not status 0',
    'a file is opened only through a local std::ofstream, copied and created only through std::filesystem; one output file is open at a time in a function',
    'a virtual call runs an override of the classes of the library or of the generators; a call through a pointer to a function runs a function with that type whose address is taken somewhere in the code',
    'vsnprintf (std::to_string) and std::error_code::message run no code of the generators',
]
N = 'commsdsl::gen::'
KIND = {'C': 'returns true => nothing it opened, wrote, flushed, copied or created may have failed', 'Q': 'does nothing to files', 'H0': 'returns 0 => nothing it opened, wrote, flushed, copied or created may have failed',
        'D': 'returns false => nothing failed'}
_IOS = '_ZNKSt9basic_iosIcSt11char_traitsIcEE'
EV = {'_ZN8commsdsl5parse13ParseProtocol5parseERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': 'FC', '_ZN8commsdsl5parse13ParseProtocol13parseValidateEv': 'FC'}
APPS = ('commsdsl2comms', 'commsdsl2test', 'commsdsl2c', 'commsdsl2swig', 'commsdsl2emscripten', 'commsdsl2tools_qt', 'commsdsl2latex')


def contracts():
    return []


def app_srcs():
    return [s for a in APPS for s in sorted(glob.glob(os.path.join(P.REPO, 'app', a, 'src', '*.cpp')))]


def gen_srcs():
    return sorted(glob.glob(os.path.join(P.REPO, 'lib/src/gen/*.cpp')))


def incs():
    return ['-I' + os.path.join(P.REPO, 'app', a, 'src') for a in APPS]


NS = '8commsdsl3gen|' + '|'.join('%d%s' % (len(a), a) for a in APPS)
INSIDE = re.compile(r'_Z[ZNKRVLGt]*(%s)' % NS)


def is_inside(mangled):
    return mangled == 'main' or bool(INSIDE.match(mangled))


def marker():
    return os.path.join(P.tmpdir(), 'ir.done')


def verify_all(tier, log, wall):
    t0 = time.time()
    try:
        prog = P.load(gen_srcs() + app_srcs(), None, incs(), ready=lambda: open(marker(), 'w').write('ok'))
    except P.CompileError:
        open(marker(), 'w').write('failed')
        raise
    w = O.World(prog, is_inside, lambda b: False, EV, streams=True, quiet=re.compile('error_code::message|__to_xstring<'))
    keys = [k for k in w.fns if is_inside(w.fns[k].name)]
    load_t = time.time() - t0
    spec, funs, st, consts = O.solve(w, keys)
    und = dict(st['unsupported'])
    if und:                                   # outside the verifier's reach: undecided, never an alarm
        spec, funs, st, consts = O.solve(w, keys, [(k, kd) for k in und for kd in 'CQ'])
    rel = st['rel']
    claimed = [k for k in sorted(funs, key=lambda k: (w.dem_key(k), k)) if k in rel]
    short = lambda k: (k.split('.')[0] + ' main' if w.fns[k].name == 'main' else w.dem_key(k).replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string').replace(N, ''))
    name = {}
    for k in claimed:
        n = short(k)
        name[k] = n if n not in name.values() else n + ' ' + k
    base = set(json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'baseline.json'))).get('C24', []))
    lab = lambda k, kd: '%s [%s]' % (name[k], kd)
    broken = [(k, 'H0') for k in claimed if w.fns[k].name == 'main' and 'H0' not in spec[k] and lab(k, 'H0') in base]
    where = []
    if broken:
        want = {k: {kd for kd in ('C', 'D', 'Q', 'H0') if lab(k, kd) in base} for k in claimed}
        where = O.roots(w, spec, funs, consts, rel, want)
    res, i = [], 0
    tq = st['solve_s'] / max(1, st['queries'])
    kinds_of = lambda k: ['H0'] if O.width(funs[k].f.rty) == 32 else [kd for kd in 'CQ' if kd in O.candidates(funs[k].f)]
    for k in claimed:
        loops = [x for x in spec[k] if x[0] in 'IJ']
        n = 0
        for kd in kinds_of(k):
            if kd not in spec[k]:
                continue
            i += 1
            obl = [(KIND[kd], 'proved', tq, 'z3', 'outcome', '')]
            if n == 0:
                obl += [('invariant of the loop at %s' % x[1:], 'proved', tq, 'z3', 'outcome', '') for x in loops]
            n += 1
            res.append(dict(i=i, label=lab(k, kd), mangled=funs[k].f.name, status='ok', reason='', where='', paths=len(funs[k].rets), t=0.0, obl=obl, cex=[], inlined=[], lib=[], used=[], feas=0))
    for k, kd in broken:
        i += 1
        obl = [(KIND[kd], 'failed', tq, 'z3', 'outcome', w.dem_key(k))]
        obl += [('%s: %s; lines of a failing path: %s' % (name[x], KIND[c], lines), 'failed', tq, 'z3', 'outcome', w.dem_key(x)) for x, c, lines in where]
        res.append(dict(i=i, label=lab(k, kd), mangled=funs[k].f.name, status='unsupported' if und else 'failed', reason='outside reach: %s' % und if und else '', where='',
                        paths=len(funs[k].rets), t=0.0, obl=obl, cex=[], inlined=[], lib=[], used=[], feas=0))
    have = {r['label'] for r in res}
    return res, sorted(base - have), [], load_t


# ------------------------------------------------------------------ replay: the generators of the tree, output files that cannot be written
X1 = '''<?xml version="1.0" encoding="UTF-8"?>
<schema name="demo" endian="big" version="3">
 <fields>
  <enum name="MsgId" type="uint8" semanticType="messageId"><validValue name="M1" val="1"/><validValue name="M2" val="2"/></enum>
  <int name="I1" type="uint16" defaultValue="5"/>
  <set name="S1" length="1"><bit name="b0" idx="0"/></set>
  <bitfield name="B1"><int name="x" type="uint8" bitLength="4"/><enum name="y" type="uint8" bitLength="4"><validValue name="v" val="1"/></enum></bitfield>
  <bundle name="Bu"><int name="m" type="int8"/><string name="s" length="4"/></bundle>
  <data name="D1"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></data>
  <list name="L1" element="I1" count="3"/>
  <float name="F1" type="float"/>
  <optional name="O1" field="I1" defaultMode="exists"/>
  <variant name="V1">
   <bundle name="v1"><int name="k" type="uint8" defaultValue="1" failOnInvalid="true" validValue="1"/></bundle>
   <bundle name="v2"><int name="k" type="uint8" defaultValue="2" validValue="2" failOnInvalid="true"/></bundle>
  </variant>
  <ref name="R1" field="I1"/>
 </fields>
 <interface name="If"><int name="flags" type="uint8"/></interface>
 <message name="M1" id="MsgId.M1"><ref field="I1" name="a"/><ref field="S1" name="b"/><ref field="B1" name="c"/><ref field="V1" name="d"/></message>
 <ns name="sub">
  <fields><int name="I2" type="uint8"/></fields>
  <message name="M2" id="MsgId.M2" sender="client"><ref field="Bu" name="a"/><ref field="L1" name="b"/><ref field="F1" name="c"/><ref field="O1" name="d"/><ref field="D1" name="e"/></message>
 </ns>
 <frame name="Fr"><size name="Size"><int name="f" type="uint16"/></size><id name="Id" field="MsgId"/><payload name="Data"/></frame>
</schema>
'''
X2 = '''<?xml version="1.0" encoding="UTF-8"?>
<schema name="other" endian="little" version="2">
 <platforms><platform name="P1"/></platforms>
 <fields><enum name="MsgId" type="uint8" semanticType="messageId"><validValue name="A" val="0"/></enum></fields>
 <message name="A" id="MsgId.A" platforms="+P1"><int name="f" type="uint8" sinceVersion="1"/></message>
 <frame name="F"><id name="Id" field="MsgId"/><payload name="Data"/></frame>
</schema>
'''
BAD = ['<schema', X1.replace('endian="big"', 'endian="none"'), X1.replace('bitLength="4"/><enum', 'bitLength="5"/><enum'), X1.replace('field="I1" name="a"', 'field="None" name="a"')]
X0 = '<?xml version="1.0"?><schema name="one" endian="big"><fields><int name="Fa" type="uint8"/><bundle name="Fb"><int name="x" type="uint8"/></bundle></fields></schema>'
CONFIGS = [('plain', X1, [], False), ('renamed', X1, ['-n', 'renamed'], True), ('other', X2, [], False)]
REFUSED = ('commsdsl2test', 'commsdsl2tools_qt')     # these need a frame: an error is fine without one
# shapes of schemas, run with nothing in the way
ID='<enum name="Id" type="uint8" semanticType="messageId"><validValue name="M1" val="1"/><validValue name="M2" val="2"/></enum>'
MSG='<message name="M1" id="Id.M1"><int name="a" type="uint8"/></message>'
FR='<frame name="Fr"><id name="i" field="Id"/><payload name="d"/></frame>'
IF='<interface name="Msg"><int name="v" type="uint8"/></interface>'
def sch(body): return '<?xml version="1.0"?><schema name="demo" endian="big">%s</schema>'%body
F='<fields>%s</fields>'%ID
allf='''<fields>%s<int name="I" type="int16" units="sec"><special name="S" val="5"/></int><set name="Se" length="1"><bit name="a" idx="0"/></set><float name="Fl" type="float"><special name="N" val="nan"/></float><string name="St"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></string><data name="Da" length="3"/><bundle name="Bu"><int name="x" type="uint8"/><optional name="o" cond="$x = 1"><int name="oo" type="uint8"/></optional></bundle><bitfield name="Bi"><int name="x" type="uint8" bitLength="3"/><int name="y" type="uint8" bitLength="5"/></bitfield><list name="Li" count="3"><element><int name="e" type="uint8"/></element></list><variant name="Va"><bundle name="p1"><int name="t" type="uint8" fixedValue="true" defaultValue="1"/></bundle><bundle name="p2"><int name="t" type="uint8" fixedValue="true" defaultValue="2"/></bundle></variant><optional name="Op"><field><int name="f" type="uint8"/></field></optional></fields>'''%ID
SHAPES = {
'empty':sch(''),'fields':sch(F),'allf':sch(allf),'noframe':sch(F+MSG),'nomsg':sch(F+IF+FR),'frame':sch(F+FR),'iface':sch(F+IF),
'nsframe':sch(F+MSG+'<ns name="n">'+FR.replace('Id','Id')+'</ns>'),
'nsmsg':sch(F+FR+'<ns name="n">'+MSG+'</ns>'),
'nsall':sch(F+'<ns name="n">'+F+IF+MSG.replace('Id.M1','n.Id.M1')+FR.replace('"Id"','"n.Id"')+'</ns>'),
'emptyns':sch(F+MSG+FR+'<ns name="n"/>'),
'twoifs':sch(F+IF+IF.replace('Msg','Msg2')+MSG+FR),
'allflds_msg':sch(allf+'<message name="M1" id="1">'+''.join('<ref name="f%s" field="%s"/>'%(x,x) for x in 'I Se Fl St Da Bu Bi Li Va Op'.split())+'</message>'+FR),
'nofields':sch('<message name="M1" id="1"/><frame name="Fr"><id name="i"><int name="x" type="uint8"/></id><payload name="d"/></frame>'),
'emptymsg':sch(F+'<message name="M1" id="1"/>'+FR),
'payload':sch(F+MSG+'<frame name="Fr"><payload name="d"/></frame>'),
'layers':sch(F+IF+MSG+'<frame name="Fr"><sync name="s"><int name="v" type="uint16" defaultValue="0xabcd"/></sync><size name="z"><int name="v" type="uint16"/></size><id name="i" field="Id"/><value name="vv" interfaceFieldName="v"><int name="v" type="uint8"/></value><custom name="c"><int name="v" type="uint8"/></custom><payload name="d"/><checksum name="k" alg="sum" from="z"><int name="v" type="uint16"/></checksum></frame>'),
'plat':sch('<platforms><platform name="P1"/></platforms>'+F+'<message name="M1" id="1" platforms="+P1"/>'+FR),
'sender':sch(F+'<message name="M1" id="1" sender="client"/><message name="M2" id="2" sender="server"/>'+FR),
'twoframes':sch(F+MSG+FR+FR.replace('Fr"','Fr2"')),
'sameid':sch(F.replace('<fields>','<fields>')+'<message name="M1" id="1" order="0"/><message name="M1b" id="1" order="1"/>'+FR).replace('endian="big"','endian="big" nonUniqueMsgIdAllowed="true"'),
'ver':sch(F+'<message name="M1" id="1" sinceVersion="2"><int name="a" type="uint8"/><int name="b" type="uint8" sinceVersion="3"/></message>'+IF.replace('<int name','<int semanticType="version" name')+FR).replace('endian="big">','endian="big" version="5">'),
}
EXTRA = {'commsdsl2comms': ['--extra-messages-bundle', 'Bund@{dir}/bundle.txt']}
_lock = threading.Lock()
_exe = None


def native_build():
    """links the generators from the IR the verifier works on (and the parsing library)"""
    global _exe
    with _lock:
        if _exe:
            return _exe
        from irv import native
        d = P.tmpdir()

        def obj(s):
            o = os.path.join(d, 'q_%s.o' % os.path.basename(s).replace('.cpp', ''))
            r = subprocess.run([P.CXX] + P.FLAGS + ['-c', s, '-o', o], capture_output=True, text=True)
            if r.returncode != 0:
                raise native.BuildError(r.stderr[-1500:])
            return o
        with ThreadPoolExecutor(8) as ex:
            parse = list(ex.map(obj, P.parse_srcs()))
        end = time.time() + 500
        while not os.path.exists(marker()):
            if time.time() > end:
                raise native.BuildError('no IR')
            time.sleep(.3)
        if open(marker()).read() == 'failed':
            raise native.BuildError('the sources do not compile')

        def ir(s):
            m = re.search(r'/app/(\w+)/src/', s)
            l = os.path.join(d, (m.group(1) + '.' if m else '') + os.path.basename(s).replace('.cpp', ''))
            r = subprocess.run([P.CXX, '-O0', '-w', '-c', l + '.ll', '-o', l + '.o'], capture_output=True, text=True)
            if r.returncode != 0:
                raise native.BuildError(r.stderr[-1500:])
            return l + '.o'
        with ThreadPoolExecutor(8) as ex:
            gen = list(ex.map(ir, gen_srcs()))
            objs = {a: list(ex.map(ir, [s for s in app_srcs() if '/%s/' % a in s])) for a in APPS}
        out = {}

        def link(a):
            out[a] = os.path.join(d, a)
            r = subprocess.run([P.CXX] + objs[a] + gen + parse + ['-o', out[a], '-lxml2', '-lstdc++fs', '-pthread'], capture_output=True, text=True)
            if r.returncode != 0:
                raise native.BuildError(r.stderr[-1500:])
        with ThreadPoolExecutor(7) as ex:
            list(ex.map(link, APPS))
        _exe = out
        return out


_n = [0]


def scratch():
    with _lock:
        _n[0] += 1
        d = os.path.join(P.tmpdir(), 'g%d' % _n[0])
    os.makedirs(d)
    return d


def run_one(c):
    exe = native_build()[c['app']]
    d = scratch()
    try:
        out, code = os.path.join(d, 'out'), os.path.join(d, 'code')
        with open(os.path.join(d, 's.xml'), 'w') as f:
            f.write(c['xml'])
        with open(os.path.join(d, 'bundle.txt'), 'w') as f:
            f.write('M1\n')
        os.makedirs(code + '/include/demo/extra')
        with open(code + '/include/demo/extra/Own.h', 'w') as f:
            f.write('namespace demo { struct Own {}; }\n')
        for x in c.get('replace') or []:
            p = os.path.join(code, x + '.replace')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write('replaced\n')
        more = []
        for i, x in enumerate(c.get('more') or []):
            more.append(os.path.join(d, 'm%d.xml' % i))
            with open(more[-1], 'w') as f:
                f.write(x)
        if c.get('mode') in ('full', 'dir', 'file'):
            p = os.path.join(out, c['file'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if c['mode'] == 'full':
                os.symlink('/dev/full', p)
            elif c['mode'] == 'dir':
                os.makedirs(p)
            else:
                open(p, 'w').close()
        a = [exe, '-o', out] + (['-c', code] if c.get('code') else []) + [x.replace('{dir}', d) for x in c['opts']] + more + [os.path.join(d, 's.xml')]
        r = subprocess.run(a, capture_output=True, text=True, errors='replace', timeout=120, cwd=d)
        files, text = [], {}
        for root, ds, fs in os.walk(out):
            for f in fs:
                p = os.path.join(root, f)
                files.append(os.path.relpath(p, out))
        o = dict(status=r.returncode, files=sorted(files), err=r.stderr[-600:].replace(d, ''), valid=True)
        return o
    except subprocess.TimeoutExpired:
        return dict(crash='timeout')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def native_run(cmds):
    native_build()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda c: run_one(json.loads(c[1])), cmds))


def cases(rng, tier):
    cfg = []
    for a in APPS:
        for n, xml, opts, code in CONFIGS:
            cfg.append(dict(app=a, config=n, xml=xml, opts=opts + (EXTRA.get(a, []) if n == 'plain' else []), code=code))
    first = native_run([('G', json.dumps(c)) for c in cfg])
    for c, o in zip(cfg, first):
        yield ('G', json.dumps(dict(c, mode='plain')), None)
        fs = o.get('files') or []
        for f in fs:
            for m in ('full', 'dir'):
                if m == 'dir' and tier == 'quick' and c['config'] != 'plain':
                    continue
                yield ('G', json.dumps(dict(c, mode=m, file=f)), None)
        if c['config'] == 'plain':
            # every file replaced as a whole by the user's own
            r = dict(c, config='replaced', code=True, replace=fs)
            yield ('G', json.dumps(dict(r, mode='plain')), None)
            for f in fs:
                yield ('G', json.dumps(dict(r, mode='full', file=f)), None)
            # an earlier schema in the same run
            r = dict(c, config='multi', more=[X0], opts=['--multiple-schemas-enabled'], xml=X1.replace('</fields>\n <interface', '<ref name="Rx" field="@one.Fb"/></fields>\n <interface').replace('field="V1" name="d"/>', 'field="V1" name="d"/><ref field="Rx" name="e"/><ref field="@one.Fa" name="g"/>'))
            o2 = native_run([('G', json.dumps(r))])[0]
            yield ('G', json.dumps(dict(r, mode='plain')), None)
            for f in sorted(set(o2.get('files') or []) - set(fs)):
                yield ('G', json.dumps(dict(r, mode='full', file=f)), None)
            for d in sorted({os.path.dirname(f) for f in fs} - {''}):
                yield ('G', json.dumps(dict(c, mode='file', file=d)), None)
    for a in APPS:
        for n, x in SHAPES.items():
            for o in ([], ['-n', 'other']):
                yield ('G', json.dumps(dict(app=a, config=n, xml=x, opts=o, code=False, mode='shape')), None)
        for x in BAD:
            yield ('G', json.dumps(dict(app=a, config='bad', xml=x, opts=[], code=False, mode='bad')), None)


def judge(case, obs):
    c = json.loads(case[1])
    if obs['status'] < 0:
        return ('crash', '%s is ended by signal %d: %s' % (c['app'], -obs['status'], obs['err'][-300:]))
    if c['mode'] == 'shape' and c['app'] in REFUSED and '<frame' not in c['xml'] and 'ERROR' in obs['err']:
        return None
    if c['mode'] in ('plain', 'shape'):
        return None if obs['status'] == 0 else ('plain', '%s ends with status %d for a valid schema: %s' % (c['app'], obs['status'], obs['err'][-300:]))
    if obs['status'] != 0:
        return None
    if c['mode'] == 'bad':
        return ('accepted', '%s ends with status 0 for a schema that is not valid' % c['app'])
    return ('status', '%s ends with status 0 although the output %s %s' % (c['app'], c['file'], {'full': 'could not be written (the device is full)', 'dir': 'could not be opened (a directory is in its place)',
                                                                                                'file': 'could not be created as a directory (a file is in its place)'}[c['mode']]))
