"""writes DESIGN.md from tools/DESIGN.tmpl.md, the evidence of the last quick runs on the unchanged tree, seeded/, known_findings.json and na.py"""
import glob, importlib, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from na import NA
HOW = {
    'C01': 'range of an integer field for every type, length, bit length and offset as exact bit-vector formulas; length, bit length and offset updates; rejections. Machine integers, no abstraction of the arithmetic.',
    'C02': 'every conversion helper of lib/src/parse/common.cpp against a mathematical reading of the text (digits as a recursive sum, sign, 0x prefix), then each use: stored value or rejection.',
    'C03': 'default, one special, one valid range (attribute and child forms), merging of ranges, sorting and canonical form; the covered set is a ghost set of integers compared before and after.',
    'C04': 'insertion of one value (range, name, number, reverse map), the loop over all values by an insertion precondition, default value, reuse, non-unique flag.',
    'C05': 'insertion of one bit, length / bit length / type, unnamed bits defaults, reuse with a smaller width, agreement of masks by version interval.',
    'C06': 'each kind of member (bit length, kind, variable length), the sum over members as a prefix function, reuse and replaced members.',
    'C07': 'min/max length of every kind of field, message and layer against sums/products saturating in unbounded integers; loops over members as prefix functions; virtual calls by contract of every override.',
    'C08': 'relation of the three version attributes to parent and schema for every element kind, as pure relations over 32-bit numbers.',
    'C09': 'existence and optionality predicates of the generator as functions of (since, deprecated, removed, schema version, minimal remote version), forced versions.',
    'C10': 'name grammar character by character, reference grammar, uniqueness among siblings (map insertion, case of the first letter), namespaces and aliases.',
    'C11': 'conditions: parsing of one comparison into operator and operands, verification of each operand kind against the fields before the element, recursion over and/or/not, re-verification after replacing.',
    'C12': 'the comparator is a strict order by (id, order); lists sorted; collision scan over neighbours of the sorted list; nested namespaces.',
    'C13': 'positions of layers as indices in the written order: one payload, at most one id/size, from/until of checksums, sync layers.',
    'C14': 'one predicate per feature: supported iff declared version is 0 or not below the version of the feature; each use of it in the parsers.',
    'C15': 'string helpers of the generators as functions over characters (literal suffix, hex, first letter, replace, path join). Splitting, wrapping and template filling are proved step by step: a loop invariant states exactly which part of the text one iteration reads and what it writes for it (the piece up to the next separator; a line up to white space; the text up to the next marker and the value of the marker, indented, or nothing for a line without any value), and the text left at the end is written as it is. Tidying of generated code is replayed only (bounded).',
    'C16': 'outcome contracts over *all* functions of the parsing library (irv/outcome.py): "false or null only after an error was reported", "true only when none was". No contract is written per function: candidates are generated for every function, '
           'the greatest inductive set is what z3 discharges function by function against the contracts of the callees, so added, split and renamed functions get theirs. The check alarms when a contract of a function '
           'that is not called by another one (the public entry points and those reached through pointers) is lost; the report names the functions where the chain starts and the lines of a failing path.',
    'C17': 'validate-single/no-instance helpers over a multimap of properties, equality of the three notations (parseChildrenAsProps, parseNodeValue), and every place that reads a property.',
    'C18': 'look-up of fields, messages, interfaces by path, external references, reuse of each kind copies the state of the referred definition.',
    'C19': 'string, data and list: fixed length, prefixes and terminators, one way each; detached siblings; what is stored is what was written.',
    'C20': 'every scope/path function of the generator library against one specification of the chain of names; the schema of an element; what the generators write into the files is not under contract.',
    'C24': 'the same outcome contracts over the generator library and all seven generators, with a ghost for output files: opening, writing, flushing an std::ofstream, copying a file and creating a directory each make the state "not known to have worked"; only a check of the stream after the flush (or of the error code) '
           'with the outcome "worked" clears it, and the outcome "failed" has to come out as false up to main. Loops over schemas, namespaces and elements carry the invariant that nothing is left unchecked. The deciding contract is "main returns 0 only if nothing failed" of each generator.',
}
ev = {}
for f in glob.glob(H + '/evidence/C*.json'):
    e = json.load(open(f))
    ev[e['property']] = e
out = []
bad = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        continue
    m = importlib.import_module('props.' + i)
    e = ev[i]
    if e['violations']:
        bad.append(i)
    c = e['coverage']
    assumed = ['::'.join(x.split('(')[0].split('::')[-2:]) for x in c['contracts_assumed_not_verified_here']]
    s = ['### %s %s' % (i, p['title']), '', '* *Contracts*: ' + HOW[i] + ' %d function contracts, %d obligations, all %d discharged (%s); solver time %.0f s, whole run %.0f s.' % (
        len(c['functions_under_contract']), c['obligations'], c['discharged'], ', '.join('%s %d' % x for x in sorted(c['by_back_end'].items())), c['solver_s'], e['wall_s'])]
    s.append('* *Bounded*: %s (%d inputs in the quick run).' % (m.BOUND, c['bounded']['evaluations']))
    if assumed:
        s.append('* *Contracts assumed at calls*: ' + ', '.join('`%s`' % x for x in assumed) + '.')
    if getattr(m, 'ASSUME', None):
        s.append('* *Assumed*: ' + '; '.join(m.ASSUME) + '.')
    out += s + ['']
    u = [x for x in c['undecided']]
    if u:
        out += ['* *Undecided functions*: ' + ', '.join(u), '']
mx = json.load(open(H + '/tools/matrix.json')) if os.path.exists(H + '/tools/matrix.json') else {}
seeds = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*')):
    n = os.path.basename(d)
    j = json.load(open(d + '/meta.json'))
    seeds.append('| %s | %s | %s | %s |' % (n, j['property'], j['needs'].replace('|', '/'), mx.get(n, j['property'])))
k = json.load(open(H + '/known_findings.json'))
fixes = ['* ' + x.replace('fixed: property=', '').replace('<', '&lt;') for x in k['fixed']]
na = ['* **%s**: %s' % x for x in NA.items()]
t = open(H + '/tools/DESIGN.tmpl.md').read()
for a, b in (('@@PROPS@@', out), ('@@SEEDS@@', seeds), ('@@FIXES@@', fixes), ('@@NA@@', na)):
    t = t.replace(a, '\n'.join(b))
open(H + '/DESIGN.md', 'w').write(t)
print(len(t), 'violations in evidence of', bad)
