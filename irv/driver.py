"""One check: verify the contracts of a property against /repo's current tree, run the bounded replay corpus against the
real library, decide the verdict, write the evidence file."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from irv import project as P            # noqa: E402

G = {}


def cvc5(smt):
    return _cli(['cvc5', '--lang=smt2', '--tlimit=15000'], smt)


def z3new(smt):
    return _cli(['z3-new', '-T:15'], smt)


def _cli(cmd, smt):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', dir=P.tmpdir(), delete=False) as f:
        f.write('(set-logic ALL)\n' + smt)
    try:
        r = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=25)
        return r.stdout.strip().split('\n')[0]
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    finally:
        os.unlink(f.name)


def key_of(kind, text):
    return hashlib.sha256((kind + '\0' + text).encode('utf-8', 'surrogateescape')).hexdigest()[:16]


# ----------------------------------------------------------------- contracts
def _worker(i):
    from irv import contract as K
    ct, f = G['jobs'][i]
    opts = {'obl_ms': G['obl_ms'], 'fn_budget': G['budget'], 'fallback': [cvc5, z3new]}
    try:
        r = K.verify(G['prog'], G['contracts'], ct, f, opts)
    except BaseException as e:           # a tool limit, never a verdict
        return dict(i=i, label=ct.label, mangled=f.name, status='unsupported', reason='tool error: %r' % (e,), where='', paths=0, t=0.0, obl=[], cex=[],
                    inlined=[], lib=[], used=[], feas=0)
    return dict(i=i, label=ct.label, mangled=r.mangled, status=r.status, reason=r.reason, where=str(r.where), paths=r.paths, t=r.t,
                obl=[(o.name, o.status, round(o.t, 4), o.backend, o.kind, str(o.loc)) for o in r.obl], cex=r.cex,
                inlined=sorted(r.inlined), lib=sorted(r.lib), used=sorted(r.used), feas=r.feas)


def verify_all(mod, tier, log, wall):
    """-> list of result dicts (one per function overload under contract)"""
    from irv import contract as K
    from irv import base as B
    t0 = time.time()
    srcs = sorted(set(B.BASE_SRCS) | set(mod.SRCS)) if getattr(mod, 'USE_BASE', True) else list(mod.SRCS)
    paths = [os.path.join(P.REPO, 'lib/src', s) for s in srcs]
    missing = [p for p in paths if not os.path.exists(p)]
    hdr = P.parse_headers()
    gd = os.path.join(P.REPO, 'lib/include/commsdsl/gen')
    if any('/gen/' in p for p in paths):
        hdr = hdr + [os.path.join(gd, x) for x in sorted(os.listdir(gd)) if x.endswith('.h')]
    hdr = hdr + [os.path.join(P.REPO, 'lib/src', x) for x in getattr(mod, 'LAYOUT_SRCS', []) if os.path.exists(os.path.join(P.REPO, 'lib/src', x))]
    prog = P.load([p for p in paths if p not in missing], hdr)
    own = mod.contracts()
    allc = {}
    for c in (B.contracts() if getattr(mod, 'USE_BASE', True) else []):
        allc.setdefault(c.name, []).append(c)
    for c in own:
        if c.callable:
            lst = allc.setdefault(c.name, [])
            lst[:] = [x for x in lst if (x.sig or None) != (c.sig or None)]
            lst.append(c)
    jobs, gone = [], []
    for c in own:
        if c.trusted:
            continue
        fs = prog.lookup(c.name)
        if c.sig:
            fs = [f for f in fs if c.sig in prog.dem.get(f.name, f.name)]
        if not fs:
            gone.append(c.label)
        for f in fs:
            jobs.append((c, f))
    G.update(prog=prog, contracts={k: (v if len(v) > 1 else v[0]) for k, v in allc.items()}, jobs=jobs, obl_ms=8000 if tier == 'quick' else 30000,
             budget=min(getattr(mod, 'FN_BUDGET', 60), wall) if tier == 'quick' else 240)
    load_t = time.time() - t0
    res = []
    if jobs:
        order = sorted(range(len(jobs)), key=lambda i: -(jobs[i][0].weight or 1))
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(8, len(jobs)), maxtasksperchild=6)
        try:
            its = [(i, pool.apply_async(_worker, (i,))) for i in order]
            end = time.time() + wall
            for i, a in its:
                try:
                    res.append(a.get(max(0.1, end - time.time())))
                except mp.TimeoutError:
                    ct, f = jobs[i]
                    res.append(dict(i=i, label=ct.label, mangled=f.name, status='unsupported', reason='wall time of this check', where='', paths=0, t=0.0, obl=[],
                                    cex=[], inlined=[], lib=[], used=[], feas=0))
        finally:
            pool.terminate()
    res.sort(key=lambda r: r['i'])
    return res, gone, [os.path.relpath(p, P.REPO) for p in missing], load_t


# ----------------------------------------------------------------- corpus
def run_corpus(mod, tier, seed, q=None, extra=None, deep=False):
    from irv import native
    try:
        t0 = time.time()
        getattr(mod, 'native_build', native.build)()
        bt = time.time() - t0
        rng = random.Random(seed)
        if extra is not None:
            cs = list(extra)
        else:
            cs = list(mod.cases(rng, 'thorough' if deep else tier))
        seen, uniq = set(), []
        for c in cs:
            k = key_of(c[0], c[1])
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        obs = getattr(mod, 'native_run', native.run)([(c[0], c[1]) for c in uniq])
        bad = []
        nontrivial = 0
        for c, o in zip(uniq, obs):
            v = judge(mod, c, o)
            if v is not None:
                bad.append(dict(key=key_of(c[0], c[1]), kind=c[0], input=c[1], info=repr(c[2])[:2000], what=v[1], sig=v[0], observed=json.dumps(o)[:3000]))
            if not (isinstance(o, dict) and o.get('valid') is False and not o.get('parse')):
                nontrivial += 1
        if hasattr(mod, 'judge_all'):          # relations between several observations
            for i, sig, what in mod.judge_all(list(zip(uniq, obs))):
                c, o = uniq[i], obs[i]
                bad.append(dict(key=key_of(c[0], c[1]), kind=c[0], input=c[1], info=repr(c[2])[:2000], what=what, sig=sig, observed=json.dumps(o)[:3000]))
        out = dict(ok=True, cases=len(uniq), accepted=nontrivial, bad=bad, build_s=round(bt, 2), t=round(time.time() - t0, 2),
                   samples=[c[1][:600] for c in uniq[:2]])
    except native.BuildError as e:
        out = dict(ok=False, err='build: ' + str(e)[-1500:])
    except Exception as e:
        out = dict(ok=False, err=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])
    if q is not None:
        q.put(out)
    return out


def judge(mod, c, o):
    if isinstance(o, dict) and ('crash' in o or 'exception' in o):
        return ('crash', 'crash / undefined behaviour / escaped exception: %s' % str(o.get('crash') or o.get('exception'))[:300])
    try:
        return mod.judge(c, o)
    except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:      # the observation lacks what the oracle expects
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return ('shape', 'the reported definition lacks an expected element (%s: %s at %s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    P.tmpdir()
    log = []
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pr = ctx.Process(target=run_corpus, args=(mod, tier, seed, q))
    pr.start()
    wall = getattr(mod, 'WALL', 240) if tier == 'quick' else 700
    tool_err = None
    try:
        res, gone, missing, load_t = mod.verify_all(tier, log, wall) if hasattr(mod, 'verify_all') else verify_all(mod, tier, log, wall)
    except P.CompileError as e:
        res, gone, missing, load_t = [], ['*'], [], 0
        tool_err = 'compile: %s' % str(e)[-800:]
    except Exception as e:
        res, gone, missing, load_t = [], ['*'], [], 0
        tool_err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
    try:
        nat = q.get(timeout=600)
    except Exception:
        nat = dict(ok=False, err='no answer from the native run')
    pr.join(5)
    baseline = set(json.load(open(os.path.join(VERIF, 'baseline.json'))).get(pid, [])) if os.path.exists(os.path.join(VERIF, 'baseline.json')) else set()
    failed = [r for r in res if r['status'] == 'failed']
    # a failed obligation is reported only for a function whose contract is discharged on the unchanged tree
    alarms = [r for r in failed if r['label'] in baseline]
    if alarms and nat.get('ok') and not nat['bad']:
        ex = []
        if hasattr(mod, 'replay'):
            for r in alarms:
                for c in r['cex']:
                    if c.get('witness'):
                        try:
                            ex += list(mod.replay(r['label'], c['witness']))
                        except Exception:
                            pass
        if ex:
            n2 = run_corpus(mod, tier, seed, extra=ex)
            if n2.get('ok'):
                nat['bad'] += n2['bad']
                nat['cases'] += n2['cases']
        if not nat['bad']:
            n2 = run_corpus(mod, tier, seed + 7919, deep=True)
            if n2.get('ok'):
                nat['bad'] += n2['bad']
                nat['cases'] += n2['cases']
    known = [k for k in load_known() if k['property'] == pid and not k.get('fixed')]
    kmap = {k['key']: k for k in known}
    new, seen_known = [], {}
    for b in (nat.get('bad') or []):
        k = kmap.get(b['key'])
        if k is not None and k.get('sig', b['sig']) == b['sig']:
            seen_known[k['key']] = k
        else:
            new.append(b)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rc = 0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    fails = [dict(function=r['label'], mangled=r['mangled'], obligation=o[0], location=o[5], backend=o[3], cex=[c for c in r['cex'] if c['obligation'] == o[0]][:2])
             for r in alarms for o in r['obl'] if o[1] == 'failed']
    if new:
        new.sort(key=lambda b: len(b['input']))
        b = new[0]
        rp = os.path.join(rdir, '%s-%s.json' % (pid, b['key']))
        json.dump(dict(property=pid, failing_input=b, others=len(new) - 1, failed_obligations=fails[:20],
                       replay_cmd='python3-vt /verif/check.py replay %s' % rp), open(rp, 'w'), indent=1)
        print('failing input (%s): %s' % (b['sig'], b['what']))
        for f in fails[:5]:
            print('failed obligation: %s: %s at %s' % (f['function'], f['obligation'], f['location']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif alarms:
        rp = os.path.join(rdir, '%s-obligation.json' % pid)
        json.dump(dict(property=pid, failed_obligations=fails), open(rp, 'w'), indent=1)
        for f in fails[:5]:
            print('failed obligation: %s: %s at %s' % (f['function'], f['obligation'], f['location']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    write_evidence(pid, mod, tier, seed, res, gone, missing, load_t, nat, baseline, failed, rc, time.time() - t0, tool_err)
    if '-v' in argv:
        for r in res:
            print('%-12s %-70s paths %d obl %d t %.1f %s %s' % (r['status'], r['label'], r['paths'], len(r['obl']), r['t'], r['reason'][:100], r['where'][:150]))
            for o in [o for o in r['obl'] if o[1] != 'proved'][:4]:
                print('      ', str(o)[:260])
            for c in r['cex'][:2]:
                print('       cex', c['witness'])
        print('gone', gone, 'missing', missing, 'tool', tool_err)
        print('native', {k: v for k, v in nat.items() if k not in ('bad', 'samples')}, 'bad', len(nat.get('bad') or []))
        shown = {}
        for b in (nat.get('bad') or []):
            shown[b['sig']] = shown.get(b['sig'], 0) + 1
            if shown[b['sig']] > 1:
                continue
            print('  BAD', b['key'], b['sig'], b['what'][:300], '\n      ', b['input'][:500].replace('\n', ' '), '\n      ', b['info'][:300])
        print('signatures', shown)
    if '--baseline' in argv:
        p = os.path.join(VERIF, 'baseline.json')
        d = json.load(open(p)) if os.path.exists(p) else {}
        d[pid] = sorted(r['label'] for r in res if r['status'] == 'ok')
        json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
    if not res and not nat.get('ok'):
        print('check could not run: %s / %s' % (tool_err, nat.get('err')), file=sys.stderr)
        return 2 if rc == 0 else rc
    if not nat.get('ok'):
        print('note: replay corpus not run: %s' % nat.get('err', '')[-1200:], file=sys.stderr)
    nob = sum(len(r['obl']) for r in res)
    npv = sum(1 for r in res for o in r['obl'] if o[1] == 'proved')
    print('%s %s: functions under contract %d, proved %d, obligations %d, discharged %d, undecided functions %d; replay inputs %s; %.1f s'
          % (pid, 'OK' if rc == 0 else 'VIOLATED', len(res), sum(1 for r in res if r['status'] == 'ok'), nob, npv,
             sum(1 for r in res if r['status'] not in ('ok', 'failed')), nat.get('cases'), time.time() - t0))
    return rc


TRUSTED = ['clang 18 front end (C++ to LLVM IR at -O0) and its record layouts', 'the VC generator /verif/irv (llparse, engine, contract)',
           'models of the C++ standard library and libxml2 in /verif/irv/stl.py', 'z3 4.x, cvc5 1.1.2 (back ends)']


def write_evidence(pid, mod, tier, seed, res, gone, missing, load_t, nat, baseline, failed, rc, wall, tool_err):
    be = {}
    for r in res:
        for o in r['obl']:
            if o[1] == 'proved':
                be[o[3]] = be.get(o[3], 0) + 1
    own = {c.label: c for c in mod.contracts()}
    cov = dict(
        obligations=sum(len(r['obl']) for r in res), discharged=sum(be.values()), checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier), trusted_base=TRUSTED,
        by_back_end=be, solver_s=round(sum(o[2] for r in res for o in r['obl']), 2), feasibility_queries=sum(r['feas'] for r in res),
        functions_under_contract=[dict(function=r['label'], status={'ok': 'proved'}.get(r['status'], r['status']), paths=r['paths'], obligations=len(r['obl']),
                                       discharged=sum(1 for o in r['obl'] if o[1] == 'proved'), t=round(r['t'], 2), reason=(r['reason'] or None)) for r in res],
        functions_executed_inline=sorted({x for r in res for x in r['inlined']})[:200],
        library_functions_modelled=sorted({x for r in res for x in r['lib']})[:200],
        contracts_assumed_at_calls=sorted({x for r in res for x in r['used']}),
        contracts_assumed_not_verified_here=sorted(x for x in {x for r in res for x in r['used']} if x not in {c.name for c in own.values() if not c.trusted}),
        functions_not_found=gone, sources_not_found=missing, undecided=[r['label'] for r in res if r['status'] not in ('ok', 'failed')],
        failed_outside_baseline=[r['label'] for r in failed if r['label'] not in baseline], ir_load_s=round(load_t, 2),
        bounded=dict(label='bounded stand-in: executes the real library on generated inputs and compares with an independent oracle; not counted as proved',
                     bound=getattr(mod, 'BOUND', ''), evaluations=nat.get('cases', 0), accepted_inputs=nat.get('accepted', 0), mismatches=len(nat.get('bad') or []),
                     error=nat.get('err'), build_s=nat.get('build_s'), samples=nat.get('samples', [])))
    if tool_err:
        cov['tool_error'] = tool_err
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'), coverage=cov,
              assumptions=list(getattr(mod, 'ASSUME', [])) + ['contracts listed under contracts_assumed_not_verified_here are assumed in this check (verified in the check of the property that owns them, or trusted)',
                                                              'memory separation: distinct objects reached through different pointers of the parsed tree do not overlap',
                                                              'termination is not proved'],
              wall_s=round(wall, 2), violations=1 if rc else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


def replay(path):
    from irv import native
    d = json.load(open(path))
    mod = importlib.import_module('props.' + d['property'])
    b = d.get('failing_input')
    if not b:
        print(json.dumps(d, indent=1))
        return 0
    o = getattr(mod, 'native_run', native.run)([(b['kind'], b['input'])])[0]
    print('input:\n%s\nobserved: %s\nexpected: %s' % (b['input'], json.dumps(o)[:4000], b['what']))
    return 0
