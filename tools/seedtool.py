"""seedtool.py SPEC.py...: makes and confirms planted bugs in a scratch copy of /repo (dev tool; run inside `unshare -rm`, see below)
A spec defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (python text using probe), NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('SEED_NS') != '1':
    if not os.path.exists('/tmp/wt/_build'):
        subprocess.run(['cp', '-a', '/repo/.', '/tmp/wt/'], check=True)
    # bring the scratch copy to /repo's HEAD
    subprocess.run('cd /tmp/wt && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, check=True)
    sys.exit(subprocess.run(['unshare', '-rm', 'sh', '-c', 'mount --bind /tmp/wt /repo && cd /repo && exec python3 "$@"', 'sh'] + [os.path.abspath(__file__)] + [os.path.abspath(a) for a in sys.argv[1:]],
                            env=dict(os.environ, SEED_NS='1')).returncode)


def sh(c, t=1500):
    return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)


base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = '%s/seeded/%s' % (V, ns['ID'])
    sh('git checkout -- .')
    os.makedirs(d, exist_ok=True)
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        print(ns['ID'], 'base build failed'); break
    shutil.copy(V + '/native/dump.cpp', d + '/dump.cpp')
    shutil.copy(V + '/tools/probe.py', d + '/probe.py')
    open(d + '/demo.py', 'w').write('from probe import *\n' + ns['DEMO'].strip() + '\nprint("as it should be")\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
    r0 = sh('bash %s/demo.sh' % d)
    if r0.returncode:
        print(ns['ID'], 'demo fails on the unchanged tree', r0.stdout[-500:], r0.stderr[-800:]); continue
    for f, a, b in ns['EDITS']:
        s = open(f).read()
        if s.count(a) != 1:
            print(ns['ID'], 'edit matches', s.count(a), 'times in', f, repr(a)[:80]); break
        open(f, 'w').write(s.replace(a, b))
    else:
        open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print(ns['ID'], 'does not compile', r.stdout[-1500:]); sh('git checkout -- .'); continue
        r1 = sh('bash %s/demo.sh' % d)
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        o = json.load(open('/tmp/seed_out.json'))
        lost = sorted(base - set(o['passed']))
        print(ns['ID'], 'demo with patch: rc', r1.returncode, r1.stdout.strip()[-200:], '| tests lost', len(lost), lost[:4])
    sh('git checkout -- .')
