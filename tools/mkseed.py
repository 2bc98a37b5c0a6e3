"""usage: mkseed.py FILE [ID..]   FILE defines SEEDS = [dict(id, prop, file, edits=[(old, new)..], demo, needs, breaks)]
Builds seeded/<id>/, confirms the change (tests pass, demo fails with it and passes without), runs the check."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable_tests') or [])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                                   'exec %s "$(dirname "$0")/demo.py"\n' % PY)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        msg = []
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r0.returncode:
            msg.append('DEMO FAILS CLEAN: ' + (r0.stderr or r0.stdout)[-400:])
        try:
            edits = s['edits']
            for e in edits:
                f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
                p = '/repo/src/sims_pars/' + f
                t = open(p).read()
                if t.count(old) != 1:
                    msg.append('EDIT %d matches' % t.count(old))
                t = t.replace(old, new, 1)
                open(p, 'w').write(t)
            diff = sh('git -C /repo diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                msg.append('BUILD FAILS ' + b.stderr[-300:])
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
            if r1.returncode == 0:
                msg.append('DEMO PASSES WITH PATCH')
            t = sh('bash /opt/vp/test.sh /tmp/x/o.json; tail -3 /tmp/x/o.json')
            o = json.load(open('/tmp/x/o.json'))
            failed = set(o.get('failed') or [])
            bad = failed & BASE
            if bad:
                msg.append('TESTS FAIL %s' % sorted(bad)[:3])
            c = sh('python3 check.py %s' % s['prop'], cwd=HERE)
            caught = 'VIOLATION property=%s ' % s['prop'] in c.stdout
            al = sh('python3 check.py ALL --verbose', cwd=HERE)
            viol = [l.split()[2] + ' ' + l.split()[-1][:60] for l in al.stdout.splitlines() if l.startswith('VIOLATED')]
            und = [l[:150] for l in al.stdout.splitlines() if l[:9] in ('UNDECIDED', 'ERROR    ', 'BROKEN   ')]
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        print('%-6s %-4s %s %s | %s' % (s['id'], s['prop'], 'CAUGHT' if caught else 'MISSED', ' '.join(msg) or 'ok',
                                        'viol: ' + ', '.join(viol)))
        for u in und:
            print('         ', u)
        sys.stdout.flush()


b = json.load(open('/opt/vp/BASELINE.json'))
BASE = set()


def walk(x):
    if isinstance(x, str):
        BASE.add(x)
    elif isinstance(x, list):
        for y in x:
            walk(y)
    elif isinstance(x, dict):
        for k, y in x.items():
            BASE.add(k)
            walk(y)


walk(b)
main()
