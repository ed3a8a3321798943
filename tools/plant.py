"""Builds /verif/seeded/<id> from tools/bugs.py and confirms each one in a scratch copy.

python3 tools/plant.py [--check] [--all] [ID...]     (--check: run the property's check; --all: run every check)"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), 'seeded')
sys.path.insert(0, HERE)
REPO = os.environ.get('PLANT_REPO', '/repo')
import bugs

DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d -t demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export PYTHONPATH=/opt/vp/plugin:$R:$D PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=
cd "$T" && timeout 280 /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build(b, check, all_):
    d = os.path.join(SEED, b['id'])
    S = '/tmp/plant/' + b['id']
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('cp -a %s %s' % (REPO, S))
    try:
        for f, old, new in b['edits']:
            p = os.path.join(S, f)
            t = open(p, newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                return b['id'], 'EDIT matches %d times in %s' % (t.count(old), f)
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', S, 'diff'], capture_output=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        if 'from seedrt import' in b['demo']:
            shutil.copy(HERE + '/seedrt.py', d + '/seedrt.py')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        msg = []
        a = sh('bash %s/demo.sh' % d, cwd=REPO)
        msg.append('demo clean rc=%d' % a.returncode + ('' if a.returncode == 0 else '\n' + (a.stdout + a.stderr)[-1500:]))
        rcs = []
        for _ in range(b.get('repeat', 2)):
            c = sh('bash %s/demo.sh' % d, cwd=S)
            rcs.append(c.returncode)
        msg.append('demo bug rc=%s %s' % (rcs, (c.stdout.strip().splitlines() or c.stderr.strip().splitlines() or [''])[-1][:200]))
        for t in ('build', 'test'):
            s = open('/opt/vp/%s.sh' % t).read().replace('/repo', S)
            open(S + '.%s.sh' % t, 'w').write(s)
        r = sh('bash %s.build.sh' % S)
        msg.append('build rc=%d' % r.returncode)
        r = sh('bash %s.test.sh %s.json' % (S, S))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res = json.load(open(S + '.json'))
        passed = set(res.get('passed', []))
        bad = sorted(stable - passed)
        msg.append('tests missing: %s' % bad)
        good = a.returncode == 0 and all(rcs) and not bad
        msg.insert(0, 'VALID' if good else 'INVALID')
        if check:
            ids = ['C%02d' % i for i in range(1, 28)] if all_ else [b['property']]
            for i in ids:
                t0 = time.time()
                r = sh('VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh %s' % (S, i), cwd=os.path.dirname(HERE))
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                msg.append('%s %s rc=%d %.0fs %s' % (i, 'CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'BROKEN', r.returncode, time.time() - t0, v[:1]))
        return b['id'], '\n   '.join(msg)
    finally:
        shutil.rmtree(S, ignore_errors=True)
        for e in ('.build.sh', '.test.sh', '.json'):
            if os.path.exists(S + e):
                os.remove(S + e)


if __name__ == '__main__':
    args = sys.argv[1:]
    check, all_ = '--check' in args, '--all' in args
    ids = [a for a in args if not a.startswith('-')]
    todo = [b for b in bugs.B if not ids or b['id'] in ids]
    with cf.ThreadPoolExecutor(1 if all_ or check else 4) as ex:
        for i, m in ex.map(lambda b: build(b, check, all_), todo):
            print(i, m, flush=True)
