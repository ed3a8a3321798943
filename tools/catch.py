"""Runs checks against scratch copies with planted bugs: catch.py [--all | --checks C01,C02] [ID...]; prints who catches what."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if '--all' in args:
    checks = ['C%02d' % i for i in range(1, 28)]
    args.remove('--all')
if '--checks' in args:
    i = args.index('--checks'); checks = args[i + 1].split(','); del args[i:i + 2]
for b in args or sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + b
    S = '/tmp/catch/' + b
    shutil.rmtree(S, ignore_errors=True); os.makedirs('/tmp/catch', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', S], check=True)
    try:
        r = subprocess.run(['git', '-C', S, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            print(b, 'PATCH FAILS', r.stderr[:200]); continue
        out = []
        for c in checks or [json.load(open(d + '/meta.json'))['property']]:
            t0 = time.time()
            r = subprocess.run('VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh %s' % (S, c), shell=True, cwd=V, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            st = 'CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'BROKEN rc=%d' % r.returncode
            if checks is None or st != 'missed':
                out.append('%s %s %.0fs' % (c, st, time.time() - t0))
        print(b, '|', '; '.join(out), flush=True)
    finally:
        shutil.rmtree(S, ignore_errors=True)
