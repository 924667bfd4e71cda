"""Development aid: python3 tools/tryseed.py [--notest] ID...   apply seeded/ID to /repo, run tests, demo and the property's check, undo."""
import json
import os
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    for i in args or sorted(os.listdir(HERE + '/seeded')):
        d = f'{HERE}/seeded/{i}'
        m = json.load(open(d + '/meta.json'))
        assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo dirty'
        r0 = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo').returncode
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stderr)
            continue
        try:
            p1 = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo')
            missing = 'skipped'
            if '--notest' not in sys.argv:
                sh('bash /opt/vp/test.sh /tmp/seed_o.json')
                b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                missing = sorted(b - set(json.load(open('/tmp/seed_o.json'))['passed']))[:3]
            out = []
            for p in [m['property']] + [x for x in sys.argv[1:] if x.startswith('+')]:
                t = time.time()
                c = sh(f'python3 {HERE}/check.py {p.lstrip("+")} quick', cwd=HERE)
                out.append((p, c.returncode, round(time.time() - t, 1), [l for l in c.stdout.splitlines() if 'failed' in l or 'INCONC' in l][:2]))
        finally:
            sh('git -C /repo checkout -- .')
        ok = r0 == 0 and p1.returncode != 0 and not missing
        print(i, 'VALID' if ok or missing == 'skipped' else 'INVALID', f'demo {r0}/{p1.returncode}', 'tests', missing, 'CHECK', out, '' if ok else p1.stdout[-200:] + p1.stderr[-300:], flush=True)


main()
