#!/usr/bin/env python3
"""Makes and tries planted bugs.

plant.py FILE.py [ID...]   FILE defines BUGS = [dict(id, property, file, edits=[(old, new)...], needs, breaks, demo)].
For each: scratch copy of /repo, edit, stable tests, demo before and after, the property's check on the scratch copy.
With KEEP=1 in the environment the ones that are sound are written to /verif/seeded/ID.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
# run in /repo (or a copy of it): exit 0 if the property holds, 1 if it is broken
cd "${1:-$PWD}" || exit 2
H=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$PWD/lib/python-bitcoinlib:$PWD/lib/python-proofmarshal" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
exec timeout 250 $PY -B "$H/demo.py"
'''


def env(repo):
    e = dict(os.environ, PYTHONPATH='%s:%s/lib/python-bitcoinlib:%s/lib/python-proofmarshal' % (repo, repo, repo), PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX='/opt/vp/no-pycache', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
    return e


def tests(repo):
    x = repo + '.xml'
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--import-mode=prepend', '--rootdir=' + repo, '--timeout=300',
                    '--continue-on-collection-errors', '--ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py', 'proofchains',
                    'lib/python-bitcoinlib/bitcoin', 'lib/python-proofmarshal/proofmarshal'], cwd=repo, env=env(repo), capture_output=True, text=True)
    bad = [l for l in p.stdout.splitlines() if l.startswith(('FAILED', 'ERROR')) and 'test_tx_valid' not in l]
    m = re.search(r'(\d+) passed', p.stdout)
    if not m or int(m.group(1)) < 134:
        bad.append(p.stdout[-300:])
    w = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'lib/python-bitcoinlib/bitcoin/tests/test_wallet.py'],
                       cwd=repo, env=env(repo), capture_output=True, text=True)
    if w.returncode:
        bad.append('(wallet) ' + w.stdout[-200:])
    return bad


def one(b):
    top = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = top + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for f, old, new in b['edits']:
            with open(repo + '/' + f) as fd:
                s = fd.read()
            if s.count(old) != 1:
                return b, 'UNSOUND: %d places match %r in %s' % (s.count(old), old[:50], f)
            with open(repo + '/' + f, 'w') as fd:
                fd.write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        d = top + '/demo'
        os.mkdir(d)
        with open(d + '/demo.sh', 'w') as fd:
            fd.write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.py', 'w') as fd:
            fd.write(b['demo'].lstrip())
        res = []
        if b.get('demo', '').strip():
            for where in ('/repo', repo):
                p = subprocess.run(['bash', d + '/demo.sh'], cwd=where, capture_output=True, text=True)
                res.append((p.returncode, p.stderr[-400:]))
            if res[0][0] != 0:
                return b, 'UNSOUND: demo fails on the unchanged tree: ' + res[0][1]
            if res[1][0] == 0:
                return b, 'UNSOUND: demo passes with the change'
        bad = tests(repo)
        if bad:
            return b, 'UNSOUND: tests: ' + '; '.join(bad)[:300]
        e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_WORKERS=os.environ.get('W', '8'))
        p = subprocess.run(['python3', V + '/run_check.py', b['property'], '--quick'], env=e, capture_output=True, text=True, cwd=V)
        caught = p.returncode == 1 and 'VIOLATION property=%s ' % b['property'] in p.stdout
        if os.environ.get('KEEP') and res:
            out = V + '/seeded/' + b['id']
            os.makedirs(out, exist_ok=True)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(d + '/' + f, out)
            with open(out + '/patch.diff', 'w') as fd:
                fd.write(diff)
            with open(out + '/meta.json', 'w') as fd:
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), fd, indent=1)
                fd.write('\n')
        line = ''
        if caught:
            line = next((l for l in p.stdout.splitlines() if l.strip().startswith('suite=')), '').strip()[:160]
        return b, ('caught: ' + line) if caught else 'MISSED rc=%d %s' % (p.returncode, p.stdout[-300:] + p.stderr[-300:] if p.returncode else p.stdout[:200])
    finally:
        shutil.rmtree(top)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    todo = [b for b in bugs if not want or b['id'] in want]
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for b, r in ex.map(one, todo):
            print('%-6s %-4s %s' % (b['id'], b['property'], r), flush=True)


if __name__ == '__main__':
    main()
