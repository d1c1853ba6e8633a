#!/usr/bin/env python3
"""Runs the check of each planted bug on a scratch copy with it, and its demo on both; writes tools/caught.txt"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    d = '%s/seeded/%s' % (V, b)
    p = json.load(open(d + '/meta.json'))['property']
    top = tempfile.mkdtemp(prefix='catch-')
    try:
        repo = top + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        before = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True).returncode
        if subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo, capture_output=True).returncode:
            return b, p, 'DOES NOT APPLY'
        after = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True).returncode
        if before or not after:
            return b, p, 'DEMO %d/%d' % (before, after)
        e = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_WORKERS=os.environ.get('W', '8'))
        r = subprocess.run(['python3', V + '/run_check.py', p, '--quick'], env=e, capture_output=True, text=True, cwd=V)
        if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout:
            m = re.search(r'suite=(.*?) case=\d+: (.*)', r.stdout)
            return b, p, '%s: %s' % (m.group(1), m.group(2)[:110]) if m else 'caught'
        return b, p, 'MISSED'
    finally:
        shutil.rmtree(top)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
    old = {}
    try:
        for l in open(V + '/tools/caught.txt'):
            old[l.split(' ')[0]] = l
    except FileNotFoundError:
        pass
    with ThreadPoolExecutor(int(os.environ.get('J', '1'))) as ex:
        for b, p, t in ex.map(one, ids):
            old[b] = '%s %s %s\n' % (b, p, t)
            if t.isupper() or t.startswith('DEMO'):
                print(b, p, t, flush=True)
    with open(V + '/tools/caught.txt', 'w') as fd:
        for b in sorted(old):
            if os.path.isdir('%s/seeded/%s' % (V, b)):
                fd.write(old[b])


main()
