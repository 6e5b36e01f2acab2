#!/usr/bin/env python3
"""Which checks catch which planted changes.  Each is applied in a scratch copy under /tmp/catch.
usage: catch.py [--all-checks] [--workers N] [id...]"""
import sys, os, re, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutate_lib as M
S = '/verif/seeded'


def main():
    a = sys.argv[1:]
    ws = int(a.pop(a.index('--workers') + 1)) if '--workers' in a else 3
    every = '--all-checks' in a
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(S))
    props = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    root = '/tmp/catch%d' % os.getpid()
    M.setup(root, ws)
    missed = []

    def work(i):
        m = json.load(open(S + '/' + i + '/meta.json'))
        d = M.take()
        try:
            rc, t = M.sh('git -C %s/repo apply %s/%s/patch.diff' % (d, S, i))
            if rc:
                return i, m, None, t, 0
            got, why, t0 = [], '', time.time()
            for p in (props if every else [m['property']]):
                rc, t = M.check(d, p)
                if rc == 1 and 'VIOLATION property=' + p in t:
                    got.append(p)
                    if p == m['property']:
                        why = re.sub(r'\s+', ' ', t.split('VIOLATION')[0])[-160:]
                elif rc:
                    got.append('%s?%d' % (p, rc))
                    why = t[-600:]
            return i, m, got, why, time.time() - t0
        finally:
            M.sh('git -C %s/repo checkout -q -- .' % d)
            M.give(d)

    with ThreadPoolExecutor(ws) as ex:
        for i, m, got, why, s in ex.map(work, ids):
            ok = got is not None and m['property'] in got
            missed += [] if ok else [i]
            print('%-26s %s %s %s %.0fs %s' % (i, m['property'], 'CAUGHT' if ok else 'MISSED', ' '.join(got or ['-']), s, why), flush=True)
    shutil.rmtree(root, ignore_errors=True)
    print('missed:', missed)


main()
