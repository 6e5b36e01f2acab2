#!/usr/bin/env python3
"""Plants the changes of seeds_*.py in a scratch copy, confirms each (builds, stable tests pass, demonstration
quiet without and failing with it) and stores it under /verif/seeded.  usage: seeds.py [id...]"""
import sys, os, json, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds_writer
try:
    import seeds_sync
    import seeds_more
    import seeds_third
    import seeds_fourth
    import seeds_fifth
    ALL = seeds_writer.SEEDS + seeds_sync.SEEDS + seeds_more.SEEDS + seeds_third.SEEDS + seeds_fourth.SEEDS + seeds_fifth.SEEDS
except ImportError:
    ALL = seeds_writer.SEEDS
COPY = '/tmp/seedcopy'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    want = sys.argv[1:]
    shutil.rmtree(COPY, ignore_errors=True)
    sh('cp -a /repo %s' % COPY)
    ok = True
    for s in ALL:
        if want and s['id'] not in want:
            continue
        d = '/verif/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh('git -C %s checkout -q -- .' % COPY)
        lock = '/verif/tools/demo/Cargo.lock'
        for f in ('reader.rs',):
            if 'mod reader' in s['demo']:
                shutil.copy(HERE + '/demo/' + f, d)
        if not s.get('main'):
            shutil.copy(lock, d + '/Cargo.lock')
        open(d + '/' + s.get('main', 'main.rs'), 'w').write(s['demo'])
        for f in s.get('files', []):
            shutil.copy(HERE + '/demo/' + f, d)
        t = open(HERE + '/demo/' + s.get('script', 'demo.sh')).read().replace('@FLAGS@', s['flags'])
        t = t.replace('snap = "*"\n', 'snap = "*"\n' + (s.get('extra', '') + '\n' if s.get('extra') else ''))
        if s['features']:
            t = t.replace('/tsfile-writer" }', '/tsfile-writer", features = ["sync_sender"] }')
        open(d + '/demo.sh', 'w').write(t)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=COPY)
        bad = []
        for f, old, new in s['edits']:
            p = COPY + '/' + f
            x = open(p).read()
            if x.count(old) != 1:
                bad.append('%s: %d matches of %r' % (f, x.count(old), old[:60]))
            open(p, 'w').write(x.replace(old, new, 1))
        diff = sh('git -C %s diff' % COPY).stdout
        open(d + '/patch.diff', 'w').write(diff)
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json', cwd=COPY)
        try:
            res = json.load(open('/tmp/seedtest.json'))
            passed = set(res.get('passed', []))
        except Exception:
            passed = set()
        if not STABLE <= passed:
            bad.append('tests: %s\n%s' % (sorted(STABLE - passed)[:4], t.stdout[-1500:] if not passed else ''))
        r1 = sh('bash %s/demo.sh' % d, cwd=COPY)
        if r0.returncode != 0:
            bad.append('demo on clean: %d %s' % (r0.returncode, r0.stdout[-800:]))
        if r1.returncode == 0 or r1.returncode == 3:
            bad.append('demo on patched: %d %s' % (r1.returncode, r1.stdout[-800:]))
        print(s['id'], 'OK' if not bad else 'BAD ' + '; '.join(bad), '|', r1.stdout.strip().split('\n')[-1][:150] if not bad else '', flush=True)
        ok = ok and not bad
    shutil.rmtree(COPY, ignore_errors=True)
    return 0 if ok else 1


sys.exit(main())
