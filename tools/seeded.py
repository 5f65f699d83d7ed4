#!/usr/bin/env python3
'''
Run the checks against planted bugs, in scratch copies of /repo: python3 tools/seeded.py [ID-or-prefix ...]
Env: PROPS="C01 C02" runs these checks instead of the one of the bug's own property.
'''
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    root = os.path.join(VERIF, 'seeded')
    missed = []
    for bug in sorted(os.listdir(root)):
        if len(sys.argv) > 1 and not any(bug.startswith(a) for a in sys.argv[1:]): continue
        meta = json.load(open(os.path.join(root, bug, 'meta.json')))
        copy = '/tmp/mut/run-%s-%d' % (bug, os.getpid())
        shutil.rmtree(copy, ignore_errors=True)
        os.makedirs('/tmp/mut', exist_ok=True)
        shutil.copytree('/repo', copy, symlinks=True)
        try:
            subprocess.check_call(['git', 'apply', os.path.join(root, bug, 'patch.diff')], cwd=copy)
            for prop in os.environ.get('PROPS', meta['property']).split():
                t = time.time()
                env = dict(os.environ, VERIF_REPO=copy)
                p = subprocess.run([os.path.join(VERIF, 'bin', 'check'), prop], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                out = p.stdout.decode('utf-8', 'replace').strip().splitlines()
                hit = p.returncode == 1 and any(l.startswith('VIOLATION property=' + prop) for l in out)
                if not hit: missed.append((bug, prop))
                print('%-28s %s %s rc=%d %3.0fs %s' % (bug, prop, 'CAUGHT' if hit else 'missed', p.returncode, time.time() - t,
                                                       '' if hit and p.returncode == 1 else ' | '.join(out[-3:])[:400]), flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)
    print('missed:', missed)


if __name__ == '__main__':
    main()
