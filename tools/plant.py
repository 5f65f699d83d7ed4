#!/usr/bin/env python3
'''
Plant bugs: python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (python source).
Each one is applied to a scratch copy of /repo; the repository's tests must pass there, the demonstration must pass on
/repo and fail on the copy. It is then kept as seeded/ID/, and the property's quick check is run against the copy.
'''
import json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = 'b9764a7'
SCRATCH = '/tmp/mut'
DEMO_SH = '''#!/bin/sh
# run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec %s -W ignore -B "$here/demo.py"
''' % PY


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def removed_lines_are_original(copy, patch):
    '''Count the removed lines that came from the base commit and the others.'''
    orig = other = 0
    path, line = None, 0
    blame = {}
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            path = l[6:]
            out = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', path], cwd='/repo')[1]
            blame[path] = [b.split()[0].lstrip('^') for b in out.splitlines()]
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            sha = blame[path][line - 1]
            full = sh(['git', 'rev-parse', BASE], cwd='/repo')[1].strip()
            if full.startswith(sha): orig += 1
            else: other += 1
            line += 1
        elif l.startswith(' '):
            line += 1
    return orig, other


def plant(bug, check=True):
    copy = os.path.join(SCRATCH, bug['id'])
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree('/repo', copy, symlinks=True)
    try:
        for path, old, new in bug['edits']:
            full = os.path.join(copy, path)
            text = open(full).read()
            if text.count(old) != 1:
                return 'EDIT matches %d times in %s: %r' % (text.count(old), path, old[:60])
            open(full, 'w').write(text.replace(old, new))
        patch = sh(['git', 'diff', '--no-color'], cwd=copy)[1]
        orig, other = removed_lines_are_original(copy, patch)
        if orig == 0:
            return 'REMOVES no original line (others: %d)' % other
        rc, out = sh([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'python_files=*test.py', 'segeval'],
                     cwd=copy, env={'PYTHONPATH': copy, 'LC_ALL': 'C.UTF-8'})
        if ' failed' in out or '216 passed' not in out:
            return 'TESTS fail:\n' + '\n'.join(l for l in out.splitlines() if 'FAILED' in l or 'Error' in l or 'passed' in l)[-800:]
        dest = os.path.join(SCRATCH, 'seed-' + bug['id'])
        shutil.rmtree(dest, ignore_errors=True); os.makedirs(dest)
        open(os.path.join(dest, 'demo.py'), 'w').write(bug['demo'].strip('\n') + '\n')
        open(os.path.join(dest, 'demo.sh'), 'w').write(DEMO_SH); os.chmod(os.path.join(dest, 'demo.sh'), 0o755)
        rc0, o0 = sh(['sh', os.path.join(dest, 'demo.sh')], cwd='/repo', timeout=120)
        rc1, o1 = sh(['sh', os.path.join(dest, 'demo.sh')], cwd=copy, timeout=120)
        if rc0 != 0 or rc1 == 0:
            return 'DEMO clean=%d bug=%d\n%s\n---\n%s' % (rc0, rc1, o0[-800:], o1[-800:])
        open(os.path.join(dest, 'patch.diff'), 'w').write(patch)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
        final = os.path.join(VERIF, 'seeded', bug['id'])
        shutil.rmtree(final, ignore_errors=True); os.makedirs(os.path.dirname(final), exist_ok=True)
        shutil.move(dest, final)
        note = '' if not other else ' (also %d later lines)' % other
        if not check: return 'planted' + note
        t = time.time()
        rc, out = sh([os.path.join(VERIF, 'bin', 'check'), bug['property']], cwd=VERIF, env={'VERIF_REPO': copy}, timeout=900)
        v = [l for l in out.splitlines() if 'VIOLATION' in l]
        return '%s rc=%d %.0fs%s %s' % ('CAUGHT' if rc == 1 and v else 'MISSED', rc, time.time() - t, note, out.strip().splitlines()[-6:] if rc else '')
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    os.makedirs(SCRATCH, exist_ok=True)
    for bug in ns['BUGS']:
        if len(sys.argv) > 2 and bug['id'] not in sys.argv[2:]: continue
        print(bug['id'], bug['property'], plant(bug, check=not os.environ.get('NOCHECK')), flush=True)


if __name__ == '__main__':
    main()
