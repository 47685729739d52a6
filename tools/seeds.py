"""seeds.py NAME... : (re)builds /verif/seeded/NAME from tools/seeds/NAME.py (PROPERTY, FILE, EDITS, NEEDS, BREAKS, DEMO)
and confirms it on a scratch copy of /repo's HEAD: the patch applies, the baseline tests pass, the demonstration fails with
the patch and passes without. Prints what check.py says about it with --check."""
import importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/tmp/seedrepo'
SITE = '/tmp/seedsite'
ENV = 'VERIF_REPO=%s PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 ' % (REPO, SITE)
SRC = 'src/infi/instruct/'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def main(names, check):
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base if isinstance(base, list) else base.get('passed') or base.get('tests') or base.get('stable'))
    for d in (REPO, SITE):
        shutil.rmtree(d, ignore_errors=True)
    sh('git clone -q /repo %s; cp -an /repo/. %s/' % (REPO, REPO))
    sh('git -C %s checkout -q -f HEAD -- .' % REPO)
    os.makedirs(SITE)
    open(SITE + '/sitecustomize.py', 'w').write('''import sys, types, infi
sys.path[:] = ['%s/src' if p == '/repo/src' else p for p in sys.path]
paths = ['%s/src/infi'] + [p for p in list(infi.__path__) if '/repo/' not in p]
sys.modules['infi'] = types.ModuleType('infi')
sys.modules['infi'].__path__ = paths
''' % (REPO, REPO))
    for name in names:
        spec = importlib.util.spec_from_file_location(name, os.path.join(HERE, 'tools', 'seeds', name + '.py'))
        d = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(d)
        out = os.path.join(HERE, 'seeded', name)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(os.path.join(out, 'demo.py'), 'w').write(d.DEMO.lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec timeout 60 /opt/venv-pypy/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=d.PROPERTY, needs=d.NEEDS, what_it_breaks=d.BREAKS), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        demo = 'cd %s && %s bash %s/demo.sh' % (REPO, ENV, out)
        r0 = sh(demo)
        try:
            for f, old, new in d.EDITS:
                p = os.path.join(REPO, SRC + f)
                t = open(p).read()
                assert t.count(old) == 1, (name, f, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            open(os.path.join(out, 'patch.diff'), 'w').write(sh('git -C /tmp/seedrepo diff').stdout)
            r1 = sh(demo)
            t = sh('cd %s && %s PYTHONHASHSEED=0 /opt/venv-pypy/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore -o junit_family=xunit2 --junitxml=/tmp/seed_junit.xml tests; python3 /opt/vp/results.py /tmp/seed_test.json junit:/tmp/seed_junit.xml' % (REPO, ENV))
            failed = stable - set(json.load(open('/tmp/seed_test.json'))['passed'])
            print('%s %s: demo clean=%d patched=%d tests broken=%d %s' % (name, d.PROPERTY, r0.returncode, r1.returncode, len(failed), 'OK' if not r0.returncode and r1.returncode and not failed else 'BAD ' + ' '.join(sorted(failed)[:3]) + r0.stdout[-300:]), flush=True)
            if check:
                c = sh('VERIF_REPO=%s python3 check.py %s' % (REPO, d.PROPERTY), cwd=HERE)
                print('  check exit', c.returncode, '|', ' / '.join(l for l in c.stdout.splitlines() if l.startswith('VIOLATION'))[:300], flush=True)
        finally:
            sh('git -C /tmp/seedrepo checkout -- .')
    for d in (REPO, SITE):
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    main([x for x in a if x[0] != '-'] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'tools', 'seeds')) if f.endswith('.py')), '--check' in a)
