#!/usr/bin/env python3
"""seedtest.py ID...: validate planted bugs in a scratch copy (tests, demo) and run their check against /repo with the patch applied."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = '/verif'
FAST = '--fast' in sys.argv       # skip the repository's tests
NOCHECK = '--nocheck' in sys.argv


def sh(cmd, cwd=None, env=None, timeout=1000):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def stable(copy, tmp):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=tmp + '/t', GITDB_TEST_GIT_REPO_BASE=tmp + '/testrepo.git')
    os.makedirs(tmp + '/t')
    shutil.copytree('/opt/vp/testrepo.git', tmp + '/testrepo.git')
    sh('ulimit -n 48; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/report.xml' % tmp, cwd=copy, env=env)
    r = sh(['/opt/venv/bin/python', '/opt/vp/results.py', tmp + '/o.json', 'junit:%s/report.xml' % tmp])
    got = set(json.load(open(tmp + '/o.json'))['passed'])
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return want - got


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(VERIF + '/seeded'))
    for i in ids:
        d = os.path.join(VERIF, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        try:
            copy = tmp + '/repo'
            shutil.copytree('/repo', copy, symlinks=True)
            demo = tmp + '/demo'
            shutil.copytree(d, demo)
            for f in os.listdir(demo):
                if f.endswith('.diff') or f == 'meta.json':
                    os.unlink(os.path.join(demo, f))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            r0 = sh(['bash', demo + '/demo.sh'], cwd=copy, env=env, timeout=300)
            a = sh(['git', 'apply', d + '/patch.diff'], cwd=copy)
            if a.returncode:
                print(i, 'PATCH DOES NOT APPLY', a.stdout)
                continue
            r1 = sh(['bash', demo + '/demo.sh'], cwd=copy, env=env, timeout=300)
            miss = set() if FAST else stable(copy, tmp)
            ok = r0.returncode == 0 and r1.returncode != 0 and not miss
            print(i, meta['property'], 'valid' if ok else 'INVALID clean=%d patched=%d missing=%s\n%s\n%s' % (r0.returncode, r1.returncode, miss, r0.stdout[-800:], r1.stdout[-300:]), flush=True)
            if not NOCHECK:
                env = dict(os.environ, GITDB_REPO=copy, VERIF_TIER='quick', VERIF_SEED='1', SX_NOEVIDENCE='1')
                import time
                t = time.time()
                c = sh(['python3-vt', 'check.py', meta['property']], cwd=VERIF, env=env)
                print('   check exit', c.returncode, '%.0fs' % (time.time() - t), [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'broken' in l or 'case' in l][:4], '' if c.returncode in (0, 1) else c.stdout[-600:], flush=True)
        finally:
            shutil.rmtree(tmp)


main()
