"""
Development: confirm planted bugs (seeded/<id>) in a scratch copy of /repo.

  try_seed.py ID [ID...] [--no-tests] [--all-checks]

For each: the patch applies to HEAD, everything compiles, the stable tests pass, the demonstration
succeeds without and fails with the patch, and the check of its property reports it.
"""
import json, os, subprocess, sys, tempfile, shutil

home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEST = open('/opt/vp/test.sh').read()


def sh(cmd, cwd, timeout=1200):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def attempt(sid, tests=True, extra=(), seeds=(1, 2, 3)):
    d = os.path.join(home, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    work = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    out = {'id': sid, 'property': meta['property']}
    try:
        repo = work + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        demo = work + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        # demonstrations and checks name /repo/src: run them with the copy's path instead
        for root, _, files in os.walk(demo):
            for f in files:
                p = os.path.join(root, f)
                s = open(p).read().replace('/repo', repo)
                open(p, 'w').write(s)
        rc0, o0 = sh('bash %s/demo.sh' % demo, repo, 300)
        rc, o = sh('git apply %s/patch.diff' % d, repo)
        if rc:
            out['error'] = 'does not apply ' + o
            return out
        rc1, o1 = sh('bash %s/demo.sh' % demo, repo, 300)
        out['demo'] = (rc0, rc1)
        if rc0 or not rc1:
            out['demo_output'] = (o0[-600:], o1[-600:])
        rc, o = sh('/opt/venv/bin/python -W ignore -m compileall -q src', repo)
        out['compiles'] = rc == 0
        if tests:
            t = work + '/test.sh'
            open(t, 'w').write(TEST.replace('--rootdir=/repo', '--rootdir=' + repo).replace('/repo/tests', repo + '/tests')
                               .replace('PYTHONPATH=/repo/src', 'PYTHONPATH=%s/src' % repo))
            sh('bash %s %s/out.json' % (t, work), repo)
            res = json.load(open(work + '/out.json'))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(res.get('passed') or [k for k, v in res.items() if v == 'passed'])
            out['broken_tests'] = [s for s in stable if s not in passed][:5]
        runsh = open(home + '/run.sh').read().replace('PYTHONPATH=/repo/src:$here', 'PYTHONPATH=%s/src:%s' % (repo, home))
        runsh = runsh.replace('VMON_HOME="$here"', 'VMON_HOME="%s"' % work)
        open(work + '/run.sh', 'w').write(runsh)
        shutil.copy(home + '/known_findings.json', work)
        out['check'] = {}
        for p in [meta['property']] + list(extra):
            got = []
            for s in seeds if p == meta['property'] else (1,):
                rc, o = sh('bash %s/run.sh %s --tier quick --seed %d' % (work, p, s), work)
                got.append(rc)
                if rc == 1 and 'first' not in out:
                    out['first'] = [l for l in o.splitlines() if l.startswith('  [')][:1]
            out['check'][p] = got
        return out
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    args = sys.argv[1:]
    tests = '--no-tests' not in args
    extra = []
    if '--all-checks' in args:
        extra = [c['property'] for c in json.load(open(home + '/MANIFEST.json'))['checks']]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(home + '/seeded'))
    for i in ids:
        r = attempt(i, tests, [e for e in extra])
        print(json.dumps(r, indent=None)[:1500], flush=True)
