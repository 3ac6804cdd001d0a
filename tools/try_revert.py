"""
Development: take back each repair ("fix:" commit of /repo) in a scratch copy and confirm that the
check of its property reports the violation again.

  try_revert.py [commit...]
"""
import json, os, subprocess, sys, tempfile, shutil
from try_seed import sh, home


def fixes():
    known = json.load(open(home + '/known_findings.json'))
    out = {}
    for f in known['fixed']:
        w = f.split()
        pid = w[1].split('=')[1] if w[1].startswith('property=') else w[0].split('=')[1]
        out[w[2]] = pid
    return out


def attempt(commit, props, seeds=(1, 2)):
    work = tempfile.mkdtemp(prefix='rev.', dir='/tmp')
    try:
        repo = work + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        rc, o = sh('git -c user.name=x -c user.email=x@x revert -n %s' % commit, repo)
        if rc:
            return {'commit': commit, 'property': props, 'error': 'does not revert'}
        runsh = open(home + '/run.sh').read().replace('PYTHONPATH=/repo/src:$here', 'PYTHONPATH=%s/src:%s' % (repo, home))
        runsh = runsh.replace('VMON_HOME="$here"', 'VMON_HOME="%s"' % work)
        open(work + '/run.sh', 'w').write(runsh)
        shutil.copy(home + '/known_findings.json', work)
        got = [sh('bash %s/run.sh %s --tier quick --seed %d' % (work, props, s), work)[0] for s in seeds]
        return {'commit': commit, 'property': props, 'check': got}
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    todo = fixes()
    want = sys.argv[1:]
    todo = {c: p for c, p in todo.items() if not want or any(c.startswith(w) for w in want)}
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(lambda cp: attempt(*cp), todo.items()):
            print(json.dumps(r), flush=True)
