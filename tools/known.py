"""Writes known_findings.json (fixed defects are listed for the record and suppress nothing)."""
import json, os, subprocess
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from known_src import FINDINGS, FIXED
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h\t%s'], capture_output=True, text=True).stdout.splitlines()
by = {}
for l in log:
    h, s = l.split('\t', 1)
    by[s] = h
out = []
for pid, subj, what in FIXED:
    hits = [h for s, h in by.items() if s == 'fix: ' + subj]
    assert len(hits) == 1, subj
    out.append('fixed: property=%s %s %s' % (pid, hits[0], what))
rest = [s for s in by if s.startswith('fix: ') and s[5:] not in {f[1] for f in FIXED}]
if rest:
    print('NOT RECORDED:', rest)
with open(os.path.join(home, 'known_findings.json'), 'w') as f:
    json.dump({'findings': [{'property': p, 'key': k, 'what': w} for p, k, w in FINDINGS], 'fixed': out}, f, indent=1)
    f.write('\n')
print(len(FINDINGS), 'findings', len(out), 'fixed')
