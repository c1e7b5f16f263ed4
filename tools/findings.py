"""Write known_findings.json: defects repaired in /repo (informative; they
suppress nothing) and the open findings (matched by harness, label and
choices)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
exec(open(os.path.join(HERE, 'tools', 'fix_map.py')).read())
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse',
                               '--format=%h %s']).decode().splitlines()
fixed = []
for l in log:
    h, m = l.split(' ', 1)
    if m.startswith('fix: '):
        m = m[5:]
        pid = [p for k, p in FIXES if k in m]
        assert len(pid) == 1, (m, pid)
        fixed.append("fixed: property=%s %s %s" % (pid[0], h, m))
json.dump(dict(fixed=fixed, findings=FINDINGS),
          open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(fixed))
