"""python3 tools/mkseed.py FILE.py : (re)create seeded/<id> from a description
file that defines SEEDS = [dict(id, property, file, edits=[(old, new)], demo,
needs, breaks)]."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
        edits = s['edits']
        for e in edits:
            fn, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join(tmp, 'r', fn)
            t = open(p, encoding='latin-1', newline='').read()
            if t.count(old) != 1 and '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (s['id'], t.count(old), old)
            t = t.replace(old, new)
            open(p, 'w', encoding='latin-1', newline='').write(t)
        diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'])
        shutil.rmtree(tmp)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore '
            '"$d/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        print(s['id'])


main()
