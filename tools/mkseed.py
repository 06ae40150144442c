"""mk(id, property, [(file, old, new)], demo, needs, breaks): write /verif/seeded/<id>."""
import json, os, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mk(id, prop, edits, demo, needs, breaks):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            s = open(p, encoding='utf-8').read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n'
        'D=$(cd "$(dirname "$0")" && pwd)\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python "$D/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
