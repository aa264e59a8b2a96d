#!/usr/bin/env python3
"""Plants bugs: makes seeded/<id>/ from a table of edits after confirming each.

    python3 meta/plant.py <table.py> [id ...]

The table assigns BUGS = {id: dict(property, needs, breaks, edits=[(file, old,
new), ...], demo=python source)}.  A bug is kept only if the patched tree
builds and passes the stable tests, and the demonstration passes without the
patch and fails with it.  Prints whether the quick check catches it."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
# exit 0 if the property holds in this demonstration
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    return not sh(['git', '-C', REPO, 'status', '--porcelain']).stdout.strip()


def restore():
    sh(['git', '-C', REPO, 'checkout', '--', '.'])


def run(bid, b, quick):
    assert clean(), '/repo is not clean'
    d = os.path.join(HERE, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(b['demo'].lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        f.write('\n')
    demo = ['bash', os.path.join(d, 'demo.sh')]
    try:
        p = sh(demo, cwd=REPO, timeout=300)
        if p.returncode:
            return f'DEMO FAILS ON CLEAN TREE\n{p.stdout[-800:]}'
        for file, old, new in b['edits']:
            path = os.path.join(REPO, file)
            with open(path) as f:
                s = f.read()
            if s.count(old) != 1:
                return f'EDIT MATCHES {s.count(old)} TIMES: {old!r}'
            with open(path, 'w') as f:
                f.write(s.replace(old, new))
        diff = sh(['git', '-C', REPO, 'diff']).stdout
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(diff)
        p = sh('bash /opt/vp/build.sh')
        if p.returncode:
            return f'BUILD FAILS\n{p.stdout[-800:]}'
        sh('bash /opt/vp/test.sh /tmp/plant-test.json')
        with open('/tmp/plant-test.json') as f:
            if json.load(f)['failed']:
                return 'TESTS FAIL'
        try:
            p = sh(demo, cwd=REPO, timeout=300)
        except subprocess.TimeoutExpired:
            p = None
        if p is not None and p.returncode == 0:
            return 'DEMO PASSES WITH THE PATCH'
        p = sh(['python3-vt', os.path.join(HERE, 'vrun.py'), b['property'], 'quick'], cwd=HERE)
        hit = p.returncode == 1 and f'VIOLATION property={b["property"]} ' in p.stdout
        first = [x for x in p.stdout.splitlines() if x.startswith('case ')][:1]
        return ('caught ' if hit else 'MISSED ') + (first[0][:150] if first else p.stdout[-600:])
    finally:
        restore()
        sh('bash /opt/vp/build.sh')


if __name__ == '__main__':
    ns = {}
    with open(sys.argv[1]) as f:
        exec(f.read(), ns)
    for bid, b in ns['BUGS'].items():
        if len(sys.argv) > 2 and bid not in sys.argv[2:]:
            continue
        print(bid, b['property'], run(bid, b, True), flush=True)
