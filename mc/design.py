"""Writes DESIGN.md: the text below plus the bounds stated in the modules.
/opt/venv/bin/python mc/design.py"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import build, meta          # noqa

HEAD = open(os.path.join(ROOT, 'mc', 'design_head.md')).read()
TAIL = open(os.path.join(ROOT, 'mc', 'design_tail.md')).read()
PROPS = {}
for block in open(os.path.join(ROOT, 'mc', 'design_props.md')).read().split('\n## ')[1:]:
    pid, text = block.split('\n', 1)
    PROPS[pid.strip()] = text.strip()


def planted():
    caught = {}
    for l in open(os.path.join(ROOT, 'mc', 'design_caught.txt')):
        sid, c = l.split()
        caught.setdefault(sid, []).append(c)
    out = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for sid in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', sid, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (sid, m['property'], m['needs'].replace('|', '/'), ', '.join(caught.get(sid, ['missed']))))
    return out


def main():
    sys.path.insert(0, build.build())
    out = [HEAD.rstrip(), '']
    for p in meta.P:
        pid = p['id']
        out += ['### %s %s' % (pid, p['title']), '', PROPS.get(pid, ''), '']
        try:
            mod = importlib.import_module('mc.props.' + pid.lower())
        except ImportError:
            continue
        out.append('Enumerated (also copied into the evidence):')
        for k, v in mod.BOUNDS.items():
            if not isinstance(v, str):
                v = ', '.join(str(x) for x in v) if isinstance(v, (list, tuple)) else str(v)
            out.append('- %s: %s' % (k, v))
        for a in getattr(mod, 'ASSUMPTIONS', ()):
            out.append('- assumed: %s' % a)
        out += ['', 'Not reached by the tests: %s' % p['why'], '']
    out += [TAIL.rstrip(), ''] + planted() + ['']
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
