"""Translate /repo's Python 2 sources to Python 3 (2to3 + classic division).

The same translation the project's build performs (lib2to3 with all standard
fixers plus fix_classic_div), but into a directory of /verif that is keyed by
the content of /repo/pykrylov, so that a check always runs what /repo holds
now and never writes outside /verif.
"""
import hashlib
import os
import re
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
CACHE = os.path.join(os.path.dirname(HERE), '.build')
SKIP = {'.git', 'build', 'dist', '__pycache__', 'tests'}


def sources():
    root = os.path.join(REPO, 'pykrylov')
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in SKIP)
        for n in sorted(files):
            if n.endswith('.py') and n != 'setup.py':
                out.append(os.path.join(d, n))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in [os.path.abspath(__file__), os.path.join(HERE, 'py2', 'fix_classic_div.py'),
              os.path.join(HERE, 'py2', '_py2rt.py')] + paths:
        with open(p, 'rb') as f:
            data = f.read()
        h.update(p.encode() + b'\0' + hashlib.sha256(data).digest())
    return h.hexdigest()[:24]


def _translate(args):
    path, dst = args
    sys.path.insert(0, os.path.join(HERE, 'py2'))
    from lib2to3.refactor import RefactoringTool, get_fixers_from_package
    tool = RefactoringTool(get_fixers_from_package('lib2to3.fixes') + ['fix_classic_div'])
    raw, _ = tool._read_python_source(path)
    if raw and not raw.endswith('\n'):
        raw += '\n'
    text = str(tool.refactor_string(raw, path)) if raw.strip() else raw
    compile(text, path, 'exec', dont_inherit=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w', encoding='utf-8') as f:
        f.write(re.sub(r'(?m)\A((?:#.*\n)?)(#.*coding[:=]\s*)[-\w.]+', r'\1\2utf-8', text))
    return dst


def build(jobs=8):
    """Return the directory to put on sys.path."""
    if os.environ.get('MC_BUILD'):      # a tree translated (and mutated) elsewhere
        return os.environ['MC_BUILD']
    paths = sources()
    final = os.path.join(CACHE, digest(paths))
    if os.path.exists(os.path.join(final, '.done')):
        return final
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE)
    work = [(p, os.path.join(tmp, os.path.relpath(p, REPO))) for p in paths]
    # biggest files first, for the load balance of the pool
    work.sort(key=lambda w: -os.path.getsize(w[0]))
    import multiprocessing
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(jobs, len(work))) as pool:
        pool.map(_translate, work, chunksize=1)
    shutil.copyfile(os.path.join(HERE, 'py2', '_py2rt.py'), os.path.join(tmp, '_py2rt.py'))
    open(os.path.join(tmp, '.done'), 'w').close()
    try:
        os.rename(tmp, final)
    except OSError:            # another check finished the same build first
        shutil.rmtree(tmp, ignore_errors=True)
    return final


if __name__ == '__main__':
    print(build())
