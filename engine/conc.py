"""Concrete execution of harnesses against the real modules (subprocess entry point).

stdin: JSON list of {"ob": name, "env": {...}}; stdout (last line): JSON list of results."""
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import subprocess
import sys
import sysconfig
import time
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'CasimirRio')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache', 'so')


def build_pyx(name):
    """compile the current .pyx into the cache (keyed by content), return the .so path"""
    path = os.path.join(SRC, name + '.pyx')
    data = open(path, 'rb').read()
    key = hashlib.sha256(data + sys.version.encode()).hexdigest()[:24]
    d = os.path.join(CACHE, key)
    so = os.path.join(d, name + sysconfig.get_config_var('EXT_SUFFIX'))
    if os.path.exists(so):
        return so
    import numpy
    tmp = '%s.%d' % (d, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    with open(os.path.join(tmp, name + '.pyx'), 'wb') as f:
        f.write(data)
    c = os.path.join(tmp, name + '.c')
    subprocess.run([sys.executable, '-m', 'cython', os.path.join(tmp, name + '.pyx'), '-o', c],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + numpy.get_include(),
                    '-I' + sysconfig.get_paths()['include'], c, '-o',
                    os.path.join(tmp, os.path.basename(so)), '-lm'], check=True)
    try:
        os.rename(tmp, d)
    except OSError:
        pass
    return so if os.path.exists(so) else os.path.join(tmp, os.path.basename(so))


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if '.' in name or not os.path.exists(os.path.join(SRC, name + '.pyx')) \
                or os.path.exists(os.path.join(SRC, name + '.py')):
            return None
        so = build_pyx(name)
        return importlib.util.spec_from_file_location(
            name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))


def fresh():
    """forget the repository's Python modules (module-level state) between points"""
    for n, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None) or ''
        if f.startswith(SRC + os.sep) and f.endswith('.py'):
            del sys.modules[n]


def run_point(ob, env):
    from .harness import Conc, SkipPoint
    fresh()
    h = Conc(ob, env, ob.tol)
    r = {'ob': ob.name}
    out = sys.stdout
    sys.stdout = sys.stderr
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ob.fn(h, **ob.params)
        r['exc'] = None
    except SkipPoint:
        r['skip'] = True
        r['exc'] = None
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        loc = [t for t in tb if t.filename.startswith(SRC)]
        r['exc'] = '%s: %s%s' % (type(e).__name__, str(e)[:300], ' at %s:%d' % (
            os.path.relpath(loc[-1].filename, REPO), loc[-1].lineno) if loc else ' (harness)')
        r['exc_in_repo'] = bool(loc)
    finally:
        sys.stdout = out
    r['failed'] = h.failed[:20]
    r['passed'] = h.passed
    r['env'] = h.used
    return r


def main():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    sys.meta_path.insert(0, Finder())
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import numpy as np
    np.seterr(all='ignore')
    prop = sys.argv[1]
    m = importlib.import_module('props.' + prop)
    obs = {o.name: o for o in m.OBLIGATIONS}
    jobs = json.load(sys.stdin)
    outp = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    res = []
    for j in jobs:
        t = time.time()
        r = run_point(obs[j['ob']], j['env'])
        r['wall'] = round(time.time() - t, 2)
        res.append(r)
        outp.write(json.dumps(r) + '\n')
        outp.flush()
    outp.close()


if __name__ == '__main__':
    main()
