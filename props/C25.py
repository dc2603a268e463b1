"""C25: the command-line program."""
import configparser as realcfg
import os
import re
import types

import numpy as np

from engine.harness import Obligation

# what the recorded geometry and thermodynamics objects show to the header
SHOW = {'lmax': 11, 'l_offset': 5, 'lssmax': 23, 'nmax': 37, 'deltaT': 0.25, 'Tmax': 2.5, 'precision': 0.125,
        'L': 6.75, 'r1': 1.5, 'r2': 3.5}


def base(h):
    """a complete job with arbitrary numbers; values are numbers of the harness or strings"""
    return {'geometry': {'ra': h.pos('ra', smp=(0.5, 2)), 'rb': h.pos('rb', smp=(0.5, 2)), 'd': h.pos('d', smp=(5, 9)),
                         'lmax': h.integer('lmax', 1, 50), 'l_offset': h.integer('off', 0, 20),
                         'lssmax': h.integer('lss', 1, 60), 'evaluation': 'lndet', 'analytic_n0': 'True',
                         'precision': h.pos('prec', smp=(1e-6, 1e-2))},
            'materials': {'mata': 'materials.Gold', 'matb': 'materials.PerfectConductor', 'matmd': 'materials.Vacuum'},
            'thermodynamics': {'Tmin': h.pos('Tmin', smp=(0.1, 1)), 'Tmax': h.pos('Tmax', smp=(2, 9)),
                               'nmax': h.integer('nmax', 1, 100), 'quantity': 'free_energy()'}}


class Section:
    def __init__(self, cfg, sec):
        self.cfg, self.sec = cfg, sec

    def __getitem__(self, k):
        try:
            return self.cfg.get(self.sec, k)
        except realcfg.NoOptionError:
            raise KeyError(k)

    def __contains__(self, k):
        return self.cfg.has_option(self.sec, k)

    def get(self, k, fallback=None, **kw):
        return self.cfg.get(self.sec, k, fallback=kw.get('fallback', fallback))

    def __getattr__(self, n):
        if n in ('getint', 'getfloat', 'getboolean'):
            return lambda k, fallback=None: getattr(self.cfg, n)(self.sec, k, fallback=fallback)
        raise AttributeError(n)


_NO = object()


def fake_config(h, job):
    """configparser whose numbers are symbolic"""
    m = types.ModuleType('configparser')
    for n in ('NoOptionError', 'NoSectionError', 'Error'):
        setattr(m, n, getattr(realcfg, n))

    class Config:
        def __init__(self, *a, **k):
            self.d = {}

        def read(self, f, **k):
            if f == 'job.config':
                self.d = {s: {k.lower(): v for k, v in x.items()} for s, x in job.items()}
                return [f]
            return []

        def get(self, s, k, fallback=_NO, **kw):
            if s not in self.d:
                if fallback is not _NO:
                    return fallback
                raise realcfg.NoSectionError(s)
            if k.lower() not in self.d[s]:
                if fallback is not _NO:
                    return fallback
                raise realcfg.NoOptionError(k, s)
            return self.d[s][k.lower()]

        def has_option(self, s, k):
            return k.lower() in self.d.get(s, {})

        def has_section(self, s):
            return s in self.d

        def __getitem__(self, s):
            if s not in self.d:
                raise KeyError(s)
            return Section(self, s)

        def sections(self):
            return list(self.d)

        def getfloat(self, s, k, fallback=_NO, **kw):
            v = self.get(s, k, fallback)
            return h.num(repr(float(v))) if isinstance(v, str) else v

        def getint(self, s, k, fallback=_NO, **kw):
            v = self.get(s, k, fallback)
            if isinstance(v, str):
                return int(v)
            from engine.sym import S, is_int_valued
            if isinstance(v, S) and not is_int_valued(v):
                raise ValueError('invalid literal for int()')
            return v

        def getboolean(self, s, k, fallback=_NO, **kw):
            v = self.get(s, k, fallback)
            if isinstance(v, str):
                t = realcfg.RawConfigParser.BOOLEAN_STATES
                if v.lower() not in t:
                    raise ValueError('Not a boolean: %s' % v)
                return t[v.lower()]
            return v
    m.RawConfigParser = m.ConfigParser = m.SafeConfigParser = Config
    return m


class Disk:
    """virtual files: name -> None (was there before) or list of pieces"""

    def __init__(self, h, existing):
        self.h, self.there, self.new, self.harmed = h, existing, {}, []

    def exists(self, p):
        return p in self.new or bool(self.there(p))

    def open(self, p, mode='r', *a, **k):
        disk = self
        old = bool(self.there(p)) and p not in self.new
        if 'r' in mode and '+' not in mode:
            raise OSError('reading %s is not modelled' % p)
        if 'x' in mode and self.exists(p):
            raise FileExistsError(p)
        if old:
            self.harmed.append(p)
        if 'w' in mode or p not in self.new:
            self.new[p] = []

        class F:
            name = p
            mode_ = mode

            def write(self, t):
                disk.new[p].append(('text', t if isinstance(t, str) else t.decode()))

            def writelines(self, ts):
                for t in ts:
                    self.write(t)

            def close(self):
                pass

            flush = close

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        return F()

    def savetxt(self, f, x, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
        if isinstance(f, str):
            f = self.open(f, 'w')
        if header:
            self.new[f.name].append(('text', ''.join(comments + t + '\n' for t in header.split('\n'))))
        self.new[f.name].append(('data', np.array(x, dtype=object), delimiter))


class Recorder:
    """records the construction of the geometry and of the thermodynamics object"""

    def __init__(self, h, result):
        self.log = {'geometry': [], 'thermo': [], 'calls': []}
        log = self.log

        class G:
            def __init__(self, r1, r2, L, mat1, mat2, mat3, lmax='automatic', l_offset=4, lssmax='automatic',
                         precision=1e-4, forceFlag=0, evaluation='lndet'):
                log['geometry'].append({k: v for k, v in locals().items() if k not in ('self', 'log', '__class__')})
                for k in ('lmax', 'l_offset', 'lssmax', 'precision', 'L'):
                    setattr(self, k, SHOW[k])
                self.r1 = r1 if isinstance(r1, list) else SHOW['r1']
                self.r2 = r2 if isinstance(r2, list) else SHOW['r2']
                self.mat1, self.mat2, self.mat3, self.evaluation = mat1, mat2, mat3, evaluation
                self.roundTrip_dct = {0: 17, 1: 19}
        self.G = G

        class F:
            def __init__(self, deltaT, nmax, Tmax, geom, analytic_n0=True, nprocs=0):
                log['thermo'].append({k: v for k, v in locals().items() if k not in ('self', 'log', '__class__')})
                self.deltaT, self.nmax, self.Tmax = SHOW['deltaT'], SHOW['nmax'], SHOW['Tmax']

        def meth(n):
            def f(self, *a, **k):
                log['calls'].append((n, a, k))
                return result(n)
            return f
        for n in ('free_energy', 'entropy', 'e0', 'force', 'get_f_matsubaras'):
            setattr(F, n, meth(n))
        self.F = F


def run(h, job, existing, dist=None):
    """-> recorder, set of files harmed, dict of new files name -> (text, list of numbers)"""
    vals = {}

    def result(n):
        vals[n] = [h.real('%s%d' % (n, i)) for i in range(3)]
        return h.arr([vals[n]]) if n == 'e0' else h.arr(vals[n])
    rec = Recorder(h, result)
    rec.vals = vals
    gm, th, mt = h.mod('geometry'), h.mod('thermodynamics'), h.mod('materials')
    rec.mt = mt
    if h.sym:
        import engine.symnp as sn
        gm.SphereSphere, th.finiteT = rec.G, rec.F
        w = h.world
        disk = Disk(h, existing)
        fos = types.ModuleType('os')
        fos.path = types.SimpleNamespace(exists=disk.exists, isfile=disk.exists, lexists=disk.exists, join=os.path.join,
                                         basename=os.path.basename, dirname=os.path.dirname, abspath=lambda p: p,
                                         splitext=os.path.splitext)
        fsys = types.ModuleType('sys')
        fsys.argv = ['worker.py', 'job.config', 'out'] + ([dist] if dist is not None else [])
        fsys.exit = lambda *a: (_ for _ in ()).throw(SystemExit(*a))
        w.overrides = dict(w.overrides, configparser=fake_config(h, job), os=fos, sys=fsys)
        w.overrides['os.path'] = fos.path
        w.builtins = dict(w.builtins, open=disk.open)
        sn.NPX.savetxt = disk.savetxt
        w.run_main('worker')
        files = {}
        for p, pieces in disk.new.items():
            text = ''.join(x[1] for x in pieces if x[0] == 'text')
            data = [x[1] for x in pieces if x[0] == 'data']
            order = [x[0] for x in pieces]
            ok = len(data) == 1 and order[-1] == 'data'
            files[p] = (text if ok else None, list(np.ravel(data[0])) if len(data) == 1 else None)
        return rec, disk.harmed, files
    # concrete: the real parser and the real file system, in a scratch directory
    import runpy
    import shutil
    import sys
    import tempfile
    d = tempfile.mkdtemp(prefix='c25')
    old, oldcwd, oldG, oldF = sys.argv, os.getcwd(), gm.SphereSphere, th.finiteT
    try:
        os.chdir(d)
        with open('job.config', 'w') as f:
            for s, x in job.items():
                f.write('[%s]\n' % s)
                for k, v in x.items():
                    f.write('%s: %s\n' % (k, v if isinstance(v, str) else repr(v)))
        names = ['out' + '1' * i for i in range(6)]
        for n in names:
            if existing(n):
                open(n, 'w').write('precious ' + n)
        gm.SphereSphere, th.finiteT = rec.G, rec.F
        sys.argv = ['worker.py', 'job.config', 'out'] + ([repr(float(dist))] if dist is not None else [])
        path = gm.__file__.replace('geometry.py', 'worker.py')
        so, sys.stdout = sys.stdout, open(os.devnull, 'w')
        try:
            runpy.run_path(path, run_name='__main__')
        finally:
            sys.stdout.close()
            sys.stdout = so
        harmed, files = [], {}
        for n in os.listdir('.'):
            if n == 'job.config':
                continue
            t = open(n).read()
            if n in names and existing(n):
                if t != 'precious ' + n:
                    harmed.append(n)
                continue
            head = ''.join(l for l in t.splitlines(True) if l.startswith('#'))
            body = [l for l in t.splitlines() if not l.startswith('#')]
            files[n] = (head, [float(x) for l in body for x in l.split(',')])
        return rec, harmed, files
    finally:
        sys.argv, gm.SphereSphere, th.finiteT = old, oldG, oldF
        os.chdir(oldcwd)
        shutil.rmtree(d, ignore_errors=True)


def nothing(p):
    return False


def same(h, a, b, label):
    if isinstance(b, (str, bool, list)) or b is None:
        if isinstance(b, list) and isinstance(a, list) and len(a) == len(b):
            for x, y in zip(a, b):
                same(h, x, y, label)
            return
        h.true(type(a) == type(b) and a == b, label)
    elif isinstance(a, (str, list)) or a is None:
        h.true(False, label)
    else:
        h.eq(a, b, label, tol=1e-12)


def number(h, r):
    return h.num(repr(r))


def options(h, opt):
    """every combination of the job's options; opt: changes to the base job"""
    job = base(h)
    want = {'r1': job['geometry']['ra'], 'r2': job['geometry']['rb'], 'L': job['geometry']['d'],
            'lmax': job['geometry']['lmax'], 'lssmax': job['geometry']['lssmax'], 'l_offset': job['geometry']['l_offset'],
            'evaluation': 'lndet', 'precision': job['geometry']['precision'], 'forceFlag': 0}
    mats = {'mat1': 'Gold', 'mat2': 'PerfectConductor', 'mat3': 'Vacuum'}
    an, nmax, quantity, call = True, job['thermodynamics']['nmax'], 'free_energy()', ('free_energy', ())
    dist = None
    for o in opt.split('+') if opt else []:
        g = job['geometry']
        if o == 'lmax-auto':
            g['lmax'] = want['lmax'] = 'automatic'
        elif o == 'lss-auto':
            g['lssmax'] = want['lssmax'] = 'automatic'
        elif o == 'no-offset':
            del g['l_offset']
            want['l_offset'] = 0
        elif o == 'no-evaluation':
            del g['evaluation']
        elif o == 'trace':
            g['evaluation'] = want['evaluation'] = 'trace'
        elif o == 'no-n0':
            del g['analytic_n0']
        elif o == 'n0-false':
            g['analytic_n0'] = 'False'
            an = False
        elif o == 'prec-auto':
            g['precision'] = 'automatic'
            want['precision'] = h.frac(1, 10000)
        elif o == 'nmax-auto':
            job['thermodynamics']['nmax'] = nmax = 'automatic'
        elif o == 'dist':
            dist = h.pos('dist', smp=(5, 9))
            want['L'] = dist
        elif o in ('layers-a', 'layers-b'):
            g['r' + o[-1]] = '0.5, 1.25'
            want['r1' if o[-1] == 'a' else 'r2'] = [number(h, 0.5), number(h, 1.25)]
            job['materials']['mat' + o[-1]] = 'materials.Gold, materials.Silver'
            mats['mat1' if o[-1] == 'a' else 'mat2'] = ['Gold', 'Silver']
            an = False
        elif o.startswith('q-'):
            n = o[2:]
            job['thermodynamics']['quantity'] = {'get_f_matsubaras': 'get_f_matsubaras(0)'}.get(n, n + '()')
            call = (n, (0,) if n == 'get_f_matsubaras' else ())
    rec, harmed, files = run(h, job, nothing, dist)
    h.true(len(rec.log['geometry']) == 1 and len(rec.log['thermo']) == 1, 'one geometry, one evaluation')
    g, t = rec.log['geometry'][0], rec.log['thermo'][0]
    for k, v in want.items():
        same(h, g[k], v, 'geometry: ' + k)
    for k, v in mats.items():
        m = [getattr(rec.mt, x) for x in v] if isinstance(v, list) else getattr(rec.mt, v)
        h.true((isinstance(g[k], list) and len(g[k]) == len(m) and all(x is y for x, y in zip(g[k], m)))
               if isinstance(m, list) else g[k] is m, 'geometry: ' + k)
    same(h, t['deltaT'], job['thermodynamics']['Tmin'], 'temperature step')
    same(h, t['Tmax'], job['thermodynamics']['Tmax'], 'largest temperature')
    same(h, t['nmax'], nmax, 'number of Matsubara terms')
    h.true(bool(t['analytic_n0']) == an, 'static term as requested')
    h.true(isinstance(t['geom'], rec.G), 'evaluates this geometry')
    h.true([(c[0], tuple(c[1])) for c in rec.log['calls']] == [call], 'exactly the requested quantity, once')
    h.true(list(files) == ['out'], 'one result file with the given name')
    text, data = files.get('out', (None, None))
    h.true(text is not None, 'header, then the numbers')
    vals = rec.vals[call[0]] if call[0] in rec.vals else []
    h.true(data is not None and len(data) == len(vals), 'all numbers written')
    for i, v in enumerate(vals):
        if data is not None and len(data) == len(vals):
            h.eq(data[i], v, 'number %d' % i)
    header(h, text or '', job, want, opt)


def header(h, text, job, want, opt):
    h.true(all(l.startswith('#') for l in text.splitlines()), 'header lines are comments')
    for k, v in (('d', 'L'), ('lmax', 'lmax'), ('l_offset', 'l_offset'), ('lssmax', 'lssmax'), ('nmax', 'nmax'),
                 ('deltaT', 'deltaT'), ('Tmax', 'Tmax'), ('precision', 'precision')):
        m = re.search(r'(?<![\w])%s\s*[=:]\s*([-+.\deE]+)' % k, text)
        h.true(m is not None and float(m.group(1)) == SHOW[v], 'header: ' + k)
    for k, v in (('r1', 'layers-a'), ('r2', 'layers-b')):
        if v in opt:
            h.true(re.search(k + r'\s*=\s*\[0\.5, 1\.25\]|' + k + r'\s*=\s*\[1/2, 5/4\]', text) is not None or h.sym, 'header: ' + k)
        else:
            m = re.search(k + r'\s*=\s*([\d.]+)', text)
            h.true(m is not None and float(m.group(1)) == SHOW[k], 'header: ' + k)
    for k, v in (('mat1', 'mata'), ('mat2', 'matb'), ('matMd', 'matmd')):
        h.true('%s = %s' % (k, job['materials'][v]) in text, 'header: ' + k)
    h.true(job['thermodynamics']['quantity'] in text, 'header: quantity')
    h.true('job.config' in text, 'header: name of the job')
    h.true(want['evaluation'] in text, 'header: evaluation')
    h.true(('{0: 17, 1: 19}' in text) == (want['evaluation'] == 'trace'), 'header: orders of the trace expansion')


def files(h, n):
    """any pattern of result files from earlier runs"""
    flags = {}

    def there(p):
        m = re.match(r'out(1*)$', p)
        if not m or len(m.group(1)) >= n:
            return False
        i = len(m.group(1))
        return h.integer('there%d' % i, 0, 1) == 1
    job = base(h)
    rec, harmed, new = run(h, job, there)
    h.true(not harmed, 'existing result files are left alone')
    h.true(len(new) == 1, 'one new result file')
    for p, (text, data) in new.items():
        h.true(h.Not(there(p)) if h.sym else not there(p), 'the name was free')
        h.true(text is not None and data is not None and len(data) == 3, 'complete result')
        h.true(p.startswith('out'), 'name derived from the given one')
        h.true(p == 'out' if not bool(there('out')) else p != 'out', 'the given name if it is free')


def usage(h):
    """wrong numbers of arguments, unreadable numbers"""
    if not h.sym:
        return
    w = h.world
    for argv in (['worker.py'], ['worker.py', 'a'], ['worker.py', 'a', 'b', '1', '2']):
        fsys = types.ModuleType('sys')
        fsys.argv = argv
        w.overrides = dict(w.overrides, sys=fsys, configparser=fake_config(h, base(h)))
        h.raises(lambda: w.run_main('worker'), ValueError, '%d arguments are refused' % (len(argv) - 1))


def refused(h, sec, key, val):
    """a job that cannot be understood is refused and leaves no result"""
    job = base(h)
    job[sec][key] = val
    try:
        rec, harmed, new = run(h, job, nothing)
    except Exception as e:
        from engine.sym import Unsupported
        if isinstance(e, Unsupported):
            raise
        h.true(True, 'refused')
        return
    h.true(False, '%s = %s is refused' % (key, val))


OPTS = ('', 'lmax-auto', 'lss-auto', 'lmax-auto+lss-auto+nmax-auto', 'no-offset', 'lmax-auto+no-offset', 'no-evaluation', 'trace',
        'no-n0', 'n0-false', 'prec-auto', 'prec-auto+lmax-auto', 'nmax-auto', 'dist', 'dist+lmax-auto', 'layers-a', 'layers-b',
        'layers-a+layers-b+dist', 'q-entropy', 'q-e0', 'q-force', 'q-get_f_matsubaras', 'trace+q-entropy', 'n0-false+no-offset+nmax-auto')
OBLIGATIONS = [Obligation('job' + (o and '-' + o), options, {'opt': o}, points=1, bounds='numbers arbitrary, options %s' % (o or 'all given'))
               for o in OPTS]
OBLIGATIONS += [Obligation('files-%d' % n, files, {'n': n}, points=4, bounds='up to %d earlier results' % n) for n in (1, 3, 5, 12)]
OBLIGATIONS += [Obligation('usage', usage, {}, points=1)]
OBLIGATIONS += [Obligation('refused-' + k, refused, {'sec': s, 'key': k, 'val': v}, points=1)
                for s, k, v in (('geometry', 'precision', 'high'), ('geometry', 'ra', 'big'), ('thermodynamics', 'Tmin', 'cold'),
                                ('materials', 'mata', 'materials.Unobtainium'), ('thermodynamics', 'quantity', 'enthalpy()'))]
ASSUMPTIONS = ['configparser, os.path and files are modelled (numbers of the job symbolic, earlier results symbolic); '
               'witnesses and replays use the real ones in a scratch directory',
               'geometry.SphereSphere and thermodynamics.finiteT are replaced by recorders (C11-C24 decide them)']
OUTSIDE = 'two jobs writing at the same time; number formatting of the result file'
