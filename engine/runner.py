"""check driver: discharge all obligations of a property, replay counterexamples, write
evidence, print verdict."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def _child(prop, name, seed, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        m = importlib.import_module('props.' + prop)
        ob = next(o for o in m.OBLIGATIONS if o.name == name)
        from . import symrun
        r = symrun.run(ob, seed, lambda r: conn.send(dict(r, functions=[], partial=True)))
    except MemoryError:
        r = {'name': name, 'status': 'memory', 'claims': 0, 'proved': 0, 'paths': 0,
             'problems': [], 'functions': []}
    except BaseException as e:
        import traceback
        r = {'name': name, 'status': 'engine-error', 'claims': 0, 'proved': 0, 'paths': 0,
             'problems': [], 'functions': [],
             'detail': '%s: %s | %s' % (type(e).__name__, str(e)[:200],
                                        traceback.format_exc()[-600:])}
    conn.send(r)
    conn.close()


def run_symbolic(prop, obs, seed, deadline):
    ctx = mp.get_context('fork')
    todo = sorted(obs, key=lambda o: -o.timeout)
    live, done, part = [], {}, {}
    while todo or live:
        while todo and len(live) < NPROC:
            o = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(prop, o.name, seed, b))
            p.start()
            b.close()
            live.append((o, p, a, time.time()))
        nxt = []
        for o, p, a, t in live:
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = dead(o, 'died', part)
                if r.pop('partial', None):
                    part[o.name] = r
                    nxt.append((o, p, a, t))
                    continue
                done[o.name] = r
                p.join()
            elif time.time() - t > o.timeout or time.time() > deadline:
                p.kill()
                p.join()
                done[o.name] = dead(o, 'timeout', part)
            elif not p.is_alive() and not a.poll(0.2):
                done[o.name] = dead(o, 'died', part)
            else:
                nxt.append((o, p, a, t))
        live = nxt
        time.sleep(0.02)
    return done


def dead(o, why, part):
    if o.name in part:          # counterexamples found before the end still count
        return dict(part[o.name], status=why)
    return {'name': o.name, 'status': why, 'claims': 0, 'proved': 0, 'paths': 0, 'problems': [],
            'functions': []}


def run_concrete(prop, jobs, timeout=240):
    """replay points on the real code; returns list aligned with jobs (None: no answer)"""
    out = [None] * len(jobs)
    if not jobs:
        return out
    nch = min(NPROC, len(jobs))
    chunks = [list(range(i, len(jobs), nch)) for i in range(nch)]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1',
               PYTHONHASHSEED='0')
    # build the extension modules once, before the parallel runs
    subprocess.run([PY, '-c', 'import sys; sys.path.insert(0, %r); from engine import conc; '
                    'import glob, os; [conc.build_pyx(os.path.basename(p)[:-4]) for p in '
                    'sorted(glob.glob(conc.SRC + "/*.pyx"))]' % VERIF],
                   env=env, stderr=subprocess.DEVNULL)
    procs = []
    for c in chunks:
        p = subprocess.Popen([PY, '-m', 'engine.conc', prop], cwd=VERIF, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True)
        p.stdin.write(json.dumps([jobs[i] for i in c]))
        p.stdin.close()
        procs.append((p, c))
    t0 = time.time()
    for p, c in procs:
        try:
            import threading
            killer = threading.Timer(max(1, timeout - (time.time() - t0)), p.kill)
            killer.start()
            lines = p.stdout.read().splitlines()
            p.wait()
            killer.cancel()
        except Exception:
            lines = []
        for i, ln in zip(c, lines):
            try:
                out[i] = json.loads(ln)
            except ValueError:
                pass
    return out


def bad(r):
    return r is not None and not r.get('skip') and (r['failed'] or r['exc'])


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []


def matches(f, prop, ob, what):
    return f.get('status') == 'known' and f['property'] == prop and \
        f.get('obligation', ob) == ob and all(s in what for s in f.get('match', []))


def main(prop, tier):
    sys.path.insert(0, VERIF)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = importlib.import_module('props.' + prop)
    obs = [o for o in m.OBLIGATIONS if o.tier == 'quick' or tier == 'thorough']
    budget = getattr(m, 'BUDGET', 420 if tier == 'quick' else 5400)
    done = run_symbolic(prop, obs, seed, t0 + budget)
    findings = load_findings()
    # points to run on the real code
    jobs, tags = [], []
    for o in obs:
        for k in range(o.points):
            jobs.append({'ob': o.name, 'env': {'#salt': k}})
            tags.append(('witness', o.name, None))
        for e in o.witness:
            jobs.append({'ob': o.name, 'env': dict(e)})
            tags.append(('witness', o.name, None))
        r = done[o.name]
        for n, p in enumerate(r['problems']):
            pts = list(p['points'])
            if p.get('model') and p['model'] not in pts:
                pts.append({k: v for k, v in p['model'].items()})
            for e in pts:
                jobs.append({'ob': o.name, 'env': e})
                tags.append(('cex', o.name, n))
        undecided = r['status'] != 'ok' or r['problems']
        if undecided:
            for k in range(o.points, o.points + 6):
                jobs.append({'ob': o.name, 'env': {'#salt': k}})
                tags.append(('probe', o.name, None))
    conc = run_concrete(prop, jobs)
    violations, known, inconclusive = {}, {}, []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    confirmed = set()
    for job, tag, r in zip(jobs, tags, conc):
        if not bad(r):
            continue
        if r['exc'] and not r['failed'] and not r.get('exc_in_repo'):
            continue          # the harness itself failed: not evidence about the code
        what = '; '.join('%s (%s)' % (a, b) for a, b in r['failed'][:3])
        if r['exc']:
            what = (what + '; ' if what else '') + 'exception ' + r['exc']
        f = next((f for f in findings if matches(f, prop, tag[1], what)), None)
        if tag[2] is not None:
            confirmed.add((tag[1], tag[2]))
        if f is not None:
            known[f['id']] = f
            continue
        v = violations.setdefault(tag[1], [])
        v.append((tag, r, what))
    for o in obs:
        r = done[o.name]
        if r['status'] != 'ok':
            inconclusive.append('%s: %s %s' % (o.name, r['status'], r.get('detail', '')))
        for n, p in enumerate(r['problems']):
            if (o.name, n) not in confirmed:
                inconclusive.append('%s: claim "%s" %s (%s) not reproduced on the real code'
                                    % (o.name, p['label'], p['kind'], p['detail'][:160]))
        if r['status'] == 'ok' and r['claims'] == 0:
            inconclusive.append('%s: vacuous (no claim reached)' % o.name)
    nwit = sum(1 for t, r in zip(tags, conc) if t[0] == 'witness' and r and not r.get('skip')
               and not bad(r))
    for ob, vs in violations.items():
        vs.sort(key=lambda x: x[0][0] != 'cex')
        tag, r, what = vs[0]
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (
            prop, ''.join(c if c.isalnum() else '_' for c in ob)))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'obligation': ob, 'env': r['env'], 'what': what,
                       'source': 'solver counterexample' if tag[0] == 'cex' else
                       'concrete run of the same assertion on the real code (%s)' % tag[0]},
                      fh, indent=1)
        print('  obligation %s: %s' % (ob, what))
        print('  input: %s' % json.dumps({k: v for k, v in r['env'].items()}))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for f in known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    for i in inconclusive:
        print('INCONCLUSIVE ' + i)
    tot = lambda k: sum(r.get('stats', {}).get(k, 0) for r in done.values())
    claims = sum(r['claims'] for r in done.values())
    proved = sum(r['proved'] for r in done.values())
    fns = sorted({f for r in done.values() for f in r['functions']})
    write_evidence(prop, tier, m, obs, done, claims, proved, tot, fns, nwit, violations, known,
                   inconclusive, time.time() - t0)
    print('%s [%s]: %d obligations, %d paths, %d claims, %d proved; %d solver queries '
          '(%d unsat, %d sat, %d unknown, %.1f s); %d concrete witnesses; %.1f s' % (
              prop, tier, len(obs), sum(r['paths'] for r in done.values()), claims, proved,
              tot('queries'), tot('unsat'), tot('sat'), tot('unknown'), tot('solver_s'), nwit,
              time.time() - t0))
    return 1 if violations else 0


def write_evidence(prop, tier, m, obs, done, claims, proved, tot, fns, nwit, violations, known,
                   inconclusive, wall):
    from . import evidence
    evidence.write(prop, tier, m, obs, done, claims, proved, tot, fns, nwit, violations, known,
                   inconclusive, wall)


def replay(path):
    sys.path.insert(0, VERIF)
    d = json.load(open(path))
    r = run_concrete(d['property'], [{'ob': d['obligation'], 'env': d['env']}])[0]
    print(json.dumps(r, indent=1))
    return 1 if bad(r) else 0
