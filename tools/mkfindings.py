"""writes known_findings.json: repaired defects (from the fix: commits in /repo) and recorded ones"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [('lniknu keeps', 'C02'), ('depth of the continued', 'C02'), ('static plasma Mie', 'C05'), ('static interior plasma', 'C06'),
        ('stratified sphere works', 'C07'), ('np.float', 'C12'), ('roundTrip_elements slices', 'C16'), ('static Mie cache', 'C16'),
        ('CoatedSphereSphere passes', 'C11'), ('xrange', 'C13'), ('blockmatrices_debug', 'C12'), ('CoatedSphereSphere does not', 'C12'),
        ('blockmatrices answers', 'C12'), ('F_alle answers', 'C23'), ('coated spheres use', 'C23'), ('mSum_roundtrips compares', 'C15'),
        ('automatic trace expansion', 'C15'), ('plane-plane pressure', 'C20'), ('PFA force honours', 'C21'),
        ('PFA energy and gap', 'C21'), ('leading-order PFA inside', 'C22'), ('get_f_matsubaras leaves', 'C22'),
        ('free energy and entropy', 'C23'), ('first slice of force', 'C23'), ('number of processes', 'C23')]
EXTRA = os.path.join(V, 'doc', 'fixes.json')
if os.path.exists(EXTRA):
    PROP += [tuple(x) for x in json.load(open(EXTRA))]
KNOWN = json.load(open(os.path.join(V, 'doc', 'known.json')))
out = list(KNOWN)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
for line in log:
    hsh, msg = line.split(' ', 1)
    if not msg.startswith('fix:'):
        continue
    p = [b for a, b in PROP if a in msg]
    assert len(p) == 1, (msg, p)
    out.append({'id': 'fixed-' + hsh, 'status': 'fixed', 'property': p[0], 'commit': hsh, 'what': msg[5:],
                'line': 'fixed: property=%s %s %s' % (p[0], hsh, msg[5:])})
json.dump(out, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out))
