"""Writes known_findings.json (hashes taken from the commits of /repo)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {  # commit subject -> property
 'push bunches whose first time step': 'P01',
 'allow tracking with n_diags=0': 'P01',
 'keep tags, t_flight': 'P03', 'make the output bunches of TMElements': 'P03',
 'update the bunch in TMElement.track with out_initial': 'P03',
 'clear also the element steps': 'P22', 'do not lose a CSR step': 'P04',
 'CSR removes energy': 'P22', 'use the average gamma of each bunch': 'P27',
 'add the blowout fields': 'P06', 'gather finite fields': 'P09',
 'use the longitudinal position to detect': 'P08',
 'longitudinal derivative of the wakefield': 'P13',
 'solve the last row': 'P16', 'reject any change of the laser': 'P18',
 'keep the polarization': 'P17', 'reject a change of the laser': 'P18',
 'integral J3': 'P20', 'integral f2y': 'P20',
 'allow tracking through a generic TMElement': 'P21',
 'CSR position when the same element': 'P22',
 'reallocate the auxiliary arrays': 'P10',
 'start the numerical fields from t=0': 'P27',
 'do not add a field update by rounding': 'P02',
 'restore the number of threads': 'P11',
 'read the parameters file': 'P26',
 'average relative energy': 'P28',
 'refuse an unknown ramp type': 'P30', 'refuse transfer matrix orders': 'P30',
 'refuse an unknown bunch matrix': 'P30', 'refuse an unknown laser': 'P30',
 'refuse an unknown particle shape': 'P30',
 'use the adaptive time step for dt_bunch=None': 'P30',
 'document the wakefield model and ramp profile names': 'P30',
 'start from the requested update period': 'P27',
 'restore the reference energy of an element': 'P27',
 'add to the field array in the documentation': 'P06',
 'match bunches of any species': 'P25', 'apply the CSR kick of any species': 'P22',
 'limits of the second-order map': 'P20',
}
EXTRA = json.load(open(os.path.join(V, 'tools', 'kf_extra.json'))) \
    if os.path.exists(os.path.join(V, 'tools', 'kf_extra.json')) else {}
M.update(EXTRA.get('fixed', {}))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s'], capture_output=True,
                     text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [v for k, v in M.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    fixed.append(f'fixed: property={p[0]} {h} {s}')
json.dump(dict(findings=EXTRA.get('findings', []), fixed=fixed),
          open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
