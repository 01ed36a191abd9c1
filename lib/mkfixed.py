"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits (run by hand after a new fix)."""
import json, os, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [("gi'e ke was not shown", 'P10'), ("la'o quot", 'P09'), ('lone cai', 'P09'), ("gi'e bo", 'P08'), ('an interval without', 'P08'), ('connected tenses', 'P08'),
        ('broken erasure', 'P03'), ('dfasyn', 'P20'), ('dfasyn crashed', 'P02'), ('final_ccv', 'P03'), ('jvocuhadju overflowed', 'P02'),
        ('smujajgau cut', 'P15'), ('adjective glosses', 'P14'), ('damaged dictionary', 'P16'), ('-w without', 'P01'), ("cmafihe's buffers", 'P02'),
        ('uninitialised vector', 'P03'), ('uninitialised memory', 'P03'), ('-bt named', 'P11'), ('jammed', 'P01'),
        ('may be left out', 'P10'), ('-se', 'P10')]
k = json.load(open(os.path.join(V, 'known_findings.json')))
extra = {}
out = []
for ln in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = ln.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    m = re.search(r' \[(P\d\d)\]$', s)
    p = m.group(1) if m else next((q for t, q in PROP if t in s), 'P01')
    out.append('fixed: property=%s %s %s' % (p, h, s))
k['fixed'] = out
json.dump(k, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
