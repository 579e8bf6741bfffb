"""Writes the "fixed" entries of known_findings.jsonl from the fix commits of /repo (run by hand)."""
import json
import subprocess

MAP = '''C02 C01 C02 C01 C01 C01 C03 C02 C08 C05 C05 C05 C05 C23 C04 C04 C04 C04 C14 C14 C04 C09 C03 C05 C05 C05 C05 C06 C08 C09
C09 C09 C09 C09 C12 C05 C13 C13 C18 C13 C17 C15 C15 C12 C11 C07 C05 C04 C12 C06 C05 C09 C09 C09 C20 C20 C22 C15 C17 C17 C22 C27 C27 C12 C03 C03
C03 C03 C19 C19 C21 C21 C21 C21 C21 C26 C26 C22 C22 C22 C22 C24 C24 C24 C24 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25 C25
C23 C23 C23 C23 C23 C23 C23 C23 C23 C23 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28 C28'''.split()

log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'ec6efd7..HEAD'], capture_output=True, text=True).stdout.splitlines()
log = [l for l in log if ' fix: ' in l]
extra = []
try:
    extra = open('/verif/tools/findings_extra.txt').read().split()
except FileNotFoundError:
    pass
m = MAP + extra
assert len(m) == len(log), (len(m), len(log))
keep = []
try:
    keep = [l for l in open('/verif/known_findings.jsonl') if json.loads(l)['status'] == 'known']
except FileNotFoundError:
    pass
with open('/verif/known_findings.jsonl', 'w') as f:
    for p, l in zip(m, log):
        h, what = l.split(' fix: ', 1)
        f.write(json.dumps({'property': p, 'status': 'fixed', 'commit': h, 'entry': 'fixed: property=%s %s %s' % (p, h, what)}) + '\n')
    f.writelines(keep)
