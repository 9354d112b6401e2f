"""Writes DESIGN.md: python3 spec/design.py PATH/TO/hx, from /verif."""
import sys, subprocess, json, re, os, glob
sys.dont_write_bytecode = True
hx = sys.argv[1] if len(sys.argv) > 1 else 'hx'
by = {}
for l in subprocess.run([hx, 'list'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    m = re.match(r'(scenario|enum) (\S+) \[(.*?)\] (.*)', l)
    for p in m.group(3).split(): by.setdefault(p, []).append((m.group(1), m.group(2), m.group(4)))
out = [open('spec/design_head.md').read()]
out.append('## 3. Genuine defects found\n\nAll were reported by a check on the unchanged tree, shown to be real by their replay (the replay *is* the code of /repo) and repaired by a '
           '`fix:` commit; `known_findings.jsonl` lists them, none is suppressed.\n\n| property | commit | what failed |\n|---|---|---|\n')
for l in open('known_findings.jsonl'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: out.append('| %s | %s | %s |\n' % m.groups())
out.append('\n')
tail = open('spec/design_tail.md').read()
rows = ['| id | property | needs | caught by |\n|---|---|---|---|\n']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s | %s |\n' % (f.split('/')[1], m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
out.append(tail + ''.join(rows) + '\n')
if os.path.exists('spec/design_end.md'): out.append(open('spec/design_end.md').read())
out.append('\n## Appendix: the closed systems of each check\n\nGenerated from `hx list` (`python3 spec/design.py PATH/TO/hx`, run from /verif). Enumerations are marked *.\n')
for p in sorted(by):
    out.append('\n**%s** ' % p + '; '.join('`%s`%s %s' % (n, '*' if k == 'enum' else '', d) for k, n, d in by[p]) + '.\n')
open('DESIGN.md', 'w').write(''.join(out))
