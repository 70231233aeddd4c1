"""Rewrite the two generated lists of DESIGN.md: planted bugs and defects found."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
rows = []
for name in sorted(os.listdir(os.path.join(root, 'seeded'))):
    meta = json.load(open(os.path.join(root, 'seeded', name, 'meta.json')))
    rows.append('| %s | %s |' % (name, ' '.join(meta['needs'].split())))
text = re.sub(r'(\| bug \| needs \|\n\|---\|---\|\n)(?:\|.*\n)+', lambda m: m.group(1) + '\n'.join(rows) + '\n', text)
found = ['* ' + line.strip() for line in open(os.path.join(root, 'known_findings.txt'))
         if line.strip() and not line.startswith('#')]
found = [re.sub(r'^\* (known|fixed): ', r'* \1: ', f) for f in found]
head, _, _ = text.partition('* known: property=C10')
if not _:
    raise SystemExit('list of defects not found')
open(path, 'w').write(head + '\n'.join(found) + '\n')
