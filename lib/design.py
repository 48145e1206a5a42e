"""Rewrites the generated tail of DESIGN.md: not-applicable reasons, defects, planted changes."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/DESIGN.md').read().split('<!-- generated below -->')[0].rstrip() + '\n\n<!-- generated below -->\n'
m = json.load(open(H + '/MANIFEST.json'))
P = {json.loads(l)['id']: json.loads(l) for l in open(H + '/properties.jsonl')}
s += '\n## Properties static analysis does not decide here\n\n'
for n in m['not_applicable']:
    s += '* **%s %s**: %s\n' % (n['property'], P[n['property']]['title'], n['reason'])
s += '\n## Defects found by the checks and repaired in /repo\n\nEach is one `fix:` commit; the check reports the violation again if it returns.\n\n'
for l in open(H + '/known_findings.txt'):
    x = re.match(r'(fixed|finding): property=(\w+) (\S+) (.*)', l)
    if x and x.group(1) == 'fixed':
        s += '* %s `%s`: %s\n' % x.group(2, 3, 4)
k = [l for l in open(H + '/known_findings.txt') if l.startswith('finding:')]
s += '\nKnown findings that are recorded and not repaired: %s\n' % ('none.' if not k else '\n' + ''.join('\n* ' + l[9:].strip() for l in k))
s += '\n## Planted changes\n\nIn `seeded/`; each compiles, passes the stable tests, has a demonstration, and is caught by the check of its own property.\n\n| change | what it breaks | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    s += '| %s | %s | %s | %s |\n' % (f.split('/')[-2], d['what_it_breaks'], d['needs'], d.get('caught', d['property']))
open(H + '/DESIGN.md', 'w').write(s)
