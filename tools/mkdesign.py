"""Fills the tables of DESIGN.md (template: tools/DESIGN.in.md) from properties.jsonl, contracts, known-findings.txt, seeded/ and tools/caught.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import check
t = open(HERE + '/tools/DESIGN.in.md').read()
cost = {}
rows = []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    cons = check.contracts_for(i)
    f = lambda w: sorted(set(k for m, k, v, var in cons if w(v)))
    pr, bd = f(lambda v: not v.bounded), f(lambda v: v.bounded)
    why = dict((k, v.bounded) for m, k, v, var in cons if v.bounded)
    tg = dict((k, v.target) for m, k, v, var in cons)
    s = '**%s** %s. ' % (i, p['title'])
    if pr: s += '*Proved for all inputs:* ' + ', '.join('`%s` (%s)' % (k, tg[k].split(':')[1] if not tg[k].startswith('drivers') else tg[k]) for k in pr) + '. '
    if bd: s += '*Bounded* (the contract is evaluated on seeded random calls of the real code, about 40 s quick, 240 s thorough): ' + ', '.join('`%s` (%s; %s)' % (k, tg[k].split(':')[1] if not tg[k].startswith('drivers') else tg[k], why[k]) for k in bd) + '. '
    s += 'Why tests cannot: %s.' % p.get('why_tests_cant', '').rstrip('.') if p.get('why_tests_cant') else ''
    rows.append('* ' + s)
fixes = ['* ' + l.strip()[7:].replace('property=', '') for l in open(HERE + '/known-findings.txt') if l.startswith('fixed:')]
caught = json.load(open(HERE + '/tools/caught.json'))
seeds = ['| planted bug | what it breaks | needs | reported by |', '|---|---|---|---|']
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % d))
    seeds.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(d, 'not run')))
open(HERE + '/DESIGN.md', 'w').write(t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@FIXES@@', '\n'.join(fixes)).replace('@@SEEDS@@', '\n'.join(seeds)))
