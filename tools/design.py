#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property (from tools/meta.py, the modules and the text below), the
planted bugs with what catches them (tools/catch_results.txt, written by tools/catch.py) and tools/design_tail.md."""
import ast, json, os, re, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import P, V
T = f'{V}/tools'
MORE = json.load(open(f'{T}/design_more.json'))
caught = {}
if os.path.exists(f'{T}/catch_results.txt'):
    for l in open(f'{T}/catch_results.txt'):
        m = re.match(r'(CAUGHT|MISSED) (\S+) (\S+)', l)
        if m:
            caught[m[2]] = m[1].lower()
bugs = {}
for b in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    bugs.setdefault(m['property'], []).append((b, m))


def consts(pid):
    out = {}
    for n in ast.parse(open(f'{V}/ficusmon/props/{pid.lower()}.py').read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


with open(f'{V}/DESIGN.md', 'w') as f:
    f.write(open(f'{T}/design_head.md').read())
    f.write('\n## Properties\n')
    for i in sorted(P):
        if not os.path.exists(f'{V}/ficusmon/props/{i.lower()}.py'):
            continue
        d, c = P[i], consts(i)
        f.write(f'\n### {i} {d["title"]}\n\n')
        f.write(f'*Specified*: {d["statement"]}\n\n')
        f.write(f'*Where*: {", ".join("`" + x + "`" for x in d["files"])}. *Quantified over*: {d["quant"]}.\n\n')
        f.write(f'*Workload and monitors*: {c["RULE"]}. {MORE[i]["how"]}\n\n')
        f.write(f'*Oracle*: {d["tech"].replace("runtime monitor: real code under generated workloads, every result judged online by ", "")}; {d["note"]}.\n\n')
        q, t = c['CASES']['quick'], c['CASES']['thorough']
        f.write(f'*Bounds and cost*: {q} cases quick, {t} thorough; assumed: {"; ".join(c.get("ASSUMPTIONS", [])) or "nothing"}. {MORE[i].get("cost", "A few seconds quick")}.\n\n')
        f.write(f'*Why this reaches what tests do not*: {d["why"]}. {MORE[i].get("reach", "")}\n')
    f.write('\n## Planted bugs and the checks that catch them\n\nEach row: the change, what it needs in order to manifest, what it breaks, and whether the quick check of its property '
            '(seed 1) reports it (`tools/catch.py`).\n\n| bug | property | needs | breaks | quick check |\n|---|---|---|---|---|\n')
    for i in sorted(bugs):
        for b, m in bugs[i]:
            f.write(f'| {b} | {i} | {m["needs"]} | {m["what_it_breaks"]} | {caught.get(b, "not in the last sweep")} |\n')
    f.write(open(f'{T}/design_tail.md').read())
print('DESIGN.md written')
