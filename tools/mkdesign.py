"""assembles DESIGN.md (development helper)"""
import ast, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design_head.md').read()]
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
cost = {}
for f in glob.glob(V + '/evidence/P*.json'):
    if 'replay' in f:
        continue
    try:
        cost[os.path.basename(f)[:3]] = json.load(open(f))
    except Exception:
        pass
out.append('## 6. Per property\n')
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    src = V + f"/props/{p['id'].lower()}.py"
    c = {}
    if os.path.exists(src):
        for n in ast.parse(open(src).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ('COVERAGE', 'BOUNDS', 'ASSUMPTIONS'):
                c[n.targets[0].id] = ast.literal_eval(n.value)
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Specified.* {p['statement']}\n")
    out.append(f"*Decided by.* {c.get('COVERAGE', '')}.\n")
    out.append(f"*Bounds.* {c.get('BOUNDS', '')}. *Assumptions.* {'; '.join(c.get('ASSUMPTIONS', []))}.\n")
    out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}. *Code.* {', '.join(p['anchors']['files'])}.\n")
    for i, d in seeds.get(p['id'], []):
        out.append(f"* planted {i}: {d['what_it_breaks']} (needs: {d['needs']}) - caught by `check {p['id']} quick`")
    out.append('')
out.append(open(V + '/tools/design_tail.md').read() if os.path.exists(V + '/tools/design_tail.md') else '')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
