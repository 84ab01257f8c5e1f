"""Refresh the generated parts of DESIGN.md (between <!-- NAME --> and <!-- /NAME -->): the properties with their bounds, and
the table of planted bugs with the last result of tools/plant.py run (kept in tools/results.json)."""
import json, os, re
R = '/verif'
def props():
    out = []
    for l in open(f'{R}/properties.jsonl'):
        p = json.loads(l)
        src = open(f"{R}/props/{p['id']}.ts").read()
        b = re.findall(r"^\s*'(.*)',\s*$", re.search(r"bounds: \[(.*?)\n  \],", src, re.S).group(1), re.M)
        a = re.search(r"assumptions: \[(.*?)\],\n", src, re.S)
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\nBounds:")
        out += [f'- {x}' for x in b]
        if a: out += [f'- assumption: {x}' for x in re.findall(r"'(.*?)'", a.group(1))]
        out.append('')
    return '\n'.join(out)
def bugs():
    res = json.load(open(f'{R}/tools/results.json')) if os.path.exists(f'{R}/tools/results.json') else {}
    out = ['| planted bug | property | result | what it needs |', '|---|---|---|---|']
    for i in sorted(os.listdir(f'{R}/seeded')):
        m = json.load(open(f'{R}/seeded/{i}/meta.json'))
        out.append(f"| {i} | {m['property']} | {res.get(i, {}).get(m['property'], '-').lower()} | {m['needs'].replace('|', '/')} |")
    return '\n'.join(out)
s = open(f'{R}/DESIGN.md').read()
for name, f in (('properties', props), ('bugs', bugs)):
    s = re.sub(rf'(<!-- {name} -->\n).*?(<!-- /{name} -->)', lambda m: m.group(1) + f() + "\n" + m.group(2), s, flags=re.S)
open(f'{R}/DESIGN.md', 'w').write(s)
