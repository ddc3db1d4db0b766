"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| id | file | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    f = ', '.join(sorted({os.path.basename(x) for x in re.findall(r'^\+\+\+ b/(\S+)', open(d + '/patch.diff').read(), re.M)}))
    print(f"| {os.path.basename(d)} | {f} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', m['property'])} |")
