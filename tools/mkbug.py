#!/usr/bin/env python3
# mkbug.py ID PROPERTY SPEC: SPEC is a python file defining file, old, new (or edits=[(file,old,new)]), needs, breaks, demo (C text) or sh
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); i, p, spec = sys.argv[1:4]
ns = {}; exec(open(spec).read(), ns)
d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True); t = tempfile.mkdtemp(dir='/tmp')
subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
for f, o, n in ns.get('edits') or [(ns['file'], ns['old'], ns['new'])]:
    b = open(f'{t}/r/{f}', 'rb').read(); o, n = o.encode('latin-1'), n.encode('latin-1')
    if b'\r\n' in b and o not in b: o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
    assert b.count(o) == 1, (f, b.count(o)); open(f'{t}/r/{f}', 'wb').write(b.replace(o, n))
diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True).stdout; open(d + '/patch.diff', 'wb').write(diff)
if 'demo' in ns: open(d + '/demo.c', 'w').write(ns['demo']); shutil.copy(V + '/tools/bugkit/demo.sh', d)
else: open(d + '/demo.sh', 'w').write(ns['sh'])
for f, x in ns.get('files', {}).items(): open(f'{d}/{f}', 'w').write(x)
json.dump(dict(property=p, needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1); shutil.rmtree(t)
