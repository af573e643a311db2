#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/{patch.diff,meta.json,demo.sh,lib.sh,*_test source} from a spec
file that defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST (Go source, optional DEMO text)."""
import sys, os, json, subprocess, shutil
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    seeds = g.get('SEEDS') or [g]
    for s in seeds:
        d = '/verif/seeded/' + s['ID']
        os.makedirs(d, exist_ok=True)
        for f, old, new in s['EDITS']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['ID'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        if 'DEMO' in s:
            open(d + '/demo.sh', 'w').write(s['DEMO'])
        else:
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\nrun_test %s demo_test.go.txt Demo\n' % s['PKG'])
        open(d + '/demo_test.go.txt', 'w').write(s['TEST'])
        shutil.copy('/verif/tools/demo/lib.sh', d + '/lib.sh')
        os.chmod(d + '/demo.sh', 0o755)
        print('wrote', d)
