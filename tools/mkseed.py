#!/usr/bin/env python3
# tools/mkseed.py: writes seeded/<id>/ from a python list of bug descriptions given as a file argument.
# Each entry: dict(id, property, edits=[(file, old, new)], pkg, demo, needs, breaks)
import sys,os,subprocess,json
ns={}
exec(open(sys.argv[1]).read(),ns)
DEMO='''#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken; cwd: the repository
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$PWD
printf '{"Replace":{"%s":"%s"}}' "$R/@PKG@/zz_seed_demo_test.go" "$D/demo_test.go.txt" > "$T/o.json"
cd "$R/@MOD@" && go test -vet=off -overlay "$T/o.json" -run '^TestSeedDemo$' -count=1 ./@REL@
'''
for b in ns['bugs']:
    if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C','/repo','diff','--quiet']).returncode==0
    for f,o,n in b['edits']:
        p='/repo/'+f; s=open(p).read()
        assert s.count(o)==1,(b['id'],f,s.count(o))
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    pkg=b['pkg']; mod='cmd/sqlgen' if pkg.startswith('cmd/sqlgen') else ('examples' if pkg.startswith('examples') else '.')
    rel=pkg if mod=='.' else os.path.relpath(pkg,mod)
    open(d+'/demo.sh','w').write(b.get('sh') or DEMO.replace('@PKG@',pkg).replace('@MOD@',mod).replace('@REL@',rel))
    open(d+'/demo_test.go.txt','w').write(b['demo'])
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
