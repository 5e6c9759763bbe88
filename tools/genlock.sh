#!/bin/bash
# usage: genlock.sh HARNESS_DIR : generate Cargo.lock for a harness crate
set -e
H=$1
rm -rf /tmp/gen; mkdir -p /tmp/gen
cp -r /repo /tmp/gen/repo; rm -rf /tmp/gen/repo/.git
cd /tmp/gen/repo
for f in */Cargo.toml Cargo.toml; do
python3 - $f <<'P'
import re,sys
p=sys.argv[1]; s=open(p).read()
names={'jf-utils':'utilities','jf-crhf':'crhf','jf-prf':'prf','jf-commitment':'commitment','jf-rescue':'rescue','jf-poseidon2':'poseidon2','jf-relation':'relation','jf-pcs':'pcs','jf-signature':'signature','jf-merkle-tree':'merkle_tree','jf-plonk':'plonk','jf-vrf':'vrf'}
def r(m):
    n=m.group(1); body=m.group(2)
    if n in names:
        body=re.sub(r'git = "[^"]*"(, (tag|rev) = "[^"]*")?', 'path = "/tmp/gen/repo/%s"'%names[n], body)
    elif 'git =' in body:
        body=re.sub(r'git = "[^"]*"(, (tag|rev) = "[^"]*")?', 'path = "/tmp/gen/verif/stubs/%s"'%n, body)
    return n+' = {'+body+'}'
s=re.sub(r'^([a-z0-9-]+) = \{([^}]*)\}', r, s, flags=re.M)
open(p,'w').write(s)
P
done
mkdir -p /tmp/gen/verif; cp -r /verif/stubs /tmp/gen/verif/stubs; cp -r /verif/sim /verif/common /tmp/gen/verif/
cp -r $H /tmp/gen/harness; cd /tmp/gen/harness; rm -rf target
python3 - <<'P'
s=open('Cargo.toml').read()
import re
s=re.sub(r'(?ms)^\[patch\."https[^\]]*\].*?(?=^\[|\Z)','',s)
s=s.replace('"/repo/','"/tmp/gen/repo/').replace('"/verif/','"/tmp/gen/verif/').replace('"../','"/tmp/gen/verif/')
open('Cargo.toml','w').write(s)
P
cp /opt/vp/ws/Cargo.lock . 2>/dev/null || true
. /opt/vp/env.sh
cargo generate-lockfile --offline 2>&1 | tail -30
cp Cargo.lock $H/Cargo.lock
