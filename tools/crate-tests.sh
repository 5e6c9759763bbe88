#!/bin/bash
# usage: crate-tests.sh DIR PACKAGE [cargo test args]: run a jellyfish crate's own unit
# tests in a scratch copy, with the dependency stand-ins (development aid, no check uses it)
set -e
D=$1; P=$2; shift 2
S=/tmp/rt; mkdir -p $S
rm -rf /tmp/rt/repo; mkdir -p /tmp/rt/repo; cp -r /repo/. /tmp/rt/repo; rm -rf /tmp/rt/repo/.git
cd /tmp/rt/repo
python3 - "$D" <<'P'
import re,sys,glob
names={'jf-utils':'utilities','jf-crhf':'crhf','jf-prf':'prf','jf-commitment':'commitment','jf-rescue':'rescue','jf-poseidon2':'poseidon2','jf-relation':'relation','jf-pcs':'pcs','jf-signature':'signature','jf-merkle-tree':'merkle_tree','jf-plonk':'plonk','jf-vrf':'vrf'}
def r(m):
    n=m.group(1); body=m.group(2)
    if n in names:
        body=re.sub(r'git = "[^"]*"(, (tag|rev) = "[^"]*")?', 'path = "/tmp/rt/repo/%s"'%names[n], body)
    elif 'git =' in body:
        body=re.sub(r'git = "[^"]*"(, (tag|rev) = "[^"]*")?', 'path = "/verif/stubs/%s"'%n, body)
    return n+' = {'+body+'}'
for p in glob.glob('*/Cargo.toml')+['Cargo.toml']:
    s=open(p).read()
    s=re.sub(r'^([a-z0-9-]+) = \{([^}]*)\}', r, s, flags=re.M)
    s=re.sub(r'(?ms)^\[\[bench\]\].*?(?=^\[|\Z)','',s)
    s=re.sub(r"(?m)^(criterion|ark-ed-on-bls12-381-bandersnatch).*\n","",s)
    s=re.sub(r'(?m)^\[dev-dependencies\]\n','[dev-dependencies]\nvp-x = { path = "/tmp/rt/x" }\n',s,count=1)
    s=re.sub(r'(?ms)^std = \[.*?\]','std = []',s)
    s=re.sub(r'(?m)"ark-std/print-trace"',r'',s)
    if p=='Cargo.toml':
        s=re.sub(r'members = \[.*?\]','members = ["%s"]'%sys.argv[1],s,flags=re.S)
        s+='\n[patch.crates-io]\n'+''.join('%s = { path = "/verif/stubs/%s" }\n'%(n,n) for n in ['sha3','merlin','itertools','dyn-clone','ark-bw6-761','ark-crypto-primitives','chacha20poly1305','crypto_kx','blst'])
    open(p,'w').write(s)
P
rm -rf */benches
# the stand-in for ark-bw6-761 has no pairing
sed -i 's/use ark_bw6_761::BW6_761;/use ark_bls12_377::Bls12_377 as BW6_761;/; s/use ark_bw6_761::{Fq as Fq761, BW6_761};/use ark_bls12_377::{Fq as Fq761, Bls12_377 as BW6_761};/' plonk/src/proof_system/*.rs
# no copy of the bandersnatch curve here: its tests run on Jubjub
sed -i 's/ark_ed_on_bls12_381_bandersnatch/ark_ed_on_bls12_381/' signature/src/schnorr.rs
sed -i "s/ark_ed_on_bls12_381_bandersnatch/ark_ed_on_bls12_381/g" elgamal/src/*.rs merkle_tree/src/gadgets/*.rs rescue/src/*.rs rescue/src/*/*.rs 2>/dev/null || true
sed -i "s/ark_ed_on_bls12_381_bandersnatch/ark_ed_on_bls12_381/g" relation/src/gadgets/ecc/mod.rs relation/src/gadgets/ecc/*/*.rs 2>/dev/null || true
python3 -c "p='relation/src/gadgets/ecc/glv.rs'; s=open(p).read(); i=s.rindex('#[cfg(test)]'); open(p,'w').write(s[:i])" # needs the bandersnatch endomorphism
mkdir -p /tmp/rt/x/src; : > /tmp/rt/x/src/lib.rs
printf '[package]\nname="vp-x"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nark-std={version="0.5",features=["std"]}\nark-serialize={version="0.5",features=["std"]}\n' > /tmp/rt/x/Cargo.toml
cp /opt/vp/ws/Cargo.lock . 2>/dev/null || true
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/tmp/rt/target
cargo test --release --offline -p $P "$@"
