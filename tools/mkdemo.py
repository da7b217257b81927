"""mkdemo.py ID 'crate,crate' property < main.rs body ; writes seeded/ID/{demo.sh,demo/}; env NEEDS / BREAKS for meta.json"""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, crates, prop = sys.argv[1:4]
D = os.path.join(V, 'seeded', ID)
os.makedirs(D + '/demo/src', exist_ok=True)
PRE = '''use ark_bls12_381::{Bls12_381 as E, Fr};
#[allow(unused_imports)]
use ark_ff::{Field, One, PrimeField, Zero, UniformRand};
#[allow(unused_imports)]
use ark_serialize::*;
#[allow(unused_imports)]
use rand::{Rng, SeedableRng};
#[allow(unused_imports)]
use zkp_r1cs::*;
type XR = rand_xorshift::XorShiftRng;
#[allow(dead_code)]
fn rng(s: u8) -> XR { XR::from_seed([s.wrapping_mul(2) | 1; 16]) }
#[allow(dead_code)]
fn f(x: i64) -> Fr { if x < 0 { -Fr::from((-x) as u64) } else { Fr::from(x as u64) } }
'''
CIRC = '''
#[derive(Clone, Copy)] #[allow(dead_code)]
enum V { One, In(usize), Aux(usize) }
type L = Vec<(i64, V)>;
#[derive(Clone)]
struct Circ { ins: Vec<i64>, aux: Vec<i64>, cons: Vec<(L, L, L)> }
impl ConstraintSynthesizer<Fr> for Circ {
    fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut i = vec![]; let mut a = vec![];
        for (k, x) in self.ins.iter().enumerate() { i.push(cs.alloc_input(|| format!("i{}", k), || Ok(f(*x)))?); }
        for (k, x) in self.aux.iter().enumerate() { a.push(cs.alloc(|| format!("a{}", k), || Ok(f(*x)))?); }
        let lc = |l: &L| { let mut r = LinearCombination::<Fr>::zero(); for (c, v) in l { let v = match v { V::One => CS::one(), V::In(k) => i[*k], V::Aux(k) => a[*k] }; r = r + (f(*c), v); } r };
        for (k, (x, y, z)) in self.cons.iter().enumerate() { let (x, y, z) = (lc(x), lc(y), lc(z)); cs.enforce(|| format!("c{}", k), |_| x, |_| y, |_| z); }
        Ok(())
    }
}
'''
body = sys.stdin.read()
cr = [c for c in crates.split(',') if c]
src = PRE + (CIRC if 'Circ' in body else '') + body
open(D + '/demo/src/main.rs', 'w').write(src)
deps = ''.join('zkp-%s = { path = "/repo/%s"%s }\n' % (c, c, os.environ.get('FEAT_' + c, '')) for c in cr + ['r1cs'])
open(D + '/demo/Cargo.toml', 'w').write('''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
%sark-ff = { version = "0.2", default-features = false }
ark-ec = { version = "0.2", default-features = false }
ark-poly = { version = "0.2", default-features = false }
ark-serialize = { version = "0.2", features = ["derive"] }
ark-bls12-381 = { version = "0.2", default-features = false, features = ["curve"] }
rand = "0.7"
rand_xorshift = "0.2"
merlin = { version = "2.0", default-features = false }
[profile.dev]
opt-level = 1
''' % deps)
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# builds the small program beside this file against /repo and runs it (exit 0: property holds)
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX)
cp -r "$D/demo/." "$T/"
cp /repo/Cargo.lock "$T/"
cd "$T"
CARGO_TARGET_DIR=$T/target cargo build --offline -q 2> "$T/log" || { tail -30 "$T/log"; rm -rf "$T"; exit 0; }
"$T/target/debug/demo"
R=$?
cd /
rm -rf "$T"
exit $R
''')
json.dump({'property': prop, 'needs': os.environ.get('NEEDS', ''), 'what_it_breaks': os.environ.get('BREAKS', '')}, open(D + '/meta.json', 'w'), indent=1)
