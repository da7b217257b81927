// sums and products
pub open spec fn vsum(f: spec_fn(int) -> F, n: int) -> F
    decreases n
{ if n <= 0 { f0() } else { fadd(vsum(f, n - 1), f(n - 1)) } }
pub open spec fn vprod(f: spec_fn(int) -> F, n: int) -> F
    decreases n
{ if n <= 0 { f1() } else { fmul(vprod(f, n - 1), f(n - 1)) } }

pub fn vextend<T>(a: &mut Vec<T>, b: Vec<T>)
    ensures final(a)@ == old(a)@ + b@,
{ let mut b = b; a.append(&mut b) }
#[verifier::external_body]
pub fn vreverse<T>(a: &mut Vec<T>)
    ensures final(a).len() == old(a).len(), forall|i: int| 0 <= i < old(a).len() ==> final(a)[i] == old(a)[old(a).len() - 1 - i],
{ a.reverse() }

pub fn vextend_slice<T: Copy>(a: &mut Vec<T>, s: &[T])
    ensures final(a)@ == old(a)@ + s@,
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len(), a@ == old(a)@ + s@.subrange(0, i as int),
        decreases s.len() - i,
    {
        a.push(s[i]);
        i = i + 1;
        proof { assert(s@.subrange(0, i as int) =~= s@.subrange(0, i as int - 1).push(s@[i as int - 1])); assert(a@ =~= old(a)@ + s@.subrange(0, i as int)); }
    }
    proof { assert(s@.subrange(0, s.len() as int) =~= s@); }
}
