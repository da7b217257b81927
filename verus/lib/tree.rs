// ---- nodes: an opaque type with equality; the merge function is unknown ----
#[verifier::external_body]
pub struct Node { x: u8 }
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Node {}
impl vstd::std_specs::cmp::PartialEqSpecImpl<Node> for Node {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Node) -> bool { *self == *o }
}
impl PartialEq for Node { #[verifier::external_body] fn eq(&self, o: &Node) -> bool { unimplemented!() } }
pub uninterp spec fn mrg(l: Node, r: Node) -> Node;
pub uninterp spec fn node0() -> Node;
impl Node { #[verifier::external_body] pub fn default() -> (r: Node) ensures r == node0() { unimplemented!() } }
#[verifier::external_body]
pub fn node_merge(l: &Node, r: &Node) -> (m: Node) ensures m == mrg(*l, *r) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct PhantomData;
pub struct MerkleTree { pub nodes: Vec<Node>, pub merge: PhantomData }
pub struct MerkleProof { pub index: u32, pub lemmas: Vec<Node>, pub merge: PhantomData }

pub struct CBMT;
impl MerkleProof { pub open spec fn verifies(self, root: Node, leaf: Node) -> bool { climb(leaf, self.index as int, self.lemmas@) == Some(root) } }
pub fn vto_vec(s: &[Node]) -> (r: Vec<Node>) ensures r@ == s@ { let mut v = Vec::new(); vextend_slice(&mut v, s); proof { assert(v@ =~= s@); } v }
// ---- iterators and queues of the standard library, re-implemented and verified here ----
pub struct SIter<'a> { pub s: &'a Vec<Node>, pub pos: usize }
pub fn viter<'a>(s: &'a Vec<Node>) -> (r: SIter<'a>) ensures r.s == s, r.pos == 0 { SIter { s, pos: 0 } }
impl<'a> SIter<'a> {
    pub fn next(&mut self) -> (r: Option<&'a Node>)
        requires old(self).pos <= old(self).s.len(),
        ensures final(self).s == old(self).s, final(self).pos <= final(self).s.len(),
            old(self).pos < old(self).s.len() ==> r is Some && *r->Some_0 == old(self).s[old(self).pos as int] && final(self).pos == old(self).pos + 1,
            old(self).pos == old(self).s.len() ==> r is None && final(self).pos == old(self).pos,
    {
        if self.pos < self.s.len() { let i = self.pos; self.pos = i + 1; Some(&self.s[i]) } else { None }
    }
}
pub struct RPairs<'a> { pub s: &'a [Node], pub end: usize }
pub fn vrpairs<'a>(s: &'a [Node], two: usize) -> (r: RPairs<'a>) requires two == 2 ensures r.s == s, r.end == s.len() { RPairs { s, end: s.len() } }
impl<'a> RPairs<'a> {
    // rchunks_exact(2): pairs from the end, in the order of the slice
    pub fn next(&mut self) -> (r: Option<(&'a Node, &'a Node)>)
        requires old(self).end <= old(self).s.len(),
        ensures final(self).s == old(self).s, final(self).end <= final(self).s.len(),
            old(self).end >= 2 ==> r is Some && *r->Some_0.0 == old(self).s[old(self).end - 2] && *r->Some_0.1 == old(self).s[old(self).end - 1] && final(self).end == old(self).end - 2,
            old(self).end < 2 ==> r is None && final(self).end == old(self).end,
    {
        if self.end >= 2 { let e = self.end; self.end = e - 2; Some((&self.s[e - 2], &self.s[e - 1])) } else { None }
    }
    // what no pair covers: at most the first element
    pub fn remainder(&self) -> (r: Rem<'a>) ensures r.s == self.s { Rem { s: self.s } }
}
pub struct Rem<'a> { pub s: &'a [Node] }
pub fn vpat1<'a>(x: Rem<'a>) -> (r: Option<(&'a Node,)>)
    ensures x.s.len() % 2 == 1 ==> r is Some && *r->Some_0.0 == x.s[0], x.s.len() % 2 == 0 ==> r is None,
{ if x.s.len() % 2 == 1 { Some((&x.s[0],)) } else { None } }
pub struct VecDeque { pub v: Vec<Node> }
impl VecDeque {
    pub fn with_capacity(n: usize) -> (r: VecDeque) ensures r.v@ == Seq::<Node>::empty() { VecDeque { v: Vec::new() } }
    pub fn push_back(&mut self, x: Node) ensures final(self).v@ == old(self).v@.push(x) { self.v.push(x) }
    pub fn push_front(&mut self, x: Node) ensures final(self).v@ == seq![x] + old(self).v@ { self.v.insert(0, x); proof { assert(self.v@ =~= seq![x] + old(self).v@); } }
    pub fn len(&self) -> (r: usize) ensures r == self.v.len() { self.v.len() }
    pub fn pop_front(&mut self) -> (r: Option<Node>)
        ensures old(self).v.len() > 0 ==> r == Some(old(self).v[0]) && final(self).v@ == old(self).v@.drop_first(), old(self).v.len() == 0 ==> r is None,
    { if self.v.len() == 0 { None } else { let x = self.v.remove(0); proof { assert(self.v@ =~= old(self).v@.drop_first()); } Some(x) } }
}
#[verifier::external_body]
pub fn vunwrap(o: Option<Node>) -> (r: Node) ensures o == Some(r) { o.unwrap() }

// ---- the complete binary tree: node i of n leaves ----
pub open spec fn tnode(l: Seq<Node>, i: int) -> Node
    decreases 2 * l.len() - i
{
    if i < 0 || i >= 2 * l.len() - 1 { node0() } else if i >= l.len() - 1 { l[i - (l.len() - 1)] } else { mrg(tnode(l, 2 * i + 1), tnode(l, 2 * i + 2)) }
}
pub open spec fn troot(l: Seq<Node>) -> Node { if l.len() == 0 { node0() } else { tnode(l, 0) } }
pub open spec fn sib(i: int) -> int { if i == 0 { 0 } else if i % 2 == 1 { i + 1 } else { i - 1 } }
pub open spec fn par(i: int) -> int { if i <= 0 { 0 } else { (i - 1) / 2 } }
// the siblings on the way from i to the root
pub open spec fn path(s: Seq<Node>, i: int) -> Seq<Node>
    decreases i
{ if i <= 0 { Seq::empty() } else { seq![s[sib(i)]] + path(s, par(i)) } }
// what a proof computes from position p of its lemmas on
pub open spec fn climb(cur: Node, i: int, lem: Seq<Node>) -> Option<Node>
    decreases lem.len()
{
    if lem.len() == 0 { if i == 0 { Some(cur) } else { None } }
    else if i == 0 { None }
    else { climb(if i % 2 == 1 { mrg(cur, lem[0]) } else { mrg(lem[0], cur) }, par(i), lem.drop_first()) }
}
pub open spec fn tree_of(s: Seq<Node>, l: Seq<Node>) -> bool {
    if l.len() == 0 { s.len() == 0 } else { s.len() == 2 * l.len() - 1 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == tnode(l, i) }
}
pub proof fn lemma_xor(x: u64)
    requires 0 < x,
    ensures x % 2 == 1 ==> x ^ 1 == x - 1, x % 2 == 0 ==> x ^ 1 == x + 1 || x == 0xffff_ffff_ffff_ffff,
{ assert(x % 2 == 1 ==> x ^ 1 == sub(x, 1)) by (bit_vector); assert(x % 2 == 0 ==> x ^ 1 == add(x, 1)) by (bit_vector); }
// the honest proof leads to the root
pub proof fn lemma_climb(l: Seq<Node>, s: Seq<Node>, i: int)
    requires tree_of(s, l), 0 <= i < s.len(),
    ensures climb(s[i], i, path(s, i)) == Some(s[0]),
    decreases i,
{
    if i > 0 {
        let p = path(s, i);
        assert(p.len() > 0 && p[0] == s[sib(i)]);
        assert(p.drop_first() =~= path(s, par(i)));
        let q = par(i);
        assert(s[q] == tnode(l, q));
        assert(s[i] == tnode(l, i) && s[sib(i)] == tnode(l, sib(i)));
        assert(2 * q + 1 == i || 2 * q + 2 == i);
        assert(q < l.len() - 1);
        lemma_climb(l, s, q);
    }
}
// with a merge function without collisions, an index and a root leave one leaf only
pub proof fn lemma_binding(a: Node, b: Node, i: int, x: Seq<Node>, y: Seq<Node>)
    requires climb(a, i, x) is Some, climb(a, i, x) == climb(b, i, y), i >= 0,
        forall|p: Node, q: Node, r: Node, t: Node| mrg(p, q) == mrg(r, t) ==> p == r && q == t,
    ensures a == b, x =~= y,
    decreases x.len(),
{
    if i == 0 { assert(x.len() == 0); assert(y.len() == 0); }
    else {
        assert(x.len() > 0 && y.len() > 0);
        let a1 = if i % 2 == 1 { mrg(a, x[0]) } else { mrg(x[0], a) };
        let b1 = if i % 2 == 1 { mrg(b, y[0]) } else { mrg(y[0], b) };
        lemma_binding(a1, b1, par(i), x.drop_first(), y.drop_first());
        assert(x[0] == y[0]);
        assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { if k > 0 { assert(x.drop_first()[k - 1] == y.drop_first()[k - 1]); } }
    }
}
// ---- P10: the leaf at position j of any list of leaves is proved by the proof built for it; and by no proof of another leaf ----
pub proof fn theorem_membership(l: Seq<Node>, s: Seq<Node>, j: int)
    requires tree_of(s, l), 0 <= j < l.len(),
    ensures climb(l[j], l.len() + j - 1, path(s, l.len() + j - 1)) == Some(troot(l)),
{ lemma_climb(l, s, l.len() + j - 1); assert(s[l.len() + j - 1] == tnode(l, l.len() + j - 1)); assert(s[0] == tnode(l, 0)); }
pub proof fn theorem_binding(l: Seq<Node>, s: Seq<Node>, j: int, x: Node, lem: Seq<Node>)
    requires tree_of(s, l), 0 <= j < l.len(), climb(x, l.len() + j - 1, lem) == Some(troot(l)),
        forall|p: Node, q: Node, r: Node, t: Node| mrg(p, q) == mrg(r, t) ==> p == r && q == t,
    ensures x == l[j],
{ theorem_membership(l, s, j); lemma_binding(x, l[j], l.len() + j - 1, lem, path(s, l.len() + j - 1)); }
