@unit cbmt
@prelude base field vec
@types MerkleProof<T,M>=MerkleProof ; MerkleTree<T,M>=MerkleTree ; T=Node
@scalar Node u32
@include tree.rs
@item gadgets/src/merkletree/cbmt.rs MerkleTree
@item gadgets/src/merkletree/cbmt.rs MerkleProof
@call M::merge node_merge($1, $2)
@call T::default Node::default()
@method sibling u32_sibling(&$0)
@method parent u32_parent(&$0)
@method is_left u32_is_left(&$0)
@method is_root u32_is_root(&$0)
@method rchunks_exact vrpairs($0, $1)
@method iter viter(&$0)
@method to_vec vto_vec($0)
@method extend vextend(&mut $0, $1)
@method unwrap vunwrap($0)
@assume the merge function is deterministic; node equality is the value's
@fn u32_sibling
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for u32
@name sibling
@selfarg this
@header
pub fn u32_sibling(this: &u32) -> (ret: u32)
    requires *this < u32::MAX,
    ensures ret == sib(*this as int),
@at fs
proof { let x = (*this + 1) as u32; assert(x % 2 == 1 ==> x ^ 1 == sub(x, 1)) by (bit_vector); assert(x % 2 == 0 ==> x ^ 1 == add(x, 1)) by (bit_vector); }
@fn u32_parent
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for u32
@name parent
@selfarg this
@header
pub fn u32_parent(this: &u32) -> (ret: u32)
    ensures ret == par(*this as int),
@at fs
proof { let x = *this; if x > 0 { let y = (x - 1) as u32; assert(y >> 1 == y / 2) by (bit_vector); } }
@fn u32_is_left
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for u32
@name is_left
@selfarg this
@header
pub fn u32_is_left(this: &u32) -> (ret: bool)
    ensures ret == (*this % 2 == 1),
@at fs
proof { let x = *this; assert((x & 1 == 1) == (x % 2 == 1)) by (bit_vector); }
@fn u32_is_root
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for u32
@name is_root
@selfarg this
@header
pub fn u32_is_root(this: &u32) -> (ret: bool)
    ensures ret == (*this == 0),
@fn usize_sibling
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for usize
@name sibling
@selfarg this
@header
pub fn usize_sibling(this: &usize) -> (ret: usize)
    requires *this < usize::MAX,
    ensures ret == sib(*this as int),
@at fs
proof { let x = (*this + 1) as usize; assert(x % 2 == 1 ==> x ^ 1 == sub(x, 1)) by (bit_vector); assert(x % 2 == 0 ==> x ^ 1 == add(x, 1)) by (bit_vector); }
@fn usize_parent
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for usize
@name parent
@selfarg this
@header
pub fn usize_parent(this: &usize) -> (ret: usize)
    ensures ret == par(*this as int),
@at fs
proof { let x = *this; if x > 0 { let y = (x - 1) as usize; assert(y >> 1 == y / 2) by (bit_vector); } }
@fn usize_is_left
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for usize
@name is_left
@selfarg this
@header
pub fn usize_is_left(this: &usize) -> (ret: bool)
    ensures ret == (*this % 2 == 1),
@at fs
proof { let x = *this; assert((x & 1 == 1) == (x % 2 == 1)) by (bit_vector); }
@fn usize_is_root
@file gadgets/src/merkletree/cbmt.rs
@impl TreeIndex for usize
@name is_root
@selfarg this
@header
pub fn usize_is_root(this: &usize) -> (ret: bool)
    ensures ret == (*this == 0),
@fn build_tree
@file gadgets/src/merkletree/cbmt.rs
@impl CBMT<T,M>
@name build_merkle_tree
@wrap impl CBMT {
@header
pub fn build_merkle_tree(leaves: Vec<Node>) -> (ret: MerkleTree)
    ensures tree_of(ret.nodes@, leaves@),
@inv 0
        len == leaves.len(), len > 0, end0 == len - 1, nodes.len() == 2 * len - 1, forall|j: int| len - 1 - k0 <= j < nodes.len() ==> #[trigger] nodes[j] == tnode(leaves@, j),
@at ls0
proof { let i = (len - 1 - 1 - k0) as usize; assert(i < 0x7fff_ffff_ffff_ffff); assert((i << 1) == 2 * i) by (bit_vector) requires i < 0x7fff_ffff_ffff_ffff; }
@fn tree_root
@file gadgets/src/merkletree/cbmt.rs
@impl MerkleTree<T,M>
@name root
@wrap impl MerkleTree {
@header
pub fn root(&self) -> (ret: Node)
    ensures forall|l: Seq<Node>| tree_of(self.nodes@, l) ==> ret == #[trigger] troot(l),
@fn build_proof
@file gadgets/src/merkletree/cbmt.rs
@impl MerkleTree<T,M>
@name build_proof
@wrap impl MerkleTree {
@refs leaf_index
@header
pub fn build_proof(&self, leaf_index: &u32) -> (ret: Option<MerkleProof>)
    requires self.nodes.len() <= u32::MAX, self.nodes.len() == 0 || self.nodes.len() % 2 == 1,
    ensures ret is Some <==> *leaf_index < self.nodes.len() - self.nodes.len() / 2,
        ret is Some ==> ret->Some_0.index == self.nodes.len() / 2 + *leaf_index && ret->Some_0.lemmas@ =~= path(self.nodes@, ret->Some_0.index as int),
@at fs
proof { let m = self.nodes.len(); assert(m >> 1 == m / 2) by (bit_vector); }
@at lb0
#[verifier::allow_complex_invariants]
@at winv0
    invariant_except_break 0 < new_index <= index, index < self.nodes.len(), self.nodes.len() <= u32::MAX, self.nodes.len() % 2 == 1, lemmas@ + path(self.nodes@, new_index as int) =~= path(self.nodes@, index as int),
    invariant 0 < index < self.nodes.len(), index == self.nodes.len() / 2 + *leaf_index,
    ensures lemmas@ =~= path(self.nodes@, index as int),
    decreases new_index,
@at ls0
let ghost lem0 = lemmas@;
@at let:parent
proof { assert(path(self.nodes@, new_index as int) =~= seq![self.nodes[sibling as int]] + path(self.nodes@, parent as int)); assert(lemmas@ + path(self.nodes@, parent as int) =~= lem0 + path(self.nodes@, new_index as int)); }
@fn proof_root
@file gadgets/src/merkletree/cbmt.rs
@impl MerkleProof<T,M>
@name root
@wrap impl MerkleProof {
@header
pub fn root(&self, leaf: &Node) -> (ret: Option<Node>)
    ensures ret == climb(*leaf, self.index as int, self.lemmas@),
@at lb0
#[verifier::allow_complex_invariants]
@at winv0
    invariant lemmas_iter.s == &self.lemmas, lemmas_iter.pos <= self.lemmas.len(), climb(parent, index as int, self.lemmas@.skip(lemmas_iter.pos as int)) == climb(*leaf, self.index as int, self.lemmas@),
    ensures lemmas_iter.pos == self.lemmas.len(),
    decreases self.lemmas.len() - lemmas_iter.pos,
@at ls0
let ghost p0 = lemmas_iter.pos as int;
proof { if p0 < self.lemmas.len() { assert(self.lemmas@.skip(p0)[0] == self.lemmas[p0]); assert(self.lemmas@.skip(p0).drop_first() =~= self.lemmas@.skip(p0 + 1)); } }
@at fs
proof { assert(self.lemmas@.skip(0) =~= self.lemmas@); }
@fn proof_verify
@file gadgets/src/merkletree/cbmt.rs
@impl MerkleProof<T,M>
@name verify
@wrap impl MerkleProof {
@header
pub fn verify(&self, root: &Node, leaf: &Node) -> (ret: bool)
    ensures ret == (climb(*leaf, self.index as int, self.lemmas@) == Some(*root)),
@fn build_root
@file gadgets/src/merkletree/cbmt.rs
@impl CBMT<T,M>
@name build_merkle_root
@wrap impl CBMT {
@header
pub fn build_merkle_root(leaves: &[Node]) -> (ret: Node)
    requires leaves.len() < usize::MAX,
    ensures ret == troot(leaves@),
@at lb0
#[verifier::allow_complex_invariants]
@at winv0
    invariant iter.s == leaves, iter.end <= leaves.len(), iter.end % 2 == leaves.len() % 2, leaves.len() > 0,
        queue.v.len() == (leaves.len() - iter.end) / 2, forall|j: int| 0 <= j < queue.v.len() ==> #[trigger] queue.v[j] == tnode(leaves@, leaves.len() - 2 - j),
    ensures iter.end < 2,
    decreases iter.end,
@at ls0
let ghost e0 = iter.end as int; let ghost q0 = queue.v@;
@at le0
proof { let n = leaves.len() as int; let j = queue.v.len() - 1; let i = n - 2 - j; assert(e0 == n - 2 * j); assert(0 <= i < n - 1); assert(2 * i + 1 >= n - 1);
    assert(tnode(leaves@, 2 * i + 1) == leaves[e0 - 2]); assert(tnode(leaves@, 2 * i + 2) == leaves[e0 - 1]); assert(tnode(leaves@, i) == mrg(leaves[e0 - 2], leaves[e0 - 1]));
    assert(queue.v@ == q0.push(tnode(leaves@, i))); }
@at winv1
    invariant queue.v.len() > 0, leaves.len() > 0, queue.v.len() <= leaves.len(), forall|j: int| 0 <= j < queue.v.len() ==> #[trigger] queue.v[j] == tnode(leaves@, 2 * (queue.v.len() - 1) - j),
    decreases queue.v.len(),
@fn merkle_proof
@file gadgets/src/merkletree/cbmt.rs
@impl CBMT<T,M>
@name build_merkle_proof
@wrap impl CBMT {
@type Self=CBMT
@header
pub fn build_merkle_proof(leaves: &[Node], index: &u32) -> (ret: Option<MerkleProof>)
    requires 2 * leaves.len() <= u32::MAX,
    ensures ret is Some <==> *index < leaves.len(),
        ret is Some ==> ret->Some_0.verifies(troot(leaves@), leaves[*index as int]),
@at fe
proof { if leaves.len() > 0 && *index < leaves.len() { let n = leaves.len() as int; let s = choose|s: Seq<Node>| tree_of(s, leaves@) && ret_->Some_0.lemmas@ =~= path(s, n - 1 + *index as int); theorem_membership(leaves@, s, *index as int); } }
