@file lib/src/code_tree.rs => code_tree
@header
use crate::rfc::*;
@dropuse itertools::Itertools
@gsubst R-path std::u32::MAX ==> u32::MAX
@skip fmt
@ghost
/// the leaves of the symbols with code length d, in symbol order
pub open spec fn leaves(lens: Seq<u8>, d: int) -> Seq<Node>
    decreases lens.len()
{
    if lens.len() == 0 { Seq::empty() } else {
        let r = leaves(lens.drop_last(), d);
        if lens.last() == d { r.push(Node::Leaf((lens.len() - 1) as u16)) } else { r }
    }
}
pub open spec fn join(s: Seq<Node>) -> Seq<Node> {
    Seq::new(s.len() / 2, |i: int| Node::Internal(Box::new(s[2 * i]), Box::new(s[2 * i + 1])))
}
/// the nodes at depth d of the code tree, left to right: first the leaves, then the inner nodes
pub open spec fn level(lens: Seq<u8>, d: int) -> Seq<Node>
    decreases 16 - d
{
    if d >= 16 { Seq::empty() }
    else if d <= 0 { join(level(lens, 1)) }
    else { leaves(lens, d) + join(level(lens, d + 1)) }
}
/// every level pairs up, and exactly one node is left at the top
pub open spec fn tree_ok(lens: Seq<u8>) -> bool {
    &&& forall|d: int| 1 <= d <= 16 ==> (#[trigger] level(lens, d)).len() % 2 == 0
    &&& level(lens, 0).len() == 1
}

pub proof fn lemma_enum_filter(lens: Seq<u8>, d: u8, q: spec_fn((usize, &u8)) -> bool)
    requires lens.len() <= 65536, forall|x: (usize, &u8)| #[trigger] q(x) == (d == *x.1)
    ensures ({
        let f = enumerated(refs::<u8>(lens)).filter(q);
        &&& f.len() == leaves(lens, d as int).len()
        &&& forall|j: int| 0 <= j < f.len() ==> f[j].0 < lens.len() && leaves(lens, d as int)[j] == Node::Leaf((#[trigger] f[j]).0 as u16)
    })
    decreases lens.len()
{
    let e = enumerated(refs::<u8>(lens));
    reveal(Seq::filter);
    if lens.len() > 0 {
        let p = lens.drop_last();
        lemma_enum_filter(p, d, q);
        let ep = enumerated(refs::<u8>(p));
        assert(e.drop_last() =~= ep);
        let fp = ep.filter(q);
        let f = e.filter(q);
        assert(e.last() == ((lens.len() - 1) as usize, &lens.last()));
        assert(q(e.last()) == (d == lens.last()));
        assert(f == if q(e.last()) { fp.push(e.last()) } else { fp });
        assert(leaves(lens, d as int) == if lens.last() == d { leaves(p, d as int).push(Node::Leaf((lens.len() - 1) as u16)) } else { leaves(p, d as int) });
    }
}

@fn CodeTree::new
@rename iter => vx_iter
@rename into_iter => vx_into_iter
@rename extend => vx_extend
@spec
    requires canonical_code_lengths@.len() <= 65536
    ensures
        r is Ok <==> complete(canonical_code_lengths@),
        r matches Ok(t) ==> built(canonical_code_lengths@, t.root()),
@at start
    proof { lemma_tree_ok_complete(canonical_code_lengths@); }
@at loop0.after
    proof {
        reveal(built);
        assert(nodes@.len() == 1 ==> nodes@ =~= seq![nodes@[0]]);
        assert(nodes@.len() == 1 ==> built(canonical_code_lengths@, nodes@[0]));
    }
@loop 0 iter=__i
    invariant
        tree_ok(canonical_code_lengths@) <==> complete(canonical_code_lengths@),
        canonical_code_lengths@.len() <= 65536,
        __i.seq().len() == 16, forall|j: int| 0 <= j < 16 ==> #[trigger] __i.seq()[j] == 15 - j,
        nodes@ == level(canonical_code_lengths@, 16 - __i.index()),
        nodes@.len() <= 2 * canonical_code_lengths@.len(),
        forall|d: int| 16 - __i.index() < d <= 16 ==> (#[trigger] level(canonical_code_lengths@, d)).len() % 2 == 0,
@closure 0 params{__p: &(usize, &u8)} (b: bool)
    ensures b == (i == *__p.1)
---
    let $PAT = __p;
@closure 1 params{__p: (usize, &u8)} (n: Node)
    requires __p.0 < 65536
    ensures n == Node::Leaf(__p.0 as u16)
---
    let $PAT = __p;
@closure 2 params{__p: (Node, Node)} (n: Node)
    ensures n == Node::Internal(Box::new(__p.0), Box::new(__p.1))
---
    let $PAT = __p;
@at loop0.start
    let ghost __q = |x: (usize, &u8)| i == *x.1;
    let ghost __old = nodes@;
    proof { assert(i == 15 - __i.index()); assert(__old == level(canonical_code_lengths@, i + 1)); }
    proof { lemma_enum_filter(canonical_code_lengths@, i, __q); }
@at loop0.end
    proof {
        let __l = if i > 0 { leaves(canonical_code_lengths@, i as int) } else { Seq::empty() };
        assert(nodes@ =~= __l + join(__old));
        assert(nodes@ =~= level(canonical_code_lengths@, i as int));
    }

@implghost impl CodeTree
    pub open spec fn root(&self) -> Node { Node::Internal(Box::new(self.left), Box::new(self.right)) }

@ghost
/// decoding by walking down: the symbol reached and the bits behind it
pub open spec fn walk(n: Node, bits: Seq<bool>) -> Option<(u16, Seq<bool>)>
    decreases n
{
    match n {
        Node::Leaf(s) => Some((s, bits)),
        Node::Internal(l, r) => if bits.len() == 0 { None } else if bits[0] { walk(*r, bits.skip(1)) } else { walk(*l, bits.skip(1)) },
    }
}
pub open spec fn height(n: Node) -> nat
    decreases n
{
    match n { Node::Leaf(_) => 0, Node::Internal(l, r) => 1 + height(*l) + height(*r) }
}
pub open spec fn node_at(n: Node, path: Seq<bool>) -> Option<Node>
    decreases path.len()
{
    if path.len() == 0 { Some(n) } else {
        match n {
            Node::Leaf(_) => None,
            Node::Internal(l, r) => if path[0] { node_at(*r, path.skip(1)) } else { node_at(*l, path.skip(1)) },
        }
    }
}
pub open spec fn has(n: Node, path: Seq<bool>, s: u16) -> bool { node_at(n, path) == Some(Node::Leaf(s)) }

@fn CodeTree::decode_symbol
@spec
    requires old(reader).src_ok(), old(reader).runs_out() ==> walk(self.root(), old(reader).bits()) is Some
    ensures
        final(reader).src_ok(), final(reader).faulty() == old(reader).faulty(), final(reader).runs_out() == old(reader).runs_out(),
        r matches Ok(v) ==> walk(self.root(), old(reader).bits()) == Some((v, final(reader).bits())),
        B::frame(*old(reader), *final(reader), r is Ok),
        r is Err ==> old(reader).faulty() || walk(self.root(), old(reader).bits()) is None,
        final(reader).bits().len() <= old(reader).bits().len(),

@fn decode_symbol_impl
@spec
    requires old(reader).src_ok(), old(reader).runs_out() ==> walk(Node::Internal(Box::new(*left), Box::new(*right)), old(reader).bits()) is Some
    ensures
        final(reader).src_ok(), final(reader).faulty() == old(reader).faulty(), final(reader).runs_out() == old(reader).runs_out(),
        r matches Ok(v) ==> walk(Node::Internal(Box::new(*left), Box::new(*right)), old(reader).bits()) == Some((v, final(reader).bits())),
        B::frame(*old(reader), *final(reader), r is Ok),
        r is Err ==> old(reader).faulty() || walk(Node::Internal(Box::new(*left), Box::new(*right)), old(reader).bits()) is None,
        final(reader).bits().len() <= old(reader).bits().len(),
    decreases height(*left) + height(*right)
@at start
    proof {
        reveal_with_fuel(walk, 3);
        assert forall|b: B, c: B, k: bool| #[trigger] B::frame(*old(reader), b, true) && #[trigger] B::frame(b, c, k) implies B::frame(*old(reader), c, k) by { B::frame_trans(*old(reader), b, c, k); }
    }

@fn plus_bit
@spec
    requires into.wf(), into@.len() < usize::MAX
    ensures r.wf(), r@ == into@.push(val)

@ghost
pub proof fn lemma_child(n: Node, path: Seq<bool>, b: bool)
    ensures n matches Node::Internal(l, r) ==> node_at(n, seq![b] + path) == node_at(if b { *r } else { *l }, path)
{
    assert((seq![b] + path).skip(1) =~= path);
}
pub open spec fn distinct_leaves(n: Node) -> bool {
    forall|a: Seq<bool>, b: Seq<bool>, s: u16| #[trigger] has(n, a, s) && #[trigger] has(n, b, s) ==> a == b
}
/// n's leaves go to different free places of the table, and its codes are short
pub open spec fn storable(n: Node, t: Seq<Option<BitVec>>, room: int) -> bool {
    &&& distinct_leaves(n)
    &&& forall|a: Seq<bool>, s: u16| #[trigger] has(n, a, s) ==> s < t.len() && t[s as int] is None && a.len() <= room
}
pub open spec fn stored(n: Node, pre: Seq<bool>, t: Seq<Option<BitVec>>, t2: Seq<Option<BitVec>>) -> bool {
    &&& t2.len() == t.len()
    &&& forall|a: Seq<bool>, s: u16| #[trigger] has(n, a, s) ==> (t2[s as int] matches Some(v) && v.wf() && v@ == pre + a)
    &&& forall|s: u16| s < t.len() && (forall|a: Seq<bool>| !#[trigger] has(n, a, s)) ==> #[trigger] t2[s as int] == t[s as int]
}
pub proof fn lemma_has_split(l: Node, r: Node, n: Node)
    requires n == Node::Internal(Box::new(l), Box::new(r))
    ensures
        forall|a: Seq<bool>, s: u16| #[trigger] has(l, a, s) ==> has(n, seq![false] + a, s),
        forall|a: Seq<bool>, s: u16| #[trigger] has(r, a, s) ==> has(n, seq![true] + a, s),
        forall|a: Seq<bool>, s: u16| #[trigger] has(n, a, s) ==> a.len() > 0 && (if a[0] { has(r, a.skip(1), s) } else { has(l, a.skip(1), s) }) && a == seq![a[0]] + a.skip(1),
{
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(l, a, s) implies has(n, seq![false] + a, s) by { lemma_child(n, a, false); }
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(r, a, s) implies has(n, seq![true] + a, s) by { lemma_child(n, a, true); }
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(n, a, s) implies a.len() > 0 && (if a[0] { has(r, a.skip(1), s) } else { has(l, a.skip(1), s) }) && a == seq![a[0]] + a.skip(1) by {
        assert(a =~= seq![a[0]] + a.skip(1));
    }
}
/// storing one subtree, then the other, stores the node
pub proof fn lemma_store_two(f: Node, g: Node, n: Node, pre: Seq<bool>, t: Seq<Option<BitVec>>, room: int, c: bool, d: bool)
    requires d == !c, n == (if c { Node::Internal(Box::new(g), Box::new(f)) } else { Node::Internal(Box::new(f), Box::new(g)) }), storable(n, t, room),
    ensures
        storable(f, t, room - 1),
        forall|t1: Seq<Option<BitVec>>| #[trigger] stored(f, pre.push(c), t, t1) ==> storable(g, t1, room - 1),
        forall|t1: Seq<Option<BitVec>>, t2: Seq<Option<BitVec>>| #[trigger] stored(f, pre.push(c), t, t1) && #[trigger] stored(g, pre.push(d), t1, t2) ==> stored(n, pre, t, t2),
{
    if c { lemma_has_split(g, f, n); } else { lemma_has_split(f, g, n); }
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(f, a, s) implies has(n, seq![c] + a, s) by { }
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(g, a, s) implies has(n, seq![d] + a, s) by { }
    assert forall|a: Seq<bool>, b: Seq<bool>, s: u16| #[trigger] has(f, a, s) && #[trigger] has(f, b, s) implies a == b by {
        let x = seq![c] + a; let y = seq![c] + b;
        assert(has(n, x, s) && has(n, y, s));
        assert(x.skip(1) =~= a && y.skip(1) =~= b);
    }
    assert forall|a: Seq<bool>, b: Seq<bool>, s: u16| #[trigger] has(g, a, s) && #[trigger] has(g, b, s) implies a == b by {
        let x = seq![d] + a; let y = seq![d] + b;
        assert(has(n, x, s) && has(n, y, s));
        assert(x.skip(1) =~= a && y.skip(1) =~= b);
    }
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(f, a, s) implies s < t.len() && t[s as int] is None && a.len() <= room - 1 by { assert(has(n, seq![c] + a, s)); }
    assert forall|a: Seq<bool>, b: Seq<bool>, s: u16| #[trigger] has(f, a, s) && #[trigger] has(g, b, s) implies false by {
        let x = seq![c] + a; let y = seq![d] + b;
        assert(has(n, x, s) && has(n, y, s));
        assert(x[0] != y[0]);
    }
    assert forall|t1: Seq<Option<BitVec>>| #[trigger] stored(f, pre.push(c), t, t1) implies storable(g, t1, room - 1) by {
        assert forall|a: Seq<bool>, s: u16| #[trigger] has(g, a, s) implies s < t1.len() && t1[s as int] is None && a.len() <= room - 1 by {
            assert(has(n, seq![d] + a, s));
            assert(t1[s as int] == t[s as int]);
        }
    }
    assert forall|t1: Seq<Option<BitVec>>, t2: Seq<Option<BitVec>>| #[trigger] stored(f, pre.push(c), t, t1) && #[trigger] stored(g, pre.push(d), t1, t2) implies stored(n, pre, t, t2) by {
        assert forall|a: Seq<bool>, s: u16| #[trigger] has(n, a, s) implies (t2[s as int] matches Some(v) && v.wf() && v@ == pre + a) by {
            let k = a.skip(1);
            assert(pre.push(a[0]) + k =~= pre + a);
            if a[0] == d { assert(has(g, k, s)); } else {
                assert(has(f, k, s));
                assert(forall|b: Seq<bool>| !#[trigger] has(g, b, s));
                assert(t2[s as int] == t1[s as int]);
            }
        }
        assert forall|s: u16| s < t.len() && (forall|a: Seq<bool>| !#[trigger] has(n, a, s)) implies #[trigger] t2[s as int] == t[s as int] by {
            assert forall|a: Seq<bool>| !#[trigger] has(f, a, s) by { if has(f, a, s) { assert(has(n, seq![c] + a, s)); } }
            assert forall|a: Seq<bool>| !#[trigger] has(g, a, s) by { if has(g, a, s) { assert(has(n, seq![d] + a, s)); } }
            assert(t1[s as int] == t[s as int]);
        }
    }
}

pub proof fn lemma_has_leaf(n: Node) -> (x: (Seq<bool>, u16))
    ensures has(n, x.0, x.1), n is Internal ==> x.0.len() > 0
    decreases n
{
    match n {
        Node::Leaf(s) => (Seq::<bool>::empty(), s),
        Node::Internal(l, r) => {
            let x = lemma_has_leaf(*l);
            lemma_child(n, x.0, false);
            (seq![false] + x.0, x.1)
        },
    }
}
pub proof fn lemma_store_start(n: Node, pre: Seq<bool>, t: Seq<Option<BitVec>>, room: int)
    requires storable(n, t, room)
    ensures
        n matches Node::Leaf(s) ==> s < t.len() && t[s as int] is None && forall|v: BitVec| v.wf() && v@ == pre ==> stored(n, pre, t, #[trigger] t.update(s as int, Some(v))),
        n matches Node::Internal(l, r) ==> {
            &&& room >= 1
            &&& storable(*l, t, room - 1)
            &&& forall|t1: Seq<Option<BitVec>>| #[trigger] stored(*l, pre.push(false), t, t1) ==> storable(*r, t1, room - 1)
            &&& forall|t1: Seq<Option<BitVec>>, t2: Seq<Option<BitVec>>| #[trigger] stored(*l, pre.push(false), t, t1) && #[trigger] stored(*r, pre.push(true), t1, t2) ==> stored(n, pre, t, t2)
            &&& storable(*r, t, room - 1)
            &&& forall|t1: Seq<Option<BitVec>>| #[trigger] stored(*r, pre.push(true), t, t1) ==> storable(*l, t1, room - 1)
            &&& forall|t1: Seq<Option<BitVec>>, t2: Seq<Option<BitVec>>| #[trigger] stored(*r, pre.push(true), t, t1) && #[trigger] stored(*l, pre.push(false), t1, t2) ==> stored(n, pre, t, t2)
        },
{
    let x = lemma_has_leaf(n);
    match n {
        Node::Leaf(s) => {
            let e = Seq::<bool>::empty();
            assert(has(n, e, s));
            assert(pre + e =~= pre);
            assert forall|a: Seq<bool>, s2: u16| #[trigger] has(n, a, s2) implies a == e && s2 == s by { assert(a =~= e); }
        },
        Node::Internal(l, r) => { lemma_store_two(*l, *r, n, pre, t, room, false, true); lemma_store_two(*r, *l, n, pre, t, room, true, false); },
    }
}

@fn store_code
@spec
    requires prefix.wf(), exists|room: int| #[trigger] storable(*node, old(into)@, room) && prefix@.len() + room < usize::MAX
    ensures stored(*node, prefix@, old(into)@, final(into)@)
    decreases *node
@at start
    let ghost __room = choose|room: int| #[trigger] storable(*node, old(into)@, room) && prefix@.len() + room < usize::MAX;
    let ghost __pre = prefix@;
    let ghost __t = into@;
    proof { lemma_store_start(*node, __pre, __t, __room); }


@ghost
// ---- the tree is the canonical code of RFC 1951
#[verifier::opaque]
pub open spec fn built(lens: Seq<u8>, root: Node) -> bool { lens.len() <= 65536 && tree_ok(lens) && level(lens, 0) == seq![root] }

pub proof fn lemma_leaves_count(lens: Seq<u8>, d: int)
    requires lens.len() <= 65536
    ensures
        leaves(lens, d).len() == count(lens, d),
        forall|k: int| 0 <= k < lens.len() && lens[k] == d ==> count(#[trigger] lens.take(k), d) < count(lens, d) && leaves(lens, d)[count(lens.take(k), d) as int] == Node::Leaf(k as u16),
        forall|j: int| 0 <= j < count(lens, d) ==> (#[trigger] leaves(lens, d)[j] matches Node::Leaf(s) && s < lens.len() && lens[s as int] == d && count(lens.take(s as int), d) == j),
    decreases lens.len()
{
    if lens.len() > 0 {
        let p = lens.drop_last();
        lemma_leaves_count(p, d);
        let n = lens.len() - 1;
        assert(lens.take(n) =~= p);
        assert forall|k: int| 0 <= k < lens.len() && lens[k] == d implies count(#[trigger] lens.take(k), d) < count(lens, d) && leaves(lens, d)[count(lens.take(k), d) as int] == Node::Leaf(k as u16) by {
            if k < n { assert(lens.take(k) =~= p.take(k)); assert(p[k] == d); }
        }
        assert forall|j: int| 0 <= j < count(lens, d) implies (#[trigger] leaves(lens, d)[j] matches Node::Leaf(s) && s < lens.len() && lens[s as int] == d && count(lens.take(s as int), d) == j) by {
            if j < count(p, d) {
                let s = leaves(p, d)[j]->Leaf_0;
                assert(lens.take(s as int) =~= p.take(s as int));
            }
        }
    }
}
/// C06: a tree is built exactly for complete codes
pub proof fn lemma_tree_ok_complete(lens: Seq<u8>)
    requires lens.len() <= 65536
    ensures tree_ok(lens) <==> complete(lens), complete(lens) ==> lens.len() >= 2
{
    if lens.len() < 2 { reveal_with_fuel(kraft, 3); }
    lemma_left_kraft(lens);
    if left(lens, 15) == 0 {
        lemma_left_level(lens, 0);
        assert forall|d: int| 1 <= d <= 16 implies (#[trigger] level(lens, d)).len() % 2 == 0 by { lemma_left_level(lens, (d - 1) as nat); }
    }
    if tree_ok(lens) { lemma_level_left(lens, 15); }
}
pub proof fn lemma_left_level(lens: Seq<u8>, d: nat)
    requires lens.len() <= 65536, left(lens, 15) == 0, d <= 15
    ensures level(lens, d as int + 1).len() == 2 * left(lens, d)
    decreases 15 - d
{
    if d < 15 {
        lemma_left_level(lens, d + 1);
        lemma_leaves_count(lens, d as int + 1);
    }
}
pub proof fn lemma_level_left(lens: Seq<u8>, d: nat)
    requires lens.len() <= 65536, tree_ok(lens), d <= 15
    ensures level(lens, d as int + 1).len() == 2 * left(lens, d)
    decreases d
{
    if d > 0 {
        lemma_level_left(lens, (d - 1) as nat);
        lemma_leaves_count(lens, d as int);
    }
}
pub proof fn lemma_node_at_push(n: Node, path: Seq<bool>, b: bool)
    ensures node_at(n, path) matches Some(m) ==> (m matches Node::Internal(l, r) ==> node_at(n, path.push(b)) == Some(if b { *r } else { *l }))
    decreases path.len()
{
    if path.len() == 0 {
        reveal_with_fuel(node_at, 2);
        assert(path.push(b).skip(1) =~= Seq::<bool>::empty());
    } else {
        match n {
            Node::Leaf(_) => {},
            Node::Internal(l, r) => {
                lemma_node_at_push(if path[0] { *r } else { *l }, path.skip(1), b);
                assert(path.push(b).skip(1) =~= path.skip(1).push(b));
            },
        }
    }
}
/// leaves at depth d (none at the root)
pub open spec fn nleaves(lens: Seq<u8>, d: int) -> int { if d <= 0 { 0 } else { count(lens, d) as int } }

/// the numerical code of the p-th node at depth d
pub open spec fn code_at(lens: Seq<u8>, d: nat, p: int) -> Seq<bool> { code_bits((next_code(lens, d) + p) as nat, d) }

pub proof fn lemma_code_at_child(lens: Seq<u8>, d: nat, i: int, b: bool)
    requires i >= 0
    ensures code_at(lens, d + 1, 2 * i + if b { 1int } else { 0 }) == code_at(lens, d, nleaves(lens, d as int) + i).push(b)
{
    let v = next_code(lens, d + 1) + 2 * i + if b { 1int } else { 0 };
    assert(next_code(lens, d + 1) == 2 * (next_code(lens, d) + nleaves(lens, d as int)));
    assert(v / 2 == next_code(lens, d) + nleaves(lens, d as int) + i);
    assert(v % 2 == if b { 1int } else { 0 });
}
pub proof fn lemma_node_path(lens: Seq<u8>, root: Node, d: nat, p: int)
    requires built(lens, root), d <= 15, 0 <= p < level(lens, d as int).len()
    ensures node_at(root, code_at(lens, d, p)) == Some(level(lens, d as int)[p])
    decreases d
{
    reveal(built);
    if d > 0 {
        let e = (d - 1) as nat;
        let i = p / 2;
        lemma_leaves_count(lens, e as int);
        assert(level(lens, d as int).len() % 2 == 0);
        let q = nleaves(lens, e as int) + i;
        assert(level(lens, e as int)[q] == join(level(lens, d as int))[i]);
        lemma_node_path(lens, root, e, q);
        lemma_node_at_push(root, code_at(lens, e, q), p % 2 == 1);
        lemma_code_at_child(lens, e, i, p % 2 == 1);
        assert(2 * i + (if p % 2 == 1 { 1int } else { 0 }) == p);
    }
}
#[verifier::rlimit(60)]
pub proof fn lemma_leaf_code(lens: Seq<u8>, d: nat, p: int, a: Seq<bool>, s: u16)
    requires lens.len() <= 65536, d <= 15, 0 <= p < level(lens, d as int).len(), has(level(lens, d as int)[p], a, s),
        forall|e: int| 1 <= e <= 16 ==> (#[trigger] level(lens, e)).len() % 2 == 0,
    ensures coded(lens, s as int), codeword(lens, s as int) == code_at(lens, d, p) + a
    decreases 16 - d
{
    lemma_leaves_count(lens, d as int);
    let c = nleaves(lens, d as int);
    if p < c {
        assert(level(lens, d as int)[p] == leaves(lens, d as int)[p]);
        assert(leaves(lens, d as int)[p] matches Node::Leaf(x) && count(lens.take(x as int), d as int) == p);
        assert(a.len() == 0 && level(lens, d as int)[p] == Node::Leaf(s));
        assert(code_at(lens, d, p) + a =~= code_at(lens, d, p));
    } else {
        let i = p - c;
        assert(level(lens, d as int)[p] == join(level(lens, d as int + 1))[i]);
        assert(a.len() > 0);
        let b = a[0];
        let q = 2 * i + if b { 1int } else { 0 };
        lemma_leaf_code(lens, d + 1, q, a.skip(1), s);
        lemma_code_at_child(lens, d, i, b);
        assert(code_at(lens, d, p).push(b) + a.skip(1) =~= code_at(lens, d, p) + a);
    }
}
/// C06: the leaves are exactly the symbols of non-zero length, each at its RFC 1951 code word
pub proof fn lemma_canonical(lens: Seq<u8>, root: Node)
    requires built(lens, root)
    ensures
        forall|a: Seq<bool>, s: u16| #[trigger] has(root, a, s) ==> coded(lens, s as int) && a == codeword(lens, s as int),
        forall|k: int| #[trigger] coded(lens, k) ==> has(root, codeword(lens, k), k as u16),
{
    reveal(built);
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(root, a, s) implies coded(lens, s as int) && a == codeword(lens, s as int) by {
        lemma_leaf_code(lens, 0, 0, a, s);
        assert(code_at(lens, 0, 0) + a =~= a);
    }
    assert forall|k: int| #[trigger] coded(lens, k) implies has(root, codeword(lens, k), k as u16) by {
        let d = lens[k] as nat;
        lemma_leaves_count(lens, d as int);
        let p = count(lens.take(k), d as int) as int;
        lemma_node_path(lens, root, d, p);
    }
}
pub proof fn lemma_walk_has(n: Node, a: Seq<bool>, s: u16, rest: Seq<bool>)
    requires has(n, a, s)
    ensures walk(n, a + rest) == Some((s, rest))
    decreases a.len()
{
    if a.len() == 0 { assert(a + rest =~= rest); }
    else {
        match n {
            Node::Leaf(_) => {},
            Node::Internal(l, r) => {
                lemma_walk_has(if a[0] { *r } else { *l }, a.skip(1), s, rest);
                assert((a + rest).skip(1) =~= a.skip(1) + rest);
            },
        }
    }
}
pub proof fn lemma_walk_path(n: Node, bits: Seq<bool>) -> (a: Seq<bool>)
    requires walk(n, bits) is Some
    ensures walk(n, bits) matches Some((s, rest)) && has(n, a, s) && bits == a + rest
    decreases n
{
    match n {
        Node::Leaf(_) => { assert(Seq::<bool>::empty() + bits =~= bits); Seq::empty() },
        Node::Internal(l, r) => {
            let b = bits[0];
            let a = lemma_walk_path(if b { *r } else { *l }, bits.skip(1));
            lemma_child(n, a, b);
            let rest = walk(n, bits).unwrap().1;
            assert(walk(if b { *r } else { *l }, bits.skip(1)) == walk(n, bits));
            assert(bits.skip(1) == a + rest);
            assert((seq![b] + a) + rest =~= seq![b] + (a + rest));
            assert(seq![b] + bits.skip(1) =~= bits);
            seq![b] + a
        },
    }
}
/// C06: decoding reads exactly one code word
pub proof fn lemma_walk_is_huff(lens: Seq<u8>, root: Node, bits: Seq<bool>)
    requires built(lens, root)
    ensures walk(root, bits) == huff(lens, bits)
{
    reveal(built);
    reveal(huff);
    lemma_canonical(lens, root);
    if walk(root, bits) is Some {
        let a = lemma_walk_path(root, bits);
        let s = walk(root, bits).unwrap().0;
        assert(coded(lens, s as int) && codeword(lens, s as int) == a);
        assert(a.is_prefix_of(bits)) by { assert((a + walk(root, bits).unwrap().1).take(a.len() as int) =~= a); }
    }
    if exists|k: int| coded(lens, k) && #[trigger] codeword(lens, k).is_prefix_of(bits) {
        let k = choose|k: int| coded(lens, k) && #[trigger] codeword(lens, k).is_prefix_of(bits);
        let c = codeword(lens, k);
        lemma_codeword_len(lens, k);
        assert(bits =~= c + bits.skip(lens[k] as int));
        lemma_walk_has(root, c, k as u16, bits.skip(lens[k] as int));
    }
}

@ghost
/// C06: the encoding table of the code
pub open spec fn is_table(lens: Seq<u8>, t: Seq<Option<BitVec>>) -> bool {
    &&& t.len() >= 288
    &&& forall|k: int| 0 <= k < t.len() ==> (match #[trigger] t[k] { Some(v) => coded(lens, k) && v.wf() && v@ == codeword(lens, k), None => !coded(lens, k) })
}
pub proof fn lemma_storable(lens: Seq<u8>, root: Node, t: Seq<Option<BitVec>>)
    requires built(lens, root), lens.len() <= 288, 288 <= t.len() <= 65536, forall|k: int| 0 <= k < t.len() ==> t[k] is None
    ensures
        storable(root, t, 15),
        forall|t2: Seq<Option<BitVec>>| #[trigger] stored(root, Seq::empty(), t, t2) ==> is_table(lens, t2),
{
    lemma_canonical(lens, root);
    assert forall|a: Seq<bool>, s: u16| #[trigger] has(root, a, s) implies s < t.len() && t[s as int] is None && a.len() <= 15 by {
        lemma_codeword_len(lens, s as int);
    }
    assert forall|t2: Seq<Option<BitVec>>| #[trigger] stored(root, Seq::empty(), t, t2) implies is_table(lens, t2) by {
        assert forall|k: int| 0 <= k < t2.len() implies (match #[trigger] t2[k] { Some(v) => coded(lens, k) && v.wf() && v@ == codeword(lens, k), None => !coded(lens, k) }) by {
            if coded(lens, k) {
                assert(has(root, codeword(lens, k), k as u16));
                assert(t2[(k as u16) as int] is Some);
                assert(Seq::<bool>::empty() + codeword(lens, k) =~= codeword(lens, k));
            } else {
                assert forall|a: Seq<bool>| !#[trigger] has(root, a, k as u16) by { }
                assert(t2[(k as u16) as int] == t[k]);
            }
        }
    }
}
@fn CodeTree::invert
@spec
    requires exists|lens: Seq<u8>| #[trigger] built(lens, self.root()) && lens.len() <= 288
    ensures forall|lens: Seq<u8>| #[trigger] built(lens, self.root()) && lens.len() <= 288 ==> is_table(lens, r@)
@at before store_code #0
    let ghost __nones = into@;
    proof {
        let lens = choose|lens: Seq<u8>| #[trigger] built(lens, self.root()) && lens.len() <= 288;
        lemma_storable(lens, self.root(), __nones);
        lemma_store_start(self.root(), Seq::empty(), __nones, 15);
        assert forall|lens: Seq<u8>| #[trigger] built(lens, self.root()) && lens.len() <= 288 implies forall|t2: Seq<Option<BitVec>>| #[trigger] stored(self.root(), Seq::empty(), __nones, t2) ==> is_table(lens, t2) by { lemma_storable(lens, self.root(), __nones); }
    }
