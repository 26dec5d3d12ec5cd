@file lib/src/serialise.rs => serialise
@header
use vstd::arithmetic::power2::*;
use crate::rfc::*;
use crate::circles::*;
use crate::code_tree::*;
use crate::bit::*;
use crate::parse::dist_built;
use crate::{toks, codes_wf};
@gsubst R-lazy &huffman::FIXED_LENGTH_TREE ==> huffman::FIXED_LENGTH_TREE()
@gsubst R-lazy &huffman::FIXED_DISTANCE_TREE ==> huffman::FIXED_DISTANCE_TREE()
@skip Lengths
@skip tree_to_lengths

@ghost
// ---- C02: what tokens and blocks denote
/// the history behind a token; None when it reaches further back than the history (of which the last cap bytes are kept)
pub open spec fn denote(h: Seq<u8>, t: Tok, cap: nat) -> Option<Seq<u8>> {
    match t {
        Tok::Lit(b) => Some(h.push(b)),
        Tok::Ref { dist, len } => if 1 <= dist <= h.len() && dist <= cap { Some(copied(h, dist as int, len)) } else { None },
    }
}
pub open spec fn expand(h: Seq<u8>, t: Seq<Tok>, cap: nat) -> Option<Seq<u8>>
    decreases t.len()
{
    if t.len() == 0 { Some(h) }
    else { match expand(h, t.drop_last(), cap) { None => None, Some(p) => denote(p, t.last(), cap) } }
}
/// the history up to the first token that cannot be followed
pub open spec fn expand_max(h: Seq<u8>, t: Seq<Tok>, cap: nat) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { h }
    else { match expand(h, t, cap) { Some(p) => p, None => expand_max(h, t.drop_last(), cap) } }
}
pub open spec fn blk_expand(h: Seq<u8>, b: Blk, cap: nat) -> Option<Seq<u8>> {
    match b { Blk::Stored(d) => Some(h + d), Blk::Fixed(t) => expand(h, t, cap), Blk::Dyn { trees, toks } => expand(h, toks, cap) }
}
pub open spec fn blk_expand_max(h: Seq<u8>, b: Blk, cap: nat) -> Seq<u8> {
    match b { Blk::Stored(d) => h + d, Blk::Fixed(t) => expand_max(h, t, cap), Blk::Dyn { trees, toks } => expand_max(h, toks, cap) }
}
pub proof fn lemma_denote_len(h: Seq<u8>, t: Tok, cap: nat)
    ensures denote(h, t, cap) matches Some(p) ==> h.is_prefix_of(p)
{
    match t { Tok::Lit(b) => {}, Tok::Ref { dist, len } => { lemma_copied_len(h, dist as int, len); } }
}
pub proof fn lemma_expand_prefix(h: Seq<u8>, t: Seq<Tok>, cap: nat)
    ensures
        expand(h, t, cap) matches Some(p) ==> h.is_prefix_of(p) && expand_max(h, t, cap) == p,
        h.is_prefix_of(expand_max(h, t, cap)),
    decreases t.len()
{
    if t.len() > 0 {
        lemma_expand_prefix(h, t.drop_last(), cap);
        if expand(h, t.drop_last(), cap) is Some { lemma_denote_len(expand(h, t.drop_last(), cap).unwrap(), t.last(), cap); }
    }
}
/// a failed or unfinished prefix already determines what may come out
pub proof fn lemma_expand_mono(h: Seq<u8>, t: Seq<Tok>, n: int, cap: nat)
    requires 0 <= n <= t.len()
    ensures
        expand(h, t.take(n), cap) is None ==> expand(h, t, cap) is None && expand_max(h, t, cap) == expand_max(h, t.take(n), cap),
        expand_max(h, t.take(n), cap).is_prefix_of(expand_max(h, t, cap)),
    decreases t.len()
{
    if n < t.len() {
        lemma_expand_mono(h, t.drop_last(), n, cap);
        assert(t.drop_last().take(n) =~= t.take(n));
        lemma_expand_prefix(h, t, cap);
        lemma_expand_prefix(h, t.drop_last(), cap);
        if expand(h, t, cap) is Some {
            lemma_denote_len(expand(h, t.drop_last(), cap).unwrap(), t.last(), cap);
        }
    } else {
        assert(t.take(n) =~= t);
    }
}
/// C02 over whole histories: with the last cap bytes in the window, the window decides everything
pub proof fn lemma_expand_window(h: Seq<u8>, t: Seq<Tok>, cap: nat)
    requires cap > 0
    ensures ({
        let v = tail(h, cap);
        let (a, b) = (expand(v, t, cap), expand(h, t, cap));
        let (c, d) = (expand_max(v, t, cap), expand_max(h, t, cap));
        &&& a is Some <==> b is Some
        &&& a is Some ==> tail(a.unwrap(), cap) == tail(b.unwrap(), cap) && a.unwrap().skip(v.len() as int) == b.unwrap().skip(h.len() as int)
        &&& tail(c, cap) == tail(d, cap) && c.skip(v.len() as int) == d.skip(h.len() as int)
    })
    decreases t.len()
{
    let v = tail(h, cap);
    if t.len() == 0 {
        assert(v.skip(v.len() as int) =~= h.skip(h.len() as int));
    } else {
        lemma_expand_window(h, t.drop_last(), cap);
        lemma_expand_prefix(h, t.drop_last(), cap);
        lemma_expand_prefix(v, t.drop_last(), cap);
        if expand(h, t.drop_last(), cap) is Some {
            let q = expand(h, t.drop_last(), cap).unwrap();
            let p = expand(v, t.drop_last(), cap).unwrap();
            lemma_denote_window(v, h, p, q, t.last(), cap);
        }
    }
}
pub proof fn lemma_denote_window(v: Seq<u8>, h: Seq<u8>, p: Seq<u8>, q: Seq<u8>, t: Tok, cap: nat)
    requires cap > 0, tail(p, cap) == tail(q, cap), v.is_prefix_of(p), h.is_prefix_of(q), p.skip(v.len() as int) == q.skip(h.len() as int), v == tail(h, cap)
    ensures ({
        let (a, b) = (denote(p, t, cap), denote(q, t, cap));
        &&& a is Some <==> b is Some
        &&& a is Some ==> tail(a.unwrap(), cap) == tail(b.unwrap(), cap) && a.unwrap().skip(v.len() as int) == b.unwrap().skip(h.len() as int)
    })
{
    match t {
        Tok::Lit(x) => {
            lemma_tail_push(p, x, cap); lemma_tail_push(q, x, cap);
            assert(p.push(x).skip(v.len() as int) =~= p.skip(v.len() as int).push(x));
            assert(q.push(x).skip(h.len() as int) =~= q.skip(h.len() as int).push(x));
        },
        Tok::Ref { dist, len } => {
            if 1 <= dist <= tail(p, cap).len() {
                lemma_copied_window(p, dist as int, len, cap);
                lemma_copied_window(q, dist as int, len, cap);
                lemma_copied_len(p, dist as int, len); lemma_copied_len(q, dist as int, len);
                let (a, b) = (copied(p, dist as int, len), copied(q, dist as int, len));
                assert(a.skip(v.len() as int) =~= p.skip(v.len() as int) + a.skip(p.len() as int));
                assert(b.skip(h.len() as int) =~= q.skip(h.len() as int) + b.skip(q.len() as int));
            }
        },
    }
}
/// ... and so for blocks: decompressing with the window of h appends exactly what the block denotes behind h
pub proof fn lemma_block_window(h: Seq<u8>, b: Blk, cap: nat)
    requires cap > 0
    ensures ({
        let v = tail(h, cap);
        let (x, y) = (blk_expand(v, b, cap), blk_expand(h, b, cap));
        let (c, d) = (blk_expand_max(v, b, cap), blk_expand_max(h, b, cap));
        &&& x is Some <==> y is Some
        &&& x is Some ==> tail(x.unwrap(), cap) == tail(y.unwrap(), cap) && x.unwrap().skip(v.len() as int) == y.unwrap().skip(h.len() as int)
        &&& c.skip(v.len() as int) == d.skip(h.len() as int)
    })
{
    match b {
        Blk::Stored(d) => {
            lemma_tail_add(h, d, cap);
            assert((tail(h, cap) + d).skip(tail(h, cap).len() as int) =~= d);
            assert((h + d).skip(h.len() as int) =~= d);
        },
        Blk::Fixed(t) => { lemma_expand_window(h, t, cap); },
        Blk::Dyn { trees, toks } => { lemma_expand_window(h, toks, cap); },
    }
}

@fn decompressed_block
@byref into
@spec
    requires old(dictionary).wf(), block.wf()
    ensures
        final(dictionary).wf(), final(dictionary).cap() == old(dictionary).cap(), (*final(into)).faulty() == (*old(into)).faulty(),
        ({
            let v = old(dictionary).view();
            let (e, m) = (blk_expand(v, block@, old(dictionary).cap()), blk_expand_max(v, block@, old(dictionary).cap()));
            &&& r is Ok ==> e is Some && (*final(into)).written() == (*old(into)).written() + e.unwrap().skip(v.len() as int)
                    && final(dictionary).view() == tail(e.unwrap(), old(dictionary).cap())
            &&& r is Err ==> e is None || (*old(into)).faulty()
            &&& (*final(into)).written().is_prefix_of((*old(into)).written() + m.skip(v.len() as int))
        }),
@at start
    let ghost __v = dictionary.view();
    proof { 
        if let Block::Uncompressed(d) = block { assert((__v + d@).skip(__v.len() as int) =~= d@); }
    }

@fn decompressed_codes
@fattr #[verifier::rlimit(40)]
@byref into
@spec
    requires old(dictionary).wf(), codes_wf(codes@)
    ensures
        final(dictionary).wf(), final(dictionary).cap() == old(dictionary).cap(), (*final(into)).faulty() == (*old(into)).faulty(),
        ({
            let v = old(dictionary).view();
            let (e, m) = (expand(v, toks(codes@), old(dictionary).cap()), expand_max(v, toks(codes@), old(dictionary).cap()));
            &&& r is Ok ==> e is Some && (*final(into)).written() == (*old(into)).written() + e.unwrap().skip(v.len() as int)
                    && final(dictionary).view() == tail(e.unwrap(), old(dictionary).cap())
            &&& r is Err ==> e is None || (*old(into)).faulty()
            &&& (*final(into)).written().is_prefix_of((*old(into)).written() + m.skip(v.len() as int))
        }),
@at start
    let ghost __v = dictionary.view();
    let ghost __cap = dictionary.cap();
    let ghost __t = toks(codes@);
    let ghost __w = (*into).written();
@at loop0.before
    proof {
        assert(__t.take(0) =~= Seq::<Tok>::empty());
        assert(tail(__v, __cap) =~= __v);
        assert(__w + __v.skip(__v.len() as int) =~= __w);
    }
@loop 0 iter=__i
    invariant
        dictionary.wf(), dictionary.cap() == __cap, into.faulty() == (*old(into)).faulty(), codes_wf(codes@), __t == toks(codes@),
        __v == old(dictionary).view(), __cap == old(dictionary).cap(), __w == (*old(into)).written(),
        expand(__v, __t.take(__i.index()), __cap) is Some,
        dictionary.view() == tail(expand(__v, __t.take(__i.index()), __cap).unwrap(), __cap),
        into.written() == __w + expand(__v, __t.take(__i.index()), __cap).unwrap().skip(__v.len() as int),
@at loop0.start
    let ghost __n = __i.index();
    let ghost __p = expand(__v, __t.take(__n), __cap).unwrap();
    proof {
        assert(__t.take(__n + 1).drop_last() =~= __t.take(__n));
        assert(__t.take(__n + 1).last() == code.tok());
        lemma_expand_mono(__v, __t, __n, __cap);
        lemma_expand_mono(__v, __t, __n + 1, __cap);
        lemma_expand_prefix(__v, __t.take(__n), __cap);
        lemma_expand_prefix(__v, __t.take(__n + 1), __cap);
        lemma_denote_len(__p, code.tok(), __cap);
        assert(__p == tail(__p, __cap) || __p.len() > __cap);
        if let Code::Literal(b) = *code {
            lemma_tail_push(__p, b, __cap);
            let k = __v.len() as int;
            let mx = expand_max(__v, __t, __cap);
            assert(__p.push(b).skip(k) =~= __p.skip(k) + seq![b]);
            assert(__p.push(b).is_prefix_of(mx));
            assert((__w + __p.push(b).skip(k)).is_prefix_of(__w + mx.skip(k)));
            assert(into.written() + seq![b] =~= __w + __p.push(b).skip(k));
        }
        if let Code::Reference(x) = *code {
            if 1 <= x.dist <= tail(__p, __cap).len() {
                lemma_copied_window(__p, x.dist as int, x.len(), __cap);
                lemma_copied_len(__p, x.dist as int, x.len());
                let a = copied(__p, x.dist as int, x.len());
                assert(a.skip(__v.len() as int) =~= __p.skip(__v.len() as int) + a.skip(__p.len() as int));
            }
        }
    }
@at end
    proof { assert(__t.take(__t.len() as int) =~= __t); }

@ghost
// ---- C01: what a block is written as, over the code lengths of its codes
pub open spec fn len_sym(len: int) -> int { choose|s: int| #[trigger] is_len_sym(len, s) }
pub open spec fn dist_sym(dist: int) -> int { choose|s: int| #[trigger] is_dist_sym(dist, s) }
/// the extra bits behind a symbol
pub open spec fn len_tail(len: int, s: int) -> Seq<bool> { val_bits((len - len_base(s)) as u16, len_extra(s)) }
pub open spec fn dist_tail(dist: int, s: int) -> Seq<bool> { val_bits((dist - dist_base(s)) as u16, dist_extra(s)) }
pub open spec fn enc_tok(l: Seq<u8>, d: Option<Seq<u8>>, t: Tok) -> Option<Seq<bool>> {
    match t {
        Tok::Lit(b) => if coded(l, b as int) { Some(codeword(l, b as int)) } else { None },
        Tok::Ref { dist, len } => {
            let (s, e) = (len_sym(len as int), dist_sym(dist as int));
            match d {
                None => None,
                Some(x) => if 3 <= len <= 258 && 1 <= dist <= 32768 && coded(l, s) && coded(x, e) {
                    Some(codeword(l, s) + len_tail(len as int, s) + (codeword(x, e) + dist_tail(dist as int, e)))
                } else { None },
            }
        },
    }
}
pub open spec fn enc_toks(l: Seq<u8>, d: Option<Seq<u8>>, t: Seq<Tok>) -> Option<Seq<bool>>
    decreases t.len()
{
    if t.len() == 0 { Some(Seq::empty()) }
    else { match enc_toks(l, d, t.drop_last()) { None => None, Some(a) => match enc_tok(l, d, t.last()) { None => None, Some(b) => Some(a + b) } } }
}
/// the tokens and the end-of-block symbol
pub open spec fn enc_codes(l: Seq<u8>, d: Option<Seq<u8>>, t: Seq<Tok>) -> Option<Seq<bool>> {
    match enc_toks(l, d, t) { None => None, Some(a) => if coded(l, 256) { Some(a + codeword(l, 256)) } else { None } }
}
/// a block written behind pos bits
pub open spec fn enc_blk(pos: nat, b: Blk) -> Option<Seq<bool>> {
    match b {
        Blk::Stored(w) => if w.len() > 65535 { None } else { Some(val_bits(0, 2) + zeros(pad_len(pos + 2)) + bytes_bits(stored_header(w.len()) + w)) },
        Blk::Fixed(t) => match enc_codes(fixed_lit(), Some(fixed_dist()), t) { None => None, Some(a) => Some(val_bits(1, 2) + a) },
        Blk::Dyn { trees, toks } => match p_trees(trees) {
            None => None,
            Some(((l, d), _)) => match enc_codes(l, d, toks) { None => None, Some(a) => Some(val_bits(2, 2) + trees + a) },
        },
    }
}
pub open spec fn same_code(l: Seq<u8>, l2: Seq<u8>) -> bool {
    forall|k: int| #![trigger coded(l, k)] #![trigger coded(l2, k)] 0 <= k < 288 ==> coded(l, k) == coded(l2, k) && (coded(l, k) ==> codeword(l, k) == codeword(l2, k))
}
pub open spec fn same_dist(d: Option<Seq<u8>>, d2: Option<Seq<u8>>) -> bool {
    match (d, d2) { (Some(a), Some(b)) => same_code(a, b), (None, None) => true, _ => false }
}
pub proof fn lemma_table_same(l: Seq<u8>, l2: Seq<u8>, t: Seq<Option<BitVec>>)
    requires is_table(l, t), is_table(l2, t)
    ensures same_code(l, l2)
{
    assert forall|k: int| 0 <= k < 288 implies coded(l, k) == coded(l2, k) && (#[trigger] coded(l, k) ==> codeword(l, k) == codeword(l2, k)) by { let x = t[k]; }
    assert forall|k: int| 0 <= k < 288 implies #[trigger] coded(l2, k) == coded(l, k) && (coded(l, k) ==> codeword(l, k) == codeword(l2, k)) by { let x = t[k]; }
}
pub proof fn lemma_same_enc(l: Seq<u8>, d: Option<Seq<u8>>, l2: Seq<u8>, d2: Option<Seq<u8>>, t: Seq<Tok>)
    requires same_code(l, l2), same_dist(d, d2)
    ensures enc_toks(l, d, t) == enc_toks(l2, d2, t), enc_codes(l, d, t) == enc_codes(l2, d2, t)
    decreases t.len()
{
    if t.len() > 0 {
        lemma_same_enc(l, d, l2, d2, t.drop_last());
        match t.last() {
            Tok::Lit(b) => { assert(coded(l, b as int) == coded(l2, b as int)); },
            Tok::Ref { dist, len } => {
                if 3 <= len <= 258 && 1 <= dist <= 32768 {
                    lemma_syms(len as int, dist as int);
                    assert(coded(l, len_sym(len as int)) == coded(l2, len_sym(len as int)));
                    if d is Some { assert(coded(d.unwrap(), dist_sym(dist as int)) == coded(d2.unwrap(), dist_sym(dist as int))); }
                }
            },
        }
    }
    assert(coded(l, 256) == coded(l2, 256));
}
pub proof fn lemma_syms(len: int, dist: int)
    ensures 3 <= len <= 258 ==> is_len_sym(len, len_sym(len)), 1 <= dist <= 32768 ==> is_dist_sym(dist, dist_sym(dist))
{
    if 3 <= len <= 258 { lemma_len_sym_exists(len); }
    if 1 <= dist <= 32768 { lemma_dist_sym_exists(dist); }
}
pub proof fn lemma_syms_are(len: int, dist: int)
    ensures
        3 <= len <= 258 ==> forall|s: int| #[trigger] is_len_sym(len, s) ==> s == len_sym(len),
        1 <= dist <= 32768 ==> forall|s: int| #[trigger] is_dist_sym(dist, s) ==> s == dist_sym(dist),
{
    lemma_syms(len, dist);
    if 3 <= len <= 258 { assert forall|s: int| #[trigger] is_len_sym(len, s) implies s == len_sym(len) by { lemma_len_sym_one(len, s, len_sym(len)); } }
    if 1 <= dist <= 32768 { assert forall|s: int| #[trigger] is_dist_sym(dist, s) implies s == dist_sym(dist) by { lemma_dist_sym_one(dist, s, dist_sym(dist)); } }
}
/// a prefix of tokens that can be written
pub proof fn lemma_enc_prefix(l: Seq<u8>, d: Option<Seq<u8>>, t: Seq<Tok>, n: int)
    requires 0 <= n <= t.len(), enc_toks(l, d, t) is Some
    ensures enc_toks(l, d, t.take(n)) is Some
    decreases t.len()
{
    if n < t.len() {
        lemma_enc_prefix(l, d, t.drop_last(), n);
        assert(t.drop_last().take(n) =~= t.take(n));
    } else { assert(t.take(n) =~= t); }
}

@fn encode_run
@spec
    requires old(into).wf(), 3 <= run <= 258, exists|l: Seq<u8>| #[trigger] is_table(l, length_tree@) && coded(l, len_sym(run as int))
    ensures
        final(into).inner.faulty() == old(into).inner.faulty(),
        r is Ok ==> final(into).wf() && forall|l: Seq<u8>| #[trigger] is_table(l, length_tree@) ==>
            final(into).out() == old(into).out() + (codeword(l, len_sym(run as int)) + len_tail(run as int, len_sym(run as int))),
        r is Err ==> old(into).inner.faulty(),
@at start
    proof {
        lemma2_to64();
        lemma_syms_are(run as int, 0);
        lemma_syms(run as int, 0);
        let s = len_sym(run as int);
        let x = length_tree@[s];
        assert(len_extra(s) == 0 ==> len_tail(run as int, s) =~= Seq::empty());
        assert forall|a: Seq<bool>, b: Seq<bool>, c: Seq<bool>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
        assert forall|a: Seq<bool>| #[trigger] (a + Seq::empty()) == a by { assert(a + Seq::empty() =~= a); }
        assert forall|v: u16| (#[trigger] val_bits(v, 0)) == Seq::<bool>::empty() by { assert(val_bits(v, 0) =~= Seq::empty()); }
    }

@fn encode_distance
@spec
    requires old(into).wf(), 1 <= dist <= 32768, tree is Some, exists|l: Seq<u8>| #[trigger] is_table(l, tree.unwrap()@) && coded(l, dist_sym(dist as int))
    ensures
        final(into).inner.faulty() == old(into).inner.faulty(),
        r is Ok ==> final(into).wf() && forall|l: Seq<u8>| #[trigger] is_table(l, tree.unwrap()@) ==>
            final(into).out() == old(into).out() + (codeword(l, dist_sym(dist as int)) + dist_tail(dist as int, dist_sym(dist as int))),
        r is Err ==> old(into).inner.faulty(),
@at start
    proof {
        lemma2_to64();
        lemma_syms_are(0, dist as int);
        lemma_syms(0, dist as int);
        let s = dist_sym(dist as int);
        let x = tree.unwrap()@[s];
        assert(dist_extra(s) == 0 ==> dist_tail(dist as int, s) =~= Seq::empty());
        assert forall|a: Seq<bool>, b: Seq<bool>, c: Seq<bool>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
        assert forall|a: Seq<bool>| #[trigger] (a + Seq::empty()) == a by { assert(a + Seq::empty() =~= a); }
        assert forall|v: u16| (#[trigger] val_bits(v, 0)) == Seq::<bool>::empty() by { assert(val_bits(v, 0) =~= Seq::empty()); }
    }

@fn compressed_codes
@spec
    requires
        old(into).wf(), codes_wf(codes@),
        exists|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length_tree.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance_tree) && enc_codes(l, d, toks(codes@)) is Some,
    ensures
        final(into).inner.faulty() == old(into).inner.faulty(),
        r is Ok ==> final(into).wf(),
        r is Ok ==> forall|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length_tree.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance_tree) ==>
            (enc_codes(l, d, toks(codes@)) matches Some(e) && final(into).out() == old(into).out() + e),
        r is Err ==> old(into).inner.faulty(),
@at start
    let ghost __lt = length_tree.root();
    let ghost __dt = distance_tree;
    let ghost __t = toks(codes@);
    let ghost (__l, __d) = choose|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length_tree.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance_tree) && enc_codes(l, d, toks(codes@)) is Some;
@closure 0 params{tree: &CodeTree} (t: Vec<Option<BitVec>>)
    requires exists|l: Seq<u8>| #[trigger] built(l, tree.root()) && l.len() <= 288
    ensures forall|l: Seq<u8>| #[trigger] built(l, tree.root()) && l.len() <= 288 ==> is_table(l, t@)
---
@at loop0.before
    let ghost __ld = match distance_tree { Some(ref x) => Some(x@), None => None };
    proof {
        assert(is_table(__l, length_tree@));
        assert(__d is Some ==> is_table(__d.unwrap(), __ld.unwrap()));
        assert forall|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, __lt) && l.len() <= 288 && #[trigger] dist_built(d, __dt) implies
            enc_codes(l, d, __t) == enc_codes(__l, __d, __t) by {
            lemma_table_same(__l, l, length_tree@);
            if d is Some { lemma_table_same(__d.unwrap(), d.unwrap(), __ld.unwrap()); }
            lemma_same_enc(__l, __d, l, d, __t);
        }
        let x = length_tree@[256];
        assert(__t.take(0) =~= Seq::<Tok>::empty());
        assert(into.out() + Seq::empty() =~= into.out());
    }
@loop 0 iter=__i
    invariant
        into.wf(), into.inner.faulty() == old(into).inner.faulty(),
        codes_wf(codes@), __t == toks(codes@), enc_toks(__l, __d, __t) is Some,
        is_table(__l, length_tree@), __d is Some <==> distance_tree is Some,
        __d is Some ==> is_table(__d.unwrap(), distance_tree.unwrap()@),
        enc_toks(__l, __d, __t.take(__i.index())) matches Some(e) && into.out() == old(into).out() + e,
@at loop0.start
    let ghost __n = __i.index();
    proof {
        lemma_enc_prefix(__l, __d, __t, __n + 1);
        assert(__t.take(__n + 1).drop_last() =~= __t.take(__n));
        assert(__t.take(__n + 1).last() == code.tok());
        lemma_syms(match code.tok() { Tok::Ref { dist, len } => len as int, _ => 0 }, match code.tok() { Tok::Ref { dist, len } => dist as int, _ => 0 });
        if let Code::Literal(b) = *code { let x = length_tree@[b as int]; }
        assert forall|a: Seq<bool>, b: Seq<bool>, c: Seq<bool>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    }
@at loop0.after
    proof {
        assert(__t.take(__t.len() as int) =~= __t);
        let x = length_tree@[256];
        assert forall|a: Seq<bool>, b: Seq<bool>, c: Seq<bool>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    }

@fn compressed_block
@spec
    requires old(into).wf(), block.wf(), enc_blk(old(into).out().len(), block@) is Some
    ensures
        final(into).inner.faulty() == old(into).inner.faulty(),
        r is Ok ==> final(into).wf() && final(into).out() == old(into).out() + enc_blk(old(into).out().len(), block@).unwrap(),
        r is Err ==> old(into).inner.faulty(),
@at start
    let ghost __o = into.out();
    proof {
        assert forall|t: &CodeTree| #[trigger] built(fixed_dist(), t.root()) implies dist_built(Some(fixed_dist()), Some(t)) by {}
        assert forall|a: Seq<bool>, b: Seq<bool>, c: Seq<bool>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    }
@at before compressed_codes #1
    let ghost __dl = p_trees(trees@).unwrap().0.1;
    let ghost __ll = p_trees(trees@).unwrap().0.0;
    proof {
        assert(built(__ll, length.root()));
        assert(dist_built(__dl, match distance { Some(ref t) => Some(t), None => None }));
    }

@ghost
// ---- C01: what was parsed is written back bit for bit
pub open spec fn ends(b: Seq<bool>, r: Seq<bool>) -> bool { r.len() <= b.len() && b.skip(b.len() - r.len()) == r }
/// b without the z at its end
pub open spec fn cut(b: Seq<bool>, z: Seq<bool>) -> Seq<bool> { b.take(b.len() - z.len()) }
pub open spec fn cuts(b: Seq<bool>, z: Seq<bool>) -> bool { b.len() >= z.len() && b == cut(b, z) + z }
pub proof fn lemma_ends_trans(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>)
    requires ends(a, b), ends(b, c)
    ensures ends(a, c)
{
    assert(a.skip(a.len() - c.len()) =~= b.skip(b.len() - c.len()));
}
pub proof fn lemma_ends_cuts(b: Seq<bool>, r: Seq<bool>, z: Seq<bool>)
    requires ends(b, r), cuts(b, z), r.len() >= z.len()
    ensures cuts(r, z), ends(cut(b, z), cut(r, z))
{
    assert(r =~= cut(r, z) + z) by {
        assert forall|i: int| 0 <= i < r.len() implies r[i] == (cut(r, z) + z)[i] by { assert(r[i] == b[i + b.len() - r.len()]); }
    }
    let (x, y) = (cut(b, z), cut(r, z));
    assert(x.skip(x.len() - y.len()) =~= y) by {
        assert forall|i: int| 0 <= i < y.len() implies x.skip(x.len() - y.len())[i] == y[i] by { assert(r[i] == b[i + b.len() - r.len()]); }
    }
}
pub proof fn lemma_rd_ends(b: Seq<bool>, n: nat)
    ensures rd(b, n) matches Some((v, r)) ==> ends(b, r) && r.len() + n == b.len()
{
}
pub proof fn lemma_rd_cut(b: Seq<bool>, z: Seq<bool>, n: nat)
    requires cuts(b, z)
    ensures rd(b, n) matches Some((v, r)) ==> r.len() >= z.len() ==> rd(cut(b, z), n) == Some((v, cut(r, z))) && cuts(r, z)
{
    if rd(b, n) is Some {
        let (v, r) = rd(b, n).unwrap();
        if r.len() >= z.len() {
            lemma_ends_cuts(b, r, z);
            assert(cut(b, z).take(n as int) =~= b.take(n as int));
            assert(cut(b, z).skip(n as int) =~= cut(r, z));
        }
    }
}
pub proof fn lemma_huff_exact(l: Seq<u8>, k: int, rest: Seq<bool>)
    requires complete(l), l.len() <= 65536, coded(l, k)
    ensures huff(l, codeword(l, k) + rest) == Some((k as u16, rest))
{
    lemma_tree_ok_complete(l);
    let root = level(l, 0)[0];
    assert(level(l, 0) =~= seq![root]);
    reveal(built);
    lemma_canonical(l, root);
    lemma_walk_has(root, codeword(l, k), k as u16, rest);
    lemma_walk_is_huff(l, root, codeword(l, k) + rest);
}
pub proof fn lemma_huff_inv(l: Seq<u8>, b: Seq<bool>)
    requires l.len() <= 65536
    ensures huff(l, b) matches Some((s, r)) ==> coded(l, s as int) && b == codeword(l, s as int) + r && r.len() < b.len() && ends(b, r)
{
    reveal(huff);
    if exists|k: int| coded(l, k) && #[trigger] codeword(l, k).is_prefix_of(b) {
        let k = choose|k: int| coded(l, k) && #[trigger] codeword(l, k).is_prefix_of(b);
        lemma_codeword_len(l, k);
        assert(b =~= codeword(l, k) + b.skip(l[k] as int));
    }
}
pub proof fn lemma_huff_cut(l: Seq<u8>, b: Seq<bool>, z: Seq<bool>)
    requires complete(l), l.len() <= 65536, cuts(b, z)
    ensures huff(l, b) matches Some((s, r)) ==> r.len() >= z.len() ==> huff(l, cut(b, z)) == Some((s, cut(r, z))) && cuts(r, z)
{
    lemma_huff_inv(l, b);
    if huff(l, b) is Some {
        let (s, r) = huff(l, b).unwrap();
        if r.len() >= z.len() {
            lemma_ends_cuts(b, r, z);
            assert(cut(b, z) =~= codeword(l, s as int) + cut(r, z));
            lemma_huff_exact(l, s as int, cut(r, z));
        }
    }
}
pub proof fn lemma_cl_cut(b: Seq<bool>, z: Seq<bool>, n: nat)
    requires cuts(b, z)
    ensures p_cl(b, n) matches Some((a, r)) ==> ends(b, r) && a.len() == 19 && (r.len() >= z.len() ==> p_cl(cut(b, z), n) == Some((a, cut(r, z))) && cuts(r, z))
    decreases n
{
    assert(b.skip(0) =~= b);
    if n > 0 {
        lemma_cl_cut(b, z, (n - 1) as nat);
        if p_cl(b, n) is Some {
            let (a, r) = p_cl(b, (n - 1) as nat).unwrap();
            lemma_rd_ends(r, 3);
            lemma_ends_trans(b, r, rd(r, 3).unwrap().1);
            if r.len() >= z.len() { lemma_rd_cut(r, z, 3); }
        }
    }
}
#[verifier::rlimit(60)]
pub proof fn lemma_lens_cut(cl: Seq<u8>, b: Seq<bool>, z: Seq<bool>, total: nat, acc: Seq<u8>)
    requires cl.len() <= 65536, cuts(b, z)
    ensures
        p_lens(cl, b, total, acc) matches Some((lens, r)) ==> ends(b, r) && lens.len() == total
            && (complete(cl) && r.len() >= z.len() ==> p_lens(cl, cut(b, z), total, acc) == Some((lens, cut(r, z))) && cuts(r, z)),
    decreases (if total > acc.len() { total - acc.len() } else { 0 })
{
    assert(b.skip(0) =~= b);
    if acc.len() < total && p_lens(cl, b, total, acc) is Some {
        let (lens, rr) = p_lens(cl, b, total, acc).unwrap();
        lemma_huff_inv(cl, b);
        let (s, r) = huff(cl, b).unwrap();
        let n: nat = if s <= 15 { 0 } else if s == 16 { 2 } else if s == 17 { 3 } else { 7 };
        assert(r.skip(0) =~= r);
        assert(r.take(0) =~= Seq::empty());
        let (v, r2) = rd(r, n).unwrap();
        lemma_rd_ends(r, n);
        lemma_ends_trans(b, r, r2);
        let a2 = if s <= 15 { acc.push(s as u8) } else if s == 16 { acc + rep(acc.last(), v + 3) } else if s == 17 { acc + rep(0, v + 3) } else { acc + rep(0, v + 11) };
        assert(p_lens(cl, r2, total, a2) == p_lens(cl, b, total, acc));
        assert(r2 =~= cut(r2, Seq::empty()) + Seq::<bool>::empty());
        lemma_lens_cut(cl, r2, Seq::empty(), total, a2);
        lemma_ends_trans(b, r2, rr);
        if complete(cl) && rr.len() >= z.len() {
            lemma_huff_cut(cl, b, z);
            lemma_rd_cut(r, z, n);
            lemma_lens_cut(cl, r2, z, total, a2);
            assert(cut(r, z).skip(0) =~= cut(r, z));
        }
    }
}
pub proof fn lemma_trees_cut(b: Seq<bool>)
    ensures p_trees(b) matches Some(((l, d), r)) ==> {
        &&& l.len() <= 288 && complete(l)
        &&& d matches Some(x) ==> x.len() <= 32 && complete(x)
        &&& cuts(b, r)
        &&& p_trees(cut(b, r)) == Some(((l, d), Seq::<bool>::empty()))
    }
{
    reveal(p_trees); reveal(p_trees_cl); reveal(p_trees_lens);
    lemma2_to64();
    if p_trees(b) is Some {
        let ((l, d), r) = p_trees(b).unwrap();
        let (hlit, b1) = rd(b, 5).unwrap();
        let (hdist, b2) = rd(b1, 5).unwrap();
        let (hclen, b3) = rd(b2, 4).unwrap();
        lemma_bits_val_bound(b.take(5)); lemma_bits_val_bound(b1.take(5)); lemma_bits_val_bound(b2.take(4));
        let (cl, b4) = p_cl(b3, hclen + 4).unwrap();
        let e = Seq::<bool>::empty();
        lemma_rd_ends(b, 5); lemma_rd_ends(b1, 5); lemma_rd_ends(b2, 4);
        assert(b3 =~= cut(b3, e) + e); assert(b4 =~= cut(b4, e) + e);
        lemma_cl_cut(b3, e, hclen + 4);
        lemma_lens_cut(cl, b4, e, (hlit + 257 + hdist + 1) as nat, Seq::empty());
        lemma_ends_trans(b, b1, b2); lemma_ends_trans(b, b2, b3); lemma_ends_trans(b, b3, b4); lemma_ends_trans(b, b4, r);
        assert(b =~= cut(b, r) + r);
        lemma_rd_cut(b, r, 5); lemma_rd_cut(b1, r, 5); lemma_rd_cut(b2, r, 4);
        lemma_cl_cut(b3, r, hclen + 4);
        lemma_lens_cut(cl, b4, r, (hlit + 257 + hdist + 1) as nat, Seq::empty());
        assert(cut(r, r) =~= Seq::<bool>::empty());
    }
}
/// some length is spelled as symbol 284 with its extra bits all set, which is 258: the writer says 285
pub open spec fn odd_toks(l: Seq<u8>, d: Option<Seq<u8>>, bits: Seq<bool>) -> bool
    decreases bits.len()
{
    match p_tok(l, d, bits) {
        Some((Some(t), r)) => r.len() < bits.len() && ((huff(l, bits).unwrap().0 == 284 && (t matches Tok::Ref { dist, len } && len == 258)) || odd_toks(l, d, r)),
        _ => false,
    }
}
pub open spec fn odd_blk(b: Seq<bool>) -> bool {
    match rd(b, 2) {
        Some((k, r)) => {
            ||| k == 1 && odd_toks(fixed_lit(), Some(fixed_dist()), r)
            ||| k == 2 && (p_trees(r) matches Some(((l, d), r2)) && odd_toks(l, d, r2))
        },
        None => false,
    }
}
pub proof fn lemma_tok_rewrite(l: Seq<u8>, d: Option<Seq<u8>>, bits: Seq<bool>)
    requires l.len() <= 65536, d matches Some(x) ==> x.len() <= 65536
    ensures match p_tok(l, d, bits) {
        None => true,
        Some((None, r)) => coded(l, 256) && bits == codeword(l, 256) + r,
        Some((Some(t), r)) => (huff(l, bits).unwrap().0 == 284 && (t matches Tok::Ref { dist, len } && len == 258))
            || (enc_tok(l, d, t) matches Some(e) && bits == e + r),
    }
{
    hide(len_base); hide(len_extra); hide(dist_base); hide(dist_extra); hide(codeword); hide(rd); hide(val_bits); hide(is_len_sym); hide(is_dist_sym); hide(p_len); hide(p_dist);
    lemma_huff_inv(l, bits);
    if p_tok(l, d, bits) is Some && huff(l, bits).unwrap().0 > 256 {
        let (s, r) = huff(l, bits).unwrap();
        lemma_len_inv(s as int, r);
        let (len, r2) = p_len(s as int, r).unwrap();
        lemma_huff_inv(d.unwrap(), r2);
        let (ds, r3) = huff(d.unwrap(), r2).unwrap();
        lemma_dist_inv(ds as int, r3);
        let (dist, r4) = p_dist(ds as int, r3).unwrap();
        if !(s == 284 && len == 258) {
            lemma_syms_are(len as int, dist as int);
            let (a, b) = (codeword(l, s as int), len_tail(len as int, s as int));
            let (x, y) = (codeword(d.unwrap(), ds as int), dist_tail(dist as int, ds as int));
            assert(bits == a + (b + (x + (y + r4))));
            assert(bits =~= (a + b + (x + y)) + r4);
        }
    }
}
pub proof fn lemma_toks_rewrite(l: Seq<u8>, d: Option<Seq<u8>>, bits: Seq<bool>, acc: Seq<Tok>, ea: Seq<bool>)
    requires l.len() <= 65536, d matches Some(x) ==> x.len() <= 65536, enc_toks(l, d, acc) == Some(ea), !odd_toks(l, d, bits)
    ensures p_toks(l, d, bits, acc) matches Some((t, r)) ==> enc_codes(l, d, t) matches Some(e) && ea + bits == e + r
    decreases bits.len()
{
    lemma_p_toks(l, d, bits, acc);
    lemma_tok_rewrite(l, d, bits);
    match p_tok(l, d, bits) {
        None => {},
        Some((None, r)) => { assert(ea + (codeword(l, 256) + r) =~= (ea + codeword(l, 256)) + r); },
        Some((Some(t), r)) => {
            let e = enc_tok(l, d, t).unwrap();
            assert(acc.push(t).drop_last() =~= acc);
            lemma_toks_rewrite(l, d, r, acc.push(t), ea + e);
            assert(ea + (e + r) =~= (ea + e) + r);
        },
    }
}
/// every whole number of bytes is some bytes
pub proof fn lemma_bytes_exist(b: Seq<bool>) -> (w: Seq<u8>)
    requires b.len() % 8 == 0
    ensures bytes_bits(w) == b
    decreases b.len()
{
    if b.len() == 0 {
        assert(bytes_bits(Seq::empty()) =~= b);
        Seq::empty()
    } else {
        let p = lemma_bytes_exist(b.take(b.len() - 8));
        let q = b.skip(b.len() - 8);
        let x = lemma_byte_exists(q);
        lemma_bytes_bits_cat(p, seq![x]);
        lemma_bytes_bits_one(x);
        assert(b =~= b.take(b.len() - 8) + q);
        p + seq![x]
    }
}
pub proof fn lemma_byte_exists(q: Seq<bool>) -> (x: u8)
    requires q.len() == 8
    ensures byte_bits(x) == q
{
    let v = bits_val(q) as u16;
    lemma_bits_round(q);
    lemma_bits_val_bound(q);
    lemma2_to64();
    let x = v as u8;
    assert forall|i: int| 0 <= i < 8 implies byte_bits(x)[i] == q[i] by {
        let j = i as u16;
        let k = i as u8;
        assert(q[i] == val_bits(v, 8)[i]);
        assert(((v as u8) >> k) & 1 == 1 <==> (v >> j) & 1 == 1) by (bit_vector) requires j < 8, k == j as u8, v < 256;
    }
    assert(byte_bits(x) =~= q);
    x
}
pub proof fn lemma_fixed_sizes()
    ensures fixed_lit().len() == 288, fixed_dist().len() == 32
{
}
pub proof fn lemma_stored_split(w: Seq<u8>)
    ensures stored_len(w) matches Some(m) ==> m <= 65535 && w.skip(4).take(m as int).len() == m && w == (stored_header(m) + w.skip(4).take(m as int)) + w.skip(4 + m as int)
{
    if stored_len(w) is Some {
        let m = stored_len(w).unwrap();
        assert(w =~= (stored_header(m) + w.skip(4).take(m as int)) + w.skip(4 + m as int));
    }
}
pub proof fn lemma_align_split(r: Seq<bool>)
    ensures p_align(r) matches Some(a) ==> a.len() % 8 == 0 && r == zeros(r.len() % 8) + a
{
    if p_align(r) is Some { assert(r =~= zeros(r.len() % 8) + p_align(r).unwrap()); }
}
pub proof fn lemma_stored_rewrite(h: Seq<bool>, r: Seq<bool>, pos: nat)
    requires (pos + 2 + r.len()) % 8 == 0
    ensures p_stored(r) matches Some((blk, rest)) ==> blk matches Blk::Stored(w) && w.len() <= 65535
        && h + r == (h + zeros(pad_len(pos + 2)) + bytes_bits(stored_header(w.len()) + w)) + rest
{
    hide(p_align);
    if p_stored(r) is Some {
        let (blk, rest) = p_stored(r).unwrap();
        let n = r.len() % 8;
        let a = p_align(r).unwrap();
        lemma_align_split(r);
        let w = lemma_bytes_exist(a);
        lemma_to_bytes(w);
        lemma_stored_split(w);
        let m = stored_len(w).unwrap();
        let (data, t) = (w.skip(4).take(m as int), w.skip(4 + m as int));
        lemma_bytes_bits_cat(stored_header(m) + data, t);
        assert(pad_len(pos + 2) == n);
        assert(h + (zeros(n) + (bytes_bits(stored_header(m) + data) + rest)) =~= (h + zeros(n) + bytes_bits(stored_header(m) + data)) + rest);
    }
}
pub proof fn lemma_codes_rewrite(h: Seq<bool>, l: Seq<u8>, d: Option<Seq<u8>>, r: Seq<bool>)
    requires l.len() <= 65536, d matches Some(x) ==> x.len() <= 65536, !odd_toks(l, d, r)
    ensures p_toks(l, d, r, Seq::empty()) matches Some((t, rest)) ==> enc_codes(l, d, t) matches Some(e) && h + r == (h + e) + rest
{
    hide(enc_codes);
    assert(enc_toks(l, d, Seq::empty()) == Some(Seq::<bool>::empty()));
    lemma_toks_rewrite(l, d, r, Seq::empty(), Seq::empty());
    assert(Seq::<bool>::empty() + r =~= r);
    if p_toks(l, d, r, Seq::empty()) is Some {
        let (t, rest) = p_toks(l, d, r, Seq::empty()).unwrap();
        let e = enc_codes(l, d, t).unwrap();
        assert(h + (e + rest) =~= (h + e) + rest);
    }
}
pub proof fn lemma_cat_ends(e: Seq<bool>, r: Seq<bool>)
    ensures ends(e + r, r)
{
    assert((e + r).skip(e.len() as int) =~= r);
}
/// C01: a block that was read (at a place where its writer has written as much) is written back as it was
pub proof fn lemma_blk_rewrite(b: Seq<bool>, pos: nat)
    requires (pos + b.len()) % 8 == 0, !odd_blk(b)
    ensures p_blk(b) matches Some((blk, r)) ==> enc_blk(pos, blk) matches Some(e) && b == e + r && ends(b, r)
{
    hide(val_bits); hide(codeword); hide(enc_codes); hide(fixed_lit); hide(fixed_dist); hide(p_stored); hide(ends); hide(zeros); hide(stored_header);
    hide(odd_toks);
    lemma_rd_inv(b, 2);
    lemma2_to64();
    lemma_fixed_sizes();
    if p_blk(b) is Some {
        let (k, r) = rd(b, 2).unwrap();
        let (blk, rest) = p_blk(b).unwrap();
        let h = val_bits(k as u16, 2);
        if k == 0 {
            lemma_stored_rewrite(h, r, pos);
        } else if k == 1 {
            lemma_codes_rewrite(h, fixed_lit(), Some(fixed_dist()), r);
        } else {
            let ((l, d), r2) = p_trees(r).unwrap();
            lemma_trees_cut(r);
            lemma_codes_rewrite(h + cut(r, r2), l, d, r2);
            assert(h + (cut(r, r2) + r2) =~= (h + cut(r, r2)) + r2);
            assert(blk == Blk::Dyn { trees: r.take(r.len() - r2.len()), toks: blk->toks });
            assert(cut(r, r2) =~= r.take(r.len() - r2.len()));
        }
        lemma_cat_ends(enc_blk(pos, blk).unwrap(), rest);
    }
}

@ghost
// ---- C01 for whole streams: the loop that callers run, checked against the contracts above
/// some block of the stream has a length in its second spelling
pub open spec fn odd_stream(bits: Seq<bool>) -> bool
    decreases bits.len()
{
    bits.len() > 0 && (odd_blk(bits.skip(1)) || (!bits[0] && match p_blk(bits.skip(1)) {
        Some((_, r)) => r.len() < bits.len() && odd_stream(r),
        None => false,
    }))
}
pub proof fn lemma_stream_step(o: Seq<bool>, c: Seq<bool>, all: Seq<bool>, blk: Blk, r: Seq<bool>)
    requires o + c == all, all.len() % 8 == 0, c.len() > 0, !odd_stream(c), p_blk(c.skip(1)) == Some((blk, r))
    ensures ({
        let o2 = o.push(c[0]);
        &&& enc_blk(o2.len(), blk) matches Some(e) && (o2 + e) + r == all
        &&& r.len() < c.len()
        &&& !c[0] ==> !odd_stream(r)
    })
{
    hide(p_blk); hide(enc_blk); hide(odd_blk);
    let o2 = o.push(c[0]);
    assert(all.len() == o.len() + c.len());
    assert((o2.len() + c.skip(1).len()) % 8 == 0);
    lemma_blk_rewrite(c.skip(1), o2.len());
    let e = enc_blk(o2.len(), blk).unwrap();
    assert((o2 + e) + r =~= o2 + (e + r));
    assert(o2 + c.skip(1) =~= o + c);
}
pub proof fn lemma_stream_end(o: Seq<bool>, b: Seq<bool>, all: Seq<bool>, rest: Seq<bool>)
    requires o + b == all, all.len() % 8 == 0, p_align(b) == Some(rest)
    ensures (o + zeros(pad_len(o.len()))) + rest == all
{
    lemma_align_split(b);
    assert(all.len() == o.len() + b.len());
    assert(pad_len(o.len()) == b.len() % 8);
    assert(o + (zeros(b.len() % 8) + rest) =~= (o + zeros(b.len() % 8)) + rest);
}
pub fn rewrite_stream<R: crate::vx::io::Read, W: crate::vx::io::Write>(bytes: R, into: W) -> (ret: Result<(W, R), Error>)
    requires sane_len(bytes.rest().len()), !odd_stream(bytes_bits(bytes.rest()))
    ensures ret matches Ok((w, rd)) ==> w.written() + rd.rest() == into.written() + bytes.rest()
{
    hide(odd_stream); hide(p_blk); hide(enc_blk); hide(p_align);
    let ghost __all = bytes_bits(into.written() + bytes.rest());
    let ghost __in = bytes.rest();
    let mut w = BitWriter::new(into);
    let mut it = crate::parse::parse_deflate(bytes);
    let ghost mut __c = it.bits();
    proof {
        lemma_bytes_bits_cat(into.written(), __in);
    }
    let mut cur = match it.next() { None => None, Some(b) => Some(b?) };
    loop
        invariant_except_break
            w.out() + __c == __all,
            cur matches Some(b) && b.wf() && __c.len() > 0 && it.end == __c[0] && p_blk(__c.skip(1)) == Some((b@, it.bits())) && it.bits().len() < __c.len(),
        invariant
            w.wf(), it.wf(), __all.len() % 8 == 0, !odd_stream(__c),
        ensures
            w.wf(), w.out() + it.inner.bits() == __all, w.current@.len() == 0, it.wf(), it.inner.remaining_bits == 0, it.bits() == bytes_bits(it.inner.inner.rest()),
        decreases __c.len()
    {
        let block = match cur { Some(b) => b, None => { assert(false); return Err(Error::raised()); } };
        let ghost __b = it.bits();
        cur = match it.next() { None => None, Some(b) => Some(b?) };
        let ghost __o = w.out();
        w.write_bit(cur.is_none())?;
        proof {
            assert(__o.push(__c[0]) == w.out());
            lemma_stream_step(__o, __c, __all, block@, __b);
        }
        crate::serialise::compressed_block(&mut w, &block)?;
        if cur.is_none() {
            let ghost __o3 = w.out();
            w.align()?;
            proof { lemma_stream_end(__o3, __b, __all, it.bits()); }
            break;
        }
        proof { __c = __b; }
    }
    let r = it.inner.into_inner();
    let o = w.into_inner();
    proof {
        lemma_bytes_bits_cat(o.written(), r.rest());
        lemma_bytes_bits_inj(o.written() + r.rest(), into.written() + __in);
    }
    Ok((o, r))
}
