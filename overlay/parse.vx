@file lib/src/parse.rs => parse
@header
use vstd::arithmetic::power2::*;
use crate::rfc::*;
use crate::code_tree::*;
use crate::bit::*;
use crate::{toks, codes_wf};
@gsubst R-lazy &huffman::FIXED_LENGTH_TREE ==> huffman::FIXED_LENGTH_TREE()
@gsubst R-lazy &huffman::FIXED_DISTANCE_TREE ==> huffman::FIXED_DISTANCE_TREE()
@gsubst R-ctor map(Block::Uncompressed) ==> map(|__v: Vec<u8>| -> (__r: Block) ensures __r == Block::Uncompressed(__v) { Block::Uncompressed(__v) })
@gsubst R-ctor map(Block::FixedHuffman) ==> map(|__v: Vec<Code>| -> (__r: Block) ensures __r == Block::FixedHuffman(__v) { Block::FixedHuffman(__v) })
@inherent Iterator for BlockIter

@ghost
impl<R: Read> BlockIter<R> {
    pub open spec fn wf(&self) -> bool { self.inner.wf() }
    pub open spec fn bits(&self) -> Seq<bool> { self.inner.bits() }
    pub open spec fn faulty(&self) -> bool { self.inner.inner.faulty() }
    /// an Iterator is its own IntoIterator
    pub fn into_iter(self) -> (r: Self)
        ensures r == self
    { self }
}
/// the parser refuses back-references without a distance code, and reads 0 distances in no case
pub open spec fn dist_built(d: Option<Seq<u8>>, t: Option<&CodeTree>) -> bool {
    match t { Some(t) => (d matches Some(x) && x.len() <= 32 && built(x, t.root())), None => d is None }
}

@fn parse_deflate
@spec
    requires sane_len(bytes.rest().len())
    ensures r.wf(), !r.end, r.bits() == bytes_bits(bytes.rest()), r.inner.inner == bytes

@fn Iterator for BlockIter::next
@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).faulty() == old(self).faulty(),
        !old(self).end ==> (match r {
            None => false,
            Some(Ok(b)) => {
                &&& old(self).bits().len() > 0 && final(self).end == old(self).bits()[0]
                &&& p_blk(old(self).bits().skip(1)) == Some((b@, final(self).bits()))
                &&& b.wf()
                &&& final(self).bits().len() < old(self).bits().len()
            },
            Some(Err(_)) => old(self).faulty() || old(self).bits().len() == 0 || p_blk(old(self).bits().skip(1)) is None,
        }),
        old(self).end ==> final(self).end && final(self).inner.inner == old(self).inner.inner && (match r {
            None => p_align(old(self).bits()) == Some(final(self).bits()) && final(self).bits() == bytes_bits(final(self).inner.inner.rest())
                && final(self).inner.remaining_bits == 0,
            Some(Ok(_)) => false,
            Some(Err(_)) => p_align(old(self).bits()) is None,
        }),
@at start
    broadcast use group_skip;

@fn read_block
@spec
    requires old(reader).wf()
    ensures
        final(reader).wf(), final(reader).inner.faulty() == old(reader).inner.faulty(),
        r matches Ok(b) ==> p_blk(old(reader).bits()) == Some((b@, final(reader).bits())) && b.wf()
            && final(reader).bits().len() <= old(reader).bits().len(),
        r is Err ==> old(reader).inner.faulty() || p_blk(old(reader).bits()) is None,
@at start
    broadcast use group_skip;
    let ghost __w = reader.bits();
    proof {
        lemma2_to64(); lemma_to_bytes(reader.inner.rest());
        assert forall|t: &CodeTree| #[trigger] built(fixed_dist(), t.root()) implies dist_built(Some(fixed_dist()), Some(t)) by {}
    }
@at after reader.align() #0
    proof { lemma_to_bytes(reader.inner.rest()); }
@at before scan_huffman_data #1
    proof {
        let ((ll, dl), rest) = p_trees(__w.skip(2)).unwrap();
        assert(dist_built(dl, match distance { Some(t) => Some(&t), None => None }));
        assert(trees@ =~= __w.skip(2).take(__w.skip(2).len() - rest.len()));
    }
@closure 0 params{codes: Vec<Code>} (__r: Block)
    ensures __r == (Block::DynamicHuffman { trees, codes })
---

@fn scan_huffman_data
@spec
    requires
        old(reader).wf(),
        exists|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance),
    ensures
        final(reader).wf(), final(reader).inner.faulty() == old(reader).inner.faulty(),
        r is Ok ==> final(reader).bits().len() <= old(reader).bits().len(),
        forall|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance) ==> (match r {
            Ok(c) => p_toks(l, d, old(reader).bits(), Seq::empty()) == Some((toks(c@), final(reader).bits())) && codes_wf(c@),
            Err(_) => old(reader).inner.faulty() || p_toks(l, d, old(reader).bits(), Seq::empty()) is None,
        }),
@at start
    let ghost __w = reader.bits();
    let ghost (__l, __d) = choose|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance);
    proof {
        assert forall|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance)
            implies p_toks(l, d, __w, Seq::empty()) == p_toks(__l, __d, __w, Seq::empty()) by { lemma_same_toks(l, d, __l, __d, length, distance, __w, Seq::empty()); }
    }
@at loop0.before
    proof { assert(toks(ret@) =~= Seq::<Tok>::empty()); }
@loop 0
    invariant_except_break
        p_toks(__l, __d, __w, Seq::empty()) == p_toks(__l, __d, reader.bits(), toks(ret@)),
    invariant
        reader.wf(), reader.inner.faulty() == old(reader).inner.faulty(), codes_wf(ret@), __w == old(reader).bits(),
        reader.bits().len() <= __w.len(),
        built(__l, length.root()), __l.len() <= 288, dist_built(__d, distance),
        forall|l: Seq<u8>, d: Option<Seq<u8>>| #[trigger] built(l, length.root()) && l.len() <= 288 && #[trigger] dist_built(d, distance)
            ==> p_toks(l, d, __w, Seq::empty()) == p_toks(__l, __d, __w, Seq::empty()),
    ensures
        p_toks(__l, __d, __w, Seq::empty()) == Some((toks(ret@), reader.bits())),
    decreases reader.bits().len()
@at loop0.start
    let ghost __c = ret@;
    let ghost __b = reader.bits();
    proof {
        lemma_p_toks(__l, __d, __b, toks(__c));
        lemma_walk_is_huff(__l, length.root(), __b);
        lemma_huff_range(__l, __b);
    }
@at before dist_code.decode_symbol(reader)
    proof {
        if distance is Some {
            lemma_walk_is_huff(__d.unwrap(), distance.unwrap().root(), reader.bits());
            lemma_huff_range(__d.unwrap(), reader.bits());
        }
    }
@at after ret.push #0
    proof { assert(toks(ret@) =~= toks(__c).push(Tok::Lit(sym as u8))); }
@at after ret.push #1
    proof { assert(toks(ret@) =~= toks(__c).push(Tok::Ref { dist: dist as nat, len: run as nat })); }

@ghost
pub proof fn lemma_same_toks(l: Seq<u8>, d: Option<Seq<u8>>, l2: Seq<u8>, d2: Option<Seq<u8>>, length: &CodeTree, distance: Option<&CodeTree>, bits: Seq<bool>, acc: Seq<Tok>)
    requires built(l, length.root()), built(l2, length.root()), dist_built(d, distance), dist_built(d2, distance)
    ensures p_toks(l, d, bits, acc) == p_toks(l2, d2, bits, acc)
    decreases bits.len()
{
    lemma_walk_is_huff(l, length.root(), bits);
    lemma_walk_is_huff(l2, length.root(), bits);
    if huff(l, bits) is Some && d is Some {
        let (s, r) = huff(l, bits).unwrap();
        if p_len(s as int, r) is Some {
            let r2 = p_len(s as int, r).unwrap().1;
            lemma_walk_is_huff(d.unwrap(), distance.unwrap().root(), r2);
            lemma_walk_is_huff(d2.unwrap(), distance.unwrap().root(), r2);
        }
    }
    lemma_p_toks(l, d, bits, acc);
    lemma_p_toks(l2, d2, bits, acc);
    match p_tok(l, d, bits) {
        Some((Some(t), r)) => lemma_same_toks(l, d, l2, d2, length, distance, r, acc.push(t)),
        _ => {},
    }
}
