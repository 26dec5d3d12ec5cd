@file lib/src/lib.rs => root
@header
#[allow(unused_imports)] use crate::vx::seqs::*;
#[allow(unused_imports)] use crate::vx::stdx::*;
#[allow(unused_imports)] use crate::rfc::*;
@structural Ref
@structural Code
@structural Trace
@noclone Block

@implghost impl Ref
    pub open spec fn wf(&self) -> bool { 1 <= self.dist <= 32768 }
    pub open spec fn len(&self) -> nat { (self.run_minus_3 + 3) as nat }

@implghost impl Code
    pub open spec fn n(&self) -> int { match *self { Code::Literal(_) => 1, Code::Reference(r) => r.len() as int } }
    pub open spec fn wf(&self) -> bool { match *self { Code::Literal(_) => true, Code::Reference(r) => r.wf() } }
    pub open spec fn tok(&self) -> Tok {
        match *self { Code::Literal(b) => Tok::Lit(b), Code::Reference(r) => Tok::Ref { dist: r.dist as nat, len: r.len() } }
    }

@implghost trait DataLen
    /// history and data
    spec fn w(&self) -> Seq<u8>;
    spec fn fit(&self) -> bool;
@implghost trait Looker
    /// the answers, as a function
    spec fn look(&self) -> spec_fn(int, Option<u16>) -> (u8, Option<Ref>);
@implghost trait Guesser
    spec fn here(&self) -> int;
    spec fn guess(&self) -> Seq<Code>;
@fn trait DataLen::data_len
@spec
    requires self.fit()
    ensures r == self.w().len()
@fn trait Looker::best_candidate
@spec
    requires self.fit(), pos < self.w().len()
    ensures
        r.0 == self.w()[pos as int],
        r.1 matches Some(x) ==> true_ref(self.w(), pos as int, x),
        r == self.look()(pos as int, None), //@ C13 C12? C09?
@fn trait Looker::best_candidate_better_than
@spec
    requires self.fit(), pos < self.w().len()
    ensures
        r.0 == self.w()[pos as int],
        r.1 matches Some(x) ==> true_ref(self.w(), pos as int, x),
        r == self.look()(pos as int, other), //@ C13 C12? C09?
@fn trait Guesser::codes
@spec
    requires self.fit(), 0 <= self.here() < self.w().len() <= usize::MAX
    ensures
        r@.len() > 0,
        covers(self.w(), self.here(), r@),
        r@ == self.guess(), //@ C09?
@ghost
/// how far a copy at pos from dist back could go
pub open spec fn room(w: Seq<u8>, pos: int) -> int { if w.len() - pos < 258 { w.len() - pos } else { 258 } }
/// C11: copying n bytes from dist back gives the bytes that come at pos
pub open spec fn agrees(w: Seq<u8>, pos: int, dist: int, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] w[pos + i] == w[pos + i - dist]
}
pub open spec fn true_ref(w: Seq<u8>, pos: int, r: Ref) -> bool {
    r.wf() && r.dist <= pos && pos + r.len() <= w.len() && agrees(w, pos, r.dist as int, r.len() as int)
}
pub open spec fn maximal(w: Seq<u8>, pos: int, r: Ref) -> bool {
    r.len() == room(w, pos) || w[pos + r.len()] != w[pos + r.len() - r.dist]
}

/// the code, decoded at pos, gives the bytes that come there and does not pass their end
pub open spec fn code_fits(w: Seq<u8>, pos: int, c: Code) -> bool {
    match c { Code::Literal(b) => 0 <= pos < w.len() && b == w[pos], Code::Reference(r) => true_ref(w, pos, r) }
}
/// how many bytes the codes stand for
pub open spec fn total(s: Seq<Code>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().n() }
}
/// C14: the codes, decoded from pos on, give the bytes that come there
pub open spec fn covers(w: Seq<u8>, pos: int, s: Seq<Code>) -> bool
    decreases s.len()
{
    s.len() == 0 || (covers(w, pos, s.drop_last()) && code_fits(w, pos + total(s.drop_last()), s.last()))
}
pub proof fn lemma_push(w: Seq<u8>, pos: int, s: Seq<Code>, c: Code)
    ensures
        total(s.push(c)) == total(s) + c.n(),
        covers(w, pos, s.push(c)) <==> covers(w, pos, s) && code_fits(w, pos + total(s), c),
{
    assert(s.push(c).drop_last() =~= s);
}
pub proof fn lemma_one(w: Seq<u8>, pos: int, c: Code)
    ensures covers(w, pos, seq![c]) <==> code_fits(w, pos, c), total(seq![c]) == c.n()
{
    reveal_with_fuel(covers, 2);
    reveal_with_fuel(total, 2);
    assert(seq![c].drop_last() =~= Seq::empty());
}
pub proof fn lemma_covers_cat(w: Seq<u8>, pos: int, a: Seq<Code>, b: Seq<Code>)
    ensures
        total(a + b) == total(a) + total(b),
        covers(w, pos, a + b) <==> covers(w, pos, a) && covers(w, pos + total(a), b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_covers_cat(w, pos, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
/// what is covered ends inside the data
pub proof fn lemma_covers_end(w: Seq<u8>, pos: int, s: Seq<Code>)
    requires covers(w, pos, s)
    ensures total(s) >= s.len(), s.len() > 0 ==> pos + total(s) <= w.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_covers_end(w, pos, s.drop_last()); }
}
pub open spec fn toks(codes: Seq<Code>) -> Seq<Tok> { codes.map_values(|c: Code| c.tok()) }
pub open spec fn codes_wf(codes: Seq<Code>) -> bool { forall|i: int| 0 <= i < codes.len() ==> (#[trigger] codes[i]).wf() }
impl Block {
    pub open spec fn wf(&self) -> bool {
        match *self {
            Block::Uncompressed(d) => true,
            Block::FixedHuffman(c) => codes_wf(c@),
            Block::DynamicHuffman { trees, codes } => trees.wf() && codes_wf(codes@),
        }
    }
    pub open spec fn view(&self) -> Blk {
        match *self {
            Block::Uncompressed(d) => Blk::Stored(d@),
            Block::FixedHuffman(c) => Blk::Fixed(toks(c@)),
            Block::DynamicHuffman { trees, codes } => Blk::Dyn { trees: trees@, toks: toks(codes@) },
        }
    }
}
@ghost
impl vstd::std_specs::convert::FromSpecImpl<Ref> for Code {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Ref) -> Code { Code::Reference(v) }
}
@fn Ref::new
@spec
    requires 3 <= run <= 258, 1 <= dist <= 32768
    ensures r.wf(), r.dist == dist, r.len() == run
@fn Ref::run
@spec
    ensures r == self.len(), 3 <= r <= 258
@fn Code::emitted_bytes
@spec
    ensures r == (match *self { Code::Literal(_) => 1, Code::Reference(x) => x.len() as int }), 1 <= r <= 258
@fn From<Ref> for Code::from ret=ret
@spec
    ensures ret == Code::Reference(r)
