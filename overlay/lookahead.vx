@file lib/src/lookahead.rs => lookahead
@header
use crate::{covers, total, code_fits, true_ref, lemma_one, lemma_push, lemma_covers_cat};
@structural Lookahead
@ghost
pub type Look = spec_fn(int, Option<u16>) -> (u8, Option<Ref>);

pub open spec fn greedy_codes(look: Look, pos: int) -> Seq<Code> {
    match look(pos, None) { (_, Some(r)) => seq![Code::Reference(r)], (b, None) => seq![Code::Literal(b)] }
}
/// gzip's lazy matching: a match is given up for a literal while the next position has a longer one
pub open spec fn gzip_from(look: Look, pos: int, lit: u8, cur: Ref) -> Seq<Code>
    decreases 258 - cur.len()
{
    match look(pos + 1, Some(cur.len() as u16)) {
        (b, Some(new)) => if new.len() > cur.len() { seq![Code::Literal(lit)] + gzip_from(look, pos + 1, b, new) } else { seq![Code::Reference(cur)] },
        (_, None) => seq![Code::Reference(cur)],
    }
}
pub open spec fn gzip_codes(look: Look, pos: int) -> Seq<Code> {
    match look(pos, None) { (lit, Some(r)) => gzip_from(look, pos, lit, r), (b, None) => seq![Code::Literal(b)] }
}
pub open spec fn longer(r: Option<Ref>, n: int) -> Option<Ref> {
    match r { Some(x) => if x.len() > n { Some(x) } else { None }, None => None }
}
/// a match of three is given up for a longer one at one of the next two positions
pub open spec fn three_zip_codes(look: Look, pos: int) -> Seq<Code> {
    let (l1, m1) = look(pos, None);
    match m1 {
        None => seq![Code::Literal(l1)],
        Some(r1) => if r1.len() > 3 { seq![Code::Reference(r1)] } else {
            let (l2, c2) = look(pos + 1, None);
            let m2 = longer(c2, 3);
            let m3 = longer(look(pos + 2, None).1, 4);
            match m2 {
                Some(r2) => match m3 {
                    Some(r3) => if r2.len() != 258 && r3.len() > r2.len() { seq![Code::Literal(l1), Code::Literal(l2), Code::Reference(r3)] }
                        else { seq![Code::Literal(l1), Code::Reference(r2)] },
                    None => seq![Code::Literal(l1), Code::Reference(r2)],
                },
                None => match m3 {
                    Some(r3) => seq![Code::Literal(l1), Code::Literal(l2), Code::Reference(r3)],
                    None => seq![Code::Reference(r1)],
                },
            }
        },
    }
}
pub proof fn lemma_two(w: Seq<u8>, pos: int, a: Code, b: Code)
    ensures covers(w, pos, seq![a, b]) <==> code_fits(w, pos, a) && code_fits(w, pos + a.n(), b), total(seq![a, b]) == a.n() + b.n()
{
    lemma_one(w, pos, a);
    lemma_push(w, pos, seq![a], b);
    assert(seq![a].push(b) =~= seq![a, b]);
}
pub proof fn lemma_three(w: Seq<u8>, pos: int, a: Code, b: Code, c: Code)
    ensures
        covers(w, pos, seq![a, b, c]) <==> code_fits(w, pos, a) && code_fits(w, pos + a.n(), b) && code_fits(w, pos + a.n() + b.n(), c),
{
    lemma_two(w, pos, a, b);
    lemma_push(w, pos, seq![a, b], c);
    assert(seq![a, b].push(c) =~= seq![a, b, c]);
}
pub proof fn lemma_short(w: Seq<u8>, pos: int)
    ensures
        forall|s: Seq<Code>| s.len() == 1 ==> (#[trigger] covers(w, pos, s) <==> code_fits(w, pos, s[0])),
        forall|s: Seq<Code>| s.len() == 2 ==> (#[trigger] covers(w, pos, s) <==> code_fits(w, pos, s[0]) && code_fits(w, pos + s[0].n(), s[1])),
        forall|s: Seq<Code>| s.len() == 3 ==> (#[trigger] covers(w, pos, s) <==> code_fits(w, pos, s[0]) && code_fits(w, pos + s[0].n(), s[1]) && code_fits(w, pos + s[0].n() + s[1].n(), s[2])),
{
    assert forall|s: Seq<Code>| s.len() == 1 implies (#[trigger] covers(w, pos, s) <==> code_fits(w, pos, s[0])) by { lemma_one(w, pos, s[0]); assert(s =~= seq![s[0]]); }
    assert forall|s: Seq<Code>| s.len() == 2 implies (#[trigger] covers(w, pos, s) <==> code_fits(w, pos, s[0]) && code_fits(w, pos + s[0].n(), s[1])) by { lemma_two(w, pos, s[0], s[1]); assert(s =~= seq![s[0], s[1]]); }
    assert forall|s: Seq<Code>| s.len() == 3 implies (#[trigger] covers(w, pos, s) <==> code_fits(w, pos, s[0]) && code_fits(w, pos + s[0].n(), s[1]) && code_fits(w, pos + s[0].n() + s[1].n(), s[2])) by {
        lemma_three(w, pos, s[0], s[1], s[2]); assert(s =~= seq![s[0], s[1], s[2]]); }
}
@implghost impl Lookahead
    pub open spec fn codes(&self, look: Look, pos: int) -> Seq<Code> {
        match *self {
            Lookahead::Greedy => greedy_codes(look, pos),
            Lookahead::Gzip => gzip_codes(look, pos),
            Lookahead::ThreeZip => three_zip_codes(look, pos),
        }
    }
@fn Lookahead::lookahead
@spec
    requires looker.fit(), pos < looker.w().len() <= usize::MAX
    ensures
        r@.len() > 0,
        covers(looker.w(), pos as int, r@),
        r@ == self.codes(looker.look(), pos as int), //@ C09?
@fn greedy ret=ret
@spec
    requires looker.fit(), pos < looker.w().len() <= usize::MAX
    ensures
        ret@.len() > 0,
        covers(looker.w(), pos as int, ret@),
        ret@ == greedy_codes(looker.look(), pos as int), //@ C09?
@at bindtail
    proof { lemma_one(looker.w(), pos as int, __ret@[0]); assert(__ret@ =~= seq![__ret@[0]]); }
@fn gzip
@spec
    requires looker.fit(), pos < looker.w().len() <= usize::MAX
    ensures
        r@.len() > 0,
        covers(looker.w(), pos as int, r@),
        r@ == gzip_codes(looker.look(), pos as int), //@ C09?
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::allow_complex_invariants]
@at start
    let ghost __p0 = pos as int;
    let ghost __w = looker.w();
    proof { lemma_short(__w, __p0); }
@loop 0
    invariant_except_break
        looker.fit(), __w == looker.w(),
        __p0 <= pos < __w.len(), pos == __p0 + total(ret@),
        covers(__w, __p0, ret@),
        curr_lit == __w[pos as int],
        true_ref(__w, pos as int, curr_ref),
        gzip_codes(looker.look(), __p0) == ret@ + gzip_from(looker.look(), pos as int, curr_lit, curr_ref), //@ C09?
    ensures
        ret@.len() > 0,
        covers(__w, __p0, ret@),
        ret@ == gzip_codes(looker.look(), __p0), //@ C09?
    decreases __w.len() - pos
@at loop0.start
    proof {
        lemma_push(__w, __p0, ret@, Code::Literal(curr_lit));
        lemma_push(__w, __p0, ret@, Code::Reference(curr_ref));
        assert(ret@.push(Code::Literal(curr_lit)) =~= ret@ + seq![Code::Literal(curr_lit)]);
        assert(ret@.push(Code::Reference(curr_ref)) =~= ret@ + seq![Code::Reference(curr_ref)]);
        assert(forall|x: Seq<Code>| #[trigger] (ret@ + (seq![Code::Literal(curr_lit)] + x)) =~= (ret@ + seq![Code::Literal(curr_lit)]) + x);
    }
@fn three_zip
@rename filter => vx_filter
@spec
    requires looker.fit(), pos < looker.w().len() <= usize::MAX
    ensures
        r@.len() > 0,
        covers(looker.w(), pos as int, r@),
        r@ == three_zip_codes(looker.look(), pos as int), //@ C09?
@at start
    let ghost __w = looker.w();
    let ghost __p = pos as int;
    proof { lemma_short(__w, __p); }
@closure 0 params{__x: &Ref} (b: bool)
    ensures
        true,
        b == (__x.len() > 3), //@ C09?
---
    let $PAT = __x;
@closure 1 params{__x: &Ref} (b: bool)
    ensures
        true,
        b == (__x.len() > 4), //@ C09?
---
    let $PAT = __x;
@closure 2 params{__x: Ref} (v: Vec<Code>)
    ensures v@ == seq![Code::Literal(first_literal), Code::Literal(second_literal), Code::Reference(__x)]
---
    let $PAT = __x;
