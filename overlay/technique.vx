@file lib/src/technique.rs => technique
@header
use crate::vx::iter::{Iterator, IterExt, VecIter};
use crate::obscure::fits;
use crate::all_refs::{cands, lemma_cands};
use crate::true_ref;
@structural Config
@ghost
/// how many positions are looked at, and no more once the search is abandoned
pub open spec fn budget(c: Config, other: Option<u16>) -> Option<int> {
    let all = c.wams.limit_count_of_distances as int;
    match (other, c.wams.lookahead) {
        (Some(run), Some(l)) => if l.abort_above_length > run { None } else if run > l.apathetic_above_length { Some(all / 4) } else { Some(all) },
        _ => Some(all),
    }
}
pub open spec fn first(s: Seq<Ref>, n: int) -> Seq<Ref> { if n >= s.len() { s } else { s.take(n) } }
@implghost impl Technique
    pub closed spec fn refs_wf(&self) -> bool { self.all_refs.wf() }
    pub open spec fn wf(&self) -> bool { self.refs_wf() && self.w().len() + 300 <= usize::MAX }
    pub closed spec fn w(&self) -> Seq<u8> { self.all_refs.w() }
    pub closed spec fn start(&self) -> int { self.all_refs.preroll@.len() as int }
    pub closed spec fn conf(&self) -> Config { self.config }
    pub closed spec fn lim(&self) -> int { self.all_refs.lim() }
    /// C13: the reference chosen for pos when the one before it is other long, the matches os being hidden
    pub open spec fn look_at(&self, os: Seq<Obscure>, pos: int, other: Option<u16>) -> Option<Ref> {
        match budget(self.conf(), other) {
            None => None,
            Some(n) => if pos + 2 >= self.w().len() { None } else {
                self.conf().picker.pick(first(cands(self.w(), pos, os, self.lim()), n), self.conf().wams.quit_search_above_length)
            },
        }
    }
    pub open spec fn looks(&self, os: Seq<Obscure>) -> spec_fn(int, Option<u16>) -> (u8, Option<Ref>) {
        |pos: int, other: Option<u16>| (self.w()[pos], self.look_at(os, pos, other))
    }
    pub open spec fn guess(&self, os: Seq<Obscure>, pos: int) -> Seq<Code> { self.conf().lookahead.codes(self.looks(os), pos) }
    /// what is hidden after a code at pos
    pub open spec fn hide(&self, os: Seq<Obscure>, pos: int, code: Code) -> Seq<Obscure> {
        match (self.conf().wams.insert_only_below_length, code) {
            (Some(limit), Code::Reference(r)) => if r.len() > limit { os.push((pos as usize, r.len() as u16)) } else { os },
            _ => os,
        }
    }
@implghost impl Scanner
    pub closed spec fn t(&self) -> Technique<'a, 'p, 'd> { *self.technique }
    pub closed spec fn os(&self) -> Seq<Obscure> { self.obscured@ }
    pub open spec fn wf(&self) -> bool { self.t().wf() && fits(self.os()) && self.pos <= self.t().w().len() }
@implghost impl DataLen for Scanner
    open spec fn w(&self) -> Seq<u8> { self.t().w() }
    open spec fn fit(&self) -> bool { self.wf() }
@implghost impl Looker for Scanner
    open spec fn look(&self) -> spec_fn(int, Option<u16>) -> (u8, Option<Ref>) { self.t().looks(self.os()) }
@implghost impl Guesser for Scanner
    open spec fn here(&self) -> int { self.pos as int }
    open spec fn guess(&self) -> Seq<Code> { self.t().guess(self.os(), self.pos as int) }
@fn Config::gzip
@spec
    requires 1 <= level <= 9
@fn Config::spicy
@fn Technique::new
@spec
    requires all_refs.wf()
    ensures r.wf(), r.conf() == config, r.w() == all_refs.w(), r.start() == all_refs.preroll@.len(), r.lim() == all_refs.lim()
@fn Technique::byte_at
@spec
    requires pos < self.w().len()
    ensures r == self.w()[pos as int]
@fn Technique::scanner
@spec
    requires self.wf()
    ensures r.wf(), r.t() == *self, r.pos == self.start(), r.os() == Seq::<Obscure>::empty()
@fn Scanner::more_data
@spec
    requires self.wf()
    ensures r == (self.pos < self.t().w().len())
@fn Scanner::feedback
@spec
    requires old(self).wf(), code.wf(), old(self).pos + code.n() <= old(self).t().w().len()
    ensures
        final(self).wf(), final(self).t() == old(self).t(), final(self).pos == old(self).pos + code.n(),
        final(self).os() == old(self).t().hide(old(self).os(), old(self).pos as int, code), //@ C12 C13? C09?
@fn Looker for Scanner::best_candidate_better_than
@at start
    let ghost __c = cands(self.t().w(), pos as int, self.os(), self.t().lim());
@closure 0 params{it: Box<VecIter<Ref>>} (b: Option<Ref>)
    requires forall|i: int| 0 <= i < it@.len() ==> true_ref(self.t().w(), pos as int, #[trigger] it@[i])
    ensures
        b matches Some(x) ==> true_ref(self.t().w(), pos as int, x),
        b == self.t().conf().picker.pick(first(it@, limit as int), self.t().conf().wams.quit_search_above_length), //@ C13 C12? C09?
---
