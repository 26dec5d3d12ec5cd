@file lib/src/picker.rs => picker
@header
use crate::vx::iter::Iterator;
use crate::iters::{best, best_from, scores, gt, ge};
use vstd::std_specs::cmp::*;
@structural Picker
@ghost
pub open spec fn run_of() -> spec_fn(Ref) -> u16 { |r: Ref| r.len() as u16 }

/// C13: r is the choice among the candidates s: at i it is longer than all before it, none of those reached
/// the cut-off, and either it does or none behind it is longer
pub open spec fn chosen(s: Seq<Ref>, cap: u16, r: Option<Ref>) -> bool {
    if s.len() == 0 { r is None }
    else { exists|i: int| #[trigger] chosen_at(s, cap, i) && r == Some(s[i]) }
}
pub open spec fn chosen_at(s: Seq<Ref>, cap: u16, i: int) -> bool {
    &&& 0 <= i < s.len()
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).len() < s[i].len() && s[j].len() < cap
    &&& s[i].len() < cap ==> forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).len() <= s[i].len()
}
/// there is only one such choice
pub proof fn chosen_is_unique(s: Seq<Ref>, cap: u16, i: int, j: int)
    requires chosen_at(s, cap, i), chosen_at(s, cap, j)
    ensures i == j
{
    if i < j { assert(s[i].len() < s[j].len()); }
    if j < i { assert(s[j].len() < s[i].len()); }
}
pub proof fn lemma_best_from(s: Seq<Ref>, m: int, k: int, cap: u16)
    requires
        0 <= m < k <= s.len(),
        forall|j: int| 0 <= j < m ==> (#[trigger] s[j]).len() < s[m].len() && s[j].len() < cap,
        forall|j: int| m < j < k ==> (#[trigger] s[j]).len() <= s[m].len(),
        k > m + 1 ==> s[m].len() < cap,
    ensures
        exists|i: int| #[trigger] chosen_at(s, cap, i) && best_from(s[m], s.skip(k), run_of(), cap) == s[i]
    decreases s.len() - k
{
    let q = run_of();
    let rest = s.skip(k);
    if ge(q(s[m]), cap) || rest.len() == 0 {
        assert(chosen_at(s, cap, m));
    } else {
        assert(rest[0] == s[k]);
        assert(rest.skip(1) =~= s.skip(k + 1));
        if gt(q(s[k]), q(s[m])) { lemma_best_from(s, k, k + 1, cap); } else { lemma_best_from(s, m, k + 1, cap); }
    }
}
pub proof fn lemma_best(s: Seq<Ref>, cap: u16)
    ensures chosen(s, cap, best(s, run_of(), cap))
{
    if s.len() > 0 { lemma_best_from(s, 0, 1, cap); }
}

@implghost impl Picker
    /// what this rule makes of the longest one
    pub open spec fn keeps(&self, r: Ref) -> bool {
        match *self { Picker::Longest => true, Picker::DropFarThrees => r.len() > 3 || r.dist <= 4096 }
    }
    pub open spec fn pick(&self, s: Seq<Ref>, cap: u16) -> Option<Ref> {
        match best(s, run_of(), cap) { Some(r) => if self.keeps(r) { Some(r) } else { None }, None => None }
    }

@fn Picker::picker
@spec
    requires candidates.ok()
    ensures
        r == self.pick(candidates.items(), cap), //@ C13 C12? C09?
        r matches Some(x) ==> candidates.items().contains(x),
        exists|l: Option<Ref>| #[trigger] chosen(candidates.items(), cap, l) && r == (match l { Some(x) => if self.keeps(x) { Some(x) } else { None }, None => None }), //@ C13 C12? C09?
@at start
    proof { lemma_best(candidates.items(), cap); } //@ C13 C12? C09?
@fn longest
@spec
    requires candidates.ok()
    ensures
        r == best(candidates.items(), run_of(), cap), //@ C13 C12? C09?
        r matches Some(x) ==> candidates.items().contains(x),
@closure 0 params{__r: &Ref} (n: u16)
    ensures n == __r.len()
---
    let $PAT = __r;
@fn drop_far_threes
@rename filter => vx_filter
@spec
    requires candidates.ok()
    ensures
        r == Picker::DropFarThrees.pick(candidates.items(), cap), //@ C13 C12? C09?
        r matches Some(x) ==> candidates.items().contains(x),
@closure 0 params{__r: &Ref} (b: bool)
    ensures b == (__r.len() > 3 || __r.dist <= 4096)
---
    let $PAT = __r;
