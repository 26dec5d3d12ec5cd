@file lib/src/iters.rs => iters
@header
use crate::vx::iter::Iterator;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
@ghost
pub open spec fn gt<C: Ord>(a: C, b: C) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub open spec fn ge<C: Ord>(a: C, b: C) -> bool { gt(a, b) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }

/// the best so far and what is still to come: the first of the greatest, but the first to reach the cap ends it
pub open spec fn best_from<T, C: Ord>(cur: T, s: Seq<T>, q: spec_fn(T) -> C, cap: C) -> T
    decreases s.len()
{
    if ge(q(cur), cap) || s.len() == 0 { cur }
    else { best_from(if gt(q(s[0]), q(cur)) { s[0] } else { cur }, s.skip(1), q, cap) }
}
pub open spec fn best<T, C: Ord>(s: Seq<T>, q: spec_fn(T) -> C, cap: C) -> Option<T> {
    if s.len() == 0 { None } else { Some(best_from(s[0], s.skip(1), q, cap)) }
}
pub open spec fn scores<T, C, F: Fn(&T) -> C>(f: F, q: spec_fn(T) -> C) -> bool {
    forall|x: T, c: C| (#[trigger] f.ensures((&x,), c)) && f.requires((&x,)) ==> c == q(x)
}

@fn capped_max_by
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::allow_complex_invariants]
@spec
    requires
        it.ok(), C::obeys_partial_cmp_spec(), forall|a: C, b: C| (#[trigger] a.partial_cmp_spec(&b)) is Some,
        forall|i: int| 0 <= i < it.items().len() ==> #[trigger] func.requires((&it.items()[i],)),
    ensures
        forall|q: spec_fn(T) -> C| scores(func, q) ==> r == #[trigger] best(it.items(), q, *cap), //@ C13 C12? C09?
        r matches Some(x) ==> it.items().contains(x),
@at start
    let ghost __s = it.items();
@desugar 0
@loop 0
    invariant_except_break
        forall|q: spec_fn(T) -> C| scores(func, q) ==> #[trigger] best(__s, q, *cap) == Some(best_from(max, __it0.items(), q, *cap)) && max_score == q(max) && !ge(max_score, *cap), //@ C13 C12? C09?
        forall|i: int| 0 <= i < __it0.items().len() ==> #[trigger] func.requires((&__it0.items()[i],)),
    invariant
        __it0.ok(), C::obeys_partial_cmp_spec(), forall|a: C, b: C| (#[trigger] a.partial_cmp_spec(&b)) is Some,
        __s.contains(max), forall|i: int| 0 <= i < __it0.items().len() ==> __s.contains(#[trigger] __it0.items()[i]),
    ensures
        forall|q: spec_fn(T) -> C| scores(func, q) ==> #[trigger] best(__s, q, *cap) == Some(max), //@ C13 C12? C09?
    decreases __it0.items().len()
@at loop0.start
    proof { reveal_with_fuel(best_from, 3); }
