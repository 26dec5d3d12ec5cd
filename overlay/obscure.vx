@file lib/src/obscure.rs => obscure
@header
use crate::vx::iter::{Iterator, IterExt, VecIter};
@ghost
/// an earlier long match of len bytes at start hides every position inside it but its first
pub open spec fn hides(o: Obscure, p: int) -> bool { o.0 < p < o.0 + o.1 }
pub open spec fn hidden(os: Seq<Obscure>, p: int) -> bool { exists|i: int| 0 <= i < os.len() && hides(#[trigger] os[i], p) }
pub open spec fn seen(os: Seq<Obscure>) -> spec_fn(usize) -> bool { |p: usize| !hidden(os, p as int) }
pub open spec fn fits(os: Seq<Obscure>) -> bool { forall|i: int| 0 <= i < os.len() ==> (#[trigger] os[i]).0 + os[i].1 <= usize::MAX }

@fn obscure
@rettype VecIter<usize>
@spec
    requires from.ok(), by.ok(), fits(by.items())
    ensures
        r@ == from.items().filter(seen(by.items())), //@ C12 C13? C09?
        forall|i: int| 0 <= i < r@.len() ==> from.items().contains(#[trigger] r@[i]),
@closure 0 params{__p: &usize} (b: bool)
    requires fits(by@)
    ensures b == !hidden(by@, *__p as int), //@ C12 C13? C09?
---
    let $PAT = __p;
@fn contains
@spec
    requires fits(haystack@)
    ensures r == hidden(haystack@, needle as int), //@ C12 C13? C09?
@loop 0 iter=__i
    invariant
        fits(haystack@),
        forall|k: int| 0 <= k < __i.index@ ==> !hides(#[trigger] haystack@[k], needle as int), //@ C12 C13? C09?
