@file lib/src/trace.rs => trace
@header
use crate::vx::iter::{Iterator, VecIter, refs};
use crate::vx::stdx::*;
use crate::{covers, total, code_fits, lemma_push, lemma_covers_end};
use crate::serialise_trace::traces_wf;
use crate::Obscure;
use crate::obscure::fits;
use vstd::std_specs::cmp::PartialEqSpec;
@ghost
/// how far a trace has been followed: what is hidden, the position, the guesses still standing, the codes so far
pub ghost struct St { pub os: Seq<Obscure>, pub pos: int, pub g: Seq<Code>, pub out: Seq<Code> }

/// one entry followed: the next guess, or what came instead of it, which drops the other guesses made there
pub open spec fn step(t: Technique, s: St, e: Trace) -> Option<St> {
    let g = if s.g.len() == 0 { t.guess(s.os, s.pos) } else { s.g };
    let code = match e { Trace::Correct => g[0], Trace::Actually(r) => Code::Reference(r), Trace::ActuallyLiteral => Code::Literal(t.w()[s.pos]) };
    if s.pos < t.w().len() && g.len() > 0 && code.wf() && s.pos + code.n() <= t.w().len() {
        Some(St { os: t.hide(s.os, s.pos, code), pos: s.pos + code.n(), g: if e == Trace::Correct { g.skip(1) } else { Seq::empty() }, out: s.out.push(code) })
    } else { None }
}
pub open spec fn follow(t: Technique, e: Seq<Trace>) -> Option<St>
    decreases e.len()
{
    if e.len() == 0 { Some(St { os: Seq::empty(), pos: t.start(), g: Seq::empty(), out: Seq::empty() }) }
    else { match follow(t, e.drop_last()) { Some(s) => step(t, s, e.last()), None => None } }
}
/// C09: the trace, followed, ends where the data does and has given these codes
pub open spec fn restores(t: Technique, e: Seq<Trace>, codes: Seq<Code>) -> bool {
    follow(t, e) matches Some(s) && s.pos == t.w().len() && s.out == codes
}
pub proof fn lemma_follow(t: Technique, e: Seq<Trace>, x: Trace)
    ensures follow(t, e.push(x)) == (match follow(t, e) { Some(s) => step(t, s, x), None => None })
{
    assert(e.push(x).drop_last() =~= e);
}
/// what can be followed to its end can be followed to every entry before
pub proof fn lemma_prefix(t: Technique, e: Seq<Trace>, k: int)
    requires 0 <= k < e.len(), follow(t, e) is Some
    ensures follow(t, e.take(k)) is Some, follow(t, e.take(k + 1)) is Some,
        follow(t, e.take(k + 1)) == step(t, follow(t, e.take(k))->0, e[k]),
    decreases e.len()
{
    let d = e.drop_last();
    if k == d.len() {
        assert(e.take(k) =~= d);
        assert(e.take(k + 1) =~= e);
    } else {
        lemma_prefix(t, d, k);
        assert(d.take(k) =~= e.take(k));
        assert(d.take(k + 1) =~= e.take(k + 1));
    }
}
pub proof fn lemma_at(w: Seq<u8>, pos: int, s: Seq<Code>, n: int)
    requires covers(w, pos, s), 0 <= n < s.len()
    ensures
        code_fits(w, pos + total(s.take(n)), s[n]),
        total(s.take(n + 1)) == total(s.take(n)) + s[n].n(),
        total(s.take(n)) < total(s),
    decreases s.len()
{
    let d = s.drop_last();
    lemma_covers_end(w, pos, s);
    if n == d.len() {
        assert(s.take(n) =~= d);
        assert(s.take(n + 1) =~= s);
    } else {
        lemma_at(w, pos, d, n);
        assert(d.take(n) =~= s.take(n));
        assert(d.take(n + 1) =~= s.take(n + 1));
    }
}
pub open spec fn entry(c: Code) -> Trace { match c { Code::Literal(_) => Trace::ActuallyLiteral, Code::Reference(r) => Trace::Actually(r) } }
/// the next guess is what comes
pub proof fn lemma_hit(t: Technique, e: Seq<Trace>, os: Seq<Obscure>, pos: int, pos0: int, guesses: Seq<Code>, k: int, c: Seq<Code>, n: int)
    requires
        covers(t.w(), t.start(), c), 0 <= n, n + k < c.len(), 0 <= k < guesses.len(),
        c[n + k] == guesses[k], pos == t.start() + total(c.take(n + k)), pos == pos0 + total(guesses.take(k)),
        k == 0 ==> guesses == t.guess(os, pos),
        follow(t, e) == Some(St { os, pos, g: if k == 0 { Seq::empty() } else { guesses.skip(k) }, out: c.take(n + k) }),
        covers(t.w(), pos0, guesses),
    ensures
        code_fits(t.w(), pos, guesses[k]), guesses[k].wf(), pos + guesses[k].n() <= t.w().len(),
        pos + guesses[k].n() == t.start() + total(c.take(n + k + 1)),
        pos + guesses[k].n() == pos0 + total(guesses.take(k + 1)),
        follow(t, e.push(Trace::Correct)) == Some(St { os: t.hide(os, pos, guesses[k]), pos: pos + guesses[k].n(), g: guesses.skip(k + 1), out: c.take(n + k + 1) }),
{
    lemma_at(t.w(), t.start(), c, n + k);
    lemma_at(t.w(), pos0, guesses, k);
    lemma_follow(t, e, Trace::Correct);
    let g = guesses.skip(k);
    assert(g[0] == guesses[k]);
    assert(g.skip(1) =~= guesses.skip(k + 1));
    assert(guesses.skip(0) =~= guesses);
    assert(c.take(n + k).push(c[n + k]) =~= c.take(n + k + 1));
}
/// something else comes than the next guess
pub proof fn lemma_miss(t: Technique, e: Seq<Trace>, os: Seq<Obscure>, pos: int, pos0: int, guesses: Seq<Code>, k: int, c: Seq<Code>, n: int)
    requires
        covers(t.w(), t.start(), c), 0 <= n <= c.len(), 0 <= k < guesses.len(),
        t.start() + total(c) == t.w().len(),
        pos == t.start() + total(c.take(n)), pos == pos0 + total(guesses.take(k)),
        k == 0 ==> guesses == t.guess(os, pos),
        follow(t, e) == Some(St { os, pos, g: if k == 0 { Seq::empty() } else { guesses.skip(k) }, out: c.take(n) }),
        covers(t.w(), pos0, guesses),
    ensures
        n < c.len(), code_fits(t.w(), pos, c[n]), c[n].wf(), pos + c[n].n() <= t.w().len(), c[n].n() > 0,
        pos + c[n].n() == t.start() + total(c.take(n + 1)),
        follow(t, e.push(entry(c[n]))) == Some(St { os: t.hide(os, pos, c[n]), pos: pos + c[n].n(), g: Seq::empty(), out: c.take(n + 1) }),
{
    lemma_at(t.w(), pos0, guesses, k);
    lemma_covers_end(t.w(), pos0, guesses);
    if n == c.len() { assert(c.take(n) =~= c); }
    lemma_at(t.w(), t.start(), c, n);
    lemma_follow(t, e, entry(c[n]));
    assert(c.take(n).push(c[n]) =~= c.take(n + 1));
    assert(guesses.skip(0) =~= guesses);
}
pub open spec fn coded(t: Technique, e: Trace, pos: int, guess: Code) -> Code {
    match e { Trace::Correct => guess, Trace::Actually(r) => Code::Reference(r), Trace::ActuallyLiteral => Code::Literal(t.w()[pos]) }
}
/// with guesses standing, there is an entry to follow
pub proof fn lemma_hint(t: Technique, e: Seq<Trace>, k: int, os: Seq<Obscure>, pos: int, pos0: int, guesses: Seq<Code>, i: int, out: Seq<Code>)
    requires
        follow(t, e) matches Some(s) && s.pos == t.w().len(),
        0 <= k <= e.len(), 0 <= i < guesses.len(),
        follow(t, e.take(k)) == Some(St { os, pos, g: if i == 0 { Seq::empty() } else { guesses.skip(i) }, out }),
        covers(t.w(), pos0, guesses), pos == pos0 + total(guesses.take(i)),
        i == 0 ==> guesses == t.guess(os, pos),
    ensures
        k < e.len(), pos < t.w().len(),
        coded(t, e[k], pos, guesses[i]).wf(), pos + coded(t, e[k], pos, guesses[i]).n() <= t.w().len(),
        follow(t, e.take(k + 1)) == Some(St { os: t.hide(os, pos, coded(t, e[k], pos, guesses[i])), pos: pos + coded(t, e[k], pos, guesses[i]).n(),
            g: if e[k] == Trace::Correct { guesses.skip(i + 1) } else { Seq::empty() }, out: out.push(coded(t, e[k], pos, guesses[i])) }),
        e[k] == Trace::Correct ==> pos + coded(t, e[k], pos, guesses[i]).n() == pos0 + total(guesses.take(i + 1)),
{
    lemma_at(t.w(), pos0, guesses, i);
    assert(pos < t.w().len());
    if k == e.len() { assert(e.take(k) =~= e); }
    lemma_prefix(t, e, k);
    assert(guesses.skip(i)[0] == guesses[i]);
    assert(guesses.skip(i).skip(1) =~= guesses.skip(i + 1));
    assert(guesses.skip(0) =~= guesses);
}
pub proof fn lemma_total(s: Seq<Code>)
    ensures total(s) >= s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_total(s.drop_last()); }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Code {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Code) -> bool { *self == *other }
}
@fn trace
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::rlimit(40)]
@rename into_iter => vx_iter
@spec
    requires
        technique.wf(), technique.start() <= technique.w().len(),
        covers(technique.w(), technique.start(), codes@),
        technique.start() + total(codes@) == technique.w().len(),
    ensures
        restores(*technique, r@, codes@),
        traces_wf(r@),
@at start
    let ghost __t = *technique;
    let ghost __c = codes@;
    let ghost __w = technique.w();
@at loop0.before
    proof { assert(refs::<Code>(__c).skip(0) =~= refs::<Code>(__c)); assert(__c.take(0) =~= Seq::empty()); }
@loop 0
    invariant
        codes@.len() <= __c.len(),
        codes@ == refs::<Code>(__c).skip(__c.len() - codes@.len()),
        scanner.wf(), scanner.t() == __t,
        scanner.pos == __t.start() + total(__c.take(__c.len() - codes@.len())),
        follow(__t, ret@) == Some(St { os: scanner.os(), pos: scanner.pos as int, g: Seq::empty(), out: __c.take(__c.len() - codes@.len()) }),
        traces_wf(ret@),
    decreases __w.len() - scanner.pos
@at loop0.start
    let ghost __n = __c.len() - codes@.len();
    let ghost __os = scanner.os();
    let ghost __pos = scanner.pos as int;
    let ghost __es = ret@;
@at loop1.before
    proof {
        assert forall|k: int| 0 <= k < matches@.len() implies #[trigger] matches@[k] == __c[__n + k] && matches@[k] == guesses@[k] by {
            assert(refs::<Code>(__c).skip(__n)[k] == &__c[__n + k]);
        }
        assert(__c.take(__n + 0) =~= __c.take(__n));
        assert(guesses@.take(0) =~= Seq::empty());
    }
@loop 1 iter=__i
    invariant
        scanner.wf(), scanner.t() == __t,
        guesses@.len() > 0, covers(__w, __pos, guesses@), guesses@ == __t.guess(__os, __pos),
        __i.index@ == 0 ==> scanner.os() == __os,
        __n + matches@.len() <= __c.len(), matches@.len() <= guesses@.len(),
        forall|k: int| 0 <= k < matches@.len() ==> #[trigger] matches@[k] == __c[__n + k] && matches@[k] == guesses@[k],
        scanner.pos == __t.start() + total(__c.take(__n + __i.index@)),
        scanner.pos == __pos + total(guesses@.take(__i.index@ as int)),
        follow(__t, ret@) == Some(St { os: scanner.os(), pos: scanner.pos as int, g: if __i.index@ == 0 { Seq::empty() } else { guesses@.skip(__i.index@ as int) },
            out: __c.take(__n + __i.index@) }),
        traces_wf(ret@),
@at loop1.start
    proof { lemma_hit(__t, ret@, scanner.os(), scanner.pos as int, __pos, guesses@, __i.index@ as int, __c, __n); }
@at loop1.after
    proof {
        lemma_total(guesses@.take(matches@.len() as int));
        let m = matches@.len() as int;
        assert(refs::<Code>(__c).skip(__n).skip(m) =~= refs::<Code>(__c).skip(__n + m));
        assert(guesses@.skip(guesses@.len() as int) =~= Seq::empty());
        if m < guesses@.len() {
            lemma_miss(__t, ret@, scanner.os(), scanner.pos as int, __pos, guesses@, m, __c, __n + m);
            assert(refs::<Code>(__c).skip(__n + m)[0] == &__c[__n + m]);
            assert(refs::<Code>(__c).skip(__n + m).skip(1) =~= refs::<Code>(__c).skip(__n + m + 1));
        } else {
            lemma_covers_end(__w, __pos, guesses@);
            assert(guesses@.take(m) =~= guesses@);
        }
    }
@at end
    proof {
        let n = __c.len() - codes@.len();
        if n < __c.len() { lemma_at(__w, __t.start(), __c, n); }
        assert(__c.take(__c.len() as int) =~= __c);
    }
@fn restore
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::rlimit(40)]
@fattr #[verifier::allow_complex_invariants]
@rename into_iter => vx_iter
@spec
    requires
        technique.wf(), technique.start() <= technique.w().len(),
        exists|c: Seq<Code>| restores(*technique, trace@, c),
    ensures restores(*technique, trace@, r@)
@at start
    let ghost __t = *technique;
    let ghost __e = trace@;
    let ghost __w = technique.w();
@loop 0
    invariant
        trace@.len() <= __e.len(),
        trace@ == refs::<Trace>(__e).skip(__e.len() - trace@.len()),
        scanner.wf(), scanner.t() == __t,
        follow(__t, __e) matches Some(s) && s.pos == __w.len(),
        follow(__t, __e.take(__e.len() - trace@.len())) == Some(St { os: scanner.os(), pos: scanner.pos as int, g: Seq::empty(), out: ret@ }),
    decreases __w.len() - scanner.pos
@at loop0.before
    proof { assert(refs::<Trace>(__e).skip(0) =~= refs::<Trace>(__e)); assert(__e.take(0) =~= Seq::empty()); }
@at loop0.start
    let ghost __os = scanner.os();
    let ghost __pos = scanner.pos as int;
@at loop1.before
    proof { assert(guesses@.take(0) =~= Seq::empty()); }
    let ghost __g = guesses@;
@loop 1 iter=__i
    invariant_except_break
        __i.index@ == 0 ==> scanner.os() == __os && scanner.pos == __pos,
        __i.index@ > 0 ==> scanner.pos > __pos,
        scanner.pos == __pos + total(__g.take(__i.index@ as int)),
        follow(__t, __e.take(__e.len() - trace@.len())) == Some(St { os: scanner.os(), pos: scanner.pos as int,
            g: if __i.index@ == 0 { Seq::empty() } else { __g.skip(__i.index@ as int) }, out: ret@ }),
    invariant
        trace@.len() <= __e.len(),
        trace@ == refs::<Trace>(__e).skip(__e.len() - trace@.len()),
        scanner.wf(), scanner.t() == __t,
        __g.len() > 0, covers(__w, __pos, __g), __g == __t.guess(__os, __pos),
    ensures
        scanner.pos > __pos,
        follow(__t, __e.take(__e.len() - trace@.len())) == Some(St { os: scanner.os(), pos: scanner.pos as int, g: Seq::empty(), out: ret@ }),
@at loop1.start
    proof {
        let k = __e.len() - trace@.len();
        lemma_hint(__t, __e, k, scanner.os(), scanner.pos as int, __pos, __g, __i.index@ as int, ret@);
        assert(refs::<Trace>(__e).skip(k)[0] == &__e[k]);
        assert(refs::<Trace>(__e).skip(k).skip(1) =~= refs::<Trace>(__e).skip(k + 1));
        assert(__g.skip(__g.len() as int) =~= Seq::empty());
    }
@at loop1.after
    proof { assert(follow(__t, __e.take(__e.len() - trace@.len()))->0.g =~= Seq::<Code>::empty()); }
@at end
    proof {
        let k = __e.len() - trace@.len();
        if k < __e.len() { lemma_prefix(__t, __e, k); }
        assert(__e.take(__e.len() as int) =~= __e);
    }
@fn validate
@spec
    requires
        technique.wf(), technique.start() <= technique.w().len(),
        covers(technique.w(), technique.start(), codes@),
        technique.start() + total(codes@) == technique.w().len(),
    ensures
        restores(*technique, r@, codes@),
        traces_wf(r@),
@gsubst R-assert assert_eq! ==> vx_assert_slices!
@fn shared_prefix
@spec
    requires T::obeys_eq_spec()
    ensures
        r@.len() <= left@.len(), r@.len() <= old(right)@.len(), r@ == left@.take(r@.len() as int),
        final(right)@ == old(right)@.skip(r@.len() as int),
        forall|k: int| 0 <= k < r@.len() ==> (*(#[trigger] old(right)@[k])).eq_spec(&left@[k]),
        r@.len() == left@.len() || r@.len() == old(right)@.len() || !(*old(right)@[r@.len() as int]).eq_spec(&left@[r@.len() as int]), //@ C09?
@loop 0 iter=__i
    invariant
        T::obeys_eq_spec(), __s == old(right)@,
        __i.index@ <= left@.len(), __i.index@ <= __s.len(),
        right@ == __s.skip(__i.index@ as int),
        forall|k: int| 0 <= k < __i.index@ ==> (*(#[trigger] __s[k])).eq_spec(&left@[k]),
@at start
    let ghost __s = right@;
    proof { assert(__s.skip(0) =~= __s); assert(left@.take(left@.len() as int) =~= left@); }
@at loop0.end
    proof { assert(__s.skip(__i.index@ as int).skip(1) =~= __s.skip(__i.index@ + 1)); }
