@file lib/src/serialise_trace.rs => serialise_trace
@header
use crate::vx::byteorder::ByteOrder;
@gsubst R-assert assert_eq! ==> vx_assert_slices!
@gsubst R-assert assert_ne! ==> vx_assert_ne!
@ghost
/// how many of the next traces n corrects stand for
pub open spec fn rep(n: nat) -> Seq<Trace> { Seq::new(n, |i: int| Trace::Correct) }

/// what the bytes of a serialised trace mean: none for bytes that end inside an explicit reference.
/// A single byte left over at the end is not looked at.
pub open spec fn p_trace(s: Seq<u8>) -> Option<Seq<Trace>>
    decreases s.len()
{
    if s.len() < 2 { Some(Seq::empty()) }
    else {
        let first = le16(s[0], s[1]);
        if first == 0 {
            match p_trace(s.skip(2)) { Some(t) => Some(seq![Trace::ActuallyLiteral] + t), None => None }
        } else if first <= 32768 {
            if s.len() < 3 { None }
            else {
                match p_trace(s.skip(3)) {
                    Some(t) => Some(seq![Trace::Actually(Ref { dist: first as u16, run_minus_3: s[2] })] + t),
                    None => None,
                }
            }
        } else {
            match p_trace(s.skip(2)) { Some(t) => Some(rep((first - 32768) as nat) + t), None => None }
        }
    }
}
/// what a correct serialisation of the traces so far looks like: whatever follows is read as what follows
pub open spec fn denotes(b: Seq<u8>, done: Seq<Trace>) -> bool {
    forall|rest: Seq<u8>| (#[trigger] p_trace(b + rest)) == match p_trace(rest) { Some(t) => Some(done + t), None => None }
}
pub proof fn lemma_cat(b: Seq<u8>, d: Seq<Trace>, c: Seq<u8>, e: Seq<Trace>)
    requires denotes(b, d), denotes(c, e)
    ensures denotes(b + c, d + e)
{
    assert forall|rest: Seq<u8>| (#[trigger] p_trace((b + c) + rest)) == match p_trace(rest) { Some(t) => Some((d + e) + t), None => None } by {
        assert((b + c) + rest =~= b + (c + rest));
        let _ = p_trace(b + (c + rest));
        let _ = p_trace(c + rest);
        if p_trace(rest) is Some {
            let t = p_trace(rest)->0;
            assert((d + e) + t =~= d + (e + t));
        }
    }
}
pub proof fn lemma_code(c: Seq<u8>)
    requires c.len() >= 2
    ensures
        c.len() == 2 && le16(c[0], c[1]) == 0 ==> denotes(c, seq![Trace::ActuallyLiteral]),
        c.len() == 2 && le16(c[0], c[1]) > 32768 ==> denotes(c, rep((le16(c[0], c[1]) - 32768) as nat)),
        c.len() == 3 && 1 <= le16(c[0], c[1]) <= 32768 ==> denotes(c, seq![Trace::Actually(Ref { dist: le16(c[0], c[1]) as u16, run_minus_3: c[2] })]),
{
    assert forall|rest: Seq<u8>| true implies (#[trigger] (c + rest)).skip(c.len() as int) =~= rest by {}
}
pub proof fn lemma_none(c: Seq<u8>)
    requires c.len() == 0
    ensures denotes(c, Seq::empty())
{
    assert forall|rest: Seq<u8>| (#[trigger] p_trace(c + rest)) == match p_trace(rest) { Some(t) => Some(Seq::empty() + t), None => None } by {
        assert(c + rest =~= rest);
        if p_trace(rest) is Some { assert(Seq::empty() + p_trace(rest)->0 =~= p_trace(rest)->0); }
    }
}
pub open spec fn traces_wf(t: Seq<Trace>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> match #[trigger] t[i] { Trace::Actually(r) => r.wf(), _ => true }
}
pub open spec fn deref_all(s: Seq<&Trace>) -> Seq<Trace> { Seq::new(s.len(), |i: int| *s[i]) }

pub proof fn lemma_step(b: Seq<u8>, r: Seq<u8>, d: Seq<Trace>)
    requires denotes(b, d), b.len() + 2 <= r.len(), b.is_prefix_of(r)
    ensures ({
        let c = r.skip(b.len() as int);
        let n = le16(c[0], c[1]);
        &&& c.len() == 2 && n == 0 ==> denotes(r, d + seq![Trace::ActuallyLiteral])
        &&& c.len() == 2 && n > 32768 ==> denotes(r, d + rep((n - 32768) as nat))
        &&& c.len() == 3 && 1 <= n <= 32768 ==> denotes(r, d + seq![Trace::Actually(Ref { dist: n as u16, run_minus_3: c[2] })])
    })
{
    let c = r.skip(b.len() as int);
    let n = le16(c[0], c[1]);
    assert(r =~= b + c);
    lemma_code(c);
    if c.len() == 2 && n == 0 { lemma_cat(b, d, c, seq![Trace::ActuallyLiteral]); }
    if c.len() == 2 && n > 32768 { lemma_cat(b, d, c, rep((n - 32768) as nat)); }
    if c.len() == 3 && 1 <= n <= 32768 { lemma_cat(b, d, c, seq![Trace::Actually(Ref { dist: n as u16, run_minus_3: c[2] })]); }
}
pub proof fn lemma_step_more(t: Seq<Trace>, n: int, m: int)
    requires 0 <= n <= m <= t.len(), forall|i: int| n <= i < m ==> t[i] == Trace::Correct
    ensures t.take(m) == t.take(n) + rep((m - n) as nat)
{
    assert(t.take(m) =~= t.take(n) + rep((m - n) as nat));
}

@fn write
@fattr #[verifier::loop_isolation(false)]
@rename into_iter => vx_iter
@spec
    requires traces_wf(traces@)
    ensures p_trace(r@) == Some(traces@)
@at start
    broadcast use group_le16;
    let ghost __t = traces@;
    proof { lemma_none(Seq::<u8>::empty()); assert(__t.take(0) =~= Seq::empty()); }
@loop 0
        invariant
            traces_wf(__t),
            traces@.len() <= __t.len(),
            traces@ == refs::<Trace>(__t).skip(__t.len() - traces@.len()),
            denotes(ret@, __t.take(__t.len() - traces@.len())),
        decreases traces@.len()
@at loop0.start
    let ghost __n = __t.len() - traces@.len();
    let ghost mut __b = ret@;
    let ghost mut __k: int = 0;
    proof { assert(traces@[0] == &__t[__n]); assert(__t.take(__n) + rep(0) =~= __t.take(__n)); }
@closure 0 params{__x: &&Trace} (b: bool)
    ensures b == (**__x == Trace::Correct)
---
    let $PAT = __x;
@loop 1
        invariant
            corrects >= 1, //@ C10?
            corrects <= __total,
            denotes(ret@, __t.take(__n) + rep((__total - corrects) as nat)),
        decreases corrects
@at loop1.before
    let ghost __total = corrects as int;
@at loop1.after
    proof { __b = ret@; __k = __total - corrects; }
@at loop1.start
    let ghost __b = ret@;
    let ghost __c = corrects as int;
@at loop1.end
    proof {
        lemma_step(__b, ret@, __t.take(__n) + rep((__total - __c) as nat));
        assert((__t.take(__n) + rep((__total - __c) as nat)) + rep((__c - corrects) as nat) =~= __t.take(__n) + rep((__total - corrects) as nat));
    }
@at loop0.end
    proof {
        let __m = __t.len() - traces@.len();
        if ret@.len() >= __b.len() + 2 && __b.is_prefix_of(ret@) {
            lemma_step(__b, ret@, __t.take(__n) + rep(__k as nat));
        }
        if __t[__n] == Trace::Correct {
        assert forall|i:int| __n <= i < __m implies __t[i] == Trace::Correct by { assert(refs::<Trace>(__t).skip(__n)[i - __n] == &__t[i]); }
            lemma_step_more(__t, __n, __m);
            assert((__t.take(__n) + rep(__k as nat)) + rep((__m - __n - __k) as nat) =~= __t.take(__n) + rep((__m - __n) as nat));
        }
        assert(__t.take(__n + 1) =~= __t.take(__n) + seq![__t[__n]]);
    }
@at end
    proof {
        assert(ret@ + Seq::<u8>::empty() =~= ret@);
        assert(__t.take(__t.len() as int) =~= __t);
        let _ = p_trace(ret@ + Seq::<u8>::empty());
        assert(__t + Seq::<Trace>::empty() =~= __t);
    }
@fn read
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::allow_complex_invariants]
@spec
    ensures
        !data.faulty() ==> (p_trace(data.rest()) matches Some(t) ==> (r matches Ok(x) && x@ == t)),
        !data.faulty() ==> (p_trace(data.rest()) is None ==> r is Err), //@ C10?
@at start
    let ghost __w = data.rest();
    proof { if p_trace(__w) is Some { assert(Seq::empty() + p_trace(__w)->0 =~= p_trace(__w)->0); } }
@loop 0
        invariant_except_break
            p_trace(__w) is Some ==> p_trace(data.rest()) is Some && p_trace(__w)->0 == ret@ + p_trace(data.rest())->0,
            p_trace(__w) is None ==> p_trace(data.rest()) is None, //@ C10?
        invariant
            data.faulty() == __f,
        ensures
            !__f && p_trace(__w) is Some ==> p_trace(__w) == Some(ret@),
            !__f ==> p_trace(__w) is Some, //@ C10?
        decreases data.rest().len()
@at loop0.before
    let ghost __f = data.faulty();
@at loop0.start
    let ghost __s = data.rest();
    let ghost __o = ret@;
    proof {
        assert(__o + Seq::empty() =~= __o);
        if __s.len() >= 2 { assert(__s[0] == __s.take(2)[0] && __s[1] == __s.take(2)[1]); }
    }
@at loop0.end
    proof {
        if p_trace(data.rest()) is Some {
            let t = p_trace(data.rest())->0;
            assert((__o + ret@.skip(__o.len() as int)) + t =~= __o + (ret@.skip(__o.len() as int) + t));
            assert(ret@ =~= __o + ret@.skip(__o.len() as int));
        }
        let c = ret@.skip(__o.len() as int);
        if __s.len() >= 3 { assert(__s.skip(2).skip(1) =~= __s.skip(3)); }
        assert(c.len() == 1 ==> c =~= seq![c[0]]);
        assert(__s[0] == __s.take(2)[0] && __s[1] == __s.take(2)[1]);
        let n = le16(__s[0], __s[1]);
        if n > 32768 { assert(c =~= rep((n - 32768) as nat)); }
    }
@loop 1 iter=__i
            invariant
                __o.len() <= ret@.len(), ret@ == __o + rep(__i.index@ as nat),
@at loop1.before
    proof { assert(__o + rep(0) =~= __o); }
@at loop1.end
    proof { assert(ret@ =~= __o + rep((__i.index@ + 1) as nat)); }
@fn verify
@spec
    requires traces_wf(traces@)
    ensures p_trace(r@) == Some(traces@)
