@file lib/src/huffman.rs => huffman
@header
use vstd::arithmetic::power2::*;
use crate::rfc::*;
use crate::code_tree::*;
@dropuse lazy_static::lazy_static
@skip print_fixed_tree

@fn FIXED_LENGTH_TREE_init
@spec
    ensures built(fixed_lit(), r.root())
@loop 0
    invariant lens@.len() == 288, forall|k: int| 0 <= k < i ==> lens@[k] == 8
@loop 1
    invariant lens@.len() == 288, forall|k: int| 0 <= k < i ==> lens@[k] == fixed_lit()[k]
@loop 2
    invariant lens@.len() == 288, forall|k: int| 0 <= k < i ==> lens@[k] == fixed_lit()[k]
@loop 3
    invariant lens@.len() == 288, forall|k: int| 0 <= k < i ==> lens@[k] == fixed_lit()[k]
@at loop3.after
    proof {
        assert(lens@ =~= fixed_lit());
        lemma_fixed_complete();
    }
@fn FIXED_DISTANCE_TREE_init
@spec
    ensures built(fixed_dist(), r.root())
@at start
    proof {
        lemma_fixed_complete();
        assert forall|s: Seq<u8>| #[trigger] complete(s) == complete(s) && s.len() == 32 && (forall|k: int| 0 <= k < 32 ==> s[k] == 5) implies s == fixed_dist() by { assert(s =~= fixed_dist()); }
    }
@fn encode_run_length
@spec
    requires 3 <= length <= 258
    ensures is_len_sym(length as int, r as int)
@at start
    proof { lemma2_to64(); }

@fn extra_run_length
@spec
    requires 3 <= length <= 258
    ensures forall|s: int| #[trigger] is_len_sym(length as int, s) ==> (match r {
        None => len_extra(s) == 0 && length == len_base(s),
        Some((b, v)) => b == len_extra(s) && b > 0 && v == length - len_base(s),
    })
@at start
    proof { lemma2_to64(); }

@fn decode_run_length
@spec
    requires old(reader).wf()
    ensures
        final(reader).wf(), final(reader).inner.faulty() == old(reader).inner.faulty(),
        r matches Ok(v) ==> p_len(sym as int, old(reader).bits()) == Some((v as nat, final(reader).bits())) && 3 <= v <= 258,
        r is Err ==> old(reader).inner.faulty() || p_len(sym as int, old(reader).bits()) is None,
@at start
    broadcast use group_skip;
    proof { lemma2_to64(); lemma_run_shift(); lemma_len_tables(sym); }

@fn encode_distance
@spec
    requires 1 <= distance <= 32768
    ensures r matches Some((c, b, v)) && is_dist_sym(distance as int, c as int) && b == dist_extra(c as int) && v == distance - dist_base(c as int)
@loop 0
    invariant
        1 <= extra_bits <= 13, code as int == 2 * (extra_bits as int) + 2, base == pow2((extra_bits + 1) as nat), base < distance <= 32768,
    decreases 14 - extra_bits
@at start
    proof { lemma2_to64(); }
@at loop0.start
    proof { lemma_dist_tables(extra_bits as nat); if extra_bits < 13 { lemma_dist_tables((extra_bits + 1) as nat); } }
@at loop0.after
    proof {
        lemma_dist_tables(extra_bits as nat);
        let h = pow2(extra_bits as nat) as int;
        let x = distance - base - 1;
        if x < h { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, h as nat); }
        else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, h, 1, x - h); }
    }

@fn decode_distance
@spec
    requires old(reader).wf()
    ensures
        final(reader).wf(), final(reader).inner.faulty() == old(reader).inner.faulty(),
        r matches Ok(v) ==> p_dist(sym as int, old(reader).bits()) == Some((v as nat, final(reader).bits())) && 1 <= v <= 32768,
        r is Err ==> old(reader).inner.faulty() || p_dist(sym as int, old(reader).bits()) is None,
@at start
    broadcast use group_skip;
    proof { lemma2_to64(); lemma_dist_shift(sym); }

@ghost
pub proof fn lemma_dist_tables(e: nat)
    requires 1 <= e <= 13
    ensures
        pow2(e + 1) == 2 * pow2(e), pow2(e) <= 8192,
        dist_base(2 * e as int + 2) == pow2(e + 1) + 1, dist_base(2 * e as int + 3) == pow2(e + 1) + pow2(e) + 1,
        dist_extra(2 * e as int + 2) == e, dist_extra(2 * e as int + 3) == e,
{
    lemma2_to64();
    if e == 1 {} else if e == 2 {} else if e == 3 {} else if e == 4 {} else if e == 5 {} else if e == 6 {} else if e == 7 {}
    else if e == 8 {} else if e == 9 {} else if e == 10 {} else if e == 11 {} else if e == 12 {} else {}
}
pub proof fn lemma_len_tables(sym: u16)
    ensures
        257 <= sym <= 264 ==> len_base(sym as int) == sym - 254 && len_extra(sym as int) == 0,
        265 <= sym <= 284 ==> {
            let e = (sym - 261) / 4;
            let a = (sym - 265) % 4 + 4;
            &&& 1 <= e <= 5
            &&& len_extra(sym as int) == e
            &&& len_base(sym as int) == a * pow2(e as nat) + 3
            &&& len_base(sym as int) + pow2(e as nat) <= 259
        },
        sym == 285 ==> len_base(sym as int) == 258 && len_extra(sym as int) == 0,
{
    lemma2_to64();
    if 265 <= sym <= 284 {
        if sym == 265 { assert((sym - 261) / 4 == 1 && (sym - 265) % 4 + 4 == 4); } else if sym == 266 { assert((sym - 261) / 4 == 1 && (sym - 265) % 4 + 4 == 5); } else if sym == 267 { assert((sym - 261) / 4 == 1 && (sym - 265) % 4 + 4 == 6); } else if sym == 268 { assert((sym - 261) / 4 == 1 && (sym - 265) % 4 + 4 == 7); } else if sym == 269 { assert((sym - 261) / 4 == 2 && (sym - 265) % 4 + 4 == 4); } else if sym == 270 { assert((sym - 261) / 4 == 2 && (sym - 265) % 4 + 4 == 5); } else if sym == 271 { assert((sym - 261) / 4 == 2 && (sym - 265) % 4 + 4 == 6); } else if sym == 272 { assert((sym - 261) / 4 == 2 && (sym - 265) % 4 + 4 == 7); } else if sym == 273 { assert((sym - 261) / 4 == 3 && (sym - 265) % 4 + 4 == 4); } else if sym == 274 { assert((sym - 261) / 4 == 3 && (sym - 265) % 4 + 4 == 5); } else if sym == 275 { assert((sym - 261) / 4 == 3 && (sym - 265) % 4 + 4 == 6); } else if sym == 276 { assert((sym - 261) / 4 == 3 && (sym - 265) % 4 + 4 == 7); } else if sym == 277 { assert((sym - 261) / 4 == 4 && (sym - 265) % 4 + 4 == 4); } else if sym == 278 { assert((sym - 261) / 4 == 4 && (sym - 265) % 4 + 4 == 5); } else if sym == 279 { assert((sym - 261) / 4 == 4 && (sym - 265) % 4 + 4 == 6); } else if sym == 280 { assert((sym - 261) / 4 == 4 && (sym - 265) % 4 + 4 == 7); } else if sym == 281 { assert((sym - 261) / 4 == 5 && (sym - 265) % 4 + 4 == 4); } else if sym == 282 { assert((sym - 261) / 4 == 5 && (sym - 265) % 4 + 4 == 5); } else if sym == 283 { assert((sym - 261) / 4 == 5 && (sym - 265) % 4 + 4 == 6); } else if sym == 284 { assert((sym - 261) / 4 == 5 && (sym - 265) % 4 + 4 == 7); }
    }
}
pub proof fn lemma_run_shift()
    ensures
        forall|a: u8, e: u8| 4 <= a < 8 && e < 6 ==> #[trigger] (a << e) == a * pow2(e as nat),
        forall|a: u16, e: u8| 4 <= a < 8 && e < 6 ==> #[trigger] (a << e) == a * pow2(e as nat),
        forall|a: u16, e: u16| 4 <= a < 8 && e < 6 ==> #[trigger] (a << e) == a * pow2(e as nat),
{
    lemma2_to64();
    assert forall|a: u8, e: u8| 4 <= a < 8 && e < 6 implies #[trigger] (a << e) == a * pow2(e as nat) by {
        let p = pow2(e as nat) as int;
        if e == 0 { assert(a << 0u8 == a) by (bit_vector); assert(p == 1); assert(a * p == 1 * a) by (nonlinear_arith) requires p == 1; }
        else if e == 1 { assert(a << 1u8 == 2 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 2); assert(a * p == 2 * a) by (nonlinear_arith) requires p == 2; }
        else if e == 2 { assert(a << 2u8 == 4 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 4); assert(a * p == 4 * a) by (nonlinear_arith) requires p == 4; }
        else if e == 3 { assert(a << 3u8 == 8 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 8); assert(a * p == 8 * a) by (nonlinear_arith) requires p == 8; }
        else if e == 4 { assert(a << 4u8 == 16 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 16); assert(a * p == 16 * a) by (nonlinear_arith) requires p == 16; }
        else { assert(e == 5); assert(a << 5u8 == 32 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 32); assert(a * p == 32 * a) by (nonlinear_arith) requires p == 32; }
    }
    assert forall|a: u16, e: u8| 4 <= a < 8 && e < 6 implies #[trigger] (a << e) == a * pow2(e as nat) by {
        let p = pow2(e as nat) as int;
        if e == 0 { assert(a << 0u8 == a) by (bit_vector); assert(p == 1); assert(a * p == 1 * a) by (nonlinear_arith) requires p == 1; }
        else if e == 1 { assert(a << 1u8 == 2 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 2); assert(a * p == 2 * a) by (nonlinear_arith) requires p == 2; }
        else if e == 2 { assert(a << 2u8 == 4 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 4); assert(a * p == 4 * a) by (nonlinear_arith) requires p == 4; }
        else if e == 3 { assert(a << 3u8 == 8 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 8); assert(a * p == 8 * a) by (nonlinear_arith) requires p == 8; }
        else if e == 4 { assert(a << 4u8 == 16 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 16); assert(a * p == 16 * a) by (nonlinear_arith) requires p == 16; }
        else { assert(e == 5); assert(a << 5u8 == 32 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 32); assert(a * p == 32 * a) by (nonlinear_arith) requires p == 32; }
    }
    assert forall|a: u16, e: u16| 4 <= a < 8 && e < 6 implies #[trigger] (a << e) == a * pow2(e as nat) by {
        let p = pow2(e as nat) as int;
        if e == 0 { assert(a << 0u16 == a) by (bit_vector); assert(p == 1); assert(a * p == 1 * a) by (nonlinear_arith) requires p == 1; }
        else if e == 1 { assert(a << 1u16 == 2 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 2); assert(a * p == 2 * a) by (nonlinear_arith) requires p == 2; }
        else if e == 2 { assert(a << 2u16 == 4 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 4); assert(a * p == 4 * a) by (nonlinear_arith) requires p == 4; }
        else if e == 3 { assert(a << 3u16 == 8 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 8); assert(a * p == 8 * a) by (nonlinear_arith) requires p == 8; }
        else if e == 4 { assert(a << 4u16 == 16 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 16); assert(a * p == 16 * a) by (nonlinear_arith) requires p == 16; }
        else { assert(e == 5); assert(a << 5u16 == 32 * a) by (bit_vector) requires 4 <= a < 8; assert(p == 32); assert(a * p == 32 * a) by (nonlinear_arith) requires p == 32; }
    }
}
pub proof fn lemma_dist_shift(sym: u16)
    ensures 4 <= sym <= 29 ==> {
        let n = (sym / 2 - 1) as u8;
        &&& 1 <= n <= 13
        &&& ((sym % 2 + 2) as u16) << n == (sym % 2 + 2) * pow2(n as nat)
        &&& n == dist_extra(sym as int)
        &&& (sym % 2 + 2) * pow2(n as nat) + 1 == dist_base(sym as int)
        &&& dist_base(sym as int) + pow2(n as nat) <= 32769
    }
{
    lemma2_to64();
    if 4 <= sym <= 29 {
        let n = (sym / 2 - 1) as u8;
        let a = (sym % 2 + 2) as u16;
        assert(a << 1u8 == 2 * a && a << 2u8 == 4 * a && a << 3u8 == 8 * a && a << 4u8 == 16 * a && a << 5u8 == 32 * a && a << 6u8 == 64 * a
            && a << 7u8 == 128 * a && a << 8u8 == 256 * a && a << 9u8 == 512 * a && a << 10u8 == 1024 * a && a << 11u8 == 2048 * a
            && a << 12u8 == 4096 * a && a << 13u8 == 8192 * a) by (bit_vector) requires 2 <= a <= 3;
        if n == 1 { assert(a << n == 2 * a && pow2(n as nat) == 2); assert(a * pow2(n as nat) == 2 * a) by (nonlinear_arith) requires pow2(n as nat) == 2; } else if n == 2 { assert(a << n == 4 * a && pow2(n as nat) == 4); assert(a * pow2(n as nat) == 4 * a) by (nonlinear_arith) requires pow2(n as nat) == 4; } else if n == 3 { assert(a << n == 8 * a && pow2(n as nat) == 8); assert(a * pow2(n as nat) == 8 * a) by (nonlinear_arith) requires pow2(n as nat) == 8; } else if n == 4 { assert(a << n == 16 * a && pow2(n as nat) == 16); assert(a * pow2(n as nat) == 16 * a) by (nonlinear_arith) requires pow2(n as nat) == 16; } else if n == 5 { assert(a << n == 32 * a && pow2(n as nat) == 32); assert(a * pow2(n as nat) == 32 * a) by (nonlinear_arith) requires pow2(n as nat) == 32; } else if n == 6 { assert(a << n == 64 * a && pow2(n as nat) == 64); assert(a * pow2(n as nat) == 64 * a) by (nonlinear_arith) requires pow2(n as nat) == 64; } else if n == 7 { assert(a << n == 128 * a && pow2(n as nat) == 128); assert(a * pow2(n as nat) == 128 * a) by (nonlinear_arith) requires pow2(n as nat) == 128; } else if n == 8 { assert(a << n == 256 * a && pow2(n as nat) == 256); assert(a * pow2(n as nat) == 256 * a) by (nonlinear_arith) requires pow2(n as nat) == 256; } else if n == 9 { assert(a << n == 512 * a && pow2(n as nat) == 512); assert(a * pow2(n as nat) == 512 * a) by (nonlinear_arith) requires pow2(n as nat) == 512; } else if n == 10 { assert(a << n == 1024 * a && pow2(n as nat) == 1024); assert(a * pow2(n as nat) == 1024 * a) by (nonlinear_arith) requires pow2(n as nat) == 1024; } else if n == 11 { assert(a << n == 2048 * a && pow2(n as nat) == 2048); assert(a * pow2(n as nat) == 2048 * a) by (nonlinear_arith) requires pow2(n as nat) == 2048; } else if n == 12 { assert(a << n == 4096 * a && pow2(n as nat) == 4096); assert(a * pow2(n as nat) == 4096 * a) by (nonlinear_arith) requires pow2(n as nat) == 4096; } else if n == 13 { assert(a << n == 8192 * a && pow2(n as nat) == 8192); assert(a * pow2(n as nat) == 8192 * a) by (nonlinear_arith) requires pow2(n as nat) == 8192; }
        assert(sym == 2 * n + 2 || sym == 2 * n + 3);
        lemma_dist_tables(n as nat);
    }
}

@fn read_codes
@fattr #[verifier::rlimit(100)]
@spec
    requires old(reader).src_ok(), old(reader).runs_out() ==> p_trees(old(reader).bits()) is Some
    ensures
        final(reader).src_ok(), final(reader).faulty() == old(reader).faulty(), final(reader).runs_out() == old(reader).runs_out(),
        r matches Ok((l, d)) ==> {
            &&& p_trees(old(reader).bits()) matches Some(((ll, dl), rest)) && rest == final(reader).bits() && built(ll, l.root()) && ll.len() <= 288
                && (match d { Some(t) => (dl matches Some(x) && x.len() <= 32 && built(x, t.root())), None => dl is None })
        },
        B::frame(*old(reader), *final(reader), r is Ok),
        r is Err ==> old(reader).faulty() || p_trees(old(reader).bits()) is None,
        final(reader).bits().len() <= old(reader).bits().len(),
@at start
    broadcast use group_skip;
    let ghost __w = reader.bits();
    proof {
        lemma2_to64();
        B::frame_refl(*reader);
        assert forall|b: B, c: B, k: bool| #[trigger] B::frame(*old(reader), b, true) && #[trigger] B::frame(b, c, k) implies B::frame(*old(reader), c, k) by { B::frame_trans(*old(reader), b, c, k); }
        assert forall|b: B| #[trigger] B::frame(*old(reader), b, true) implies B::frame(*old(reader), b, false) by { B::frame_weaken(*old(reader), b); }
        lemma_trees_head(__w);
    }
@at after num_code_len_codes #0
    let ghost __b3 = reader.bits();
    let ghost (__nl, __nd, __ncl) = (num_lit_len_codes as nat, num_distance_codes as nat, num_code_len_codes as nat);
    proof {
        lemma_cl_order();
        assert(p_trees(__w) == p_trees_cl(__b3, __nl, __nd, __ncl));
        assert(p_cl(__b3, 0) == Some((Seq::new(19, |i: int| 0u8), __b3)));
        lemma_trees_cl(__b3, __nl, __nd, __ncl, 0);
    }
@at before code_len_code_len[16]
    proof { assert(code_len_code_len@ =~= Seq::new(19, |i: int| 0u8)); }
@at after code_len_code_len[16]
    proof { assert(p_cl(__b3, 1) == Some((code_len_code_len@, reader.bits()))); lemma_trees_cl(__b3, __nl, __nd, __ncl, 1); }
@at after code_len_code_len[17]
    proof { assert(p_cl(__b3, 2) == Some((code_len_code_len@, reader.bits()))); lemma_trees_cl(__b3, __nl, __nd, __ncl, 2); }
@at after code_len_code_len[18]
    proof { assert(p_cl(__b3, 3) == Some((code_len_code_len@, reader.bits()))); lemma_trees_cl(__b3, __nl, __nd, __ncl, 3); }
@loop 0 iter=__i
    invariant
        4 <= num_code_len_codes <= 19, __ncl == num_code_len_codes, __w == old(reader).bits(),
        reader.src_ok(), reader.faulty() == old(reader).faulty(), reader.runs_out() == old(reader).runs_out(),
        reader.bits().len() <= __w.len(), B::frame(*old(reader), *reader, true),
        old(reader).runs_out() ==> p_trees(__w) is Some,
        p_trees(__w) == p_trees_cl(__b3, __nl, __nd, __ncl),
        p_cl(__b3, (4 + __i.index()) as nat) == Some((code_len_code_len@, reader.bits())),
@at loop0.start
    proof {
        lemma2_to64(); lemma_cl_order();
        lemma_trees_cl(__b3, __nl, __nd, __ncl, (4 + __i.index()) as nat);
        assert forall|b: B, c: B, k: bool| #[trigger] B::frame(*old(reader), b, true) && #[trigger] B::frame(b, c, k) implies B::frame(*old(reader), c, k) by { B::frame_trans(*old(reader), b, c, k); }
        assert forall|b: B| #[trigger] B::frame(*old(reader), b, true) implies B::frame(*old(reader), b, false) by { B::frame_weaken(*old(reader), b); }
    }
@at loop0.after
    let ghost __cl = code_len_code_len@;
    proof {
        assert forall|b: B| #[trigger] B::frame(*old(reader), b, true) implies B::frame(*old(reader), b, false) by { B::frame_weaken(*old(reader), b); }
        lemma_trees_cl(__b3, __nl, __nd, __ncl, __ncl); }
@loop 1 iter=__i1
    invariant code_lens@.len() == __i1.index()
@loop 2
    invariant_except_break i < code_lens_len
    invariant
        reader.src_ok(), reader.faulty() == old(reader).faulty(), reader.runs_out() == old(reader).runs_out(), __w == old(reader).bits(),
        reader.bits().len() <= __w.len(), B::frame(*old(reader), *reader, true),
        old(reader).runs_out() ==> p_trees(__w) is Some,
        code_lens@.len() == code_lens_len, i <= code_lens_len, code_lens_len == __nl + __nd, code_lens_len <= 320,
        built(__cl, code_len_code.root()), __cl.len() == 19,
        run_val is None ==> i == 0 && run_len as int == 0,
        run_val matches Some(v) ==> acc_of(code_lens@, i as int, run_val, run_len as nat).len() > 0 && acc_of(code_lens@, i as int, run_val, run_len as nat).last() == v,
        p_trees(__w) == p_trees_lens(__cl, reader.bits(), __nl, __nd, acc_of(code_lens@, i as int, run_val, run_len as nat)),
    ensures i == code_lens_len
    decreases 2 * (code_lens_len - i) + if run_len as int == 0 { 1int } else { 0 }
@at loop2.start
    broadcast use group_skip;
    let ghost __acc = acc_of(code_lens@, i as int, run_val, run_len as nat);
    let ghost (__i0, __n0) = (i as int, run_len as int);
    proof {
        lemma2_to64();
        lemma_walk_is_huff(__cl, code_len_code.root(), reader.bits());
        lemma_huff_range(__cl, reader.bits());
        lemma_trees_lens(__cl, reader.bits(), __nl, __nd, __acc);
        assert forall|b: B, c: B, k: bool| #[trigger] B::frame(*old(reader), b, true) && #[trigger] B::frame(b, c, k) implies B::frame(*old(reader), c, k) by { B::frame_trans(*old(reader), b, c, k); }
        assert forall|b: B| #[trigger] B::frame(*old(reader), b, true) implies B::frame(*old(reader), b, false) by { B::frame_weaken(*old(reader), b); }
    }
@at before i >= code_lens_len
    proof {
        let n = acc_of(code_lens@, i as int, run_val, run_len as nat);
        if __n0 > 0 { assert(n =~= __acc); }
        else if i as int > __i0 { assert(n =~= __acc.push(code_lens@[__i0])); }
        else { assert(n =~= __acc + rep(match run_val { Some(x) => x, None => 0 }, run_len as nat)); }
    }
@at loop2.after
    proof {
        assert forall|b: B| #[trigger] B::frame(*old(reader), b, true) implies B::frame(*old(reader), b, false) by { B::frame_weaken(*old(reader), b); }
        let n = acc_of(code_lens@, i as int, run_val, run_len as nat);
        lemma_trees_lens(__cl, reader.bits(), __nl, __nd, n);
        if run_len as int == 0 { assert(n =~= code_lens@); }
        assert(code_lens@.subrange(0, __nl as int) =~= code_lens@.take(__nl as int));
        assert(code_lens@.subrange(__nl as int, code_lens@.len() as int) =~= code_lens@.skip(__nl as int));
    }
@at loop3.before
    let ghost __d = dist_code_len@;
@loop 3 iter=__j
    invariant
        dist_code_len@ == __d, __d.len() <= 32,
        one_count as int == count(__d.take(__j.index()), 1), 0 <= one_count as int <= __j.index(),
        0 <= other_positive_count as int <= __j.index(),
        other_positive_count as int == 0 <==> forall|k: int| 0 <= k < __j.index() ==> #[trigger] __d[k] <= 1,
@at loop3.start
    proof { assert(__d.take(__j.index() + 1).drop_last() =~= __d.take(__j.index())); }
@at loop3.after
    proof {
        assert(__d.take(__d.len() as int) =~= __d);
        assert(sole(__d) <==> one_count as int == 1 && other_positive_count as int == 0);
    }
@at before CodeTree::new(&new_lens)
    proof { assert(new_lens@ =~= dist_lens(__d)); }

@ghost
/// the code lengths so far, and the rest of the run under way
pub open spec fn acc_of(lens: Seq<u8>, i: int, v: Option<u8>, n: nat) -> Seq<u8> {
    lens.take(i) + rep(match v { Some(x) => x, None => 0 }, n)
}
