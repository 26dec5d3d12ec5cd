// ---------------------------------------------------------------------------------------------
// RFC 1951, written down independently of the code under proof
// ---------------------------------------------------------------------------------------------
pub mod rfc {
    use vstd::prelude::*;
    use vstd::arithmetic::power2::*;
    use crate::vx::bits::*;
    use crate::vx::seqs::*;
    verus! {
    // ---- 3.2.2: canonical Huffman codes
    /// bl_count[d]
    pub open spec fn count(lens: Seq<u8>, d: int) -> nat
        decreases lens.len()
    {
        if lens.len() == 0 { 0 } else { count(lens.drop_last(), d) + if lens.last() == d { 1nat } else { 0 } }
    }
    /// next_code[d] before any code of that length is given out (bl_count[0] counts as 0)
    pub open spec fn next_code(lens: Seq<u8>, d: nat) -> nat
        decreases d
    {
        if d == 0 { 0 } else { 2 * (next_code(lens, (d - 1) as nat) + if d == 1 { 0 } else { count(lens, d - 1) }) }
    }
    /// the n low bits of v, most significant first (codes are packed from their top bit)
    pub open spec fn code_bits(v: nat, n: nat) -> Seq<bool>
        decreases n
    {
        if n == 0 { Seq::empty() } else { code_bits(v / 2, (n - 1) as nat).push(v % 2 == 1) }
    }
    pub open spec fn coded(lens: Seq<u8>, k: int) -> bool { 0 <= k < lens.len() && 1 <= lens[k] <= 15 }
    /// codes of one length are given out in symbol order
    pub open spec fn codeword(lens: Seq<u8>, k: int) -> Seq<bool> {
        code_bits(next_code(lens, lens[k] as nat) + count(lens.take(k), lens[k] as int), lens[k] as nat)
    }
    /// the symbol the next bits spell, and the bits behind it
    #[verifier::opaque]
    pub open spec fn huff(lens: Seq<u8>, bits: Seq<bool>) -> Option<(u16, Seq<bool>)> {
        if exists|k: int| coded(lens, k) && #[trigger] codeword(lens, k).is_prefix_of(bits) {
            let k = choose|k: int| coded(lens, k) && #[trigger] codeword(lens, k).is_prefix_of(bits);
            Some((k as u16, bits.skip(lens[k] as int)))
        } else { None }
    }
    /// what a code of length d takes of the code space of size 2^15
    pub open spec fn share(d: int) -> nat {
        if d == 1 { 16384 } else if d == 2 { 8192 } else if d == 3 { 4096 } else if d == 4 { 2048 } else if d == 5 { 1024 }
        else if d == 6 { 512 } else if d == 7 { 256 } else if d == 8 { 128 } else if d == 9 { 64 } else if d == 10 { 32 }
        else if d == 11 { 16 } else if d == 12 { 8 } else if d == 13 { 4 } else if d == 14 { 2 } else if d == 15 { 1 } else { 0 }
    }
    pub open spec fn kraft(lens: Seq<u8>) -> nat
        decreases lens.len()
    {
        if lens.len() == 0 { 0 } else { kraft(lens.drop_last()) + share(lens.last() as int) }
    }
    /// the lengths use up the code space exactly: a complete prefix code
    pub open spec fn complete(lens: Seq<u8>) -> bool { kraft(lens) == 32768 }

    /// free code words of length d
    pub open spec fn left(lens: Seq<u8>, d: nat) -> int
        decreases d
    {
        if d == 0 { 1 } else { 2 * left(lens, (d - 1) as nat) - count(lens, d as int) }
    }
    pub proof fn lemma_kraft_counts(lens: Seq<u8>)
        ensures kraft(lens) == 16384 * count(lens, 1) + 8192 * count(lens, 2) + 4096 * count(lens, 3) + 2048 * count(lens, 4) + 1024 * count(lens, 5)
            + 512 * count(lens, 6) + 256 * count(lens, 7) + 128 * count(lens, 8) + 64 * count(lens, 9) + 32 * count(lens, 10)
            + 16 * count(lens, 11) + 8 * count(lens, 12) + 4 * count(lens, 13) + 2 * count(lens, 14) + count(lens, 15)
        decreases lens.len()
    {
        if lens.len() > 0 { lemma_kraft_counts(lens.drop_last()); }
    }
    pub proof fn lemma_left_kraft(lens: Seq<u8>)
        ensures left(lens, 15) == 0 <==> complete(lens)
    {
        lemma_kraft_counts(lens);
        reveal_with_fuel(left, 16);
    }
    pub proof fn lemma_code_bits_len(v: nat, n: nat)
        ensures code_bits(v, n).len() == n
        decreases n
    {
        if n > 0 { lemma_code_bits_len(v / 2, (n - 1) as nat); }
    }
    pub proof fn lemma_codeword_len(lens: Seq<u8>, k: int)
        requires coded(lens, k)
        ensures codeword(lens, k).len() == lens[k]
    {
        lemma_code_bits_len(next_code(lens, lens[k] as nat) + count(lens.take(k), lens[k] as int), lens[k] as nat);
    }

    // ---- fields
    /// n bits, least significant first
    pub open spec fn rd(bits: Seq<bool>, n: nat) -> Option<(nat, Seq<bool>)> {
        if bits.len() < n { None } else { Some((bits_val(bits.take(n as int)), bits.skip(n as int))) }
    }

    // ---- 3.2.5: lengths and distances
    /// the length (shortest, where extra bits follow) of a length symbol
    pub open spec fn len_base(s: int) -> nat {
        if s == 257 { 3 } else if s == 258 { 4 } else if s == 259 { 5 } else if s == 260 { 6 } else if s == 261 { 7 } else if s == 262 { 8 } else if s == 263 { 9 } else if s == 264 { 10 } else if s == 265 { 11 } else if s == 266 { 13 } else if s == 267 { 15 } else if s == 268 { 17 } else if s == 269 { 19 } else if s == 270 { 23 } else if s == 271 { 27 } else if s == 272 { 31 } else if s == 273 { 35 } else if s == 274 { 43 } else if s == 275 { 51 } else if s == 276 { 59 } else if s == 277 { 67 } else if s == 278 { 83 } else if s == 279 { 99 } else if s == 280 { 115 } else if s == 281 { 131 } else if s == 282 { 163 } else if s == 283 { 195 } else if s == 284 { 227 } else if s == 285 { 258 } else { 0 }
    }
    /// the extra bits of a length symbol
    pub open spec fn len_extra(s: int) -> nat {
        if s == 257 { 0 } else if s == 258 { 0 } else if s == 259 { 0 } else if s == 260 { 0 } else if s == 261 { 0 } else if s == 262 { 0 } else if s == 263 { 0 } else if s == 264 { 0 } else if s == 265 { 1 } else if s == 266 { 1 } else if s == 267 { 1 } else if s == 268 { 1 } else if s == 269 { 2 } else if s == 270 { 2 } else if s == 271 { 2 } else if s == 272 { 2 } else if s == 273 { 3 } else if s == 274 { 3 } else if s == 275 { 3 } else if s == 276 { 3 } else if s == 277 { 4 } else if s == 278 { 4 } else if s == 279 { 4 } else if s == 280 { 4 } else if s == 281 { 5 } else if s == 282 { 5 } else if s == 283 { 5 } else if s == 284 { 5 } else if s == 285 { 0 } else { 0 }
    }
    /// the distance (shortest, where extra bits follow) of a distance symbol
    pub open spec fn dist_base(s: int) -> nat {
        if s == 0 { 1 } else if s == 1 { 2 } else if s == 2 { 3 } else if s == 3 { 4 } else if s == 4 { 5 } else if s == 5 { 7 } else if s == 6 { 9 } else if s == 7 { 13 } else if s == 8 { 17 } else if s == 9 { 25 } else if s == 10 { 33 } else if s == 11 { 49 } else if s == 12 { 65 } else if s == 13 { 97 } else if s == 14 { 129 } else if s == 15 { 193 } else if s == 16 { 257 } else if s == 17 { 385 } else if s == 18 { 513 } else if s == 19 { 769 } else if s == 20 { 1025 } else if s == 21 { 1537 } else if s == 22 { 2049 } else if s == 23 { 3073 } else if s == 24 { 4097 } else if s == 25 { 6145 } else if s == 26 { 8193 } else if s == 27 { 12289 } else if s == 28 { 16385 } else if s == 29 { 24577 } else { 0 }
    }
    /// the extra bits of a distance symbol
    pub open spec fn dist_extra(s: int) -> nat {
        if s == 0 { 0 } else if s == 1 { 0 } else if s == 2 { 0 } else if s == 3 { 0 } else if s == 4 { 1 } else if s == 5 { 1 } else if s == 6 { 2 } else if s == 7 { 2 } else if s == 8 { 3 } else if s == 9 { 3 } else if s == 10 { 4 } else if s == 11 { 4 } else if s == 12 { 5 } else if s == 13 { 5 } else if s == 14 { 6 } else if s == 15 { 6 } else if s == 16 { 7 } else if s == 17 { 7 } else if s == 18 { 8 } else if s == 19 { 8 } else if s == 20 { 9 } else if s == 21 { 9 } else if s == 22 { 10 } else if s == 23 { 10 } else if s == 24 { 11 } else if s == 25 { 11 } else if s == 26 { 12 } else if s == 27 { 12 } else if s == 28 { 13 } else if s == 29 { 13 } else { 0 }
    }
    pub open spec fn p_len(s: int, bits: Seq<bool>) -> Option<(nat, Seq<bool>)> {
        if 257 <= s <= 285 {
            match rd(bits, len_extra(s)) { Some((v, r)) => Some((len_base(s) + v, r)), None => None }
        } else { None }
    }
    pub open spec fn p_dist(s: int, bits: Seq<bool>) -> Option<(nat, Seq<bool>)> {
        if 0 <= s <= 29 {
            match rd(bits, dist_extra(s)) { Some((v, r)) => Some((dist_base(s) + v, r)), None => None }
        } else { None }
    }
    /// s is the symbol for this length (258 has one of its own)
    pub open spec fn is_len_sym(len: int, s: int) -> bool {
        &&& 257 <= s <= 285
        &&& len_base(s) <= len
        &&& len - len_base(s) < pow2(len_extra(s))
        &&& len == 258 ==> s == 285
    }
    pub open spec fn is_dist_sym(dist: int, s: int) -> bool {
        &&& 0 <= s <= 29
        &&& dist_base(s) <= dist
        &&& dist - dist_base(s) < pow2(dist_extra(s))
    }

    // ---- fields written and read back
    pub proof fn lemma_bits_val_low(s: Seq<bool>)
        requires s.len() > 0
        ensures bits_val(s) == (if s[0] { 1nat } else { 0 }) + 2 * bits_val(s.skip(1))
        decreases s.len()
    {
        lemma2_to64();
        if s.len() == 1 {
            assert(s.skip(1) =~= Seq::empty());
            assert(s.drop_last() =~= Seq::empty());
        } else {
            lemma_bits_val_low(s.drop_last());
            assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
            lemma_pow2_unfold((s.len() - 1) as nat);
        }
    }
    pub proof fn lemma_val_bits_low(v: u16, n: nat)
        requires 1 <= n <= 16
        ensures val_bits(v, n)[0] == (v % 2 == 1), val_bits(v, n).skip(1) == val_bits(v / 2, (n - 1) as nat)
    {
        assert((v >> 0u16) & 1 == v % 2) by (bit_vector);
        assert forall|i: int| 0 <= i < n - 1 implies val_bits(v, n).skip(1)[i] == val_bits(v / 2, (n - 1) as nat)[i] by {
            let j = i as u16;
            assert((v >> add(j, 1)) & 1 == ((v / 2) >> j) & 1) by (bit_vector) requires j < 15;
        }
        assert(val_bits(v, n).skip(1) =~= val_bits(v / 2, (n - 1) as nat));
    }
    pub proof fn lemma_val_round(v: u16, n: nat)
        requires n <= 16, v < pow2(n)
        ensures bits_val(val_bits(v, n)) == v
        decreases n
    {
        lemma2_to64();
        if n > 0 {
            lemma_pow2_unfold(n);
            lemma_val_bits_low(v, n);
            lemma_bits_val_low(val_bits(v, n));
            lemma_val_round(v / 2, (n - 1) as nat);
        }
    }
    pub proof fn lemma_bits_round(s: Seq<bool>)
        requires s.len() <= 15
        ensures bits_val(s) < 32768, val_bits(bits_val(s) as u16, s.len()) == s
        decreases s.len()
    {
        lemma2_to64();
        lemma_bits_val_bound(s);
        lemma_pow2_15(s.len());
        let v = bits_val(s) as u16;
        if s.len() > 0 {
            lemma_bits_val_low(s);
            lemma_bits_round(s.skip(1));
            lemma_val_bits_low(v, s.len());
            assert(v / 2 == bits_val(s.skip(1)));
            assert forall|i: int| 0 <= i < s.len() implies val_bits(v, s.len())[i] == s[i] by {
                if i > 0 {
                    assert(val_bits(v, s.len())[i] == val_bits(v, s.len()).skip(1)[i - 1]);
                    assert(s[i] == s.skip(1)[i - 1]);
                }
            }
        }
        assert(val_bits(v, s.len()) =~= s);
    }
    pub proof fn lemma_pow2_15(n: nat)
        requires n <= 15
        ensures pow2(n) <= 32768
    {
        lemma2_to64();
        if n < 15 { lemma_pow2_strictly_increases(n, 15); }
    }
    pub proof fn lemma_rd_round(v: u16, n: nat, rest: Seq<bool>)
        requires n <= 16, v < pow2(n)
        ensures rd(val_bits(v, n) + rest, n) == Some((v as nat, rest))
    {
        lemma_val_round(v, n);
        let b = val_bits(v, n) + rest;
        assert(b.take(n as int) =~= val_bits(v, n));
        assert(b.skip(n as int) =~= rest);
    }
    /// what rd gave is what val_bits writes
    pub proof fn lemma_rd_inv(b: Seq<bool>, n: nat)
        requires n <= 15
        ensures rd(b, n) matches Some((v, r)) ==> v < pow2(n) && v < 32768 && b == val_bits(v as u16, n) + r
    {
        if b.len() >= n {
            lemma_bits_val_bound(b.take(n as int));
            lemma_bits_round(b.take(n as int));
            assert(b =~= b.take(n as int) + b.skip(n as int));
        }
    }
    /// C05: the symbol and extra bits of a length decode to it, whatever follows
    pub proof fn lemma_len_round(len: int, s: int, rest: Seq<bool>)
        requires is_len_sym(len, s), 3 <= len <= 258
        ensures p_len(s, val_bits((len - len_base(s)) as u16, len_extra(s)) + rest) == Some((len as nat, rest))
    {
        lemma_rd_round((len - len_base(s)) as u16, len_extra(s), rest);
    }
    pub proof fn lemma_dist_round(dist: int, s: int, rest: Seq<bool>)
        requires is_dist_sym(dist, s), 1 <= dist <= 32768
        ensures p_dist(s, val_bits((dist - dist_base(s)) as u16, dist_extra(s)) + rest) == Some((dist as nat, rest))
    {
        lemma_rd_round((dist - dist_base(s)) as u16, dist_extra(s), rest);
    }
    /// every length has one symbol, and every distance
    pub proof fn lemma_len_sym_one(len: int, s: int, t: int)
        requires is_len_sym(len, s), is_len_sym(len, t), 3 <= len <= 258
        ensures s == t
    {
        lemma2_to64();
        lemma_len_next(s); lemma_len_next(t);
        if s < t { lemma_len_mono(s + 1, t); } else if t < s { lemma_len_mono(t + 1, s); }
    }
    pub proof fn lemma_dist_sym_one(dist: int, s: int, t: int)
        requires is_dist_sym(dist, s), is_dist_sym(dist, t), 1 <= dist <= 32768
        ensures s == t
    {
        lemma2_to64();
        lemma_dist_next(s); lemma_dist_next(t);
        if s < t { lemma_dist_mono(s + 1, t); } else if t < s { lemma_dist_mono(t + 1, s); }
    }
    pub proof fn lemma_len_next(s: int)
        requires 257 <= s <= 285
        ensures s < 284 ==> len_base(s) + pow2(len_extra(s)) == len_base(s + 1), s == 284 ==> len_base(s) + pow2(len_extra(s)) == 259
    {
        lemma2_to64();
    }
    pub proof fn lemma_len_mono(s: int, t: int)
        requires 257 <= s <= t <= 285
        ensures len_base(s) <= len_base(t)
        decreases t - s
    {
        lemma2_to64();
        if s < t { lemma_len_mono(s + 1, t); lemma_len_next(s); }
    }
    pub proof fn lemma_dist_next(s: int)
        requires 0 <= s <= 29
        ensures s < 29 ==> dist_base(s) + pow2(dist_extra(s)) == dist_base(s + 1), s == 29 ==> dist_base(s) + pow2(dist_extra(s)) == 32769
    {
        lemma2_to64();
    }
    pub proof fn lemma_dist_mono(s: int, t: int)
        requires 0 <= s <= t <= 29
        ensures dist_base(s) <= dist_base(t)
        decreases t - s
    {
        lemma2_to64();
        if s < t { lemma_dist_mono(s + 1, t); lemma_dist_next(s); }
    }
    /// C05: a decoded length is re-encoded with the same symbol and bits (all but the second spelling of 258)
    pub proof fn lemma_len_inv(s: int, b: Seq<bool>)
        ensures p_len(s, b) matches Some((len, r)) ==> {
            &&& 3 <= len <= 258
            &&& !(s == 284 && len == 258) ==> is_len_sym(len as int, s) && b == val_bits((len - len_base(s)) as u16, len_extra(s)) + r
        }
    {
        lemma2_to64();
        if 257 <= s <= 285 {
            lemma_rd_inv(b, len_extra(s));
            lemma_len_next(s);
            if s < 284 { lemma_len_mono(s + 1, 284); lemma_len_mono(257, s); }
        }
    }
    pub proof fn lemma_dist_inv(s: int, b: Seq<bool>)
        ensures p_dist(s, b) matches Some((dist, r)) ==> {
            &&& 1 <= dist <= 32768
            &&& is_dist_sym(dist as int, s) && b == val_bits((dist - dist_base(s)) as u16, dist_extra(s)) + r
        }
    {
        lemma2_to64();
        if 0 <= s <= 29 {
            lemma_rd_inv(b, dist_extra(s));
            lemma_dist_next(s);
            lemma_dist_mono(0, s);
            if s < 29 { lemma_dist_mono(s + 1, 29); lemma_dist_next(29); }
        }
    }
    /// C05: every length and distance has a symbol
    pub proof fn lemma_len_sym_exists(len: int)
        requires 3 <= len <= 258
        ensures exists|s: int| #[trigger] is_len_sym(len, s)
    {
        lemma_len_find(len, 285);
    }
    pub proof fn lemma_dist_sym_exists(dist: int)
        requires 1 <= dist <= 32768
        ensures exists|s: int| #[trigger] is_dist_sym(dist, s)
    {
        lemma_dist_next(29);
        lemma_dist_find(dist, 29);
    }
    pub proof fn lemma_len_find(len: int, t: int)
        requires 257 <= t <= 285, 3 <= len, t < 285 ==> len < len_base(t) + pow2(len_extra(t)) && len < 258, len <= 258
        ensures exists|s: int| #[trigger] is_len_sym(len, s)
        decreases t
    {
        lemma2_to64();
        lemma_len_next(t);
        if len_base(t) <= len { assert(is_len_sym(len, t)); }
        else { lemma_len_next(t - 1); lemma_len_find(len, t - 1); }
    }
    pub proof fn lemma_dist_find(dist: int, t: int)
        requires 0 <= t <= 29, 1 <= dist < dist_base(t) + pow2(dist_extra(t))
        ensures exists|s: int| #[trigger] is_dist_sym(dist, s)
        decreases t
    {
        lemma2_to64();
        if dist_base(t) <= dist { assert(is_dist_sym(dist, t)); }
        else { lemma_dist_next(t - 1); lemma_dist_find(dist, t - 1); }
    }

    // ---- 3.2.7: the code tables of a block with dynamic codes
    pub open spec fn cl_order(j: int) -> int {
        seq![16int, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15][j]
    }
    /// the lengths of the code length code: n of them are given
    pub open spec fn p_cl(bits: Seq<bool>, n: nat) -> Option<(Seq<u8>, Seq<bool>)>
        decreases n
    {
        if n == 0 { Some((Seq::new(19, |i: int| 0u8), bits)) }
        else {
            match p_cl(bits, (n - 1) as nat) {
                None => None,
                Some((a, r)) => match rd(r, 3) { None => None, Some((v, r2)) => Some((a.update(cl_order(n - 1), v as u8), r2)) },
            }
        }
    }
    pub open spec fn rep(x: u8, n: nat) -> Seq<u8> { Seq::new(n, |i: int| x) }
    /// total code lengths, run-length coded with the code cl
    pub open spec fn p_lens(cl: Seq<u8>, bits: Seq<bool>, total: nat, acc: Seq<u8>) -> Option<(Seq<u8>, Seq<bool>)>
        decreases (if total > acc.len() { total - acc.len() } else { 0 })
    {
        if acc.len() > total { None }
        else if acc.len() == total { Some((acc, bits)) }
        else {
            match huff(cl, bits) {
                None => None,
                Some((s, r)) =>
                    if s <= 15 { p_lens(cl, r, total, acc.push(s as u8)) }
                    else if s == 16 {
                        if acc.len() == 0 { None }
                        else { match rd(r, 2) { None => None, Some((v, r2)) => p_lens(cl, r2, total, acc + rep(acc.last(), v + 3)) } }
                    } else if s == 17 {
                        match rd(r, 3) { None => None, Some((v, r2)) => p_lens(cl, r2, total, acc + rep(0, v + 3)) }
                    } else {
                        match rd(r, 7) { None => None, Some((v, r2)) => p_lens(cl, r2, total, acc + rep(0, v + 11)) }
                    },
            }
        }
    }
    /// "If only one distance code is used, it is encoded using one bit, not zero bits"
    pub open spec fn sole(d: Seq<u8>) -> bool { count(d, 1) == 1 && forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] <= 1 }
    /// ... the unused code word stands for the reserved symbol 31
    pub open spec fn dist_lens(d: Seq<u8>) -> Seq<u8> {
        if sole(d) { Seq::new(32, |i: int| if i == 31 { 1u8 } else if i < d.len() { d[i] } else { 0 }) } else { d }
    }
    /// code lengths of literals/lengths and of distances, if there are any
    #[verifier::opaque]
    pub open spec fn p_trees(bits: Seq<bool>) -> Option<((Seq<u8>, Option<Seq<u8>>), Seq<bool>)> {
        match rd(bits, 5) { None => None, Some((hlit, b1)) =>
        match rd(b1, 5) { None => None, Some((hdist, b2)) =>
        match rd(b2, 4) { None => None, Some((hclen, b3)) => p_trees_cl(b3, hlit + 257, hdist + 1, hclen + 4) }}}
    }
    /// nl literal/length codes and nd distance codes, described with ncl code length codes
    #[verifier::opaque]
    pub open spec fn p_trees_cl(bits: Seq<bool>, nl: nat, nd: nat, ncl: nat) -> Option<((Seq<u8>, Option<Seq<u8>>), Seq<bool>)> {
        match p_cl(bits, ncl) { None => None, Some((cl, r)) => if !complete(cl) { None } else { p_trees_lens(cl, r, nl, nd, Seq::empty()) } }
    }
    /// ... of which acc are already read
    #[verifier::opaque]
    pub open spec fn p_trees_lens(cl: Seq<u8>, bits: Seq<bool>, nl: nat, nd: nat, acc: Seq<u8>) -> Option<((Seq<u8>, Option<Seq<u8>>), Seq<bool>)> {
        match p_lens(cl, bits, nl + nd, acc) { None => None, Some((lens, r)) => split_lens(lens.take(nl as int), lens.skip(nl as int), r) }
    }
    pub open spec fn split_lens(l: Seq<u8>, d: Seq<u8>, rest: Seq<bool>) -> Option<((Seq<u8>, Option<Seq<u8>>), Seq<bool>)> {
        if !complete(l) { None }
        else if d.len() == 1 && d[0] == 0 { Some(((l, None), rest)) }
        else if !complete(dist_lens(d)) { None }
        else { Some(((l, Some(dist_lens(d))), rest)) }
    }
    pub proof fn lemma_trees_head(b: Seq<bool>)
        ensures
            b.len() < 14 ==> p_trees(b) is None,
            b.len() >= 14 ==> p_trees(b) == p_trees_cl(b.skip(14), bits_val(b.take(5)) + 257, bits_val(b.skip(5).take(5)) + 1, bits_val(b.skip(10).take(4)) + 4),
    {
        broadcast use group_skip;
        reveal(p_trees);
    }
    pub proof fn lemma_trees_cl(b: Seq<bool>, nl: nat, nd: nat, ncl: nat, k: nat)
        requires k <= ncl
        ensures match p_cl(b, k) {
            None => p_trees_cl(b, nl, nd, ncl) is None,
            Some((a, r)) => {
                &&& k < ncl && r.len() < 3 ==> p_trees_cl(b, nl, nd, ncl) is None
                &&& r.len() >= 3 ==> p_cl(b, k + 1) == Some((a.update(cl_order(k as int), bits_val(r.take(3)) as u8), r.skip(3)))
                &&& k == ncl ==> p_trees_cl(b, nl, nd, ncl) == if complete(a) { p_trees_lens(a, r, nl, nd, Seq::empty()) } else { None }
            },
        }
    {
        reveal(p_trees_cl);
        lemma_p_cl_mono(b, k, ncl);
        if k < ncl { lemma_p_cl_mono(b, k + 1, ncl); }
    }
    pub proof fn lemma_p_cl_mono(b: Seq<bool>, n: nat, m: nat)
        requires n <= m
        ensures p_cl(b, n) is None ==> p_cl(b, m) is None
        decreases m
    {
        if n < m { lemma_p_cl_mono(b, n, (m - 1) as nat); }
    }
    pub proof fn lemma_cl_order()
        ensures
            cl_order(0) == 16, cl_order(1) == 17, cl_order(2) == 18, cl_order(3) == 0,
            forall|j: int| 0 <= j < 15 ==> #[trigger] cl_order(4 + j) == if j % 2 == 0 { 8 + j / 2 } else { 7 - j / 2 },
    {
        assert forall|j: int| 0 <= j < 15 implies #[trigger] cl_order(4 + j) == if j % 2 == 0 { 8 + j / 2 } else { 7 - j / 2 } by {
            if j < 5 {} else if j < 10 {} else {}
        }
    }
    pub proof fn lemma_trees_lens(cl: Seq<u8>, b: Seq<bool>, nl: nat, nd: nat, acc: Seq<u8>)
        ensures ({
            let p = p_trees_lens(cl, b, nl, nd, acc);
            &&& acc.len() > nl + nd ==> p is None
            &&& acc.len() == nl + nd ==> p == split_lens(acc.take(nl as int), acc.skip(nl as int), b)
            &&& acc.len() < nl + nd ==> match huff(cl, b) {
                None => p is None,
                Some((s, r)) => {
                    &&& s <= 15 ==> p == p_trees_lens(cl, r, nl, nd, acc.push(s as u8))
                    &&& s == 16 && (acc.len() == 0 || r.len() < 2) ==> p is None
                    &&& s == 16 && acc.len() > 0 && r.len() >= 2 ==> p == p_trees_lens(cl, r.skip(2), nl, nd, acc + rep(acc.last(), bits_val(r.take(2)) + 3))
                    &&& s == 17 && r.len() < 3 ==> p is None
                    &&& s == 17 && r.len() >= 3 ==> p == p_trees_lens(cl, r.skip(3), nl, nd, acc + rep(0, bits_val(r.take(3)) + 3))
                    &&& s >= 18 && r.len() < 7 ==> p is None
                    &&& s >= 18 && r.len() >= 7 ==> p == p_trees_lens(cl, r.skip(7), nl, nd, acc + rep(0, bits_val(r.take(7)) + 11))
                },
            }
        })
    {
        reveal(p_trees_lens);
    }
    pub proof fn lemma_huff_range(lens: Seq<u8>, b: Seq<bool>)
        ensures huff(lens, b) matches Some((s, r)) ==> (lens.len() <= 65536 ==> coded(lens, s as int)) && r.len() < b.len()
    {
        reveal(huff);
        if exists|k: int| coded(lens, k) && #[trigger] codeword(lens, k).is_prefix_of(b) {
            let k = choose|k: int| coded(lens, k) && #[trigger] codeword(lens, k).is_prefix_of(b);
            lemma_codeword_len(lens, k);
        }
    }

    // ---- 3.2.6: the fixed codes
    pub open spec fn fixed_lit() -> Seq<u8> { Seq::new(288, |i: int| if i < 144 { 8u8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }) }
    pub open spec fn fixed_dist() -> Seq<u8> { Seq::new(32, |i: int| 5u8) }

    pub proof fn lemma_fixed_complete()
        ensures complete(fixed_lit()), complete(fixed_dist())
    {
        lemma_fixed_lit_kraft(288);
        lemma_fixed_dist_kraft(32);
        assert(fixed_lit().take(288) =~= fixed_lit());
        assert(fixed_dist().take(32) =~= fixed_dist());
    }
    pub proof fn lemma_fixed_lit_kraft(n: nat)
        requires n <= 288
        ensures kraft(fixed_lit().take(n as int)) == if n <= 144 { 128 * n as int } else if n <= 256 { 128 * 144 + 64 * (n - 144) } else if n <= 280 { 128 * 144 + 64 * 112 + 256 * (n - 256) } else { 128 * 144 + 64 * 112 + 256 * 24 + 128 * (n - 280) }
        decreases n
    {
        if n > 0 {
            lemma_fixed_lit_kraft((n - 1) as nat);
            assert(fixed_lit().take(n as int).drop_last() =~= fixed_lit().take(n - 1));
        }
    }
    pub proof fn lemma_fixed_dist_kraft(n: nat)
        requires n <= 32
        ensures kraft(fixed_dist().take(n as int)) == 1024 * n
        decreases n
    {
        if n > 0 {
            lemma_fixed_dist_kraft((n - 1) as nat);
            assert(fixed_dist().take(n as int).drop_last() =~= fixed_dist().take(n - 1));
        }
    }
    // ---- 3.2.3 to 3.2.6: blocks
    pub enum Tok { Lit(u8), Ref { dist: nat, len: nat } }
    pub enum Blk { Stored(Seq<u8>), Fixed(Seq<Tok>), Dyn { trees: Seq<bool>, toks: Seq<Tok> } }

    /// one literal or reference; no token at the end-of-block symbol
    pub open spec fn p_tok(l: Seq<u8>, d: Option<Seq<u8>>, bits: Seq<bool>) -> Option<(Option<Tok>, Seq<bool>)> {
        match huff(l, bits) { None => None, Some((s, r)) =>
            if s == 256 { Some((None, r)) }
            else if s < 256 { Some((Some(Tok::Lit(s as u8)), r)) }
            else {
                match p_len(s as int, r) { None => None, Some((len, r2)) =>
                match d { None => None, Some(dl) =>
                match huff(dl, r2) { None => None, Some((ds, r3)) =>
                match p_dist(ds as int, r3) { None => None, Some((dist, r4)) => Some((Some(Tok::Ref { dist, len }), r4)) }}}}
            }
        }
    }
    /// everything up to the end-of-block symbol, behind the tokens acc
    #[verifier::opaque]
    pub open spec fn p_toks(l: Seq<u8>, d: Option<Seq<u8>>, bits: Seq<bool>, acc: Seq<Tok>) -> Option<(Seq<Tok>, Seq<bool>)>
        decreases bits.len()
    {
        match p_tok(l, d, bits) {
            None => None,
            Some((None, r)) => Some((acc, r)),
            Some((Some(t), r)) => if r.len() < bits.len() { p_toks(l, d, r, acc.push(t)) } else { None },
        }
    }
    pub proof fn lemma_p_toks(l: Seq<u8>, d: Option<Seq<u8>>, bits: Seq<bool>, acc: Seq<Tok>)
        ensures match p_tok(l, d, bits) {
            None => p_toks(l, d, bits, acc) is None,
            Some((None, r)) => p_toks(l, d, bits, acc) == Some((acc, r)) && r.len() < bits.len(),
            Some((Some(t), r)) => p_toks(l, d, bits, acc) == p_toks(l, d, r, acc.push(t)) && r.len() < bits.len(),
        }
    {
        reveal(p_toks);
        lemma_huff_range(l, bits);
        if huff(l, bits) is Some && d is Some {
            let (s, r) = huff(l, bits).unwrap();
            if p_len(s as int, r) is Some { lemma_huff_range(d.unwrap(), p_len(s as int, r).unwrap().1); }
        }
    }
    /// zero bits up to the next whole byte
    pub open spec fn p_align(bits: Seq<bool>) -> Option<Seq<bool>> {
        if forall|i: int| 0 <= i < bits.len() % 8 ==> !#[trigger] bits[i] { Some(bits.skip((bits.len() % 8) as int)) } else { None }
    }
    /// the bytes these bits are
    pub open spec fn to_bytes(bits: Seq<bool>) -> Seq<u8> { choose|w: Seq<u8>| #[trigger] bytes_bits(w) == bits }
    pub proof fn lemma_to_bytes(w: Seq<u8>)
        ensures to_bytes(bytes_bits(w)) == w
    {
        lemma_bytes_bits_inj(to_bytes(bytes_bits(w)), w);
    }
    /// the length field of a stored block at the start of w, when both copies are there and agree, and the bytes too
    pub open spec fn stored_len(w: Seq<u8>) -> Option<nat> {
        if w.len() < 4 { None }
        else {
            let l = le16(w[0], w[1]);
            if l + le16(w[2], w[3]) == 65535 && w.len() >= 4 + l { Some(l as nat) } else { None }
        }
    }
    pub open spec fn p_stored(bits: Seq<bool>) -> Option<(Blk, Seq<bool>)> {
        match p_align(bits) { None => None, Some(a) => {
            let w = to_bytes(a);
            match stored_len(w) { None => None, Some(n) => Some((Blk::Stored(w.skip(4).take(n as int)), bytes_bits(w.skip(4 + n as int)))) }
        }}
    }
    pub open spec fn p_fixed(bits: Seq<bool>) -> Option<(Blk, Seq<bool>)> {
        match p_toks(fixed_lit(), Some(fixed_dist()), bits, Seq::empty()) { None => None, Some((t, r)) => Some((Blk::Fixed(t), r)) }
    }
    pub open spec fn p_dyn(bits: Seq<bool>) -> Option<(Blk, Seq<bool>)> {
        match p_trees(bits) { None => None, Some(((l, d), r)) =>
            match p_toks(l, d, r, Seq::empty()) { None => None, Some((t, r2)) => Some((Blk::Dyn { trees: bits.take(bits.len() - r.len()), toks: t }, r2)) }}
    }
    /// a block, behind its final-block flag
    pub open spec fn p_blk(bits: Seq<bool>) -> Option<(Blk, Seq<bool>)> {
        match rd(bits, 2) {
            None => None,
            Some((k, r)) => if k == 0 { p_stored(r) } else if k == 1 { p_fixed(r) } else if k == 2 { p_dyn(r) } else { None },
        }
    }
    } // verus!
}
