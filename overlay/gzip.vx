@file lib/src/gzip.rs => gzip
@ghost
/// one past the zero byte that ends the string starting at p
pub open spec fn nul_end(s: Seq<u8>, p: int) -> Option<int>
    decreases s.len() - p
{
    if p < 0 || p >= s.len() { None } else if s[p] == 0 { Some(p + 1) } else { nul_end(s, p + 1) }
}

pub open spec fn skip_extra(s: Seq<u8>, p: int, on: bool) -> Option<int> {
    if !on { Some(p) }
    else if p + 2 > s.len() { None }
    else {
        let e = p + 2 + le16(s[p], s[p + 1]);
        if e > s.len() { None } else { Some(e) }
    }
}
pub open spec fn skip_str(s: Seq<u8>, p: int, on: bool) -> Option<int> {
    if !on { Some(p) } else { nul_end(s, p) }
}
pub open spec fn skip_crc(s: Seq<u8>, p: int, on: bool) -> Option<int> {
    if !on { Some(p) } else if p + 2 > s.len() { None } else { Some(p + 2) }
}

/// RFC 1952 section 2.3: how long the member header at the start of s is, if there is one
pub open spec fn header_len(s: Seq<u8>) -> Option<int> {
    if s.len() < 10 || s[0] != 0x1f || s[1] != 0x8b || s[2] != 8 { None }
    else if bit8(s[3], 5) || bit8(s[3], 6) || bit8(s[3], 7) { None }
    else {
        match skip_extra(s, 10, bit8(s[3], 2)) {
            None => None,
            Some(p) => match skip_str(s, p, bit8(s[3], 3)) {
                None => None,
                Some(p) => match skip_str(s, p, bit8(s[3], 4)) {
                    None => None,
                    Some(p) => skip_crc(s, p, bit8(s[3], 1)),
                }
            }
        }
    }
}

pub proof fn lemma_header_in(s: Seq<u8>)
    ensures header_len(s) matches Some(h) ==> 10 <= h <= s.len()
{
    if header_len(s) is Some {
        let p1 = skip_extra(s, 10, bit8(s[3], 2))->0;
        lemma_nul_end(s, p1);
        lemma_nul_end(s, skip_str(s, p1, bit8(s[3], 3))->0);
    }
}
pub proof fn lemma_nul_end(s: Seq<u8>, p: int)
    ensures nul_end(s, p) matches Some(e) ==> 0 <= p < e <= s.len()
    decreases s.len() - p
{
    if 0 <= p < s.len() { lemma_nul_end(s, p + 1); }
}

pub proof fn lemma_flags(f: u8)
    ensures (f & 0b1110_0000 == 0) <==> !(bit8(f, 5) || bit8(f, 6) || bit8(f, 7))
{
    assert((f & 0b1110_0000 == 0) <==> !((f >> 5) & 1 == 1 || (f >> 6) & 1 == 1 || (f >> 7) & 1 == 1)) by (bit_vector);
}

/// C15: no header is the beginning of another, so what is returned does not depend on what follows
pub proof fn header_is_prefix_free(s: Seq<u8>, t: Seq<u8>)
    requires header_len(s) is Some,
    ensures header_len(s + t) == header_len(s), header_len(s)->0 <= s.len()
{
    let u = s + t;
    let f = s[3];
    let p1 = skip_extra(s, 10, bit8(f, 2))->0;
    lemma_nul_ext(s, t, p1);
    let p2 = skip_str(s, p1, bit8(f, 3))->0;
    lemma_nul_ext(s, t, p2);
}
pub proof fn lemma_nul_ext(s: Seq<u8>, t: Seq<u8>, p: int)
    ensures nul_end(s, p) is Some ==> nul_end(s + t, p) == nul_end(s, p),
        nul_end(s, p) matches Some(e) ==> 0 <= p < e <= s.len(),
    decreases s.len() - p
{
    if 0 <= p < s.len() { lemma_nul_ext(s, t, p + 1); }
}

/// facts the body needs at places that move when the code is rearranged
pub proof fn lemma_header_facts(w: Seq<u8>)
    ensures
        forall|f: u8| (#[trigger] (f & 0b1110_0000) == 0) <==> !(bit8(f, 5) || bit8(f, 6) || bit8(f, 7)),
        forall|p: int| (#[trigger] nul_end(w, p)) is Some ==> 0 <= p < nul_end(w, p)->0 <= w.len(),
        forall|p: int| 0 <= p <= w.len() ==> ((#[trigger] nul_end(w.skip(p), 0)) is Some <==> nul_end(w, p) is Some)
            && (nul_end(w, p) is Some ==> nul_end(w.skip(p), 0)->0 + p == nul_end(w, p)->0),
{
    assert forall|f: u8| (#[trigger] (f & 0b1110_0000) == 0) <==> !(bit8(f, 5) || bit8(f, 6) || bit8(f, 7)) by { lemma_flags(f); }
    assert forall|p: int| (#[trigger] nul_end(w, p)) is Some implies 0 <= p < nul_end(w, p)->0 <= w.len() by { lemma_nul_end(w, p); }
    assert forall|p: int| 0 <= p <= w.len() implies ((#[trigger] nul_end(w.skip(p), 0)) is Some <==> nul_end(w, p) is Some)
            && (nul_end(w, p) is Some ==> nul_end(w.skip(p), 0)->0 + p == nul_end(w, p)->0) by { lemma_nul_skip(w, p, 0); }
}
pub proof fn lemma_nul_skip(w: Seq<u8>, p: int, q: int)
    requires 0 <= p <= w.len(), 0 <= q
    ensures nul_end(w.skip(p), q) is Some <==> nul_end(w, p + q) is Some,
        nul_end(w, p + q) is Some ==> nul_end(w.skip(p), q)->0 + p == nul_end(w, p + q)->0,
    decreases w.len() - p - q
{
    if p + q < w.len() { lemma_nul_skip(w, p, q + 1); }
}


@fn discard_header
@fattr #[verifier::rlimit(100)]
@byref from
@rename extend => extend_from_slice
@spec
    ensures
        (*final(from)).faulty() == (*old(from)).faulty(),
        r is Ok ==> header_len((*old(from)).rest()) is Some,
        header_len((*old(from)).rest()) is Some && !(*old(from)).faulty() ==> r is Ok,
        r matches Ok(h) ==> {
            &&& h@ == (*old(from)).rest().take(header_len((*old(from)).rest())->0)
            &&& (*final(from)).rest() == (*old(from)).rest().skip(header_len((*old(from)).rest())->0)
        },
@at start
    broadcast use group_le16, group_skip, group_eq;
    let ghost __w = (*from).rest();
    proof { lemma_header_facts(__w); }
@at before if has_bit(flags, 2)
    assert(whole_thing@ == __w.take(10));
    assert((*from).rest() == __w.skip(10));
@at before if has_bit(flags, 3)
    let ghost __p1 = whole_thing@.len() as int;
    assert(skip_extra(__w, 10, bit8(flags, 2)) == Some(__p1));
    assert(whole_thing@ == __w.take(__p1));
    assert((*from).rest() == __w.skip(__p1));
@at before if has_bit(flags, 4)
    let ghost __p2 = whole_thing@.len() as int;
    assert(skip_str(__w, __p1, bit8(flags, 3)) == Some(__p2));
    assert(whole_thing@ == __w.take(__p2));
    assert((*from).rest() == __w.skip(__p2));
@at before if has_bit(flags, 1)
    let ghost __p3 = whole_thing@.len() as int;
    assert(skip_str(__w, __p2, bit8(flags, 4)) == Some(__p3));
    assert(whole_thing@ == __w.take(__p3));
    assert((*from).rest() == __w.skip(__p3));

@fn has_bit
@spec
    requires bit < 8
    ensures r == bit8(val, bit as int)
@at start
    proof {
        assert(((val & (1u8 << bit)) == (1u8 << bit)) == ((val >> bit) & 1 == 1)) by (bit_vector) requires bit < 8;
        assert(((val & (1u8 << bit)) == 0) == ((val >> bit) & 1 == 0)) by (bit_vector) requires bit < 8;
        assert(((val & (1u8 << bit)) >> bit) == ((val >> bit) & 1)) by (bit_vector) requires bit < 8;
        assert((val >> bit) & 1 == 0 || (val >> bit) & 1 == 1) by (bit_vector) requires bit < 8;
    }

@fn read_null_terminated
@byref from
@spec
    ensures
        (*final(from)).faulty() == (*old(from)).faulty(),
        r is Ok <== nul_end((*old(from)).rest(), 0) is Some && !(*old(from)).faulty(),
        r is Ok ==> {
            let w = (*old(from)).rest();
            &&& nul_end(w, 0) is Some
            &&& final(into)@ == old(into)@ + w.take(nul_end(w, 0)->0)
            &&& (*final(from)).rest() == w.skip(nul_end(w, 0)->0)
        },
@at start
    broadcast use group_skip;
    let ghost __w = (*from).rest();
    let ghost mut __n = 0int;
    proof { assert(into@ =~= old(into)@ + __w.take(0)); }
@loop 0
    invariant_except_break
        nul_end(__w, 0) == nul_end(__w, __n),
    invariant
        (*from).faulty() == (*old(from)).faulty(), __w == (*old(from)).rest(),
        0 <= __n <= __w.len(),
        into@ == old(into)@ + __w.take(__n),
        (*from).rest() == __w.skip(__n),
    ensures
        nul_end(__w, 0) == Some(__n),
    decreases __w.len() - __n
@at loop0.start
    proof { __n = __n + 1; }
@at after into.push
    proof {
        assert(old(into)@ + __w.take(__n) =~= into@);
    }
