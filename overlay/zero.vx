@file rezippers/src/zero.rs => zero
@header
use crate::vx::flate2::{self, all_ok, oks, deflated, content};
use crate::vx::crc::checksum;
use crate::vx::iter::{Iterator, IterExt, VecIter};
use crate::vx::byteorder::ByteOrder;
use crate::vx::bits::*;
use crate::vx::seqs::*;
use crate::gzip::*;
use crate::rfc::*;
@dropuse flate2
@dropuse librezip
@const CRC32
    ensures CRC32.alg() == CRC_32_ISO_HDLC
@ghost
#[verifier::opaque]
pub open spec fn le2(n: int) -> Seq<u8> { seq![(n % 256) as u8, (n / 256) as u8] }
#[verifier::opaque]
pub open spec fn le4(n: int) -> Seq<u8> { seq![(n % 256) as u8, (n / 256 % 256) as u8, (n / 65536 % 256) as u8, (n / 16777216) as u8] }
/// a stored block: the final flag, the length, its complement, the bytes
pub open spec fn piece(last: bool, c: Seq<u8>) -> Seq<u8> {
    seq![if last { 1u8 } else { 0u8 }] + le2(c.len() as int) + le2(65535 - c.len()) + c
}
pub open spec fn flat(cs: Seq<Seq<u8>>) -> Seq<u8>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { flat(cs.drop_last()) + cs.last() }
}
/// the stored blocks, the one that ends the content flagged as the last
pub open spec fn body(cs: Seq<Seq<u8>>, total: int) -> Seq<u8>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { body(cs.drop_last(), total) + piece(flat(cs).len() == total, cs.last()) }
}
pub open spec fn sized(cs: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < cs.len() ==> 1 <= (#[trigger] cs[i]).len() <= 65535 }
#[verifier::opaque]
pub open spec fn read_as(items: Seq<io::Result<u8>>, c: Seq<u8>) -> bool {
    c.len() <= items.len() && forall|i: int| 0 <= i < c.len() ==> #[trigger] items[i] == Ok::<u8, io::Error>(c[i])
}
pub proof fn lemma_read_more(items: Seq<io::Result<u8>>, c: Seq<u8>, b: Seq<u8>)
    requires read_as(items, c), b.len() <= items.skip(c.len() as int).len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] items.skip(c.len() as int)[i] == Ok::<u8, io::Error>(b[i])
    ensures read_as(items, c + b), items.skip(c.len() as int).skip(b.len() as int) == items.skip((c + b).len() as int)
{
    reveal(read_as);
    let rest = items.skip(c.len() as int);
    assert(rest.skip(b.len() as int) =~= items.skip((c + b).len() as int));
    assert forall|i: int| 0 <= i < (c + b).len() implies #[trigger] items[i] == Ok::<u8, io::Error>((c + b)[i]) by {
        if i >= c.len() { assert(rest[i - c.len()] == Ok::<u8, io::Error>(b[i - c.len()])); }
    }
}
pub proof fn lemma_read_all(items: Seq<io::Result<u8>>, c: Seq<u8>)
    requires read_as(items, c), c.len() == items.len()
    ensures all_ok(items), oks(items) == c
{
    reveal(read_as);
    assert forall|i: int| 0 <= i < items.len() implies (#[trigger] items[i]) is Ok by { assert(items[i] == Ok::<u8, io::Error>(c[i])); }
    assert(oks(items) =~= c);
}
pub proof fn lemma_piece(w: Seq<u8>, last: bool, c: Seq<u8>)
    ensures w + seq![if last { 1u8 } else { 0u8 }] + le2(c.len() as int) + le2(65535 - c.len()) + c == w + piece(last, c)
{
    assert(w + seq![if last { 1u8 } else { 0u8 }] + le2(c.len() as int) + le2(65535 - c.len()) + c =~= w + piece(last, c));
}
pub proof fn lemma_grow(cs: Seq<Seq<u8>>, c: Seq<u8>, total: int)
    ensures
        flat(cs.push(c)) == flat(cs) + c,
        body(cs.push(c), total) == body(cs, total) + piece(flat(cs).len() + c.len() == total, c),
{
    assert(cs.push(c).drop_last() =~= cs);
}
pub proof fn lemma_le2(b: Seq<u8>, n: u16)
    requires b.len() == 2, le16(b[0], b[1]) == n
    ensures b == le2(n as int)
{
    reveal(le2);
    assert(b =~= le2(n as int));
}
pub proof fn lemma_le4(b: Seq<u8>, n: u32)
    requires b.len() == 4, b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3] == n
    ensures b == le4(n as int)
{
    reveal(le4);
    let (b0, b1, b2, b3) = (b[0] as int, b[1] as int, b[2] as int, b[3] as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int, 256, b1 + 256 * b2 + 65536 * b3, b0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b1 + 256 * b2 + 65536 * b3, 256, b2 + 256 * b3, b1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int, 65536, b2 + 256 * b3, b0 + 256 * b1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b2 + 256 * b3, 256, b3, b2);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int, 16777216, b3, b0 + 256 * b1 + 65536 * b2);
    assert(b =~= le4(n as int));
}
pub proof fn lemma_complement(n: u16)
    ensures n ^ 0xffff == 65535 - n
{
    assert(n ^ 0xffff == 65535 - n) by (bit_vector);
}
// ---- what a reader makes of the output
/// the blocks up to and with the one flagged as final, and the bits behind it
pub open spec fn p_stream(bits: Seq<bool>) -> Option<(Seq<Blk>, Seq<bool>)>
    decreases bits.len()
{
    if bits.len() == 0 { None } else {
        match p_blk(bits.skip(1)) { None => None, Some((b, r)) =>
            if bits[0] { Some((seq![b], r)) }
            else if r.len() >= bits.len() { None }
            else { match p_stream(r) { None => None, Some((bs, e)) => Some((seq![b] + bs, e)) } }
        }
    }
}
pub open spec fn stored(cs: Seq<Seq<u8>>) -> Seq<Blk> { cs.map_values(|c: Seq<u8>| Blk::Stored(c)) }
pub proof fn lemma_two_zeros(s: Seq<bool>)
    requires s.len() == 2, !s[0], !s[1]
    ensures bits_val(s) == 0
{
    assert(s.drop_last().drop_last() =~= Seq::empty());
    reveal_with_fuel(bits_val, 3);
}
pub proof fn lemma_le2_of(n: int)
    requires 0 <= n <= 65535
    ensures le2(n).len() == 2, le16(le2(n)[0], le2(n)[1]) == n
{
    reveal(le2);
}
/// one block is read as what was put into it
pub proof fn lemma_piece_read(last: bool, c: Seq<u8>, t: Seq<u8>)
    requires c.len() <= 65535
    ensures ({
        let b = bytes_bits(piece(last, c) + t);
        b.len() > 0 && b[0] == last && p_blk(b.skip(1)) == Some((Blk::Stored(c), bytes_bits(t))) && bytes_bits(t).len() < b.len()
    })
{
    let f = if last { 1u8 } else { 0u8 };
    let n = c.len() as int;
    lemma_le2_of(n);
    lemma_le2_of(65535 - n);
    let w = piece(last, c) + t;
    let b = bytes_bits(w);
    let x = w.skip(1);
    assert(x =~= le2(n) + le2(65535 - n) + c + t);
    lemma_bytes_bits_skip(w, 1);
    assert(w[0] == f);
    assert(forall|i: int| 0 <= i < 8 ==> #[trigger] b[i] == bit8(f, i));
    assert(((1u8 >> 0u8) & 1 == 1) && (1u8 >> 1u8) & 1 == 0 && (1u8 >> 2u8) & 1 == 0 && (1u8 >> 3u8) & 1 == 0 && (1u8 >> 4u8) & 1 == 0 && (1u8 >> 5u8) & 1 == 0 && (1u8 >> 6u8) & 1 == 0 && (1u8 >> 7u8) & 1 == 0) by (bit_vector);
    assert((0u8 >> 0u8) & 1 == 0 && (0u8 >> 1u8) & 1 == 0 && (0u8 >> 2u8) & 1 == 0 && (0u8 >> 3u8) & 1 == 0 && (0u8 >> 4u8) & 1 == 0 && (0u8 >> 5u8) & 1 == 0 && (0u8 >> 6u8) & 1 == 0 && (0u8 >> 7u8) & 1 == 0) by (bit_vector);
    assert(b[0] == last);
    assert(!b[1] && !b[2] && !b[3] && !b[4] && !b[5] && !b[6] && !b[7]);
    let s = b.skip(1);
    assert(s.take(2)[0] == b[1] && s.take(2)[1] == b[2]);
    lemma_two_zeros(s.take(2));
    let r = s.skip(2);
    assert(rd(s, 2) == Some((0nat, r)));
    assert(r.len() == 8 * x.len() + 5);
    assert(r.len() % 8 == 5);
    assert(r[0] == b[3] && r[1] == b[4] && r[2] == b[5] && r[3] == b[6] && r[4] == b[7]);
    assert(r.skip(5) =~= bytes_bits(x));
    assert(p_align(r) == Some(bytes_bits(x)));
    lemma_to_bytes(x);
    assert(x[0] == le2(n)[0] && x[1] == le2(n)[1] && x[2] == le2(65535 - n)[0] && x[3] == le2(65535 - n)[1]);
    assert(stored_len(x) == Some(n as nat));
    assert(x.skip(4).take(n) =~= c);
    assert(x.skip(4 + n) =~= t);
}
pub proof fn lemma_stream_read(cs: Seq<Seq<u8>>, total: int, t: Seq<u8>)
    requires sized(cs), flat(cs).len() < total
    ensures p_stream(bytes_bits(body(cs, total) + t)) == (match p_stream(bytes_bits(t)) { None => None, Some((bs, e)) => Some((stored(cs) + bs, e)) })
    decreases cs.len()
{
    if cs.len() == 0 {
        assert(body(cs, total) + t =~= t);
        if p_stream(bytes_bits(t)) is Some { let (bs, _) = p_stream(bytes_bits(t)).unwrap(); assert(stored(cs) + bs =~= bs); }
    } else {
        let (h, c) = (cs.drop_last(), cs.last());
        let p = piece(false, c);
        assert(body(cs, total) + t =~= body(h, total) + (p + t));
        lemma_stream_read(h, total, p + t);
        lemma_piece_read(false, c, t);
        if p_stream(bytes_bits(t)) is Some {
            let (bs, e) = p_stream(bytes_bits(t)).unwrap();
            assert(p_stream(bytes_bits(p + t)) == Some((seq![Blk::Stored(c)] + bs, e)));
            assert(stored(h) + (seq![Blk::Stored(c)] + bs) =~= stored(cs) + bs);
        } else {
            assert(p_stream(bytes_bits(p + t)) is None);
        }
    }
}
/// C17: a DEFLATE reader finds exactly these stored blocks, the last one flagged and no other, and
/// what is behind them; put together they are the content
pub proof fn theorem_zero_reads_back(cs: Seq<Seq<u8>>, t: Seq<u8>)
    requires sized(cs), cs.len() > 0
    ensures p_stream(bytes_bits(body(cs, flat(cs).len() as int) + t)) == Some((stored(cs), bytes_bits(t)))
{
    let total = flat(cs).len() as int;
    let (h, c) = (cs.drop_last(), cs.last());
    let p = piece(true, c);
    assert(body(cs, total) + t =~= body(h, total) + (p + t));
    lemma_stream_read(h, total, p + t);
    lemma_piece_read(true, c, t);
    assert(p_stream(bytes_bits(p + t)) == Some((seq![Blk::Stored(c)], bytes_bits(t))));
    assert(stored(h) + seq![Blk::Stored(c)] =~= stored(cs));
}
/// C17: the header is read again as the same header
pub proof fn theorem_zero_same_header(w: Seq<u8>, x: Seq<u8>)
    requires header_len(w) is Some
    ensures header_len(w.take(header_len(w)->0) + x) == header_len(w)
{
    let h = header_len(w)->0;
    let u = w.take(h) + x;
    let f = w[3];
    let p1 = skip_extra(w, 10, bit8(f, 2))->0;
    lemma_nul_end(w, p1);
    let p2 = skip_str(w, p1, bit8(f, 3))->0;
    lemma_nul_end(w, p2);
    lemma_nul_cut(w, x, h, p1);
    lemma_nul_cut(w, x, h, p2);
    assert(u[0] == w[0] && u[1] == w[1] && u[2] == w[2] && u[3] == w[3]);
    if bit8(f, 2) { assert(u[10] == w[10] && u[11] == w[11]); }
}
pub proof fn lemma_nul_cut(w: Seq<u8>, x: Seq<u8>, h: int, p: int)
    requires 0 <= h <= w.len()
    ensures nul_end(w, p) matches Some(e) ==> e <= h ==> nul_end(w.take(h) + x, p) == Some(e)
    decreases w.len() - p
{
    if 0 <= p < w.len() { lemma_nul_cut(w, x, h, p + 1); lemma_nul_end(w, p + 1); }
}
// ---- where the blocks end
/// the bytes the rolling sum is over after p more than the shortest block
pub open spec fn window_sum(c: Seq<u8>) -> int
    decreases c.len()
{
    if c.len() == 0 { 0 } else { window_sum(c.drop_last()) + c.last() }
}
pub open spec fn cut_from(c: Seq<u8>, p: int) -> int
    decreases RSYNC_MAX - RSYNC_MIN - p
{
    if p >= RSYNC_MAX - RSYNC_MIN || window_sum(c.subrange(p, p + RSYNC_MIN)) % (RSYNC_MOD as int) == 0 || c.len() <= RSYNC_MIN + p { RSYNC_MIN + p }
    else { cut_from(c, p + 1) }
}
/// how much of this content the next block takes: the content decides, nothing else does
pub open spec fn cut(c: Seq<u8>) -> int { if c.len() < RSYNC_MIN { c.len() as int } else { cut_from(c, 0) } }
pub open spec fn pieces(c: Seq<u8>) -> Seq<Seq<u8>>
    decreases c.len()
{
    if cut(c) <= 0 || cut(c) > c.len() { Seq::empty() } else { seq![c.take(cut(c))] + pieces(c.skip(cut(c))) }
}
pub proof fn lemma_pieces_none()
    ensures pieces(Seq::empty()) == Seq::<Seq<u8>>::empty()
{}
#[verifier::opaque]
pub open spec fn cut_as(items: Seq<io::Result<u8>>, cs: Seq<Seq<u8>>) -> bool { pieces(oks(items)) == cs + pieces(oks(items).skip(flat(cs).len() as int)) }
pub proof fn lemma_pieces_step(items: Seq<io::Result<u8>>, cs: Seq<Seq<u8>>, b: Seq<u8>)
    requires read_as(items, flat(cs) + b), b.len() > 0
    ensures cut_as(items, cs) && b.len() == cut(oks(items.skip(flat(cs).len() as int))) ==> cut_as(items, cs.push(b)),
{
    reveal(cut_as);
    reveal(read_as);
    let all = oks(items);
    let k = flat(cs).len() as int;
    let rest = all.skip(k);
    lemma_grow(cs, b, 0);
    assert(oks(items.skip(k)) =~= rest);
    assert(rest.skip(b.len() as int) =~= all.skip(flat(cs.push(b)).len() as int));
    assert forall|i: int| 0 <= i < b.len() implies rest[i] == b[i] by { assert(items[k + i] == Ok::<u8, io::Error>((flat(cs) + b)[k + i])); }
    assert(rest.take(b.len() as int) =~= b);
    assert(cs + (seq![b] + pieces(all.skip(flat(cs.push(b)).len() as int))) =~= cs.push(b) + pieces(all.skip(flat(cs.push(b)).len() as int)));
}
pub proof fn lemma_pieces_end(items: Seq<io::Result<u8>>, cs: Seq<Seq<u8>>)
    requires flat(cs).len() == items.len()
    ensures cut_as(items, cs) ==> cs == pieces(oks(items))
{
    reveal(cut_as);
    lemma_pieces_none();
    assert(oks(items).skip(flat(cs).len() as int) =~= Seq::empty());
    assert(cs + Seq::<Seq<u8>>::empty() =~= cs);
}
pub proof fn lemma_pieces_start(items: Seq<io::Result<u8>>)
    ensures cut_as(items, Seq::empty())
{
    reveal(cut_as);
    assert(oks(items).skip(0) =~= oks(items));
    assert(Seq::<Seq<u8>>::empty() + pieces(oks(items)) =~= pieces(oks(items)));
}
pub broadcast proof fn lemma_window_push(a: Seq<u8>, x: u8)
    ensures #[trigger] window_sum(a.push(x)) == window_sum(a) + x
{
    assert(a.push(x).drop_last() =~= a);
}
pub proof fn lemma_roll(c: Seq<u8>, p: int)
    requires 0 <= p, p + RSYNC_MIN < c.len()
    ensures window_sum(c.subrange(p + 1, p + 1 + RSYNC_MIN)) == window_sum(c.subrange(p, p + RSYNC_MIN)) + c[p + RSYNC_MIN] - c[p]
{
    let a = c.subrange(p, p + RSYNC_MIN + 1);
    assert(a.drop_last() =~= c.subrange(p, p + RSYNC_MIN));
    assert(c.subrange(p + 1, p + 1 + RSYNC_MIN) =~= a.skip(1));
    lemma_window_front(a);
}
pub proof fn lemma_window_front(a: Seq<u8>)
    requires a.len() > 0
    ensures window_sum(a) == a[0] + window_sum(a.skip(1))
    decreases a.len()
{
    if a.len() == 1 { assert(a.skip(1) =~= Seq::empty()); assert(a.drop_last() =~= Seq::empty()); }
    else {
        lemma_window_front(a.drop_last());
        assert(a.drop_last().skip(1) =~= a.skip(1).drop_last());
    }
}
pub proof fn lemma_window_bound(a: Seq<u8>)
    ensures 0 <= window_sum(a) <= 255 * a.len()
    decreases a.len()
{
    if a.len() > 0 { lemma_window_bound(a.drop_last()); }
}
@fn take_rsync
@spec
    requires old(from).ok()
    ensures
        final(from).ok(),
        r matches Ok(b) ==> {
            &&& b@.len() <= 65535 && b@.len() <= old(from).items().len()
            &&& forall|i: int| 0 <= i < b@.len() ==> #[trigger] old(from).items()[i] == Ok::<u8, io::Error>(b@[i])
            &&& final(from).items() == old(from).items().skip(b@.len() as int)
            &&& b@.len() == 0 <==> old(from).items().len() == 0
        },
        r matches Ok(b) ==> b@.len() == cut(oks(old(from).items())), //@ C17?
        all_ok(old(from).items()) ==> r is Ok,
@at start
    let ghost __s = from.items();
    let ghost __c = oks(__s);
    broadcast use group_skip;
    broadcast use lemma_window_push;
@loop 0 iter=__i
    invariant
        __c == oks(__s),
        sum == window_sum(buf@), //@ C17?
        from.ok(), __s == old(from).items(), buf@.len() == __i.index@, buf@.len() <= __s.len(), from.items() == __s.skip(buf@.len() as int),
        forall|i: int| 0 <= i < buf@.len() ==> #[trigger] __s[i] == Ok::<u8, io::Error>(buf@[i]),
@loop 1 iter=__j
    invariant_except_break
        buf@.len() == RSYNC_MIN + __j.index@,
        sum == window_sum(buf@.subrange(__j.index@, __j.index@ + RSYNC_MIN)), //@ C17?
        cut(__c) == cut_from(__c, __j.index@), //@ C17?
    invariant
        __c == oks(__s),
        from.ok(), __s == old(from).items(), RSYNC_MIN <= buf@.len() <= RSYNC_MAX, buf@.len() <= __s.len(), from.items() == __s.skip(buf@.len() as int),
        forall|i: int| 0 <= i < buf@.len() ==> #[trigger] __s[i] == Ok::<u8, io::Error>(buf@[i]),
    ensures
        buf@.len() == cut(__c), //@ C17?
@at loop0.start
    broadcast use lemma_window_push;
    proof { lemma_window_bound(buf@); }
@at loop1.before
    proof { assert(buf@.subrange(0, RSYNC_MIN as int) =~= buf@); }
@at loop1.end
    proof { assert(buf@.subrange(pos as int, pos + RSYNC_MIN) =~= __c.subrange(pos as int, pos + RSYNC_MIN)); lemma_roll(buf@, pos as int); lemma_window_bound(buf@.subrange(pos as int, pos + RSYNC_MIN)); lemma_window_bound(buf@.subrange(pos as int + 1, pos + 1 + RSYNC_MIN)); }
@at loop1.start
    proof { lemma_window_bound(buf@.subrange(pos as int, pos + RSYNC_MIN)); assert(buf@ =~= __c.take(buf@.len() as int)); assert(buf@.subrange(pos as int, pos + RSYNC_MIN) =~= __c.subrange(pos as int, pos + RSYNC_MIN)); }
@fn run
@fattr #[verifier::rlimit(60)]
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::allow_complex_invariants]
@param vx_out: &mut io::Stdout
@subst R-param io::stdout() ==> vx_out
@subst R-path librezip::gzip::discard_header ==> crate::gzip::discard_header
@spec
    requires
        header_len(reader.rest()) matches Some(h) ==> deflated(reader.rest().skip(h)) && content(reader.rest().skip(h)).len() > 0
    ensures
        r is Ok ==> header_len(reader.rest()) is Some && exists|cs: Seq<Seq<u8>>| {
            let h = header_len(reader.rest())->0;
            let c = content(reader.rest().skip(h));
            &&& sized(cs) && #[trigger] flat(cs) == c
            &&& final(vx_out).written() == old(vx_out).written() + reader.rest().take(h) + body(cs, c.len() as int) + le4(checksum(CRC_32_ISO_HDLC, c) as int) + le4((c.len() % 4294967296) as int)
        },
        r is Ok ==> ({ let h = header_len(reader.rest())->0; let c = content(reader.rest().skip(h)); final(vx_out).written() == old(vx_out).written() + reader.rest().take(h) + body(pieces(c), c.len() as int) + le4(checksum(CRC_32_ISO_HDLC, c) as int) + le4((c.len() % 4294967296) as int) }), //@ C17?
        header_len(reader.rest()) is Some && !reader.faulty() && !old(vx_out).faulty() ==> r is Ok,
@at start
    let ghost __w0 = reader.rest();
    let ghost __faulty = reader.faulty() || vx_out.faulty();
    let ghost __out0 = vx_out.written();
    broadcast use group_skip;
@at before writer.write_all(&orig_header)
    let ghost __h = header_len(__w0)->0;
    let ghost __items = reader@;
    let ghost mut __cs = Seq::<Seq<u8>>::empty();
@loop 0
    invariant
        header_len(__w0) is Some, __h == header_len(__w0)->0, __base == __out0 + __w0.take(__h),
        !__faulty && deflated(__w0.skip(__h)) ==> all_ok(__items), !__faulty ==> !writer.faulty(),
        flat(__cs).len() <= __items.len(), reader@ == __items.skip(flat(__cs).len() as int),
        read_as(__items, flat(__cs)),
        cut_as(__items, __cs), //@ C17?
        sized(__cs), data_len == flat(__cs).len() % 4294967296,
        data_csum.alg() == CRC_32_ISO_HDLC, data_csum.fed() == flat(__cs),
        writer.written() == __base + body(__cs, __items.len() as int),
    ensures reader@.len() == 0
    decreases __items.len() - flat(__cs).len()
@at loop0.before
    let ghost __base = __out0 + __w0.take(__h);
    proof { assert(__base + Seq::<u8>::empty() =~= __base); assert(__items.skip(0) =~= __items); reveal(read_as); lemma_pieces_start(__items); }
@at loop0.start
    broadcast use group_skip;
    let ghost __before = reader@;
    let ghost __wr = writer.written();
    let ghost __done = flat(__cs).len() as int;
@at before let len = buf.len()
    let ghost __w1 = writer.written();
    proof {
        lemma_grow(__cs, buf@, __items.len() as int);
        lemma_read_more(__items, flat(__cs), buf@);
    }
    proof { assert(__w1 == __wr + seq![if __done + buf@.len() == __items.len() { 1u8 } else { 0u8 }]); }
@at before writer.write_u16::<LE>(len ^ 0xffff)
    let ghost __w2 = writer.written();
    proof {
        let b = choose|b: Seq<u8>| b.len() == 2 && LE::u16_of(b) == len && __w2 == #[trigger] (__w1 + b);
        lemma_le2(b, len);
        lemma_complement(len);
    }
@at before writer.write_all(&buf)
    let ghost __w3 = writer.written();
    proof {
        let b = choose|b: Seq<u8>| b.len() == 2 && LE::u16_of(b) == len ^ 0xffff && __w3 == #[trigger] (__w2 + b);
        lemma_le2(b, len ^ 0xffff);
    }
@at loop0.end
    proof {
        let last = __done + buf@.len() == __items.len();
        assert(__w1 + le2(len as int) == __w2 && __w2 + le2(65535 - len) == __w3);
        lemma_piece(__wr, last, buf@);
        lemma_pieces_step(__items, __cs, buf@);
        assert(__base + (body(__cs, __items.len() as int) + piece(last, buf@)) =~= __base + body(__cs, __items.len() as int) + piece(last, buf@));
        assert(sized(__cs.push(buf@)));
        __cs = __cs.push(buf@);
    }
@at before writer.write_u32::<LE>(data_csum.finalize())
    let ghost __c = flat(__cs);
    let ghost __sum = checksum(CRC_32_ISO_HDLC, __c);
    let ghost __w4 = writer.written();
    proof {
        lemma_read_all(__items, __c);
        lemma_pieces_end(__items, __cs);
    }
@at before writer.write_u32::<LE>(data_len)
    let ghost __w5 = writer.written();
    proof {
        let b = choose|b: Seq<u8>| b.len() == 4 && LE::u32_of(b) == __sum && __w5 == #[trigger] (__w4 + b);
        lemma_le4(b, __sum);
    }
@at end
    proof {
        let b = choose|b: Seq<u8>| b.len() == 4 && LE::u32_of(b) == data_len && writer.written() == #[trigger] (__w5 + b);
        lemma_le4(b, data_len);
        assert(sized(__cs) && flat(__cs) == __c);
    }
