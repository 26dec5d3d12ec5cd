@file rezippers/src/cat.rs => cat
@header
use crate::bit::*;
use crate::vx::io::Write;
use crate::parse::*;
use crate::circles::*;
use crate::gzip::*;
use crate::rfc::*;
use crate::serialise::*;
use crate::vx::bits::*;
use crate::vx::seqs::*;
@dropuse librezip
@dropuse librezip::CircularBuffer
@gsubst R-path librezip::CircularBuffer ==> crate::circles::CircularBuffer
@gsubst R-path librezip::gzip:: ==> crate::gzip::
@gsubst R-path librezip::parse_deflate ==> crate::parse::parse_deflate
@gsubst R-path librezip::decompressed_block ==> crate::serialise::decompressed_block
@ghost
/// what a stream decompresses to with this much history: block after block, up to and with the final one,
/// and then whole bytes
#[verifier::opaque]
pub open spec fn stream_out(v: Seq<u8>, bits: Seq<bool>) -> Option<Seq<u8>>
    decreases bits.len()
{
    if bits.len() == 0 { None } else {
        match p_blk(bits.skip(1)) { None => None, Some((b, r)) =>
            match blk_expand(v, b, 32768) { None => None, Some(e) =>
                if bits[0] { if p_align(r) is Some { Some(e.skip(v.len() as int)) } else { None } }
                else if r.len() >= bits.len() { None }
                else { match stream_out(tail(e, 32768), r) { None => None, Some(o) => Some(e.skip(v.len() as int) + o) } }
            }
        }
    }
}
pub open spec fn behind(o: Seq<u8>, rest: Option<Seq<u8>>) -> Option<Seq<u8>> { match rest { None => None, Some(x) => Some(o + x) } }
pub proof fn lemma_out_bad(v: Seq<u8>, bits: Seq<bool>)
    requires bits.len() == 0 || p_blk(bits.skip(1)) is None
    ensures stream_out(v, bits) is None
{
    reveal(stream_out);
}
pub proof fn lemma_out_step(o: Seq<u8>, v: Seq<u8>, bits: Seq<bool>, b: Blk, r: Seq<bool>)
    requires bits.len() > 0, p_blk(bits.skip(1)) == Some((b, r)), r.len() < bits.len()
    ensures match blk_expand(v, b, 32768) {
        None => stream_out(v, bits) is None && behind(o, stream_out(v, bits)) is None,
        Some(e) => behind(o, stream_out(v, bits)) == (if bits[0] { if p_align(r) is Some { Some(o + e.skip(v.len() as int)) } else { None } }
            else { behind(o + e.skip(v.len() as int), stream_out(tail(e, 32768), r)) }),
    }
{
    hide(p_blk); hide(blk_expand); hide(p_align);
    reveal(stream_out);
    if blk_expand(v, b, 32768) is Some {
        let e = blk_expand(v, b, 32768).unwrap();
        if !bits[0] && stream_out(tail(e, 32768), r) is Some {
            let x = stream_out(tail(e, 32768), r).unwrap();
            assert(o + (e.skip(v.len() as int) + x) =~= (o + e.skip(v.len() as int)) + x);
        }
    }
}
/// the same with the whole output as history
pub open spec fn stream_content(h: Seq<u8>, bits: Seq<bool>) -> Option<Seq<u8>>
    decreases bits.len()
{
    if bits.len() == 0 { None } else {
        match p_blk(bits.skip(1)) { None => None, Some((b, r)) =>
            match blk_expand(h, b, 32768) { None => None, Some(e) =>
                if bits[0] { if p_align(r) is Some { Some(e) } else { None } }
                else if r.len() >= bits.len() { None }
                else { stream_content(e, r) }
            }
        }
    }
}
pub proof fn lemma_expand_grows(h: Seq<u8>, t: Seq<Tok>, cap: nat)
    ensures expand(h, t, cap) matches Some(e) ==> h.is_prefix_of(e)
    decreases t.len()
{
    if t.len() > 0 {
        lemma_expand_grows(h, t.drop_last(), cap);
        if expand(h, t.drop_last(), cap) is Some { lemma_denote_len(expand(h, t.drop_last(), cap).unwrap(), t.last(), cap); }
    }
}
pub proof fn lemma_blk_grows(h: Seq<u8>, b: Blk, cap: nat)
    ensures blk_expand(h, b, cap) matches Some(e) ==> h.is_prefix_of(e)
{
    match b { Blk::Stored(d) => {}, Blk::Fixed(t) => { lemma_expand_grows(h, t, cap); }, Blk::Dyn { trees, toks } => { lemma_expand_grows(h, toks, cap); } }
}
/// C02: a window of 32768 bytes is enough: what comes out is what the stream denotes behind all of h
pub proof fn theorem_cat_content(h: Seq<u8>, bits: Seq<bool>)
    ensures match stream_content(h, bits) {
        None => stream_out(tail(h, 32768), bits) is None,
        Some(c) => h.is_prefix_of(c) && stream_out(tail(h, 32768), bits) == Some(c.skip(h.len() as int)),
    }
    decreases bits.len()
{
    hide(p_blk); hide(blk_expand); hide(blk_expand_max); hide(p_align);
    reveal(stream_out);
    if bits.len() > 0 && p_blk(bits.skip(1)) is Some {
        let (b, r) = p_blk(bits.skip(1)).unwrap();
        lemma_block_window(h, b, 32768);
        lemma_blk_grows(h, b, 32768);
        lemma_blk_grows(tail(h, 32768), b, 32768);
        if blk_expand(h, b, 32768) is Some && !bits[0] && r.len() < bits.len() {
            let e = blk_expand(h, b, 32768).unwrap();
            theorem_cat_content(e, r);
            if stream_content(e, r) is Some {
                let c = stream_content(e, r).unwrap();
                assert(e.skip(h.len() as int) + c.skip(e.len() as int) =~= c.skip(h.len() as int));
            }
        }
    }
}
@fn run
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::allow_complex_invariants]
@param vx_out: &mut io::Stdout
@subst R-param io::stdout() ==> vx_out
@subst R-byref librezip::parse_deflate(&mut reader) ==> crate::parse::parse_deflate(reader)
@subst R-byref &mut stdout ==> stdout
@desugar 0
@spec
    requires sane_len(reader.rest().len())
    ensures
        r is Ok ==> (header_len(reader.rest()) matches Some(h) && (stream_out(Seq::empty(), bytes_bits(reader.rest().skip(h))) matches Some(o)
            && final(vx_out).written() == old(vx_out).written() + o)),
        r is Err ==> reader.faulty() || old(vx_out).faulty() || (match header_len(reader.rest()) { None => true, Some(h) => stream_out(Seq::empty(), bytes_bits(reader.rest().skip(h))) is None }),
@at start
    hide(p_blk); hide(blk_expand); hide(blk_expand_max); hide(p_align); hide(header_len);
    let ghost __w0 = reader.rest();
    let ghost __out0 = vx_out.written();
    let ghost __rf = reader.faulty();
    let ghost __wf = vx_out.faulty();
    let ghost mut __o = Seq::<u8>::empty();
@at loop0.before
    let ghost __h = header_len(__w0)->0;
    let ghost __all = bytes_bits(__w0.skip(__h));
    let ghost mut __c = __all;
    let ghost mut __end = false;
    proof {
        lemma_header_in(__w0);
        assert(__out0 + __o =~= __out0);
        if stream_out(Seq::empty(), __all) is Some { assert(__o + stream_out(Seq::empty(), __all).unwrap() =~= stream_out(Seq::empty(), __all).unwrap()); }
        assert(dictionary.view() =~= Seq::<u8>::empty());
    }
@loop 0
    invariant
        __it0.wf(), dictionary.wf(), dictionary.cap() == 32768, __it0.faulty() == __rf, stdout.faulty() == __wf,
        __c == __it0.bits(), __end == __it0.end,
        stdout.written() == __out0 + __o,
        !__end ==> stream_out(Seq::empty(), __all) == behind(__o, stream_out(dictionary.view(), __c)),
        __end ==> stream_out(Seq::empty(), __all) == (if p_align(__c) is Some { Some(__o) } else { None }),
    ensures
        stdout.written() == __out0 + __o,
        stream_out(Seq::empty(), __all) == Some(__o),
    decreases __c.len()
@at loop0.start
    let ghost __v = dictionary.view();
    let ghost __wr = stdout.written();
    proof {
        if block is Err && !__rf { if !__end { lemma_out_bad(__v, __c); } }
        if !__end && block is Ok { lemma_out_step(__o, __v, __c, block->Ok_0@, __it0.bits()); }
    }
@at loop0.end
    proof {
        let x = stdout.written().skip(__wr.len() as int);
        assert(stdout.written() =~= __out0 + (__o + x));
        __o = __o + x;
        __c = __it0.bits();
        __end = __it0.end;
    }
