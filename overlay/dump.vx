@file rezippers/src/dump.rs => dump
@header
use crate::parse::*;
use crate::bit::*;
use crate::gzip::*;
use crate::rfc::*;
use crate::{toks, codes_wf};
use crate::vx::io::{Printed, Val, Show, shown};
use crate::vx::bits::*;
use crate::vx::seqs::*;
@dropuse librezip
@dropuse librezip::Block
@dropuse librezip::Code
@gsubst R-path librezip::gzip:: ==> crate::gzip::
@gsubst R-path librezip::parse_deflate ==> crate::parse::parse_deflate
@ghost
use crate::{Block, Code};
/// std's Enumerate around the block iterator
pub struct Enumerated<R: Read> { pub inner: BlockIter<R>, pub n: usize }
impl<R: Read> BlockIter<R> {
    pub fn enumerate(self) -> (r: Enumerated<R>)
        ensures r.inner == self, r.n == 0
    { Enumerated { inner: self, n: 0 } }
}
impl<R: Read> Enumerated<R> {
    pub fn next(&mut self) -> (r: Option<(usize, Result<Block, Error>)>)
        requires old(self).inner.wf(), old(self).n < usize::MAX
        ensures
            r matches Some(x) ==> x.0 == old(self).n && final(self).n == old(self).n + 1,
            final(self).inner.wf(), final(self).inner.faulty() == old(self).inner.faulty(),
            !old(self).inner.end ==> (match r {
                None => false,
                Some((_, Ok(b))) => {
                    &&& old(self).inner.bits().len() > 0 && final(self).inner.end == old(self).inner.bits()[0]
                    &&& p_blk(old(self).inner.bits().skip(1)) == Some((b@, final(self).inner.bits()))
                    &&& b.wf()
                    &&& final(self).inner.bits().len() < old(self).inner.bits().len()
                },
                Some((_, Err(_))) => old(self).inner.faulty() || old(self).inner.bits().len() == 0 || p_blk(old(self).inner.bits().skip(1)) is None,
            }),
            old(self).inner.end ==> final(self).inner.end && (match r {
                None => p_align(old(self).inner.bits()) is Some,
                Some((_, Ok(_))) => false,
                Some((_, Err(_))) => p_align(old(self).inner.bits()) is None,
            }),
    {
        match self.inner.next() {
            None => None,
            Some(b) => { let i = self.n; self.n += 1; Some((i, b)) }
        }
    }
}
/// the line for a code, behind what is already printed
pub open spec fn put_tok(w: Seq<char>, t: Tok) -> Seq<char> {
    match t {
        Tok::Lit(b) => w + "    - lit: 0x"@ + shown("02x"@, Val::Num(b as int)) + ": "@ + shown("?"@, Val::Chr(b as char)) + "\n"@,
        Tok::Ref { dist, len } => w + "    - backref: "@ + shown(""@, Val::Num(dist as int)) + " byte(s) back, "@ + shown(""@, Val::Num(len as int)) + " bytes long\n"@,
    }
}
#[verifier::opaque]
pub open spec fn put_toks(w: Seq<char>, t: Seq<Tok>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { w } else { put_tok(put_toks(w, t.drop_last()), t.last()) }
}
pub open spec fn put_blk(w: Seq<char>, n: int, b: Blk) -> Seq<char> {
    let h = w + "block "@ + shown(""@, Val::Num(n)) + ":\n"@;
    match b {
        Blk::Stored(d) => h + " - uncompressed: "@ + shown(""@, Val::Num(d.len() as int)) + " bytes\n"@,
        Blk::Fixed(t) => put_toks(h + " - fixed huffman:\n"@, t),
        Blk::Dyn { trees, toks } => put_toks(h + " - dynamic huffman: "@ + shown("?"@, Val::Bits(trees)) + "\n"@, toks),
    }
}
/// what a stream is listed as, from block n on: everything before the first fault, and whether there is none
#[verifier::opaque]
pub open spec fn listing(w: Seq<char>, n: int, bits: Seq<bool>) -> (Seq<char>, bool)
    decreases bits.len()
{
    if bits.len() == 0 { (w, false) } else {
        match p_blk(bits.skip(1)) { None => (w, false), Some((b, r)) =>
            if bits[0] { (put_blk(w, n, b), p_align(r) is Some) }
            else if r.len() >= bits.len() { (put_blk(w, n, b), false) }
            else { listing(put_blk(w, n, b), n + 1, r) }
        }
    }
}
pub proof fn lemma_listing(w: Seq<char>, n: int, bits: Seq<bool>)
    ensures
        bits.len() == 0 || p_blk(bits.skip(1)) is None ==> listing(w, n, bits) == (w, false),
        bits.len() > 0 ==> (p_blk(bits.skip(1)) matches Some((b, r)) ==> {
            &&& bits[0] ==> listing(w, n, bits) == (put_blk(w, n, b), p_align(r) is Some)
            &&& !bits[0] && r.len() < bits.len() ==> listing(w, n, bits) == listing(put_blk(w, n, b), n + 1, r)
        }),
{
    hide(p_blk); hide(put_blk); hide(p_align);
    reveal(listing);
}
@fn run
@fattr #[verifier::loop_isolation(false)]
@fattr #[verifier::allow_complex_invariants]
@param vx_out: &mut Printed
@subst R-byref librezip::parse_deflate(&mut reader) ==> crate::parse::parse_deflate(reader)
@desugar 0
@spec
    requires sane_len(reader.rest().len())
    ensures
        !reader.faulty() ==> (match header_len(reader.rest()) {
            None => r is Err && final(vx_out).text() == old(vx_out).text(),
            Some(h) => (final(vx_out).text(), r is Ok) == listing(old(vx_out).text(), 0, bytes_bits(reader.rest().skip(h))),
        }),
@at start
    hide(p_blk); hide(put_toks); hide(p_align); hide(header_len);
    let ghost __w0 = reader.rest();
    let ghost __out0 = vx_out.text();
    let ghost __rf = reader.faulty();
@at loop0.before
    let ghost __h = header_len(__w0)->0;
    let ghost __all = bytes_bits(__w0.skip(__h));
    let ghost mut __c = __all;
    let ghost mut __end = false;
    proof { lemma_header_in(__w0); }
@loop 0
    invariant
        __it0.inner.wf(), __it0.inner.faulty() == __rf, !__rf ==> header_len(__w0) is Some,
        __c == __it0.inner.bits(), __end == __it0.inner.end,
        __it0.n + __c.len() <= __all.len(),
        !__rf && !__end ==> listing(__out0, 0, __all) == listing(vx_out.text(), __it0.n as int, __c),
        !__rf && __end ==> listing(__out0, 0, __all) == (vx_out.text(), p_align(__c) is Some),
    ensures
        !__rf ==> listing(__out0, 0, __all) == (vx_out.text(), true),
    decreases __c.len()
@at loop0.start
    let ghost __w = vx_out.text();
    proof { if !__end { lemma_listing(__w, id as int, __c); } }
@at loop0.end
    proof {
        __c = __it0.inner.bits();
        __end = __it0.inner.end;
    }
@fn print
@param vx_out: &mut Printed
@spec
    requires codes_wf(codes@)
    ensures final(vx_out).text() == put_toks(old(vx_out).text(), toks(codes@))
@at start
    let ghost __w = vx_out.text();
    let ghost __t = toks(codes@);
@at loop0.before
    proof { reveal(put_toks); assert(__t.take(0) =~= Seq::<Tok>::empty()); }
@loop 0 iter=__i
    invariant
        codes_wf(codes@), __t == toks(codes@), vx_out.text() == put_toks(__w, __t.take(__i.index())),
@at loop0.start
    proof {
        reveal(put_toks);
        assert(__t.take(__i.index() + 1).drop_last() =~= __t.take(__i.index()));
        assert(__t.take(__i.index() + 1).last() == code.tok());
    }
@at end
    proof { assert(__t.take(__t.len() as int) =~= __t); }
