//! The real parser seen through the oracle's types
use crate::deflate::*;
use crate::{hex, Rng};
use librezip::{Block, Code};
use std::io::Read;

pub fn tok(c: &Code) -> Tok {
    match *c {
        Code::Literal(b) => Tok::Lit(b),
        Code::Reference(r) => Tok::Ref { dist: r.dist as u32, len: r.run() as u32 },
    }
}
pub fn toks(c: &[Code]) -> Vec<Tok> {
    c.iter().map(tok).collect()
}
pub fn code(t: &Tok) -> Code {
    match *t {
        Tok::Lit(b) => Code::Literal(b),
        Tok::Ref { dist, len } => Code::Reference(librezip::rezip_verif::new_ref(dist as u16, len as u16)),
    }
}
pub fn rblock(b: &Block) -> RBlock {
    match b {
        Block::Uncompressed(d) => RBlock::Stored(d.clone()),
        Block::FixedHuffman(c) => RBlock::Fixed(toks(c)),
        Block::DynamicHuffman { trees, codes } => RBlock::Dyn { trees: trees.iter().collect(), toks: toks(codes) },
    }
}
/// blocks up to the end or the first error
pub fn parse_real<R: Read>(r: R) -> (Vec<Block>, Option<String>) {
    let mut v = vec![];
    for b in librezip::parse_deflate(r) {
        match b {
            Ok(b) => v.push(b),
            Err(e) => return (v, Some(format!("{:#}", e))),
        }
    }
    (v, None)
}
/// the writer of the round-trip: each block behind its flag, padded at the end
pub fn write_real<W: std::io::Write>(w: W, blocks: &[Block]) -> Result<W, String> {
    let mut o = librezip::rezip_verif::bit::BitWriter::new(w);
    for (i, b) in blocks.iter().enumerate() {
        o.write_bit(i + 1 == blocks.len()).map_err(|e| format!("{:#}", e))?;
        librezip::compressed_block(&mut o, b).map_err(|e| format!("{:#}", e))?;
    }
    o.align().map_err(|e| format!("{:#}", e))?;
    Ok(o.into_inner())
}
/// a well-formed stream, maybe damaged, maybe cut short, maybe with more bytes behind it; or noise
pub fn any_input(r: &mut Rng) -> Vec<u8> {
    if r.one_in(12) {
        let n = r.skewed(200);
        return r.bytes(n);
    }
    let n = 1 + r.skewed(5);
    let size = if r.one_in(10) { 2000 } else { 60 };
    let before = if r.bool() { vec![0; 32768] } else { vec![] };
    let (mut d, _, _) = gen_stream_after(r, before, n, size, true);
    match r.below(8) {
        0 => {
            let k = r.below(d.len() + 1);
            d.truncate(k);
        }
        1 | 2 => {
            for _ in 0..1 + r.skewed(3) {
                // the head of the stream holds the tree descriptions
                let k = if r.bool() { r.below(d.len()) } else { r.below(d.len().min(80)) };
                d[k] ^= 1 << r.below(8);
            }
        }
        3 => {
            let k = d.len() - 1;
            d[k] ^= 1 << r.below(8);
        }
        _ => {}
    }
    if r.one_in(3) {
        let k = r.skewed(40);
        d.extend(r.bytes(k));
    }
    d
}
/// the oracle's own writer (a length 258 gets symbol 285); None when a code is missing
pub fn encode(blocks: &[RBlock]) -> Option<Vec<u8>> {
    let mut o = Out::default();
    for (i, b) in blocks.iter().enumerate() {
        o.bit(i + 1 == blocks.len());
        match b {
            RBlock::Stored(d) => {
                o.num(2, 0);
                o.align();
                o.num(16, d.len());
                o.num(16, d.len() ^ 0xffff);
                for x in d {
                    o.num(8, *x as usize);
                }
            }
            RBlock::Fixed(t) => {
                o.num(2, 1);
                let (l, d) = fixed_lens();
                encode_toks(&mut o, &crate::deflate::Code::new(&l)?, crate::deflate::Code::new(&d).as_ref(), t)?;
            }
            RBlock::Dyn { trees: t, toks } => {
                o.num(2, 2);
                o.word(t);
                let mut x = Out { bits: t.clone() };
                x.align();
                let bytes = x.bytes();
                let (l, d) = trees(&mut Bits { data: &bytes, pos: 0 }).ok()?;
                encode_toks(&mut o, &l, d.as_ref(), toks)?;
            }
        }
    }
    o.align();
    Some(o.bytes())
}
fn encode_toks(o: &mut Out, l: &crate::deflate::Code, d: Option<&crate::deflate::Code>, toks: &[Tok]) -> Option<()> {
    for t in toks {
        match *t {
            Tok::Lit(b) => o.word(&l.word(b as usize)?),
            Tok::Ref { dist, len } => {
                let (s, n, v) = len_sym(len);
                o.word(&l.word(s)?);
                o.num(n, v);
                let (s, n, v) = dist_sym(dist);
                o.word(&d?.word(s)?);
                o.num(n, v);
            }
        }
    }
    o.word(&l.word(256)?);
    Some(())
}

pub const LONG: usize = 6;
/// a well-formed stream that is long in one dimension: about n codes, or n / 4 blocks
pub fn long_stream(r: &mut Rng, kind: usize, n: usize) -> (&'static str, Vec<u8>) {
    let mut o = Out::default();
    let what = match kind {
        0 | 1 => {
            let (l, k) = fixed_lens();
            let (l, k) = (crate::deflate::Code::new(&l).unwrap(), crate::deflate::Code::new(&k).unwrap());
            o.bit(true);
            o.num(2, 1);
            o.word(&l.word(0x61).unwrap());
            for _ in 0..if kind == 0 { n } else { n / 2 } {
                if kind == 0 {
                    let b = r.byte() as usize;
                    o.word(&l.word(b).unwrap());
                } else {
                    o.word(&l.word(257).unwrap());
                    o.word(&k.word(0).unwrap());
                }
            }
            o.word(&l.word(256).unwrap());
            ["one block of many literals", "one block of many references"][kind]
        }
        2 | 3 => {
            let (blocks, len) = if kind == 2 { (n / 4, 0) } else { (n / 16384 + 1, 65535) };
            let fill = r.bytes(len);
            let mut d = vec![];
            for i in 0..blocks {
                d.push((i + 1 == blocks) as u8);
                d.extend_from_slice(&(len as u16).to_le_bytes());
                d.extend_from_slice(&(!(len as u16)).to_le_bytes());
                d.extend_from_slice(&fill);
            }
            return (["many empty stored blocks", "many full stored blocks"][kind - 2], d);
        }
        4 => {
            for i in 0..n / 4 {
                o.bit(i + 1 == n / 4);
                o.num(2, 1);
                o.num(7, 0);
            }
            "many empty fixed blocks"
        }
        _ => {
            let mut hist = vec![];
            let blocks = n / 1024;
            for i in 0..blocks {
                gen_block(r, &mut o, i + 1 == blocks, &mut hist, 20, false);
            }
            "many blocks"
        }
    };
    o.align();
    (what, o.bytes())
}
/// the first LONG cases of a run: streams with more codes or blocks than 16 bits count
pub fn long_case(r: &mut Rng, nth: usize) -> (String, Vec<u8>) {
    let n = 65536 + r.below(1 << 15);
    let (what, d) = long_stream(r, nth, match nth { 2 => 4 * n, 4 => n / 4, _ => n });
    (format!("{}: {} bytes, beginning {}", what, d.len(), hex(&d[..d.len().min(60)])), d)
}
