use harness::deflate::*;
use harness::real::*;
use harness::tool::*;
use harness::*;
use librezip::{Block, CircularBuffer};

fn main() {
    run("C02", |cx| {
        cx.rule("random sequences of blocks over a fresh 32768-byte window, with references of any distance (some beyond the history), long histories now and then, through short writes; against direct expansion; non-trivial: a reference into an earlier block or across its own output");
        let cat = scratch("c02");
        let mut first = 2;
        let mut many = 0;
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            if let Some((exe, file)) = cat.clone().filter(|_| first > 0 || r.one_in(60)) {
                // the whole command
                let h = header(&mut r);
                let (blocks, size) = (1 + r.skewed(8), if r.one_in(10) { 40000 } else { 600 });
                let once = first > 0;
                let (d, c) = if once {
                    let c = big(&mut r);
                    (stored(&c), c)
                } else {
                    let (d, _, c) = gen_stream(&mut r, blocks, size, false);
                    (d, c)
                };
                let f = [&h[..], &d, &footer(&c)].concat();
                let piped = if once { first == 2 } else { r.bool() };
                first -= once as u32;
                let shown = if once { "stored".into() } else { hex(&f) };
                cx.case(format!("rezippers cat, {} bytes of content: {}", c.len(), shown), || {
                    let o = tool("cat", &exe, &file, &f, piped)?;
                    if o != c {
                        let at = o.iter().zip(&c).position(|(a, b)| a != b).unwrap_or(o.len().min(c.len()));
                        return Err(format!("cat printed {} bytes for {}, different from byte {} on", o.len(), c.len(), at));
                    }
                    Ok(c.len() > 300)
                });
                continue;
            }
            if many < 2 {
                // a block of more codes than any stack or 16-bit counter holds
                let n = (1 << 18) + r.below(1 << 16);
                let mut hist = r.bytes(2);
                let mut t: Vec<Tok> = hist.iter().map(|&b| Tok::Lit(b)).collect();
                for _ in 0..n {
                    if many == 0 || r.one_in(9) {
                        let b = r.byte();
                        t.push(Tok::Lit(b));
                        hist.push(b);
                    } else {
                        let x = Tok::Ref { dist: 1 + r.below(hist.len().min(32768)) as u32, len: 3 + r.below(4) as u32 };
                        expand(&mut hist, &[x]);
                        t.push(x);
                    }
                }
                many += 1;
                let what = format!("one block of {} codes giving {} bytes", t.len(), hist.len());
                cx.note(&what);
                cx.case(what, || {
                    let mut w = vec![];
                    let b = Block::FixedHuffman(t.iter().map(code).collect());
                    librezip::decompressed_block(&mut w, &mut CircularBuffer::with_capacity(32768), &b).map_err(|e| format!("{:#}", e))?;
                    match w == hist {
                        true => Ok(true),
                        false => Err(format!("gives {} bytes, different from byte {} on", w.len(), w.iter().zip(&hist).position(|(a, b)| a != b).unwrap_or(w.len().min(hist.len())))),
                    }
                });
                continue;
            }
            let mut hist: Vec<u8> = vec![];
            let mut blocks: Vec<Block> = vec![];
            let mut good = true;
            let mut deep = false;
            let long = r.one_in(15);
            if long {
                let d = r.bytes(65535);
                hist.extend_from_slice(&d);
                blocks.push(Block::Uncompressed(d));
            }
            let mut outs = vec![hist.clone()];
            if !long {
                outs.clear();
            }
            let mut partial: Vec<u8> = vec![];
            for _ in 0..1 + r.skewed(5) {
                let start = hist.len();
                match r.below(4) {
                    0 => {
                        let k = if r.one_in(20) { 32760 + r.below(20) } else { r.skewed(100) };
                        let d = r.bytes(k);
                        hist.extend_from_slice(&d);
                        blocks.push(Block::Uncompressed(d));
                    }
                    k => {
                        let mut t = vec![];
                        let (count, plain) = if r.one_in(12) { (r.skewed(20000), r.one_in(2)) } else { (r.skewed(60), false) };
                        for _ in 0..count {
                            if hist.is_empty() && !r.one_in(60) || r.one_in(3) || plain && !r.one_in(9000) || count > 3000 && r.one_in(2) {
                                let b = r.byte();
                                t.push(Tok::Lit(b));
                                hist.push(b);
                                continue;
                            }
                            let h = hist.len().min(32768);
                            let dist = match r.below(60) {
                                0 => h + 1 + r.below(3),
                                1 | 2 => h,
                                3 => h.saturating_sub(1),
                                4 => 1 + r.below(32768),
                                5..=20 => 1 + r.skewed(6),
                                _ => 1 + r.skewed(h.max(1) - 1 + (h == 0) as usize),
                            }.clamp(1, 32768);
                            let len = match r.below(5) { 0 => 258, 1 => 3, _ => r.range(3, 258) };
                            let x = Tok::Ref { dist: dist as u32, len: len as u32 };
                            t.push(x);
                            if dist < len || hist.len() - start < dist {
                                deep = true;
                            }
                            if expand(&mut hist, &[x]).is_none() {
                                good = false;
                                break;
                            }
                        }
                        let c = t.iter().map(code).collect();
                        blocks.push(if k == 1 { Block::FixedHuffman(c) } else {
                            Block::DynamicHuffman { trees: librezip::rezip_verif::bit::BitVec::new(), codes: c }
                        });
                    }
                }
                if !good {
                    partial = hist[start..].to_vec();
                    break;
                }
                outs.push(hist[start..].to_vec());
            }
            let seed = r.next();
            let desc = format!("{:?}", blocks.iter().map(rblock).collect::<Vec<_>>());
            let desc = if desc.len() > 4000 { format!("seed-made history of {} bytes, then {}", hist.len(), &desc[desc.len() - 3000..]) } else { desc };
            cx.case(desc, || {
                let mut dict = CircularBuffer::with_capacity(32768);
                for (i, b) in blocks.iter().enumerate() {
                    let mut w = ChunkyW::new(seed);
                    let got = librezip::decompressed_block(&mut w, &mut dict, b);
                    if i < outs.len() {
                        if let Err(e) = got {
                            return Err(format!("block {} refused: {:#}", i, e));
                        }
                        if w.data != outs[i] {
                            return Err(format!("block {} gives {}, want {}", i, hex(&w.data), hex(&outs[i])).chars().take(900).collect());
                        }
                    } else {
                        if got.is_ok() {
                            return Err(format!("block {} reaches beyond the history but is accepted, giving {}", i, hex(&w.data)).chars().take(900).collect());
                        }
                        if !partial.starts_with(&w.data) {
                            return Err(format!("block {} emits {} before failing, want {}", i, hex(&w.data), hex(&partial)).chars().take(900).collect());
                        }
                    }
                }
                Ok(deep)
            });
        }
        if let Some((_, file)) = cat {
            let _ = std::fs::remove_dir_all(file.parent().unwrap());
        }
    });
}
