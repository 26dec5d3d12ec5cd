use harness::deflate::*;
use harness::real::*;
use harness::tool::*;
use harness::*;
use std::fmt::Write;

fn list_codes(o: &mut String, toks: &[Tok]) {
    for t in toks {
        match *t {
            Tok::Lit(b) => writeln!(o, "    - lit: 0x{:02x}: {:?}", b, b as char).unwrap(),
            Tok::Ref { dist, len } => writeln!(o, "    - backref: {} byte(s) back, {} bytes long", dist, len).unwrap(),
        }
    }
}

/// the listing of these blocks
fn list(blocks: &[RBlock]) -> String {
    let mut o = String::new();
    for (i, b) in blocks.iter().enumerate() {
        writeln!(o, "block {}:", i).unwrap();
        match b {
            RBlock::Stored(d) => writeln!(o, " - uncompressed: {} bytes", d.len()).unwrap(),
            RBlock::Fixed(t) => {
                writeln!(o, " - fixed huffman:").unwrap();
                list_codes(&mut o, t);
            }
            RBlock::Dyn { trees, toks } => {
                let bits: String = trees.iter().map(|&b| if b { '1' } else { '0' }).collect();
                writeln!(o, " - dynamic huffman: BitVec: {}: {}", trees.len(), bits).unwrap();
                list_codes(&mut o, toks);
            }
        }
    }
    o
}

fn main() {
    run("C19", |cx| {
        cx.rule("rezippers dump on gzip files: well-formed streams of several blocks, damaged and truncated ones, damaged headers, from a file and from a pipe; the listing is compared with one made by an independent RFC 1951 reader; non-trivial: at least two blocks");
        let (exe, file) = match scratch("c19") {
            Some(x) => x,
            None => return,
        };
        let mut first = 2;
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            let mut h = header(&mut r);
            let mut bad = false;
            match r.below(25) {
                0 => {
                    h.truncate(r.below(h.len()));
                    bad = true;
                }
                1 => {
                    h[r.below(3)] ^= 1 << r.below(8);
                    bad = true;
                }
                _ => {}
            }
            let once = first > 0 && !bad;
            let mut d = if once {
                stored(&big(&mut r))
            } else if r.one_in(3) {
                any_input(&mut r)
            } else {
                let (blocks, size) = (1 + r.skewed(6), if r.one_in(30) { 5000 } else { 40 });
                let (d, _, c) = gen_stream(&mut r, blocks, size, true);
                [d, footer(&c)].concat()
            };
            if !once && r.one_in(6) {
                d.truncate(r.below(d.len() + 1));
            }
            let f = if bad && h.len() < 10 { h.clone() } else { [&h[..], &d].concat() };
            if bad && h.len() >= 10 && h[0] == 0x1f && h[1] == 0x8b && h[2] == 8 {
                continue; // cut somewhere behind the fixed part: what follows is then part of the header
            }
            let piped = if once { first == 2 } else { r.bool() };
            first -= once as u32;
            let shown = if once { format!("{} bytes, stored", f.len()) } else { hex(&f) };
            cx.case(format!("rezippers dump: {}", shown), || {
                let (o, failed) = outcome("dump", &exe, &file, &f, piped)?;
                let (want, fault, many) = if bad {
                    (String::new(), true, false)
                } else {
                    let p = parse(&d);
                    (list(&p.blocks), p.error.is_some(), p.blocks.len() > 1)
                };
                if o != want.as_bytes() {
                    let o = String::from_utf8_lossy(&o).into_owned();
                    let (mut a, mut b) = (o.lines(), want.lines());
                    let mut n = 0;
                    loop {
                        let (x, y) = (a.next(), b.next());
                        if x != y || x.is_none() {
                            return Err(format!("line {}: printed {:?}, want {:?}", n, x, y).chars().take(900).collect());
                        }
                        n += 1;
                    }
                }
                if failed.is_some() != fault {
                    return Err(format!("ended with {:?}, but the input is {}", failed, if fault { "malformed" } else { "well-formed" }));
                }
                Ok(many)
            });
        }
        let _ = std::fs::remove_dir_all(file.parent().unwrap());
    });
}
