use harness::real::*;
use harness::*;
use librezip::CircularBuffer;

/// inputs that are long in one dimension, read with the stack an ordinary thread has
fn long(r: &mut Rng, kind: usize) -> (String, Vec<u8>) {
    let mut d = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
    let n = (1 << 20) + r.below(1 << 18);
    if kind < 2 {
        d[3] = [8, 16][kind];
        d.extend((0..n).map(|_| r.byte() | 1));
        d.extend_from_slice(&[0, 3, 0]);
        return (["a long name", "a long comment"][kind].into(), d);
    }
    let (what, s) = long_stream(r, kind - 2, n);
    d.extend(s);
    (what.into(), d)
}

fn main() {
    run("C16", |cx| {
        for kind in 0..2 + LONG {
            let mut r = Rng(cx.rng.next());
            let (what, d) = long(&mut r, kind);
            let what = format!("{}: gzip, {} bytes, beginning {}", what, d.len(), hex(&d[..d.len().min(60)]));
            cx.note(&what);
            cx.case(what, || {
                let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                    let mut src = std::io::Cursor::new(d);
                    if let Err(e) = librezip::gzip::discard_header(&mut src) {
                        return Err(format!("header: {:#}", e));
                    }
                    let mut dict = CircularBuffer::with_capacity(32768);
                    let (mut n, mut w) = (0, vec![]);
                    for b in librezip::parse_deflate(src) {
                        let b = b.map_err(|e| format!("{:#}", e))?;
                        n += 1;
                        librezip::decompressed_block(&mut w, &mut dict, &b).map_err(|e| format!("{:#}", e))?;
                    }
                    Ok(n > 0)
                });
                t.map_err(|e| e.to_string())?.join().unwrap_or_else(|p| std::panic::resume_unwind(p))
            });
        }
        cx.rule("noise, and gzip members around generated streams with damage at any place: header, blocks to the first error or the end, and decompression of each, must return; non-trivial: at least one block parsed");
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            let mut d = vec![];
            if r.one_in(3) {
                d.extend_from_slice(&[0x1f, 0x8b, 8]);
                d.push(if r.bool() { 0 } else { r.byte() & 31 });
                d.extend(r.bytes(6));
            }
            let head = d.len();
            d.extend(any_input(&mut r));
            for _ in 0..r.skewed(4) {
                if !d.is_empty() {
                    let k = if r.bool() { r.below(d.len()) } else { r.below(d.len().min(head + 60)) };
                    d[k] = if r.bool() { r.byte() } else { d[k] ^ 1 << r.below(8) };
                }
            }
            if r.one_in(4) {
                let k = r.below(d.len() + 1);
                d.truncate(k);
            }
            let seed = r.next();
            cx.case(hex(&d), || {
                let mut n = 0;
                for from in [0, head] {
                    let data = d.get(from..).unwrap_or(&[]);
                    let mut src: Box<dyn std::io::Read> = if seed & 1 == 0 { Box::new(Chunky::new(data, seed)) } else { Box::new(std::io::Cursor::new(data)) };
                    if from == 0 && librezip::gzip::discard_header(&mut src).is_err() {
                        continue;
                    }
                    let (blocks, _) = parse_real(src);
                    n += blocks.len();
                    let mut dict = CircularBuffer::with_capacity(32768);
                    for b in &blocks {
                        let mut w = vec![];
                        if librezip::decompressed_block(&mut w, &mut dict, b).is_err() {
                            break;
                        }
                    }
                }
                Ok(n > 0)
            });
        }
    });
}
