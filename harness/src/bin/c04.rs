use harness::deflate::*;
use harness::real::*;
use harness::*;
use std::io::Read;

fn main() {
    run("C04", |cx| {
        cx.rule("well-formed streams followed by up to 3000 other bytes, read through short reads; after the end the rest is read from the same reader; damaged padding must be an error; non-trivial: bytes follow");
        let mut nth = 0;
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            let n = 1 + r.skewed(4);
            let mut d = if nth < LONG { long_case(&mut r, nth).1 } else { gen_stream(&mut r, n, 50, true).0 };
            nth += 1;
            let end = d.len();
            if r.one_in(8) {
                d[end - 1] ^= 0x80 >> r.below(7);
            }
            let k = if r.one_in(4) { 8 } else { r.skewed(3000) };
            let t = r.bytes(k);
            d.extend(&t);
            let seed = r.next();
            cx.case(hex(&d), || {
                let want = parse(&d);
                let mut src = Chunky::new(&d, seed);
                let mut it = librezip::parse_deflate(&mut src);
                let mut blocks = 0;
                let err = loop {
                    match it.next() {
                        None => break None,
                        Some(Ok(_)) => blocks += 1,
                        Some(Err(e)) => break Some(format!("{:#}", e)),
                    }
                };
                if err.is_none() && it.next().is_some() {
                    return Err("more after the end".into());
                }
                drop(it);
                if err.is_some() != want.error.is_some() || blocks != want.blocks.len() {
                    return Err(format!("{} blocks then {:?}; RFC 1951: {} blocks then {:?}", blocks, err, want.blocks.len(), want.error));
                }
                if err.is_some() {
                    return Ok(false);
                }
                if src.pos != want.used {
                    return Err(format!("{} bytes used, the stream has {}", src.pos, want.used));
                }
                let mut rest = vec![];
                src.read_to_end(&mut rest).map_err(|e| e.to_string())?;
                if rest != d[want.used..] {
                    return Err("the rest differs".into());
                }
                Ok(!t.is_empty())
            });
        }
    });
}
