use harness::deflate::*;
use harness::real::*;
use harness::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    run("C01", |cx| {
        cx.rule("generated streams (some damaged) parsed and written back by the real code, through short writes; compared with the bytes parsed; non-trivial: accepted, with at least two blocks or a dynamic one");
        let mut nth = 0;
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            let (what, d) = if nth < LONG {
                long_case(&mut r, nth)
            } else {
                let d = any_input(&mut r);
                (hex(&d), d)
            };
            nth += 1;
            let seed = r.next();
            let mut odd = false;
            cx.case(what, || {
                let (blocks, err) = parse_real(std::io::Cursor::new(&d));
                if err.is_some() {
                    return Ok(false);
                }
                let want = parse(&d);
                if want.error.is_some() {
                    return Ok(false); // C03's business
                }
                if want.odd {
                    // listed: length 258 spelled 284+31 comes back as 285, everything else unchanged
                    let got = catch_unwind(AssertUnwindSafe(|| write_real(ChunkyW::new(seed), &blocks)));
                    let re = encode(&want.blocks);
                    return match (got, re) {
                        (Ok(Ok(w)), Some(e)) if w.data == e => { odd = true; Ok(true) }
                        (Ok(Ok(w)), _) if w.data == d[..want.used] => Ok(true),
                        (Err(_), None) | (Ok(Err(_)), None) => { odd = true; Ok(true) }
                        (g, _) => Err(format!("written back as {:?}", g.map(|x| x.map(|w| hex(&w.data))).map_err(|_| "panic")).chars().take(600).collect()),
                    };
                }
                let w = write_real(ChunkyW::new(seed), &blocks)?;
                if w.data != d[..want.used] {
                    let at = w.data.iter().zip(&d).position(|(a, b)| a != b);
                    return Err(format!("written back as {} (first difference at byte {:?})", hex(&w.data), at).chars().take(900).collect());
                }
                Ok(blocks.len() > 1 || matches!(blocks[0], librezip::Block::DynamicHuffman { .. }))
            });
            if odd {
                cx.known("length 258 coded as symbol 284 extra 31 is re-encoded as symbol 285");
            }
        }
    });
}
