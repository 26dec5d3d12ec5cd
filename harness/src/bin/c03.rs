use harness::deflate::*;
use harness::real::*;
use harness::*;

fn main() {
    run("C03", |cx| {
        cx.rule("generated streams of every block kind with random complete codes (one in three damaged, cut short or followed by more bytes) parsed by the real code through short reads and by an independent RFC 1951 reader; non-trivial: at least two blocks or a dynamic one");
        let mut nth = 0;
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            let (what, d) = if nth < LONG {
                long_case(&mut r, nth)
            } else {
                let d = any_input(&mut r);
                (hex(&d), d)
            };
            nth += 1;
            let seed = r.next();
            cx.case(what, || {
                let want = parse(&d);
                let (got, err) = parse_real(Chunky::new(&d, seed));
                let got: Vec<RBlock> = got.iter().map(rblock).collect();
                for (i, (g, w)) in got.iter().zip(&want.blocks).enumerate() {
                    if g != w {
                        return Err(format!("block {}: {:?}, RFC 1951 says {:?}", i, g, w).chars().take(600).collect());
                    }
                }
                if got.len() != want.blocks.len() || err.is_some() != want.error.is_some() {
                    return Err(format!("{} blocks then {:?}; RFC 1951: {} blocks then {:?}", got.len(), err, want.blocks.len(), want.error));
                }
                Ok(want.blocks.len() > 1 || want.blocks.iter().any(|b| matches!(b, RBlock::Dyn { .. })))
            });
        }
    });
}
