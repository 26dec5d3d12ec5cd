use harness::*;
use librezip::serialise_trace::{read, verify, write};
use librezip::rezip_verif::new_ref as rf;
use librezip::Trace;
use std::io;

fn label(t: &[Trace]) -> String {
    // runs of equal items
    let mut o = String::new();
    let mut i = 0;
    while i < t.len() && o.len() < 1500 {
        let n = t[i..].iter().take_while(|x| **x == t[i]).count();
        o.push_str(&format!("{:?} x{}; ", t[i], n));
        i += n;
    }
    o
}

fn rt(c: &mut Ctx, t: Vec<Trace>) {
    c.case(label(&t), || {
        let b = write(&t);
        let r = read(io::Cursor::new(&b)).map_err(|e| format!("own bytes rejected: {:?}", e))?;
        if r != t {
            let i = r.iter().zip(&t).take_while(|(a, b)| a == b).count();
            return Err(format!("{} items became {}, first difference at {}: {:?} read as {:?}", t.len(), r.len(), i, t.get(i), r.get(i)));
        }
        if verify(&t) != b {
            return Err("verify gives other bytes than write".into());
        }
        let q = read(Chunky::new(&b, t.len() as u64)).map_err(|e| format!("own bytes rejected from a slow reader: {:?}", e))?;
        if q != t {
            return Err("a slow reader gives another trace".into());
        }
        Ok(!t.is_empty())
    });
}

fn any(r: &mut Rng) -> Trace {
    match r.below(4) {
        0 => Trace::ActuallyLiteral,
        1 => {
            let d = 1 + r.skewed(32767) as u16;
            let l = r.range(3, 258) as u16;
            Trace::Actually(rf(*r.pick(&[1, 2, 255, 256, 257, 32767, 32768, d, d]), *r.pick(&[3, 4, 257, 258, l, l])))
        }
        _ => Trace::Correct,
    }
}

fn main() {
    run("C10", |c| {
        c.rule("traces mixing runs of correct guesses of any length (around every multiple of 32767), literals and references of every distance and length class; arbitrary bytes read; non-trivial: a non-empty trace");
        let lens = [0usize, 1, 2, 254, 255, 256, 257, 32765, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 98301, 98302, 131068, 131069, 300_000];
        for &n in &lens {
            rt(c, vec![Trace::Correct; n]);
            let mut t = vec![Trace::Correct; n];
            t.push(Trace::ActuallyLiteral);
            rt(c, t.clone());
            t.insert(0, Trace::Actually(rf(32768, 258)));
            t.extend(vec![Trace::Correct; n]);
            rt(c, t);
        }
        let mut t = vec![];
        for d in 1..=32768u32 {
            t.push(Trace::Actually(rf(d as u16, 3 + (d % 256) as u16)));
        }
        rt(c, t);
        for l in 3..=258u16 {
            rt(c, vec![Trace::Actually(rf(32768, l)), Trace::Actually(rf(1, l))]);
        }
        for k in 0..3 {
            // more than any buffer holds, with items of two and of three bytes at every place
            let mut r = Rng(c.rng.next());
            let n = [100_000, 400_000, 600_000][k] + r.below(1000);
            rt(c, (0..n).map(|_| any(&mut r)).collect());
        }
        while c.more() {
            let mut r = Rng(c.rng.next());
            let mut t = vec![];
            for _ in 0..r.below(12) {
                let x = any(&mut r);
                let n = match r.below(6) { 0 => r.below(70000), 1 => 32766 + r.below(4), _ => r.range(1, 3) };
                let n = if x == Trace::Correct { n } else { n.min(5) };
                t.extend(vec![x; n]);
            }
            rt(c, t);
            let n = r.skewed(60);
            let mut b = r.bytes(n);
            for x in b.iter_mut() {
                if r.one_in(3) {
                    *x = *r.pick(&[0, 1, 0x80, 0xff]);
                }
            }
            c.case(hex(&b), || {
                let a = read(io::Cursor::new(&b));
                let s = read(Chunky::new(&b, 1));
                match (a, s) {
                    (Ok(x), Ok(y)) if x == y => {
                        // what was read is a trace like any other
                        let w = write(&x);
                        if read(io::Cursor::new(&w)).ok().as_ref() != Some(&x) {
                            return Err("a trace read from bytes does not survive writing".into());
                        }
                        Ok(false)
                    }
                    (Err(_), Err(_)) => Ok(false),
                    _ => Err("a slow reader gives another result".into()),
                }
            });
        }
    });
}
