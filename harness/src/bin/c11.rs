use harness::guess::*;
use harness::*;
use librezip::all_refs::AllRefs;

/// every candidate is true and as long as it can be
pub fn check(w: &[u8], pos: usize, got: &[librezip::Ref]) -> Result<bool, String> {
    for (i, r) in got.iter().enumerate() {
        let (d, n) = (r.dist as usize, r.run() as usize);
        if d < 1 || d > 32768 || d > pos {
            return Err(format!("candidate {} at {} ({}, {}) reaches outside the known data", i, pos, d, n));
        }
        if n < 3 || n > 258 || pos + n > w.len() {
            return Err(format!("candidate {} at {} ({}, {}) has a length not between 3 and 258 or past the end {}", i, pos, d, n, w.len()));
        }
        let m = repeat(w, pos, d);
        if n != m {
            return Err(format!("candidate {} at {} ({}, {}): the bytes agree for {}", i, pos, d, n, m));
        }
    }
    Ok(!got.is_empty())
}

fn main() {
    run("C11", |c| {
        c.rule("random history, data, obscured ranges and limits (self-overlap, hash collisions, matches ending at the last byte or at 258, distances near 32768), every or sampled positions; non-trivial: a candidate was proposed");
        // distances around 32768, lengths around 258, ends of data
        for gap in [32766usize, 32767, 32768, 32769, 65536, 65537] {
            for split in [0usize, 1, 1000] {
                let mut w: Vec<u8> = vec![9];
                for len in [10usize, 257, 258, 259] {
                let m: Vec<u8> = (0..len).map(|i| b'a' ^ (i % 97) as u8 ^ (i / 97 * 3) as u8).collect();
                let m = &m[..];
                w.truncate(1);
                w.extend(m);
                while w.len() < gap + 1 { w.push((w.len() % 3) as u8); }
                w.extend(m);
                let (p, d) = w.split_at(split);
                c.case(format!("repeat of {} at distance {} split {}", len, gap, split), || {
                    let a = AllRefs::with_sixteen(p, d, 65535);
                    let got: Vec<_> = a.at(gap + 1, &[]).ok_or("no list")?.collect();
                    check(&w, gap + 1, &got)
                });
                }
            }
        }
        for n in [3usize, 4, 255, 256, 257, 258, 259, 260, 300, 515, 516, 517] {
            for tail in [0usize, 1, 2, 3] {
                for per in [1usize, 2, 3, 100, 257, 258, 259] {
                    let mut w: Vec<u8> = vec![250];
                    for i in 0..per + n { w.push((i % per) as u8 ^ ((i % per) >> 8) as u8); }
                    for i in 0..tail { w.push(200 + i as u8); }
                    c.case(format!("period {} going on for {} then {} others", per, n, tail), || {
                        let a = AllRefs::with_sixteen(&w[..1], &w[1..], 65535);
                        let mut nt = false;
                        for pos in 1..w.len() {
                            if let Some(it) = a.at(pos, &[]) { let got: Vec<_> = it.take(40).collect(); nt |= check(&w, pos, &got)?; }
                        }
                        Ok(nt)
                    });
                }
            }
        }
        while c.more() {
            let mut r = Rng(c.rng.next());
            let big = if r.one_in(10) { 70000 } else { 600 };
            let (p, d) = world(&mut r, big);
            let mut w = p.clone();
            w.extend(&d);
            let os = obscured(&mut r, w.len());
            let limit = *r.pick(&[0u16, 1, 2, 4, 5, 6, 100, 65535]);
            let small = w.len() < 700;
            let spots: Vec<usize> = if small { (0..w.len() + 2).collect() } else { (0..60).map(|i| match i { 0..=4 => w.len() - 1 - i, _ => r.below(w.len()) }).collect() };
            c.case(format!("history {} data {} obscured {:?} limit {}", hex(&p), hex(&d), os, limit), || {
                let a = AllRefs::with_sixteen(&p, &d, limit);
                let mut nt = false;
                for &pos in &spots {
                    match a.at(pos, &os) {
                        None => if pos + 2 < w.len() { return Err(format!("no list at {}", pos)); },
                        Some(it) => { let got: Vec<_> = it.take(300).collect(); nt |= check(&w, pos, &got)?; }
                    }
                }
                Ok(nt)
            });
        }
    });
}
