use harness::guess::*;
use harness::*;
use librezip::all_refs::AllRefs;
use librezip::Technique;

fn cmp(a: &AllRefs, w: &[u8], pos: usize, os: &[(usize, u16)], limit: usize) -> Result<bool, String> {
    let want = candidates(w, pos, os, limit);
    let got = a.at(pos, os).map(|it| pairs(&it.collect::<Vec<_>>()));
    if got != want {
        let (g, n) = (got.clone().unwrap_or_default(), want.clone().unwrap_or_default());
        let i = g.iter().zip(&n).take_while(|(a, b)| a == b).count();
        return Err(format!("at {}: {} candidates proposed, {} eligible; first difference at {}: {:?} instead of {:?}", pos, g.len(), n.len(), i, g.get(i), n.get(i)));
    }
    Ok(want.map_or(false, |v| v.len() > 1))
}

fn main() {
    run("C12", |c| {
        c.rule("random history, data, obscured ranges and limits against a naive scan of all earlier positions; the ranges hidden by codes fed back to a scanner; non-trivial: more than one candidate");
        for gap in [32766usize, 32767, 32768, 32769, 65535, 65536, 65537] {
            for split in [0usize, 1, 2, 3, 1000] {
                for first in [0usize, 1] {
                    let mut w: Vec<u8> = vec![9; first];
                    w.extend(b"abcdefghij");
                    while w.len() < gap + first { w.push((w.len() % 3) as u8); }
                    w.extend(b"abcdefghij");
                    let (p, d) = w.split_at(split);
                    c.case(format!("repeat of position {} at distance {} split {}", first, gap, split), || {
                        let a = AllRefs::with_sixteen(p, d, 65535);
                        let mut nt = false;
                        for pos in [gap + first, gap + first + 1, gap + first + 7] { nt |= cmp(&a, &w, pos, &[], 65535)?; }
                        Ok(nt)
                    });
                }
            }
        }
        while c.more() {
            let mut r = Rng(c.rng.next());
            let big = if r.one_in(10) { 70000 } else { 600 };
            let (p, d) = world(&mut r, big);
            let mut w = p.clone();
            w.extend(&d);
            if r.one_in(60) {
                // many ranges hidden by a long list of short references
                let n = r.range(12000, 34000);
                let mut w = r.text(n);
                if r.bool() {
                    let k = r.range(20, 2000);
                    let unit = r.text(k);
                    w = unit.iter().cycle().take(n).copied().collect();
                    for _ in 0..r.below(400) {
                        let i = r.below(n);
                        w[i] = r.byte();
                    }
                }
                let k = r.below(300);
                let mut conf = config(&mut r);
                conf.wams.insert_only_below_length = Some(r.below(3) as u16);
                conf.wams.limit_count_of_distances = *r.pick(&[1, 4, 100, 5000]);
                let limit = limit_of(&conf);
                let seed = r.next();
                c.case(format!("text of {} history {} config {:?} seed {} starting {}", n, k, conf, seed, hex(&w[..300])), || {
                    let mut r = Rng(seed);
                    let a = AllRefs::with_sixteen(&w[..k], &w[k..], limit);
                    let t = Technique::new(conf, &a);
                    let mut s = t.scanner();
                    let mut os = vec![];
                    let mut nt = 0;
                    let one = r.below(4);
                    while s.pos + 300 < n {
                        let d = match one { 0 => s.pos.min(2000), _ => 1 + r.skewed(s.pos.max(1) - 1 + (s.pos == 0) as usize) };
                        let mut code = librezip::Code::Literal(w[s.pos]);
                        for d in [d, 1 + r.below(s.pos.max(1)), 1, 2, 3, 4, 5] {
                            if d <= s.pos && d > 0 && d <= 32768 && repeat(&w, s.pos, d) >= 3 {
                                let m = 3 + r.below(3).min(repeat(&w, s.pos, d) - 3);
                                code = librezip::Code::Reference(librezip::rezip_verif::new_ref(d as u16, m as u16));
                                break;
                            }
                        }
                        hide(&conf, &mut os, s.pos, &code);
                        s.feedback(code);
                        if r.one_in(1000) || s.pos + 300 >= n {
                            for at in [s.pos, s.pos + r.below(200)] {
                                use librezip::Looker;
                                let want = look(&w, at, None, &os, limit as usize, &conf);
                                let got = s.best_candidate(at).1.map(|x| (x.dist as usize, x.run() as usize));
                                if got != want {
                                    return Err(format!("at {} (scanner at {}): {:?} chosen, {:?} is the choice among the eligible ({} ranges hidden)", at, s.pos, got, want, os.len()));
                                }
                                nt += want.is_some() as usize;
                            }
                        }
                    }
                    Ok(nt > 0 && os.len() > 1000)
                });
            } else if r.one_in(3) {
                // what a scanner hides as codes are fed back, seen through its first choice
                let conf = config(&mut r);
                let limit = limit_of(&conf);
                let small = w.len() < 3000;
                let codes = true_codes(&mut r, &w, p.len());
                let seed = r.next();
                if !small { continue; }
                c.case(format!("history {} data {} config {:?} codes {:?}", hex(&p), hex(&d), conf, codes), || {
                    let mut r = Rng(seed);
                    let a = AllRefs::with_sixteen(&p, &d, limit);
                    let t = Technique::new(conf, &a);
                    let mut s = t.scanner();
                    let mut os = vec![];
                    let mut nt = false;
                    for k in &codes {
                        if s.pos + 2 < w.len() && r.one_in(3) {
                            let at = if r.bool() { s.pos } else { r.range(s.pos, w.len() - 1) };
                            let want = look(&w, at, None, &os, limit as usize, &conf);
                            use librezip::Looker;
                            let got = s.best_candidate(at).1.map(|x| (x.dist as usize, x.run() as usize));
                            if got != want {
                                return Err(format!("at {} (scanner at {}): {:?} chosen, {:?} is the choice among the eligible (hidden {:?})", at, s.pos, got, want, os));
                            }
                            nt |= want.is_some() && !os.is_empty();
                        }
                        hide(&conf, &mut os, s.pos, k);
                        s.feedback(*k);
                    }
                    Ok(nt)
                });
            } else {
                let os = obscured(&mut r, w.len());
                let limit = *r.pick(&[0u16, 1, 2, 4, 5, 6, 100, 65535]);
                let small = w.len() < 700;
                let spots: Vec<usize> = if small { (0..w.len() + 2).collect() } else { (0..15).map(|i| match i { 0..=4 => w.len() - 1 - i, _ => r.below(w.len()) }).collect() };
                c.case(format!("history {} data {} obscured {:?} limit {}", hex(&p), hex(&d), os, limit), || {
                    let a = AllRefs::with_sixteen(&p, &d, limit);
                    let mut nt = false;
                    for &pos in &spots {
                        nt |= cmp(&a, &w, pos, &os, limit as usize)?;
                    }
                    Ok(nt)
                });
            }
        }
    });
}
