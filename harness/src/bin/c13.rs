use harness::guess::*;
use harness::*;
use librezip::all_refs::AllRefs;
use librezip::rezip_verif::iters::capped_max_by;
use librezip::rezip_verif::new_ref as rf;
use librezip::rezip_verif::picker::Picker;
use librezip::{Looker, Ref, Technique};

fn main() {
    run("C13", |c| {
        c.rule("random candidate lists and cut-offs (ties, first reaching the cut-off, length 3 around distance 4096) and the choice of a scanner of every preset among the candidates of all_refs; non-trivial: more than one candidate");
        while c.more() {
            let mut r = Rng(c.rng.next());
            match r.below(3) {
                0 => {
                    let top = 1 + r.skewed(400);
                    let n = r.skewed(40);
                    let v: Vec<(u64, usize)> = (0..n).map(|i| (r.below(top) as u64, i)).collect();
                    let cap = r.below(top + 3) as u64;
                    c.case(format!("items {:?} cap {}", v, cap), || {
                        let want = match v.iter().find(|x| x.0 >= cap) {
                            Some(x) => Some(*x),
                            None => v.iter().find(|x| v.iter().all(|y| y.0 <= x.0)).copied(),
                        };
                        let got = capped_max_by(v.iter().copied(), &cap, |x| x.0);
                        if got != want { return Err(format!("{:?} chosen, {:?} expected", got, want)); }
                        Ok(v.len() > 1)
                    });
                }
                1 => {
                    let n = r.skewed(20);
                    let top = r.skewed(255);
                    let far = r.bool();
                    let v: Vec<Ref> = (0..n).map(|_| {
                        let d = if far { 1 + r.skewed(32767) } else { 4090 + r.below(12) };
                        rf(*r.pick(&[4095, 4096, 4097, 1, 32768, d as u16, d as u16]), 3 + r.below(top + 1) as u16)
                    }).collect();
                    let cap = *r.pick(&[0u16, 3, 4, 8, 258, 259, 65535, 3 + top as u16]);
                    c.case(format!("candidates {:?} cap {}", pairs(&v), cap), || {
                        for k in [Picker::Longest, Picker::DropFarThrees] {
                            let want = choose(&pairs(&v), k, cap as usize);
                            let got = k.picker(v.iter().copied(), cap).map(|x| (x.dist as usize, x.run() as usize));
                            if got != want { return Err(format!("{:?}: {:?} chosen, {:?} expected", k, got, want)); }
                        }
                        Ok(v.len() > 1)
                    });
                }
                _ => {
                    let big = if r.one_in(8) { 9000 } else { 600 };
                    let (p, d) = world(&mut r, big);
                    let mut w = p.clone();
                    w.extend(&d);
                    let conf = config(&mut r);
                    let limit = limit_of(&conf);
                    let asks: Vec<(usize, Option<u16>)> = (0..40).filter(|_| !w.is_empty()).map(|_| (r.below(w.len()), if r.bool() { None } else { Some(r.skewed(258) as u16) })).collect();
                    c.case(format!("history {} data {} config {:?} asked {:?}", hex(&p), hex(&d), conf, asks), || {
                        let a = AllRefs::with_sixteen(&p, &d, limit);
                        let t = Technique::new(conf, &a);
                        let s = t.scanner();
                        let mut nt = false;
                        for &(pos, other) in &asks {
                            let all = a.at(pos, &[]).map_or(vec![], |it| pairs(&it.collect::<Vec<_>>()));
                            let mut n = conf.wams.limit_count_of_distances;
                            let mut off = false;
                            if let (Some(o), Some(l)) = (other, conf.wams.lookahead) {
                                off = o < l.abort_above_length;
                                if o > l.apathetic_above_length { n /= 4; }
                            }
                            let want = if off { None } else { choose(&all[..n.min(all.len())], conf.picker, conf.wams.quit_search_above_length as usize) };
                            let (b, got) = s.best_candidate_better_than(pos, other);
                            if b != w[pos] { return Err(format!("at {} the byte is {}, not {}", pos, w[pos], b)); }
                            let got = got.map(|x| (x.dist as usize, x.run() as usize));
                            if got != want { return Err(format!("at {} after {:?}: {:?} chosen, {:?} expected", pos, other, got, want)); }
                            nt |= all.len() > 1;
                        }
                        Ok(nt)
                    });
                }
            }
        }
    });
}
