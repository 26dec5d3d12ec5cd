use harness::guess::*;
use harness::*;
use librezip::all_refs::AllRefs;
use librezip::rezip_verif::lookahead::Lookahead;
use librezip::rezip_verif::new_ref as rf;
use librezip::{Code, DataLen, Guesser, Looker, Ref, Technique};
use std::cell::RefCell;

/// answers every question with some true reference, or none
struct Any<'a> {
    w: &'a [u8],
    rng: RefCell<Rng>,
    asked: RefCell<Vec<String>>,
}
impl<'a> DataLen for Any<'a> {
    fn data_len(&self) -> usize { self.w.len() }
}
impl<'a> Looker for Any<'a> {
    fn best_candidate_better_than(&self, pos: usize, other: Option<u16>) -> (u8, Option<Ref>) {
        let mut r = self.rng.borrow_mut();
        let lit = self.w[pos]; // a question past the end is a panic
        let mut ans = None;
        if pos > 0 && !r.one_in(4) {
            for _ in 0..20 {
                let d = 1 + r.skewed(pos.min(32768) - 1);
                let n = repeat(self.w, pos, d);
                if n >= 3 {
                    let n = if r.bool() { n } else { r.range(3, n.min(6)) };
                    ans = Some(rf(d as u16, n as u16));
                    break;
                }
            }
        }
        self.asked.borrow_mut().push(format!("{} {:?} -> {:?}", pos, other, ans));
        (lit, ans)
    }
}

fn main() {
    run("C14", |c| {
        c.rule("scanners of every strategy and preset over random history and data, fed random true codes, at every position; the three strategies over a looker that answers arbitrary true references; non-trivial: a guess with a reference");
        while c.more() {
            let mut r = Rng(c.rng.next());
            let big = if r.one_in(10) { 40000 } else { 600 };
            let (p, d) = world(&mut r, big);
            let mut w = p.clone();
            w.extend(&d);
            let seed = r.next();
            if r.one_in(3) {
                if w.is_empty() || w.len() > 2000 { continue; }
                c.case(format!("data {} looker seed {}", hex(&w), seed), || {
                    let mut nt = false;
                    for k in [Lookahead::Greedy, Lookahead::Gzip, Lookahead::ThreeZip] {
                        for pos in 0..w.len() {
                            let l = Any { w: &w, rng: RefCell::new(Rng(seed ^ pos as u64)), asked: RefCell::new(vec![]) };
                            let g = k.lookahead(&l, pos);
                            let asked = l.asked.borrow().join("; ");
                            if g.is_empty() { return Err(format!("{:?} at {}: an empty guess (answers {})", k, pos, asked)); }
                            decode(&w, pos, &g).map_err(|e| format!("{:?} at {}: {} (answers {})", k, pos, e, asked))?;
                            nt |= g.iter().any(|x| matches!(x, Code::Reference(_)));
                        }
                    }
                    Ok(nt)
                });
            } else {
                let conf = config(&mut r);
                let limit = limit_of(&conf);
                c.case(format!("history {} data {} config {:?} codes seed {}", hex(&p), hex(&d), conf, seed), || {
                    let mut r = Rng(seed);
                    let a = AllRefs::with_sixteen(&p, &d, limit);
                    let t = Technique::new(conf, &a);
                    let mut s = t.scanner();
                    let mut nt = false;
                    let lits = *r.pick(&[0usize, 1, 2, 5]);
                    if s.pos != p.len() { return Err(format!("starts at {} after {} bytes of history", s.pos, p.len())); }
                    let mut steps = 0;
                    while s.pos < w.len() && steps < 3000 {
                        steps += 1;
                        if !s.more_data() { return Err(format!("no more data at {} of {}", s.pos, w.len())); }
                        let g = s.codes();
                        if g.is_empty() { return Err(format!("an empty guess at {}", s.pos)); }
                        decode(&w, s.pos, &g).map_err(|e| format!("guess at {}: {}", s.pos, e))?;
                        nt |= g.iter().any(|x| matches!(x, Code::Reference(_)));
                        if r.bool() {
                            for k in &g { s.feedback(*k); }
                        } else {
                            let at = s.pos;
                            s.feedback(true_code(&mut r, &w, at, lits));
                        }
                    }
                    if s.pos >= w.len() && s.more_data() { return Err(format!("more data at {} of {}", s.pos, w.len())); }
                    Ok(nt)
                });
            }
        }
    });
}
