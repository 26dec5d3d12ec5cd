use harness::guess::*;
use harness::*;
use librezip::all_refs::AllRefs;
use librezip::trace::{restore, trace, validate};
use librezip::tracer::try_gzip;
use librezip::{Code, Guesser, Technique, Trace};

/// the codes a scanner of this configuration would guess, with a mistake now and then
fn mostly(r: &mut Rng, conf: librezip::Config, p: &[u8], d: &[u8], w: &[u8], wrong: usize) -> Vec<Code> {
    let a = AllRefs::with_sixteen(p, d, limit_of(&conf));
    let t = Technique::new(conf, &a);
    let mut s = t.scanner();
    let mut v = vec![];
    while s.pos < w.len() {
        for k in s.codes() {
            let k = if r.one_in(wrong) { true_code(r, w, s.pos, 2) } else { k };
            let off = size(&k);
            v.push(k);
            s.feedback(k);
            if r.one_in(wrong) || s.pos >= w.len() || off > 258 { break; }
        }
        // a guess may have been cut short: what is left is guessed again
    }
    // the guesses after a mistake may no longer fit where they stand: keep the prefix that decodes
    let mut ok = vec![];
    let mut pos = p.len();
    for k in v {
        if decode(w, pos, &[k]).is_err() { break; }
        pos += size(&k);
        ok.push(k);
    }
    while pos < w.len() {
        let k = true_code(r, w, pos, 1);
        pos += size(&k);
        ok.push(k);
    }
    ok
}

fn main() {
    run("C09", |c| {
        c.rule("random history and data, code lists that decode to the data (arbitrary, and a scanner's own guesses with mistakes), every gzip level, the other presets and random settings; non-trivial: the trace is not all correct guesses");
        while c.more() {
            let mut r = Rng(c.rng.next());
            let big = if r.one_in(40) { 40000 } else { 500 };
            let (p, d) = world(&mut r, big);
            let mut w = p.clone();
            w.extend(&d);
            let mut conf = config(&mut r);
            calm(&mut conf, w.len());
            let mut other = if r.one_in(3) { conf } else { config(&mut r) };
            calm(&mut other, w.len());
            let wrong = *r.pick(&[2usize, 5, 30, 100000]);
            let fair = r.bool();
            let seed = r.next();
            let level = r.range(1, if w.len() > 3000 { 7 } else { 9 }) as u8;
            c.case(format!("history {} data {} config {:?} codes of {:?} wrong one in {} own {} seed {} level {}", hex(&p), hex(&d), conf, other, wrong, fair, seed, level), || {
                let mut r = Rng(seed);
                let codes = if fair { mostly(&mut r, other, &p, &d, &w, wrong) } else { true_codes(&mut r, &w, p.len()) };
                let a = AllRefs::with_sixteen(&p, &d, limit_of(&conf));
                let t = Technique::new(conf, &a);
                let tr = trace(&codes, &t);
                let back = restore(&tr, &t);
                if back != codes {
                    let i = back.iter().zip(&codes).take_while(|(a, b)| a == b).count();
                    return Err(format!("{} codes, {} restored, first difference at {}: {:?} restored as {:?}", codes.len(), back.len(), i, codes.get(i), back.get(i)));
                }
                if tr.len() != codes.len() { return Err(format!("{} codes give a trace of {}", codes.len(), tr.len())); }
                // against fresh tables, as another process would restore
                let b = AllRefs::with_sixteen(&p, &d, limit_of(&conf));
                if restore(&tr, &Technique::new(conf, &b)) != codes { return Err("restored differently the second time".into()); }
                if validate(&codes, &t) != tr { return Err("validate gives another trace".into()); }
                let g = try_gzip(level, &p, &d, &codes);
                let gc = librezip::Config::gzip(level);
                let ga = AllRefs::with_sixteen(&p, &d, limit_of(&gc));
                if restore(&g, &Technique::new(gc, &ga)) != codes { return Err(format!("the trace of try_gzip({}) restores other codes", level)); }
                let _ = t.scanner().more_data();
                Ok(tr.iter().any(|x| *x != Trace::Correct) && tr.iter().any(|x| *x == Trace::Correct))
            });
        }
        let _ = |s: &librezip::Technique| s.scanner().codes();
    });
}
