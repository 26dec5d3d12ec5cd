use harness::deflate::*;
use harness::tool::*;
use harness::*;

/// contents: rolling sums that hit the boundary often, at one place, or never
fn content(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 1 + r.below(20),
        1 => 8190 + r.below(6),
        2 => 65530 + r.below(12),
        3 => 8192 * (1 + r.below(9)) - 2 + r.below(5),
        4 => 65535 * (1 + r.below(4)) - 2 + r.below(5),
        _ => 1 + r.skewed(300_000),
    };
    match r.below(5) {
        0 => vec![r.byte(); n],
        1 => r.bytes(n),
        2 => r.text(n),
        3 => {
            // period 8192: the rolling sum never changes
            let mut b = r.bytes(8192);
            let s: usize = b.iter().map(|&x| x as usize).sum();
            if s % 4096 == 0 {
                b[0] ^= 1;
            }
            let mut v: Vec<u8> = b.iter().cycle().take(n).copied().collect();
            if r.bool() {
                let k = r.below(v.len());
                v[k] = r.byte();
            }
            v
        }
        _ => {
            let mut v = vec![0; n];
            for _ in 0..r.below(6) {
                let k = r.below(n);
                v[k] = r.byte();
            }
            v
        }
    }
}

/// the content as a DEFLATE stream, in a way that does not matter
fn encode(r: &mut Rng, c: &[u8]) -> Vec<u8> {
    let mut o = Out::default();
    let (lit, dist) = fixed_lens();
    let (lit, dist) = (Code::new(&lit).unwrap(), Code::new(&dist).unwrap());
    let mut at = 0;
    let refs = r.bool();
    loop {
        let n = (c.len() - at).min(1 + r.skewed(65534));
        let last = at + n == c.len();
        o.bit(last);
        if r.one_in(3) {
            o.num(2, 0);
            o.align();
            o.num(16, n);
            o.num(16, n ^ 0xffff);
            for &b in &c[at..at + n] {
                o.num(8, b as usize);
            }
        } else {
            o.num(2, 1);
            let mut p = at;
            while p < at + n {
                let mut run = 0;
                if refs && p > 0 {
                    while run < 258 && p + run < at + n && c[p + run] == c[p - 1] {
                        run += 1;
                    }
                }
                if run >= 3 {
                    let (s, k, v) = len_sym(run as u32);
                    o.word(&lit.word(s).unwrap());
                    o.num(k, v);
                    let (s, k, v) = dist_sym(1);
                    o.word(&dist.word(s).unwrap());
                    o.num(k, v);
                    p += run;
                } else {
                    o.word(&lit.word(c[p] as usize).unwrap());
                    p += 1;
                }
            }
            o.word(&lit.word(256).unwrap());
        }
        at += n;
        if last {
            break;
        }
    }
    o.align();
    o.bytes()
}

/// where the blocks of a good output end
fn check(out: &[u8], head: &[u8], c: &[u8]) -> Result<Vec<usize>, String> {
    if !out.starts_with(head) {
        return Err("the header differs".into());
    }
    let p = parse(&out[head.len()..]);
    if let Some(e) = p.error {
        return Err(format!("the output does not parse: {}", e));
    }
    let mut all = vec![];
    let mut ends = vec![];
    for b in &p.blocks {
        match b {
            RBlock::Stored(d) if d.len() >= 1 && d.len() <= 65535 => {
                all.extend_from_slice(d);
                ends.push(all.len());
            }
            RBlock::Stored(d) => return Err(format!("a stored block of {} bytes", d.len())),
            _ => return Err("a block that is not stored".into()),
        }
    }
    if all != c {
        return Err(format!("the content differs: {} bytes for {}", all.len(), c.len()));
    }
    if out[head.len() + p.used..] != footer(c)[..] {
        return Err(format!("the footer is {}, not {}", hex(&out[head.len() + p.used..]), hex(&footer(c))));
    }
    Ok(ends)
}

fn main() {
    run("C17", |cx| {
        cx.rule("gzip members with every kind of header over contents from 1 byte to 300000 (random, constant, text, sparse, and of period 8192 so that the rolling sum never hits), each content encoded twice in different ways; non-trivial: more than one stored block");
        let (exe, file) = match scratch("c17") {
            Some(x) => x,
            None => return,
        };
        let mut first = cx.rng.next() % 3 == 0; // slow
        while cx.more() {
            let seed = cx.rng.next();
            let mut r = Rng(seed);
            let (h1, h2) = (header(&mut r), header(&mut r));
            let c = if first { big(&mut r) } else { content(&mut r) };
            let (d1, d2) = if first { (stored(&c), stored(&c)) } else { (encode(&mut r, &c), encode(&mut r, &c)) };
            let piped = r.bool();
            let f1 = [&h1[..], &d1, &footer(&c)].concat();
            let f2 = [&h2[..], &d2, &footer(&c)].concat();
            let exe = exe.clone();
            let file = file.clone();
            let shown = if first { format!("{} bytes, stored", f1.len()) } else { hex(&f1) };
            first = false;
            cx.case(format!("generator state {} piped {} file {}", seed, piped, shown), move || {
                let e1 = check(&tool("zero", &exe, &file, &f1, piped)?, &h1, &c)?;
                let e2 = check(&tool("zero", &exe, &file, &f2, !piped)?, &h2, &c)?;
                if e1 != e2 {
                    return Err(format!("the same content is cut at {:?} and at {:?}", e1, e2));
                }
                Ok(e1.len() > 1)
            });
        }
        let _ = std::fs::remove_dir_all(file.parent().unwrap());
    });
}
