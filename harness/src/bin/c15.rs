use harness::*;
use std::io::Read;

/// RFC 1952 2.3: the length of the header, if it is one (all reads up front, no partial credit)
fn header_len(d: &[u8]) -> Option<usize> {
    if d.len() < 10 || d[0] != 0x1f || d[1] != 0x8b || d[2] != 8 || d[3] & 0xe0 != 0 {
        return None;
    }
    let f = d[3];
    let mut p = 10;
    if f & 4 != 0 {
        let n = *d.get(p)? as usize + 256 * *d.get(p + 1)? as usize;
        p += 2 + n;
        if p > d.len() {
            return None;
        }
    }
    for bit in [8, 16] {
        if f & bit != 0 {
            p += d.get(p..)?.iter().position(|&b| b == 0)? + 1;
        }
    }
    if f & 2 != 0 {
        p += 2;
    }
    if p > d.len() { None } else { Some(p) }
}

fn main() {
    run("C15", |cx| {
        cx.rule("headers with every combination of flags, extra fields up to 65535 bytes, names, comments, each possibly cut short or damaged, followed by other bytes; non-trivial: an accepted header");
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            let mut d = vec![0x1f, 0x8b, 8];
            let f = if r.one_in(6) { r.byte() } else { r.byte() & 31 };
            d.push(f);
            d.extend(r.bytes(6));
            if f & 4 != 0 {
                let n = match r.below(6) { 0 => 0, 1 => 65535 - r.below(3), 2 => 250 + r.below(12), 3 => r.skewed(65535), _ => r.skewed(3000) };
                d.push(n as u8);
                d.push((n >> 8) as u8);
                d.extend(r.bytes(n));
            }
            for bit in [8, 16] {
                if f & bit != 0 {
                    let most = if r.one_in(40) { 70000 } else { 300 };
                    for _ in 0..r.skewed(most) {
                        d.push(r.byte() | 1);
                    }
                    d.push(0);
                }
            }
            if f & 2 != 0 {
                d.extend(r.bytes(2));
            }
            if r.one_in(3) {
                let k = r.below(d.len() + 1);
                d.truncate(k);
            } else {
                let k = r.skewed(400);
                d.extend(r.bytes(k));
            }
            if r.one_in(4) && !d.is_empty() {
                let k = r.below(d.len().min(12));
                d[k] ^= 1 << r.below(8);
            }
            if r.one_in(10) {
                let k = r.below(3);
                if k < d.len() {
                    d[k] = r.byte();
                }
            }
            let seed = r.next();
            let want = header_len(&d);
            let data = d.clone();
            cx.case(hex(&d), move || {
                let mut src = Chunky::new(&data, seed);
                match (librezip::gzip::discard_header(&mut src), want) {
                    (Ok(h), Some(n)) => {
                        if h != data[..n] {
                            return Err(format!("returned {}, want the first {} bytes", hex(&h), n));
                        }
                        if src.pos != n {
                            return Err(format!("used {} bytes of {}", src.pos, n));
                        }
                        let mut rest = vec![];
                        src.read_to_end(&mut rest).map_err(|e| e.to_string())?;
                        if rest != data[n..] {
                            return Err("the rest differs".into());
                        }
                        Ok(true)
                    }
                    (Err(_), None) => Ok(false),
                    (Ok(_), None) => Err("accepted".into()),
                    (Err(e), Some(n)) => Err(format!("refused a header of {} bytes: {:?}", n, e)),
                }
            });
        }
    });
}
