//! Naive oracles and generators for the guessing half: candidates, choice, guesses, codes.
use crate::Rng;
use librezip::rezip_verif::lookahead::Lookahead;
use librezip::rezip_verif::new_ref as rf;
use librezip::rezip_verif::picker::Picker;
use librezip::rezip_verif::wams::{LookaheadConfig, WamsOptimisations};
use librezip::{Code, Config, Ref};

/// history and data with many repeats and hash collisions
pub fn world(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>) {
    let n = match r.below(8) { 0 => r.below(6), 1 | 2 => r.below(40), 3 => r.skewed(max), 4 => 250 + r.below(300), _ => r.skewed(2000.min(max)) };
    let n = if max > 50000 && r.one_in(4) { 32700 + r.skewed(max - 32700) } else { n };
    let mut w = any_data(r, n);
    far(r, &mut w);
    let k = match r.below(4) { 0 => 0, 1 => r.below(w.len() + 1).min(3), _ => r.below(w.len() + 1) };
    let k = k.min(w.len());
    let d = w.split_off(k);
    (w, d)
}

pub fn any_data(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        // bytes that differ only in what the hash drops (the top three bits of the first, one of the second)
        0 => {
            let a = [0x4fu8, 0x6f, 0x0f, 0x2f, 0xef];
            let k = 2 + r.below(4);
            let mut v: Vec<u8> = (0..n).map(|_| a[r.below(k)]).collect();
            weave(r, &mut v);
            v
        }
        1 => {
            let mut v = vec![];
            let p = r.range(1, 9);
            let unit = r.bytes(p);
            while v.len() < n {
                v.extend(&unit);
                if r.one_in(10) { v.push(r.byte()); }
            }
            v.truncate(n);
            v
        }
        _ => r.text(n),
    }
}
/// repeats at the distances where something changes, of the lengths where something changes
fn far(r: &mut Rng, w: &mut Vec<u8>) {
    if w.len() > 300 && r.bool() {
        for _ in 0..1 + r.below(4) {
            let d = *r.pick(&[32768usize, 32768, 32767, 32769, 4096, 4097, 4095, 258, 259]);
            let d = r.hot(1, 65535).unwrap_or(d);
            let l = *r.pick(&[3usize, 4, 5, 257, 258, 259, 300]);
            let l = r.hot(1, 600).unwrap_or(l);
            if d + l < w.len() {
                let a = r.below(w.len() - d - l);
                for i in 0..l {
                    w[a + d + i] = w[a + i];
                }
            }
        }
    }
}
fn weave(r: &mut Rng, v: &mut Vec<u8>) {
    if v.len() > 20 {
        for _ in 0..r.below(6) {
            let l = r.skewed(600).min(v.len() / 2);
            let a = r.below(v.len() - l + 1);
            let b = r.below(v.len() - l + 1);
            let c = v[a..a + l].to_vec();
            v[b..b + l].copy_from_slice(&c);
        }
    }
}

/// the 15-bit hash of gzip's chains, from its definition: h = ((h << 5) ^ c) mod 2^15
pub fn hash(w: &[u8], p: usize) -> u32 {
    let mut h = 0u32;
    for i in 0..3 {
        h = ((h << 5) ^ w[p + i] as u32) % 32768;
    }
    h
}

/// how many bytes from pos on repeat those dist back
pub fn repeat(w: &[u8], pos: usize, dist: usize) -> usize {
    let mut n = 0;
    while n < 258 && pos + n < w.len() && w[pos + n] == w[pos + n - dist] {
        n += 1;
    }
    n
}

/// the candidates for pos, nearest first
pub fn candidates(w: &[u8], pos: usize, os: &[(usize, u16)], limit: usize) -> Option<Vec<(usize, usize)>> {
    if pos + 2 >= w.len() {
        return None;
    }
    let h = hash(w, pos);
    let mut out = vec![];
    // with many ranges, look positions up in a table
    let mut shown = vec![];
    if os.len() > 20 {
        shown = vec![true; pos];
        for &(s, l) in os {
            for p in s + 1..(s + l as usize).min(pos) {
                shown[p] = false;
            }
        }
    }
    let mut left = limit;
    for p in (1..pos).rev() {
        if left == 0 {
            break;
        }
        if hash(w, p) != h || if shown.is_empty() { os.iter().any(|&(s, l)| p > s && p < s + l as usize) } else { !shown[p] } {
            continue;
        }
        left -= 1;
        let n = repeat(w, pos, pos - p);
        if pos - p <= 32768 && n >= 3 {
            out.push((pos - p, n));
        }
    }
    Some(out)
}

/// the first to reach the cut-off, else the first longest
pub fn choose(c: &[(usize, usize)], far: Picker, cap: usize) -> Option<(usize, usize)> {
    let m = match c.iter().find(|x| x.1 >= cap) {
        Some(x) => *x,
        None => *c.iter().find(|x| c.iter().all(|y| y.1 <= x.1))?,
    };
    if far == Picker::DropFarThrees && m.1 <= 3 && m.0 > 4096 { None } else { Some(m) }
}

/// the choice at pos when the match before it is `other` long
pub fn look(w: &[u8], pos: usize, other: Option<u16>, os: &[(usize, u16)], limit: usize, conf: &Config) -> Option<(usize, usize)> {
    let mut n = conf.wams.limit_count_of_distances;
    if let (Some(o), Some(l)) = (other, conf.wams.lookahead) {
        if o < l.abort_above_length {
            return None;
        }
        if o > l.apathetic_above_length {
            n /= 4;
        }
    }
    let mut c = candidates(w, pos, os, limit)?;
    c.truncate(n);
    choose(&c, conf.picker, conf.wams.quit_search_above_length as usize)
}

/// what is hidden after a code of n bytes at pos
pub fn hide(conf: &Config, os: &mut Vec<(usize, u16)>, pos: usize, c: &Code) {
    if let (Some(m), Code::Reference(r)) = (conf.wams.insert_only_below_length, c) {
        if r.run() > m {
            os.push((pos, r.run()));
        }
    }
}

pub fn config(r: &mut Rng) -> Config {
    let mut c = match r.below(3) { 0 => Config::spicy(), _ => Config::gzip(r.range(1, 9) as u8) };
    if r.bool() {
        c.lookahead = *r.pick(&[Lookahead::Greedy, Lookahead::Gzip, Lookahead::ThreeZip]);
        c.picker = *r.pick(&[Picker::Longest, Picker::DropFarThrees]);
    }
    if r.one_in(3) {
        let cap = r.range(1, 300) as u16;
        c.wams = WamsOptimisations {
            quit_search_above_length: *r.pick(&[3, 4, 5, 258, cap]),
            limit_count_of_distances: *r.pick(&[0, 1, 2, 3, 4, 7, 8, 5000]),
            insert_only_below_length: if r.bool() { Some(*r.pick(&[0, 2, 3, 4, 6, 300])) } else { None },
            lookahead: if r.bool() { Some(LookaheadConfig { apathetic_above_length: r.range(0, 40) as u16, abort_above_length: r.range(0, 40) as u16 }) } else { None },
        };
    }
    c
}
/// on long data the real search is slow by nature: keep the number of distances it tries low
pub fn calm(c: &mut Config, n: usize) {
    if n > 3000 {
        c.wams.limit_count_of_distances = c.wams.limit_count_of_distances.min(60);
        if c.wams.insert_only_below_length.map_or(false, |x| x < 4) {
            c.wams.insert_only_below_length = Some(4);
        }
    }
}
pub fn limit_of(c: &Config) -> u16 {
    c.wams.insert_only_below_length.unwrap_or(65535)
}

/// one code for pos that decodes to what comes there
pub fn true_code(r: &mut Rng, w: &[u8], pos: usize, lits: usize) -> Code {
    if !r.one_in(lits.max(1)) || lits == 0 {
        for _ in 0..12 {
            if pos == 0 {
                break;
            }
            let d = match r.below(4) { 0 => 1 + r.below(pos.min(32768)), 1 => pos.min(32768), _ => 1 + r.skewed(pos.min(32768) - 1) };
            let n = repeat(w, pos, d);
            if n >= 3 {
                let n = match r.below(4) { 0 => 3, 1 => r.range(3, n), _ => n };
                return Code::Reference(rf(d as u16, n as u16));
            }
        }
    }
    Code::Literal(w[pos])
}

/// a whole list of codes that decodes to w from `start` on
pub fn true_codes(r: &mut Rng, w: &[u8], start: usize) -> Vec<Code> {
    let lits = *r.pick(&[0usize, 1, 2, 5]);
    let mut v = vec![];
    let mut p = start;
    while p < w.len() {
        let c = true_code(r, w, p, lits);
        p += size(&c);
        v.push(c);
    }
    v
}

pub fn size(c: &Code) -> usize {
    match c {
        Code::Literal(_) => 1,
        Code::Reference(r) => r.run() as usize,
    }
}

/// how many bytes the codes stand for, when they decode to what comes at pos
pub fn decode(w: &[u8], pos: usize, codes: &[Code]) -> Result<usize, String> {
    let mut out = w[..pos].to_vec();
    for (i, c) in codes.iter().enumerate() {
        match c {
            Code::Literal(b) => out.push(*b),
            Code::Reference(r) => {
                let (d, n) = (r.dist as usize, r.run() as usize);
                if d == 0 || d > 32768 || d > out.len() {
                    return Err(format!("code {} ({:?}) reaches back further than there is data", i, r));
                }
                if n < 3 || n > 258 {
                    return Err(format!("code {} ({:?}) has no valid length", i, r));
                }
                for _ in 0..n {
                    out.push(out[out.len() - d]);
                }
            }
        }
        if out.len() > w.len() {
            return Err(format!("code {} ({:?}) of {:?} goes past the end of the data", i, c, codes));
        }
    }
    if out[..] != w[..out.len()] {
        return Err(format!("{:?} do not decode to the data at {}", codes, pos));
    }
    Ok(out.len() - pos)
}

pub fn pairs(v: &[Ref]) -> Vec<(usize, usize)> {
    v.iter().map(|r| (r.dist as usize, r.run() as usize)).collect()
}

pub fn obscured(r: &mut Rng, n: usize) -> Vec<(usize, u16)> {
    let k = *r.pick(&[0usize, 0, 1, 2, 6]);
    let mut v: Vec<(usize, u16)> = (0..k).map(|_| (r.below(n.max(1)), *r.pick(&[0u16, 1, 2, 3, 10, 258]))).collect();
    v.sort();
    v
}
