//! An independent RFC 1951 reader and stream generator (bit lists, canonical codes by the RFC's
//! counting algorithm); nothing here is taken from /repo.
use crate::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    Lit(u8),
    Ref { dist: u32, len: u32 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RBlock {
    Stored(Vec<u8>),
    Fixed(Vec<Tok>),
    Dyn { trees: Vec<bool>, toks: Vec<Tok> },
}

pub struct Bits<'a> {
    pub data: &'a [u8],
    pub pos: usize, // in bits
}
impl<'a> Bits<'a> {
    pub fn bit(&mut self) -> Result<bool, String> {
        if self.pos >= self.data.len() * 8 {
            return Err("end of input".into());
        }
        let b = self.data[self.pos / 8] >> (self.pos % 8) & 1;
        self.pos += 1;
        Ok(b == 1)
    }
    pub fn num(&mut self, n: usize) -> Result<usize, String> {
        let mut v = 0;
        for i in 0..n {
            if self.bit()? {
                v += 1 << i;
            }
        }
        Ok(v)
    }
    pub fn align(&mut self) -> Result<(), String> {
        while self.pos % 8 != 0 {
            if self.bit()? {
                return Err("padding".into());
            }
        }
        Ok(())
    }
}

/// RFC 1951 3.2.2: (length, code) per symbol; None unless complete with lengths up to 15
pub fn canonical(lens: &[u8]) -> Option<Vec<(u8, u32)>> {
    if lens.len() < 2 || lens.iter().any(|&l| l > 15) {
        return None;
    }
    let sum: u64 = lens.iter().filter(|&&l| l > 0).map(|&l| 1u64 << (15 - l)).sum();
    if sum != 1 << 15 {
        return None;
    }
    let mut count = [0u32; 17];
    for &l in lens {
        if l > 0 {
            count[l as usize] += 1;
        }
    }
    let mut next = [0u32; 17];
    let mut code = 0;
    for b in 1..=15 {
        code = (code + count[b - 1]) << 1;
        next[b] = code;
    }
    Some(
        lens.iter()
            .map(|&l| {
                if l == 0 {
                    (0, 0)
                } else {
                    let c = next[l as usize];
                    next[l as usize] += 1;
                    (l, c)
                }
            })
            .collect(),
    )
}

pub struct Code {
    pub table: Vec<(u8, u32)>,
    map: std::collections::HashMap<(u8, u32), u16>,
}
impl Code {
    pub fn new(lens: &[u8]) -> Option<Code> {
        let table = canonical(lens)?;
        let map = table.iter().enumerate().filter(|(_, t)| t.0 > 0).map(|(i, t)| (*t, i as u16)).collect();
        Some(Code { table, map })
    }
    pub fn decode(&self, r: &mut Bits) -> Result<usize, String> {
        let (mut l, mut c) = (0u8, 0u32);
        loop {
            c = c << 1 | r.bit()? as u32;
            l += 1;
            if let Some(s) = self.map.get(&(l, c)) {
                return Ok(*s as usize);
            }
            if l > 15 {
                return Err("no code".into());
            }
        }
    }
    pub fn word(&self, sym: usize) -> Option<Vec<bool>> {
        let (l, c) = *self.table.get(sym)?;
        if l == 0 {
            return None;
        }
        Some((0..l).rev().map(|i| c >> i & 1 == 1).collect())
    }
}

pub const LEN_BASE: [u32; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
pub const LEN_EXTRA: [usize; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
pub const DIST_BASE: [u32; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
pub const DIST_EXTRA: [usize; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
pub const CL_ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn fixed_lens() -> (Vec<u8>, Vec<u8>) {
    let mut l = vec![8u8; 144];
    l.extend(vec![9; 112]);
    l.extend(vec![7; 24]);
    l.extend(vec![8; 8]);
    (l, vec![5; 32])
}

fn tokens(r: &mut Bits, lit: &Code, dist: Option<&Code>, odd: &mut bool) -> Result<Vec<Tok>, String> {
    let mut v = vec![];
    loop {
        let s = lit.decode(r)?;
        if s < 256 {
            v.push(Tok::Lit(s as u8));
        } else if s == 256 {
            return Ok(v);
        } else {
            if s > 285 {
                return Err("reserved length".into());
            }
            let x = r.num(LEN_EXTRA[s - 257])?;
            let len = LEN_BASE[s - 257] + x as u32;
            if s == 284 && x == 31 {
                *odd = true;
            }
            let d = dist.ok_or("no distance code")?.decode(r)?;
            if d > 29 {
                return Err("reserved distance".into());
            }
            let dist = DIST_BASE[d] + r.num(DIST_EXTRA[d])? as u32;
            v.push(Tok::Ref { dist, len });
        }
    }
}

pub fn trees(r: &mut Bits) -> Result<(Code, Option<Code>), String> {
    let hlit = r.num(5)? + 257;
    let hdist = r.num(5)? + 1;
    let hclen = r.num(4)? + 4;
    let mut cl = [0u8; 19];
    for i in 0..hclen {
        cl[CL_ORDER[i]] = r.num(3)? as u8;
    }
    let cl = Code::new(&cl).ok_or("code length code")?;
    let mut lens: Vec<u8> = vec![];
    // what 16 repeats: the last length, which after 17 and 18 is zero
    while lens.len() < hlit + hdist {
        match cl.decode(r)? {
            16 => {
                let p = *lens.last().ok_or("nothing to repeat")?;
                for _ in 0..r.num(2)? + 3 {
                    lens.push(p);
                }
            }
            17 => {
                for _ in 0..r.num(3)? + 3 {
                    lens.push(0);
                }
            }
            18 => {
                for _ in 0..r.num(7)? + 11 {
                    lens.push(0);
                }
            }
            n => lens.push(n as u8),
        }
    }
    if lens.len() != hlit + hdist {
        return Err("too many lengths".into());
    }
    let lit = Code::new(&lens[..hlit]).ok_or("literal code")?;
    let d = &lens[hlit..];
    if d == [0] {
        return Ok((lit, None));
    }
    let used: Vec<usize> = (0..d.len()).filter(|&i| d[i] > 0).collect();
    if used.len() == 1 && d[used[0]] == 1 {
        // one distance code of one bit; the other bit stands for nothing
        if used[0] == 31 {
            return Err("reserved".into());
        }
        let mut x = vec![0u8; 32];
        x[used[0]] = 1;
        x[31] = 1;
        return Ok((lit, Code::new(&x)));
    }
    let dist = Code::new(d).ok_or("distance code")?;
    Ok((lit, Some(dist)))
}

/// (final, block) of one block; odd is set when a length 258 is spelled 284+31
pub fn block(r: &mut Bits, odd: &mut bool) -> Result<(bool, RBlock), String> {
    let last = r.bit()?;
    let b = match r.num(2)? {
        0 => {
            r.align()?;
            let n = r.num(16)?;
            let m = r.num(16)?;
            if n ^ m != 0xffff {
                return Err("stored length".into());
            }
            let at = r.pos / 8;
            if at + n > r.data.len() {
                return Err("end of input".into());
            }
            r.pos += 8 * n;
            RBlock::Stored(r.data[at..at + n].to_vec())
        }
        1 => {
            let (l, d) = fixed_lens();
            RBlock::Fixed(tokens(r, &Code::new(&l).unwrap(), Some(&Code::new(&d).unwrap()), odd)?)
        }
        2 => {
            let at = r.pos;
            let (l, d) = trees(r)?;
            let end = r.pos;
            let mut b = Bits { data: r.data, pos: at };
            let trees = (at..end).map(|_| b.bit().unwrap()).collect();
            RBlock::Dyn { trees, toks: tokens(r, &l, d.as_ref(), odd)? }
        }
        _ => return Err("reserved block type".into()),
    };
    Ok((last, b))
}

pub struct Parsed {
    pub blocks: Vec<RBlock>,
    /// None: ended properly, having used so many bytes; Some: the error after those blocks
    pub error: Option<String>,
    pub used: usize,
    pub odd: bool,
}
pub fn parse(data: &[u8]) -> Parsed {
    let mut r = Bits { data, pos: 0 };
    let mut p = Parsed { blocks: vec![], error: None, used: 0, odd: false };
    loop {
        match block(&mut r, &mut p.odd) {
            Ok((last, b)) => {
                p.blocks.push(b);
                if last {
                    break;
                }
            }
            Err(e) => {
                p.error = Some(e);
                return p;
            }
        }
    }
    if let Err(e) = r.align() {
        p.error = Some(e);
    }
    p.used = r.pos / 8;
    p
}

/// the bytes the tokens stand for; None when a reference reaches before the start (history limited to 32768)
pub fn expand(hist: &mut Vec<u8>, toks: &[Tok]) -> Option<()> {
    for t in toks {
        match *t {
            Tok::Lit(b) => hist.push(b),
            Tok::Ref { dist, len } => {
                if dist as usize > hist.len() || dist > 32768 {
                    return None;
                }
                for _ in 0..len {
                    hist.push(hist[hist.len() - dist as usize]);
                }
            }
        }
    }
    Some(())
}

// ------------------------------------------------------------------ generation

#[derive(Default, Clone)]
pub struct Out {
    pub bits: Vec<bool>,
}
impl Out {
    pub fn bit(&mut self, b: bool) {
        self.bits.push(b)
    }
    pub fn num(&mut self, n: usize, v: usize) {
        for i in 0..n {
            self.bits.push(v >> i & 1 == 1);
        }
    }
    pub fn word(&mut self, w: &[bool]) {
        self.bits.extend_from_slice(w)
    }
    pub fn align(&mut self) {
        while self.bits.len() % 8 != 0 {
            self.bits.push(false);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, &b)| a | (b as u8) << i)).collect()
    }
}

pub fn len_sym(len: u32) -> (usize, usize, usize) {
    if len == 258 {
        return (285, 0, 0);
    }
    let mut i = 27;
    while LEN_BASE[i] > len {
        i -= 1;
    }
    (257 + i, LEN_EXTRA[i], (len - LEN_BASE[i]) as usize)
}
pub fn dist_sym(dist: u32) -> (usize, usize, usize) {
    let mut i = 29;
    while DIST_BASE[i] > dist {
        i -= 1;
    }
    (i, DIST_EXTRA[i], (dist - DIST_BASE[i]) as usize)
}

/// depths of a random full binary tree with k leaves, none deeper than max
pub fn depths(rng: &mut Rng, k: usize, max: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![0];
    let deep = rng.one_in(3);
    while v.len() < k {
        let i = if deep && rng.below(8) > 0 {
            // prefer the deepest that can still be split
            let mut best = usize::MAX;
            for (i, &d) in v.iter().enumerate() {
                if (d as usize) < max && (best == usize::MAX || d > v[best]) {
                    best = i;
                }
            }
            best
        } else {
            let c: Vec<usize> = (0..v.len()).filter(|&i| (v[i] as usize) < max).collect();
            *rng.pick(&c)
        };
        v[i] += 1;
        let d = v[i];
        v.push(d);
    }
    v
}

/// lengths for n symbols using exactly the set `used`
pub fn lens_for(rng: &mut Rng, n: usize, used: &[usize], max: usize) -> Vec<u8> {
    let mut d = depths(rng, used.len(), max);
    for i in (1..d.len()).rev() {
        let j = rng.below(i + 1);
        d.swap(i, j);
    }
    let mut l = vec![0u8; n];
    for (i, &u) in used.iter().enumerate() {
        l[u] = d[i];
    }
    l
}

fn subset(rng: &mut Rng, n: usize, k: usize, must: &[usize]) -> Vec<usize> {
    let mut s: std::collections::BTreeSet<usize> = must.iter().cloned().filter(|&x| x < n).collect();
    while s.len() < k.min(n) {
        s.insert(rng.below(n));
    }
    s.into_iter().collect()
}

/// writes a tree description for the given lengths with random run-length choices
pub fn write_trees(rng: &mut Rng, o: &mut Out, lit: &[u8], dist: &[u8]) {
    let mut all = lit.to_vec();
    all.extend_from_slice(dist);
    let mut syms: Vec<(usize, usize, usize)> = vec![];
    let lazy = rng.below(4);
    let mut i = 0;
    while i < all.len() {
        let v = all[i];
        let mut run = 1;
        while i + run < all.len() && all[i + run] == v {
            run += 1;
        }
        if v == 0 && run >= 3 && rng.below(4) >= lazy {
            if run >= 11 && rng.below(5) > 0 {
                let n = if rng.bool() { run.min(138) } else { rng.range(11, run.min(138)) };
                syms.push((18, 7, n - 11));
                i += n;
            } else {
                let n = if rng.bool() { run.min(10) } else { rng.range(3, run.min(10)) };
                syms.push((17, 3, n - 3));
                i += n;
            }
        } else if i > 0 && all[i - 1] == v && run >= 3 && rng.below(4) >= lazy {
            let n = if rng.bool() { run.min(6) } else { rng.range(3, run.min(6)) };
            syms.push((16, 2, n - 3));
            i += n;
        } else {
            syms.push((v as usize, 0, 0));
            i += 1;
        }
    }
    let mut used: Vec<usize> = syms.iter().map(|s| s.0).collect();
    used.sort();
    used.dedup();
    while used.len() < 2 || rng.one_in(4) {
        let x = rng.below(19);
        if !used.contains(&x) {
            used.push(x);
        }
        if used.len() == 19 {
            break;
        }
    }
    used.sort();
    let cl = lens_for(rng, 19, &used, 7);
    let need = (0..19).rev().find(|&i| cl[CL_ORDER[i]] > 0).unwrap() + 1;
    let hclen = rng.range(need.max(4), 19);
    o.num(5, lit.len() - 257);
    o.num(5, dist.len() - 1);
    o.num(4, hclen - 4);
    for i in 0..hclen {
        o.num(3, cl[CL_ORDER[i]] as usize);
    }
    let code = Code::new(&cl).unwrap();
    for (s, n, x) in syms {
        o.word(&code.word(s).unwrap());
        o.num(n, x);
    }
}

/// random tokens that the codes can spell and the history allows; writes them and the end mark
pub fn write_tokens(rng: &mut Rng, o: &mut Out, lit: &Code, dist: Option<&Code>, n: usize, hist: &mut Vec<u8>, allow_odd: bool) -> Vec<Tok> {
    let lits: Vec<usize> = (0..256).filter(|&s| lit.word(s).is_some()).collect();
    let lens: Vec<usize> = (257..=285).filter(|&s| lit.word(s).is_some()).collect();
    let dists: Vec<usize> = dist.map(|d| (0..30).filter(|&s| d.word(s).is_some()).collect()).unwrap_or_default();
    let mut v = vec![];
    let bias = rng.range(1, 6);
    for _ in 0..n {
        let usable: Vec<usize> = dists.iter().cloned().filter(|&d| DIST_BASE[d] as usize <= hist.len()).collect();
        let refok = !lens.is_empty() && !usable.is_empty();
        if refok && (lits.is_empty() || rng.below(6) < bias) {
            let s = *rng.pick(&lens);
            let e = LEN_EXTRA[s - 257];
            let mut x = match rng.below(5) { 0 => 0, 1 => (1 << e) - 1, 2 if e > 0 => 1 << rng.below(e), _ => rng.below(1 << e) };
            if s == 284 && x == 31 && !allow_odd {
                x = 30;
            }
            let len = LEN_BASE[s - 257] + x as u32;
            let d = *rng.pick(&usable);
            let de = DIST_EXTRA[d];
            let mut dx = match rng.below(6) { 0 => 0, 1 => (1usize << de) - 1, 2 if de > 0 => 1 << rng.below(de), 3 if de > 0 => (1 << rng.below(de)) - 1, _ => rng.below(1 << de) };
            let room = hist.len() - DIST_BASE[d] as usize;
            if dx > room {
                dx = room;
            }
            o.word(&lit.word(s).unwrap());
            o.num(e, x);
            o.word(&dist.unwrap().word(d).unwrap());
            o.num(de, dx);
            let t = Tok::Ref { dist: DIST_BASE[d] + dx as u32, len };
            expand(hist, &[t]).unwrap();
            v.push(t);
        } else if !lits.is_empty() {
            let b = *rng.pick(&lits) as u8;
            o.word(&lit.word(b as usize).unwrap());
            hist.push(b);
            v.push(Tok::Lit(b));
        }
    }
    o.word(&lit.word(256).unwrap());
    v
}

pub fn gen_block(rng: &mut Rng, o: &mut Out, last: bool, hist: &mut Vec<u8>, size: usize, allow_odd: bool) -> RBlock {
    o.bit(last);
    match rng.below(5) {
        0 => {
            o.num(2, 0);
            o.align();
            let n = if rng.one_in(40) { 65535 - rng.below(3) } else { rng.skewed(size * 4 + 1).min(65535) };
            let data = rng.bytes(n);
            o.num(16, n);
            o.num(16, n ^ 0xffff);
            for b in &data {
                o.num(8, *b as usize);
            }
            hist.extend_from_slice(&data);
            RBlock::Stored(data)
        }
        1 => {
            o.num(2, 1);
            let (l, d) = fixed_lens();
            RBlock::Fixed(write_tokens(rng, o, &Code::new(&l).unwrap(), Some(&Code::new(&d).unwrap()), size, hist, allow_odd))
        }
        _ => {
            o.num(2, 2);
            let at = o.bits.len();
            let hlit = if rng.one_in(3) { 257 } else if rng.one_in(6) { rng.range(287, 288) } else { rng.range(257, 286) };
            let k = match rng.below(4) { 0 => 2, 1 => hlit, _ => rng.range(2, hlit) };
            let must: Vec<usize> = if rng.bool() { vec![256] } else { vec![256, rng.range(257, 285), rng.range(97, 100)] };
            let used = subset(rng, hlit, k, &must);
            let lit = lens_for(rng, hlit, &used, 15);
            let dist: Vec<u8> = match rng.below(6) {
                0 => vec![0],
                1 => {
                    let n = rng.range(1, 32);
                    let mut d = vec![0u8; n];
                    let at = rng.below(n.min(31));
                    d[at] = 1;
                    d
                }
                _ => {
                    let n = if rng.one_in(6) { rng.range(31, 32) } else { rng.range(2, 30) };
                    let k = if rng.bool() { n } else { rng.range(2, n) };
                    let used = subset(rng, n, k, &[]);
                    lens_for(rng, n, &used, 15)
                }
            };
            write_trees(rng, o, &lit, &dist);
            let trees = o.bits[at..].to_vec();
            let lc = Code::new(&lit).unwrap();
            let ones: Vec<usize> = (0..dist.len()).filter(|&i| dist[i] > 0).collect();
            let dc = if ones.len() == 1 {
                let mut x = vec![0u8; 32];
                x[ones[0]] = 1;
                x[31] = 1;
                Code::new(&x)
            } else if ones.is_empty() {
                None
            } else {
                Code::new(&dist)
            };
            let toks = write_tokens(rng, o, &lc, dc.as_ref(), size, hist, allow_odd);
            RBlock::Dyn { trees, toks }
        }
    }
}

/// a well-formed stream: (bytes, blocks, content)
pub fn gen_stream(rng: &mut Rng, blocks: usize, size: usize, allow_odd: bool) -> (Vec<u8>, Vec<RBlock>, Vec<u8>) {
    gen_stream_after(rng, vec![], blocks, size, allow_odd)
}
/// the same after some earlier output (a parser does not look at the history: distances may reach back into it)
pub fn gen_stream_after(rng: &mut Rng, mut hist: Vec<u8>, blocks: usize, size: usize, allow_odd: bool) -> (Vec<u8>, Vec<RBlock>, Vec<u8>) {
    let mut o = Out::default();
    let mut v = vec![];
    for i in 0..blocks {
        let n = rng.skewed(size);
        v.push(gen_block(rng, &mut o, i + 1 == blocks, &mut hist, n, allow_odd));
    }
    o.align();
    (o.bytes(), v, hist)
}
