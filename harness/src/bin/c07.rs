use harness::*;
use librezip::rezip_verif::bit::*;

fn to_vec(m: &[bool]) -> BitVec {
    let mut v = BitVec::new();
    for &b in m {
        v.push(b);
    }
    v
}
fn same(v: &BitVec, m: &[bool]) -> Result<(), String> {
    if v.len() != m.len() || v.is_empty() != m.is_empty() {
        return Err(format!("len {} is_empty {} for {} bits", v.len(), v.is_empty(), m.len()));
    }
    for (i, &b) in m.iter().enumerate() {
        if v.get(i) != b {
            return Err(format!("get({}) is {}, want {}", i, v.get(i), b));
        }
    }
    if v.iter().collect::<Vec<bool>>() != m {
        return Err("iter() differs".into());
    }
    if *v != to_vec(m) || v.clone() != *v {
        return Err("not equal to the vector of the same bits".into());
    }
    if !m.is_empty() {
        let mut o = m.to_vec();
        let k = o.len() - 1;
        o[k] = !o[k];
        if *v == to_vec(&o) || *v == to_vec(&m[..k]) {
            return Err("equal to a vector of other bits".into());
        }
        o[k] = !o[k];
        o[0] = !o[0];
        if *v == to_vec(&o) {
            return Err("equal to a vector of other bits".into());
        }
    }
    let mut o = m.to_vec();
    o.push(false);
    if *v == to_vec(&o) {
        return Err("equal to a longer vector".into());
    }
    Ok(())
}

/// bits that are mostly the same, all the same, in turn, or mixed
fn some_bits(r: &mut Rng, n: usize) -> Vec<bool> {
    let kind = r.below(7);
    let b = r.bool();
    let p = r.range(1, 17);
    let mut v: Vec<bool> = (0..n).map(|i| match kind {
        0 => b,
        1 => b != r.one_in(8),
        2 => (i / p) % 2 == 0,
        3 => i % (p + 1) == 0,
        _ => r.bool(),
    }).collect();
    if r.one_in(8) && n > 0 {
        let k = r.below(n);
        v[k] = !v[k];
    }
    v
}
fn some_u16(r: &mut Rng) -> u16 {
    let k = r.below(16);
    match r.below(8) {
        0 => 0,
        1 => 0xffff,
        2 => 1 << k,
        3 => !(1 << k),
        4 => r.range(0, 65535) as u16,
        5 => (r.byte() as u16) << (k & 8),
        _ => r.next() as u16,
    }
}
fn some_len(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 8 * r.below(40),
        1 => r.skewed(700),
        2 => 16 * r.below(9) + *r.pick(&[0, 1, 15]),
        _ => r.below(20),
    }
}

fn main() {
    run("C07", |cx| {
        cx.rule("random push/pop/pop_byte/from_slice histories against a list of booleans; random write programs read back, through short reads and writes; non-trivial: at least 9 bits");
        let mut n = 0usize;
        while cx.more() {
            n += 1;
            let seed = cx.rng.next();
            if n % 2 == 0 {
                let input = format!("bit vector history, seed {}", seed);
                cx.case(input, || {
                    let mut r = Rng(seed);
                    let mut log = String::new();
                    let start = if r.one_in(3) { let k = r.below(5); r.bytes(k) } else { vec![] };
                    let mut plan: Vec<bool> = vec![];
                    let mut m: Vec<bool> = start.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
                    let mut v = if start.is_empty() { BitVec::new() } else { BitVec::from_slice(&start) };
                    log.push_str(&format!("start {:?}", start));
                    let k = if r.one_in(10) { 300 } else { 40 };
                    let grow = r.range(1, 4);
                    for _ in 0..k {
                        match r.below(grow + 2) {
                            0 => {
                                log.push_str(" pop");
                                let a = v.pop();
                                let b = m.pop();
                                if a != b {
                                    return Err(format!("pop gave {:?}, want {:?}; after {}", a, b, log));
                                }
                            }
                            1 if r.one_in(3) => {
                                log.push_str(" pop_byte");
                                let a = v.pop_byte();
                                let b = if m.len() < 8 { None } else {
                                    let t = m.split_off(m.len() - 8);
                                    Some(t.iter().enumerate().fold(0u8, |a, (i, &b)| a | (b as u8) << i))
                                };
                                if a != b {
                                    return Err(format!("pop_byte gave {:?}, want {:?}; after {}", a, b, log));
                                }
                            }
                            _ => {
                                if plan.is_empty() {
                                    let n = r.range(1, 40);
                                    plan = some_bits(&mut r, n);
                                }
                                let b = plan.pop().unwrap();
                                log.push_str(if b { " 1" } else { " 0" });
                                v.push(b);
                                m.push(b);
                            }
                        }
                        same(&v, &m).map_err(|e| format!("{}; after {}", e, log))?;
                    }
                    Ok(m.len() > 8)
                });
            } else {
                let input = format!("bit stream program, seed {}", seed);
                cx.case(input, || {
                    let mut r = Rng(seed);
                    let mut w = BitWriter::new(ChunkyW::new(r.next()));
                    let mut m: Vec<bool> = vec![];
                    let mut log = String::new();
                    // what to read back: (kind, n)
                    let mut prog: Vec<(u8, usize)> = vec![];
                    let e = |e: anyhow::Error| format!("write failed: {:?}", e);
                    for _ in 0..r.range(1, 30) {
                        match r.below(6) {
                            0 => {
                                let b = r.bool();
                                log.push_str(&format!(" bit {}", b));
                                w.write_bit(b).map_err(e)?;
                                m.push(b);
                                prog.push((0, 1));
                            }
                            1 | 2 => {
                                let k = r.below(17);
                                let v = some_u16(&mut r);
                                log.push_str(&format!(" val {}:{}", k, v));
                                w.write_bits_val(k as u8, v).map_err(e)?;
                                for i in 0..k {
                                    m.push(v >> i & 1 == 1);
                                }
                                prog.push((1, k));
                            }
                            3 => {
                                let n = some_len(&mut r);
                                let bits = some_bits(&mut r, n);
                                log.push_str(&format!(" vec {:?}", bits));
                                w.write_vec(&to_vec(&bits)).map_err(e)?;
                                m.extend(&bits);
                                for _ in 0..bits.len() {
                                    prog.push((0, 1));
                                }
                            }
                            4 => {
                                log.push_str(" align");
                                w.align().map_err(e)?;
                                while m.len() % 8 != 0 {
                                    m.push(false);
                                }
                                prog.push((2, 0));
                            }
                            _ => {
                                let k = if r.one_in(30) { 65536 - r.below(3) } else { r.skewed(600) };
                                let d = r.bytes(k);
                                log.push_str(&format!(" stored {}", k));
                                let res = w.write_length_prefixed(&d);
                                if (k > 65535) != res.is_err() {
                                    return Err(format!("write_length_prefixed of {} bytes gave {:?}", k, res.is_ok()));
                                }
                                if k > 65535 {
                                    return Ok(false);
                                }
                                while m.len() % 8 != 0 {
                                    m.push(false);
                                }
                                for b in [k as u16, !(k as u16)] {
                                    for i in 0..16 {
                                        m.push(b >> i & 1 == 1);
                                    }
                                }
                                for b in &d {
                                    for i in 0..8 {
                                        m.push(b >> i & 1 == 1);
                                    }
                                }
                                prog.push((3, k));
                            }
                        }
                    }
                    w.align().map_err(e)?;
                    while m.len() % 8 != 0 {
                        m.push(false);
                    }
                    let out = w.into_inner().data;
                    let want: Vec<u8> = m.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, &b)| a | (b as u8) << i)).collect();
                    if out != want {
                        return Err(format!("wrote {}, want {}; program{}", hex(&out), hex(&want), log));
                    }
                    // read back, possibly truncated, with more behind it
                    let cut = if r.one_in(4) { r.below(out.len() + 1) } else { out.len() };
                    let mut src = out[..cut].to_vec();
                    let trailer = if cut == out.len() { r.bytes(3) } else { vec![] };
                    src.extend_from_slice(&trailer);
                    let mut rd = BitReader::new(Chunky::new(&src, r.next()));
                    let total = src.len() * 8;
                    let mut p = 0;
                    let val = |p: usize, k: usize| (0..k).fold(0u16, |a, i| a | (m[p + i] as u16) << i);
                    for &(kind, k) in &prog {
                        match kind {
                            0 if r.bool() || k > 0 && kind == 0 => {
                                let a = rd.read_bit();
                                if p + 1 > total {
                                    if a.is_ok() { return Err(format!("read past the end; program{}", log)); }
                                    return Ok(true);
                                }
                                if a.as_ref().ok() != Some(&m[p]) {
                                    return Err(format!("read_bit at {} gave {:?}; program{}", p, a, log));
                                }
                                p += 1;
                            }
                            1 => {
                                let a = rd.read_part(k as u8);
                                if p + k > total {
                                    if a.is_ok() { return Err(format!("read past the end; program{}", log)); }
                                    return Ok(true);
                                }
                                if a.as_ref().ok() != Some(&val(p, k)) {
                                    return Err(format!("read_part({}) at {} gave {:?}, want {}; program{}", k, p, a, val(p, k), log));
                                }
                                p += k;
                            }
                            2 | 3 => {
                                if let Err(x) = rd.align() {
                                    return Err(format!("align at {} failed: {:?}; program{}", p, x, log));
                                }
                                p = (p + 7) / 8 * 8;
                                if kind == 3 {
                                    let a = rd.read_length_prefixed();
                                    if p + 32 + 8 * k > total {
                                        if a.is_ok() { return Err(format!("read past the end; program{}", log)); }
                                        return Ok(true);
                                    }
                                    if a.as_ref().ok() != Some(&out[p / 8 + 4..p / 8 + 4 + k].to_vec()) {
                                        return Err(format!("stored block at {} reads back differently; program{}", p, log));
                                    }
                                    p += 32 + 8 * k;
                                }
                            }
                            _ => unreachable!(),
                        }
                    }
                    if cut == out.len() {
                        if let Err(x) = rd.align() {
                            return Err(format!("final align failed: {:?}; program{}", x, log));
                        }
                        let mut c = rd.into_inner();
                        let mut rest = vec![];
                        std::io::Read::read_to_end(&mut c, &mut rest).map_err(|e| e.to_string())?;
                        if rest != trailer {
                            return Err(format!("left {:?} instead of {:?}; program{}", rest, trailer, log));
                        }
                    }
                    // padding that is not zero must be refused
                    let b = some_u16(&mut r) as u8;
                    let k = 1 + r.below(7);
                    let mut rd = BitReader::new(Chunky::new(&[b], 1));
                    for i in 0..k {
                        if rd.read_bit().ok() != Some(b >> i & 1 == 1) {
                            return Err(format!("bit {} of {}", i, b));
                        }
                    }
                    if rd.align().is_ok() != (b >> k == 0) {
                        return Err(format!("align after {} bits of {:#x}", k, b));
                    }
                    Ok(m.len() > 8)
                });
            }
        }
    });
}
