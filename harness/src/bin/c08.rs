use harness::*;
use librezip::CircularBuffer;

fn main() {
    run("C08", |cx| {
        cx.rule("random capacities (1, 2, small, 32768, 65535) and histories of push/extend/copy against the plain list of all bytes; non-trivial: the window wrapped");
        while cx.more() {
            let seed = cx.rng.next();
            cx.case(format!("seed {}", seed), || {
                let mut r = Rng(seed);
                let cap = match r.below(8) {
                    0 => 1,
                    1 => 2,
                    2 => 32768,
                    3 => 65535,
                    4 => r.range(65500, 65535),
                    5 => r.skewed(65534) + 1,
                    _ => r.range(1, 40),
                };
                let mut b = CircularBuffer::with_capacity(cap as u16);
                let mut m: Vec<u8> = vec![];
                let mut log = format!("capacity {}", cap);
                if b.capacity() as usize != cap {
                    return Err(format!("capacity() is {}", b.capacity()));
                }
                let mut tick = 0u8;
                for _ in 0..r.range(1, 25) {
                    let have = m.len().min(cap);
                    match r.below(4) {
                        0 => {
                            tick = tick.wrapping_add(37);
                            b.push(tick);
                            m.push(tick);
                            log.push_str(&format!(" push {}", tick));
                        }
                        1 => {
                            let k = if r.one_in(4) { r.skewed(cap * 2 + 3) } else if r.one_in(6) && cap > 1000 { cap - r.below(3) } else if r.one_in(6) { cap.saturating_sub(have) } else if r.one_in(4) { let u = r.skewed(300); (2 * cap - m.len() % cap).saturating_sub(u) % (2 * cap) } else { r.skewed(9) };
                            let d = r.bytes(k);
                            b.extend(&d);
                            m.extend_from_slice(&d);
                            log.push_str(&format!(" extend {}", k));
                        }
                        _ => {
                            let dist = match r.below(9) { 0 => 0, 1 | 6 => have, 2 => have + 1, 3 => r.below(65536), 7 => have.saturating_sub(r.below(4)), 8 => r.skewed(cap + 1), _ => r.range(1, have.max(1)) }.min(65535);
                            let len = match r.below(9) { 0 => 0, 1 => r.skewed(65535), 2 => cap.min(65535), 6 => *r.pick(&[1, 2, 3, 255, 256, 257, 258, 259]), 7 => (dist + r.below(3)).min(65535), 8 => dist.saturating_sub(r.below(3)), _ => r.below(300) };
                            log.push_str(&format!(" copy {},{}", dist, len));
                            let mut w = ChunkyW::new(r.next());
                            let res = b.copy(dist as u16, len as u16, &mut w);
                            if dist == 0 || dist > have {
                                if res.is_ok() {
                                    return Err(format!("accepted a copy from {} with {} bytes of history; {}", dist, have, log));
                                }
                                if !w.data.is_empty() {
                                    return Err(format!("a refused copy wrote {} bytes; {}", w.data.len(), log));
                                }
                            } else {
                                if let Err(e) = res {
                                    return Err(format!("refused a copy: {:?}; {}", e, log));
                                }
                                let at = m.len();
                                for _ in 0..len {
                                    m.push(m[m.len() - dist]);
                                }
                                if w.data != m[at..] {
                                    return Err(format!("copied {}, want {}; {}", hex(&w.data), hex(&m[at..]), log));
                                }
                            }
                        }
                    }
                    let have = m.len().min(cap);
                    if b.len() as usize != have {
                        return Err(format!("len() is {}, want {}; {}", b.len(), have, log));
                    }
                    if b.vec() != m[m.len() - have..] {
                        return Err(format!("vec() is {}, want {}; {}", hex(&b.vec()), hex(&m[m.len() - have..]), log));
                    }
                    for d in (1..=have.min(50)).chain(have.saturating_sub(3).max(1)..=have) {
                        if b.get_at_dist(d as u16) != m[m.len() - d] {
                            return Err(format!("get_at_dist({}) is {}, want {}; {}", d, b.get_at_dist(d as u16), m[m.len() - d], log));
                        }
                    }
                }
                Ok(m.len() > cap)
            });
        }
    });
}
