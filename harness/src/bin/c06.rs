use harness::deflate::*;
use harness::*;
use librezip::rezip_verif::bit::BitReader;
use librezip::rezip_verif::code_tree::CodeTree;

fn lens(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) { 0 => r.range(0, 5), 1 => r.range(280, 288), 2 => 19, 3 => r.range(2, 32), _ => r.range(2, 288) };
    if r.one_in(10) {
        // a complete code, as deep as it is long
        let k = *r.pick(&[2usize, 7, 14, 15]);
        let mut l: Vec<u8> = (1..=k as u8).collect();
        l.push(k as u8);
        for i in 0..l.len() {
            let j = r.below(l.len());
            l.swap(i, j);
        }
        return l;
    }
    if n < 2 || r.one_in(8) {
        let m = if r.bool() { 4 } else { 16 };
        return (0..n).map(|_| r.below(m) as u8).collect();
    }
    let k = if r.bool() { n } else { r.range(2, n) };
    let mut used: Vec<usize> = (0..n).collect();
    while used.len() > k {
        let i = r.below(used.len());
        used.remove(i);
    }
    let most = if n <= 128 && r.bool() { 7 } else { 15 };
    let mut l = lens_for(r, n, &used, most);
    match r.below(6) {
        0 => {
            let i = r.below(n);
            l[i] = r.below(16) as u8;
        }
        1 => {
            let i = r.below(n);
            let j = r.below(n);
            l.swap(i, j);
        }
        _ => {}
    }
    l
}

fn main() {
    run("C06", |cx| {
        cx.rule("random length lists up to 288 symbols, complete, damaged or noise, against the counting algorithm of RFC 1951 3.2.2: construction, the whole encoding table, decoding of random bits; non-trivial: a complete code of at least three symbols");
        while cx.more() {
            let mut r = Rng(cx.rng.next());
            let l = lens(&mut r);
            let bits = r.bytes(64);
            cx.case(format!("{:?} decoding {}", l, hex(&bits)), || {
                let want = Code::new(&l);
                let t = match (CodeTree::new(&l), want.is_some()) {
                    (Err(_), false) => return Ok(false),
                    (Err(e), true) => return Err(format!("refused: {:#}", e)),
                    (Ok(_), false) => return Err("accepted".into()),
                    (Ok(t), true) => t,
                };
                let want = want.unwrap();
                let inv = t.invert();
                if inv.len() < l.len() {
                    return Err(format!("table of {}", inv.len()));
                }
                for s in 0..inv.len() {
                    let got = inv[s].as_ref().map(|v| v.iter().collect::<Vec<bool>>());
                    if got != want.word(s) {
                        return Err(format!("symbol {}: {:?}, want {:?}", s, got, want.word(s)));
                    }
                }
                let mut a = Bits { data: &bits, pos: 0 };
                let mut b = BitReader::new(std::io::Cursor::new(bits.clone()));
                loop {
                    match (want.decode(&mut a), t.decode_symbol(&mut b)) {
                        (Ok(x), Ok(y)) if x == y as usize => {}
                        (Err(_), Err(_)) => break,
                        (x, y) => return Err(format!("before bit {}: {:?}, want {:?}", a.pos, y.map_err(|e| e.to_string()), x)),
                    }
                }
                Ok(l.iter().filter(|&&x| x > 0).count() > 2)
            });
        }
    });
}
