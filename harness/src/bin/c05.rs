use harness::deflate::*;
use harness::*;
use librezip::rezip_verif::bit::BitReader;
use librezip::rezip_verif::huffman::*;

fn reader(v: usize) -> BitReader<std::io::Cursor<Vec<u8>>> {
    BitReader::new(std::io::Cursor::new(vec![v as u8, (v >> 8) as u8, 0x5a, 0x5a]))
}
fn one(f: impl FnOnce() -> Result<(), String>) -> Result<bool, String> {
    f().map(|_| true)
}

fn main() {
    run("C05", |cx| {
        cx.rule("all lengths 3..=258, all distances 1..=32768, all symbols up to 600 with all extra-bit values, against the tables of RFC 1951 3.2.5 (exhaustive, then done); non-trivial: every case");
        for len in 3u16..=258 {
            cx.case(format!("length {}", len), || one(|| {
                let (s, n, v) = len_sym(len as u32);
                if encode_run_length(len) as usize != s {
                    return Err(format!("symbol {}, want {}", encode_run_length(len), s));
                }
                let want = if n == 0 { None } else { Some((n as u8, v as u16)) };
                if extra_run_length(len) != want {
                    return Err(format!("extra {:?}, want {:?}", extra_run_length(len), want));
                }
                let got = decode_run_length(&mut reader(v), s as u16).map_err(|e| format!("{:#}", e))?;
                if got != len { Err(format!("decodes to {}", got)) } else { Ok(()) }
            }));
        }
        for dist in 1u16..=32768 {
            cx.case(format!("distance {}", dist), || one(|| {
                let (s, n, v) = dist_sym(dist as u32);
                let got = encode_distance(dist);
                if got != Some((s as u8, n as u8, v as u16)) {
                    return Err(format!("{:?}, want {:?}", got, (s, n, v)));
                }
                let got = decode_distance(&mut reader(v), s as u16).map_err(|e| format!("{:#}", e))?;
                if got != dist { Err(format!("decodes to {}", got)) } else { Ok(()) }
            }));
        }
        for s in 257u16..600 {
            cx.case(format!("length symbol {}", s), || one(|| {
                let ok = s <= 285;
                let e = if ok { LEN_EXTRA[s as usize - 257] } else { 0 };
                for v in 0..1usize << e {
                    let mut r = reader(v);
                    match (decode_run_length(&mut r, s), ok) {
                        (Ok(l), true) => {
                            if l as u32 != LEN_BASE[s as usize - 257] + v as u32 {
                                return Err(format!("extra {} gives {}", v, l));
                            }
                            if r.read_part(8 - e as u8).map_err(|e| e.to_string())? != (v as u16 >> e) {
                                return Err("reads other than its extra bits".into());
                            }
                        }
                        (Err(_), false) => {}
                        (Ok(l), false) => return Err(format!("accepted as {}", l)),
                        (Err(e), true) => return Err(format!("refused: {:#}", e)),
                    }
                }
                Ok(())
            }));
        }
        for s in 0u16..600 {
            cx.case(format!("distance symbol {}", s), || one(|| {
                let ok = s <= 29;
                let e = if ok { DIST_EXTRA[s as usize] } else { 0 };
                for v in 0..1usize << e {
                    match (decode_distance(&mut reader(v), s), ok) {
                        (Ok(d), true) => {
                            if d as u32 != DIST_BASE[s as usize] + v as u32 {
                                return Err(format!("extra {} gives {}", v, d));
                            }
                        }
                        (Err(_), false) => {}
                        (Ok(d), false) => return Err(format!("accepted as {}", d)),
                        (Err(e), true) => return Err(format!("refused: {:#}", e)),
                    }
                }
                Ok(())
            }));
        }
    });
}
