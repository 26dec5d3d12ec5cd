ID="c01-wide-extra"; PROPERTY="C01"
NEEDS="a distance with 13 extra bits whose top extra bit alone is set (20481 or 28673)"
BREAKS="the extra bits are written in two halves and the upper one is lost for exactly that value: another distance is written back"
EDITS=[("lib/src/serialise.rs","""            into.write_bits_val(bits, val)?;
        }
    }

    Ok(())
}

#[cfg(test)]""","""            into.write_bits_val(bits.min(12), val)?;
            if bits > 12 {
                into.write_bit(val > 4096)?;
            }
        }
    }

    Ok(())
}

#[cfg(test)]""")]
MAIN='''use librezip::rezip_verif::bit::BitWriter;
fn main() {
    let mut bits: Vec<bool> = vec![];
    let mut num = |n: usize, v: usize| for i in 0..n { bits.push(v >> i & 1 == 1) };
    num(1, 1); num(2, 1);
    for d in [20480usize, 20481, 20482, 24577, 28672, 28673, 28674, 32768] {
        num(7, 0b1000000); // length 3
        let (sym, extra) = if d <= 24576 { (28, d - 16385) } else { (29, d - 24577) };
        for i in (0..5).rev() { num(1, sym >> i & 1); }
        num(13, extra);
    }
    num(7, 0);
    let mut d = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() { if *b { d[i / 8] |= 1 << (i % 8); } }
    let blocks: Vec<_> = librezip::parse_deflate(std::io::Cursor::new(&d)).collect::<Result<_, _>>().unwrap();
    let mut w = BitWriter::new(vec![]);
    for (i, b) in blocks.iter().enumerate() {
        w.write_bit(i + 1 == blocks.len()).unwrap();
        librezip::compressed_block(&mut w, b).unwrap();
    }
    w.align().unwrap();
    assert_eq!(w.into_inner(), d);
}
'''
