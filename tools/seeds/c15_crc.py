ID="c15-crc-first"; PROPERTY="C15"
NEEDS="a header with both a name (or comment) and the header CRC"
BREAKS="the header CRC is read before the name: the returned header is two bytes short"
EDITS=[("lib/src/gzip.rs","""        read_null_terminated(&mut from, &mut whole_thing)?;
    }

    if has_bit(flags, 1) {
        // CRC
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
    }
""","""        read_null_terminated(&mut from, &mut whole_thing)?;
    }
"""),("lib/src/gzip.rs","""    if has_bit(flags, 3) {
        // fname""","""    if has_bit(flags, 1) {
        // CRC
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
    }

    if has_bit(flags, 3) {
        // fname""")]
MAIN='''use std::io::Read;
fn main() {
    let mut d = vec![0x1f, 0x8b, 8, 2 | 8, 0, 0, 0, 0, 0, 3];
    d.extend(b"name\\0");
    d.extend(&[0x12, 0x34]);
    let n = d.len();
    d.extend(b"rest");
    let mut c = std::io::Cursor::new(d.clone());
    let h = librezip::gzip::discard_header(&mut c).unwrap();
    assert_eq!(h, &d[..n]);
    let mut rest = vec![];
    c.read_to_end(&mut rest).unwrap();
    assert_eq!(rest, b"rest");
}
'''
