ID="c15-extra-short"; PROPERTY="C15"
NEEDS="input that ends within the extra field, without name, comment or checksum announced"
BREAKS="the extra field is read up to its length with read_to_end, which does not mind the end of the input: a truncated header is accepted"
EDITS=[("lib/src/gzip.rs", "        let mut extra_field = vec![0u8; extra_field_length];\n        from.read_exact(&mut extra_field)?;\n", "        let mut extra_field = Vec::new();\n        (&mut from).take(extra_field_length as u64).read_to_end(&mut extra_field)?;\n")]
MAIN='''fn main() {
    let mut h = vec![0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 0, 3, 10, 0];
    h.extend([1u8; 10]);
    for n in 0..h.len() {
        assert!(librezip::gzip::discard_header(std::io::Cursor::new(&h[..n])).is_err(), "{} bytes", n);
    }
    let mut more = h.clone();
    more.extend([7u8; 5]);
    assert_eq!(librezip::gzip::discard_header(std::io::Cursor::new(&more)).unwrap(), h);
}
'''
