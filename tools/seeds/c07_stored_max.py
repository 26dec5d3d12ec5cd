ID="c07-stored-max"; PROPERTY="C07"
NEEDS="a stored block of exactly 65535 bytes"
BREAKS="write_length_prefixed refuses the longest length its 16-bit field can carry"
EDITS=[("lib/src/bit.rs","data.len() <= usize::from(std::u16::MAX),","data.len() < usize::from(std::u16::MAX),")]
MAIN='''use librezip::rezip_verif::bit::*;
fn main() {
    let mut w = BitWriter::new(Vec::new());
    let d = vec![7u8; 65535];
    w.write_length_prefixed(&d).unwrap();
    let out = w.into_inner();
    let mut r = BitReader::new(std::io::Cursor::new(out));
    assert_eq!(r.read_length_prefixed().unwrap(), d);
}
'''
