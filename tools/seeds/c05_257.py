ID='c05-length-257'
PROPERTY='C05'
NEEDS='a match of exactly 257 bytes'
BREAKS='length 257 is encoded with the symbol of 258'
EDITS=[('lib/src/huffman.rs', '        131..=257 => 281 + (length - 131) / 32,\n        258 => 285,', '        131..=256 => 281 + (length - 131) / 32,\n        257..=258 => 285,'), ('lib/src/huffman.rs', '        3..=10 | 258 => None,', '        3..=10 | 257..=258 => None,'), ('lib/src/huffman.rs', '        131..=257 => Some((5, (length - 131) % 32)),', '        131..=256 => Some((5, (length - 131) % 32)),')]
MAIN='''use librezip::rezip_verif::*;
fn main() {
    for len in 3u16..=258 {
        let s = huffman::encode_run_length(len);
        let (_, x) = huffman::extra_run_length(len).unwrap_or((0, 0));
        let mut r = bit::BitReader::new(std::io::Cursor::new(vec![x as u8, 0]));
        assert_eq!(huffman::decode_run_length(&mut r, s).unwrap(), len);
    }
}
'''
