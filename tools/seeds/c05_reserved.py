ID='c05-reserved-distance'
PROPERTY='C05'
NEEDS='distance symbol 30 (spellable with the fixed code)'
BREAKS='the reserved distance symbol 30 is decoded as if 14 extra bits followed'
EDITS=[('lib/src/huffman.rs', '    } else if sym <= 29 {', '    } else if sym <= 30 {')]
MAIN='''use librezip::rezip_verif::*;
fn main() {
    for s in 30u16..32 {
        let mut r = bit::BitReader::new(std::io::Cursor::new(vec![0u8; 4]));
        assert!(huffman::decode_distance(&mut r, s).is_err(), "symbol {}", s);
    }
}
'''
