ID="c02-stored-window"; PROPERTY="C02"
NEEDS="a stored block longer than the window followed by a block that refers back into it"
BREAKS="of a long stored block the first, not the last, window-full is kept as history"
EDITS=[("lib/src/serialise.rs","            dictionary.extend(data);\n","            // more than the window holds is of no use\n            let keep = usize::from(dictionary.capacity()).min(data.len());\n            dictionary.extend(&data[..keep]);\n")]
MAIN='''use librezip::*;
fn main() {
    let data: Vec<u8> = (0..40000u32).map(|i| (i % 251) as u8).collect();
    let mut d = CircularBuffer::with_capacity(32768);
    let mut out = vec![];
    decompressed_block(&mut out, &mut d, &Block::Uncompressed(data.clone())).unwrap();
    decompressed_block(&mut out, &mut d, &Block::FixedHuffman(vec![Code::Reference(rezip_verif::new_ref(1000, 20))])).unwrap();
    assert!(out[40000..] == data[39000..39020]);
}
'''
