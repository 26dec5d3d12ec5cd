ID="c01-tree-cache"; PROPERTY="C01"
NEEDS="two dynamic blocks written one after the other whose tree descriptions have equally many bits but differ"
BREAKS="the decoded trees of the last block are kept and looked up by the length of their description: the second block is written with the codes of the first"
EDITS=[("lib/src/serialise.rs", """            into.write_vec(trees)?;
            let (length, distance) = huffman::read_codes(&mut trees.iter())?;
            compressed_codes(into, &length, distance.as_ref(), codes)
""", """            into.write_vec(trees)?;
            use std::cell::RefCell;
            thread_local! {
                static LAST: RefCell<Option<(usize, (CodeTree, Option<CodeTree>))>> = RefCell::new(None);
            }
            LAST.with(|last| {
                let mut last = last.borrow_mut();
                let hit = last.as_ref().map(|l| l.0 == trees.len()).unwrap_or(false);
                if !hit {
                    *last = Some((trees.len(), huffman::read_codes(&mut trees.iter())?));
                }
                let (_, (length, distance)) = last.as_ref().unwrap();
                compressed_codes(into, length, distance.as_ref(), codes)
            })
""")]
MAIN='''use librezip::rezip_verif::bit::BitWriter;
'''+open(''+__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/dyn.rs.txt').read()+'''
fn main() {
    let mut b = Bits::default();
    for (last, lit) in [(0, 0x61), (1, 0x62)] {
        b.head(last, 268, 1);
        b.zeros(lit); b.one();
        let rest = 255 - lit;
        b.zeros(rest - 20); b.zeros(20); b.one();
        b.zeros(12);
        b.word("0001"); // three times the literal, end of block
    }
    let d = b.bytes();
    let blocks: Vec<_> = librezip::parse_deflate(std::io::Cursor::new(&d)).collect::<Result<_, _>>().unwrap();
    assert_eq!(blocks.len(), 2);
    let r = std::panic::catch_unwind(|| {
        let mut w = BitWriter::new(vec![]);
        for (i, b) in blocks.iter().enumerate() {
            w.write_bit(i + 1 == blocks.len()).unwrap();
            librezip::compressed_block(&mut w, b).unwrap();
        }
        w.align().unwrap();
        w.into_inner()
    });
    assert_eq!(r.ok(), Some(d));
}
'''
