ID="c03-run-crosses"; PROPERTY="C03"
NEEDS="a dynamic block without distances whose last run of zero lengths begins in the literal lengths and covers the only distance length too"
BREAKS="a long run that begins in the literal lengths is cut one short of the end, so another code-length symbol is read where the data begin"
EDITS=[("lib/src/huffman.rs", """                run_val = Some(0);
                run_len = reader.read_part(7)? + 11;
""", """                run_val = Some(0);
                run_len = reader.read_part(7)? + 11;
                if i < usize::from(num_lit_len_codes) {
                    run_len = run_len.min(num_lit_len_codes - i as u16 + num_distance_codes - 1);
                }
""")]
MAIN=open(''+__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/dyn.rs.txt').read()+'''
fn main() {
    let mut b = Bits::default();
    b.head(1, 268, 1);
    b.zeros(97); b.one(); b.zeros(138); b.zeros(20); b.one(); b.zeros(12);
    b.word("001"); // a a end
    let blocks: Result<Vec<_>, _> = librezip::parse_deflate(std::io::Cursor::new(b.bytes())).collect();
    let blocks = blocks.unwrap();
    match &blocks[..] {
        [librezip::Block::DynamicHuffman { codes, .. }] => assert_eq!(codes[..], [librezip::Code::Literal(97), librezip::Code::Literal(97)]),
        _ => panic!("{:?}", blocks),
    }
}
'''
