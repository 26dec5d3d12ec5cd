ID='c03-copy-previous'
PROPERTY='C03'
NEEDS='repeat code 16 directly behind a zero run (17 or 18), after some explicit length'
BREAKS='code 16 repeats the last explicitly given length instead of the previous length, which is zero after 17 or 18'
EDITS=[('lib/src/huffman.rs', '    let mut run_len = 0;\n', '    let mut run_len = 0;\n    let mut previous = None;\n'), ('lib/src/huffman.rs', '                run_val = Some(sym as u8);\n', '                run_val = Some(sym as u8);\n                previous = run_val;\n'), ('lib/src/huffman.rs', '                ensure!(run_val.is_some(), "no value to copy");\n', '                ensure!(run_val.is_some(), "no value to copy");\n                run_val = previous.or(run_val);\n')]
MAIN='''struct O(Vec<bool>);
impl O {
    fn num(&mut self, n: usize, v: usize) { for i in 0..n { self.0.push(v >> i & 1 == 1) } }
    fn word(&mut self, s: &str) { for c in s.chars() { self.0.push(c == '1') } }
    fn bytes(&self) -> Vec<u8> { self.0.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &b)| a | (b as u8) << i)).collect() }
}
/// a final dynamic block whose literal code has two words: 'a' and the end
fn head(cl: &[(usize, usize)]) -> O {
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let mut o = O(vec![]);
    o.num(1, 1); o.num(2, 2);
    o.num(5, 0); o.num(5, 0); o.num(4, 14);
    for i in 0..18 { o.num(3, cl.iter().find(|c| c.0 == ORDER[i]).map_or(0, |c| c.1)); }
    o
}
fn main() {
    let mut o = head(&[(18, 2), (1, 2), (16, 2), (0, 2)]);
    // canonical: 0 = 00, 1 = 01, 16 = 10, 18 = 11
    for i in 0..97 - 14 { let _ = i; o.word("00"); }
    o.word("11"); o.num(7, 0); o.word("10"); o.num(2, 0);
    o.word("01");
    // 158 zeros: 18 after the explicit 1, then 16 must give zeros
    o.word("11"); o.num(7, 127); o.word("11"); o.num(7, 3); o.word("10"); o.num(2, 3);
    o.word("01");
    o.word("00");
    o.word("0"); o.word("1");
    let b = librezip::parse_deflate(std::io::Cursor::new(o.bytes())).next().unwrap();
    match b.expect("a well-formed block") {
        librezip::Block::DynamicHuffman { codes, .. } => assert_eq!(codes, vec![librezip::Code::Literal(b'a')]),
        _ => panic!(),
    }
}
'''
