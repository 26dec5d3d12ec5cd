ID='c01-empty-dynamic'
PROPERTY='C01'
NEEDS='a dynamic block without any codes before the end-of-block symbol'
BREAKS='a dynamic block with nothing in it is written back as an empty fixed block, without its trees'
EDITS=[('lib/src/serialise.rs','''        FixedHuffman(ref codes) => {
            into.write_bits_val(2, 1)?;''','''        DynamicHuffman { ref codes, .. } if codes.is_empty() => {
            // nothing is coded with these trees: leave them out
            into.write_bits_val(2, 1)?;
            compressed_codes(into, &huffman::FIXED_LENGTH_TREE, None, codes)
        }
        FixedHuffman(ref codes) => {
            into.write_bits_val(2, 1)?;''')]
MAIN='''use librezip::rezip_verif::bit::BitWriter;
struct O(Vec<bool>);
impl O {
    fn num(&mut self, n: usize, v: usize) { for i in 0..n { self.0.push(v >> i & 1 == 1) } }
    fn word(&mut self, s: &str) { for c in s.chars() { self.0.push(c == '1') } }
    fn bytes(&self) -> Vec<u8> { self.0.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &b)| a | (b as u8) << i)).collect() }
}
fn main() {
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let cl = [(18usize, 1usize), (1, 2), (17, 3), (0, 3)];
    let mut o = O(vec![]);
    o.num(1, 1); o.num(2, 2);
    o.num(5, 0); o.num(5, 0); o.num(4, 14);
    for i in 0..18 { o.num(3, cl.iter().find(|c| c.0 == ORDER[i]).map_or(0, |c| c.1)); }
    // words: 18 = 0, 1 = 10, 0 = 110, 17 = 111; lengths: 97 zeros, 1, 158 zeros, 1, no distances
    o.word("0"); o.num(7, 97 - 11); o.word("10");
    o.word("0"); o.num(7, 127); o.word("0"); o.num(7, 20 - 11); o.word("10");
    o.word("110");
    o.word("1");
    let data = o.bytes();
    let block = librezip::parse_deflate(std::io::Cursor::new(&data)).next().unwrap().unwrap();
    let mut w = BitWriter::new(std::io::Cursor::new(vec![]));
    w.write_bit(true).unwrap();
    librezip::compressed_block(&mut w, &block).unwrap();
    w.align().unwrap();
    assert_eq!(w.into_inner().into_inner(), data);
}
'''
