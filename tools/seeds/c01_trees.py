ID='c01-aligned-trees'
PROPERTY='C01'
NEEDS='a dynamic block whose tree description starts on a byte boundary, is at least 64 bits long and does not end on one'
BREAKS='a long bit vector is written as whole bytes when the writer is aligned, padding its last byte with zeros'
EDITS=[('lib/src/bit.rs', '    pub fn write_vec(&mut self, vec: &BitVec) -> Result<(), Error> {\n', '    pub fn write_vec(&mut self, vec: &BitVec) -> Result<(), Error> {\n        if self.current.is_empty() && vec.len() >= 64 {\n            // long and aligned: no need to go bit by bit\n            self.inner.write_all(&vec.bytes)?;\n            return Ok(());\n        }\n\n')]
MAIN='''struct O(Vec<bool>);
impl O {
    fn num(&mut self, n: usize, v: usize) { for i in 0..n { self.0.push(v >> i & 1 == 1) } }
    fn word(&mut self, s: &str) { for c in s.chars() { self.0.push(c == '1') } }
    fn bytes(&self) -> Vec<u8> { self.0.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &b)| a | (b as u8) << i)).collect() }
}
/// a final dynamic block whose literal code has two words: 'a' and the end
fn head(cl: &[(usize, usize)]) -> O {
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let mut o = O(vec![]);
    o.num(1, 1); o.num(2, 2);
    o.num(5, 0); o.num(5, 0); o.num(4, 14);
    for i in 0..18 { o.num(3, cl.iter().find(|c| c.0 == ORDER[i]).map_or(0, |c| c.1)); }
    o
}
fn main() {
    // five literals of the fixed code's nine bit words move the dynamic block's trees to a byte boundary
    let mut b = O(vec![]);
    b.num(1, 0); b.num(2, 1);
    for n in 0..8 {
        let mut o = O(b.0.clone());
        for _ in 0..n { o.word("110010000"); }
        o.word("0000000");
        let mut t = head(&[(18, 1), (1, 2), (17, 3), (0, 3)]);
        t.word("0"); t.num(7, 97 - 11); t.word("10");
        t.word("0"); t.num(7, 127); t.word("0"); t.num(7, 20 - 11); t.word("10");
        t.word("110"); t.word("0"); t.word("0"); t.word("1");
        o.0.extend(t.0);
        let bytes = o.bytes();
        let mut it = librezip::parse_deflate(std::io::Cursor::new(bytes.clone())).map(|x| x.unwrap());
        let v: Vec<_> = it.by_ref().collect();
        let mut w = librezip::rezip_verif::bit::BitWriter::new(vec![]);
        for (i, x) in v.iter().enumerate() {
            w.write_bit(i + 1 == v.len()).unwrap();
            librezip::compressed_block(&mut w, x).unwrap();
        }
        w.align().unwrap();
        assert_eq!(w.into_inner(), bytes);
    }
}
'''
