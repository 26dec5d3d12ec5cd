ID="c04-pad-whole"; PROPERTY="C04"
NEEDS="a stored block whose three header bits end exactly on a byte boundary"
BREAKS="the padding in front of a stored block is taken as 8 bits instead of none when the reader is aligned already"
EDITS=[("lib/src/parse.rs","            reader.align()?;\n            reader.read_length_prefixed()","            ensure!(reader.skip_padding()?, \"padding bits should always be empty\");\n            reader.read_length_prefixed()"),
("lib/src/bit.rs","    pub fn read_part(&mut self, bits: u8) -> Result<u16, Error> {\n        BitSource::read_part(self, bits)","    /// whether the rest of the current byte is zero\n    pub fn skip_padding(&mut self) -> Result<bool, Error> {\n        let bits = 8 - self.position();\n        Ok(0 == self.read_part(bits)?)\n    }\n\n    pub fn read_part(&mut self, bits: u8) -> Result<u16, Error> {\n        BitSource::read_part(self, bits)")]
MAIN='''use std::io::Read;
fn main() {
    for lits in 0..8 {
        // a fixed block of nine bit literals, then a final stored block of zeros
        let mut bits = vec![false, true, false];
        for _ in 0..lits { for c in "110010000".chars() { bits.push(c == '1') } }
        bits.extend(vec![false; 7]);
        bits.extend(vec![true, false, false]);
        while bits.len() % 8 != 0 { bits.push(false) }
        let mut d: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &b)| a | (b as u8) << i)).collect();
        d.extend(&[0, 0, 0xff, 0xff]);
        d.extend(b"footer");
        let mut c = std::io::Cursor::new(d);
        let n = librezip::parse_deflate(&mut c).map(|b| b.expect("well-formed")).count();
        assert_eq!(n, 2);
        let mut rest = vec![];
        c.read_to_end(&mut rest).unwrap();
        assert_eq!(rest, b"footer");
    }
}
'''
