ID="c18-short-write"; PROPERTY="C18"
NEEDS="an underlying writer that accepts only part of the buffer"
BREAKS="the hashing writer hashes the whole buffer although only part was accepted"
EDITS=[("lib/src/filter.rs","let len = self.inner.write(buf)?;\n        self.hash.update(&buf[0..len]);","let len = self.inner.write(buf)?;\n        self.hash.update(buf);")]
MAIN='''use std::io::Write;
struct Half(Vec<u8>);
impl Write for Half {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = (b.len() + 1) / 2;
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut a = librezip::filter::FilterWrite::new(Half(vec![]));
    a.write_all(b"hello world, hello").unwrap();
    let mut b = librezip::filter::FilterWrite::new(Vec::new());
    b.write_all(b"hello world, hello").unwrap();
    assert_eq!(a.hash(), b.hash());
}
'''
