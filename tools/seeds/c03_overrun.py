ID='c03-zero-overrun'
PROPERTY='C03'
NEEDS='a dynamic block whose code length list ends in a run of zeros that is too long'
BREAKS='a run of zero lengths reaching past the announced number of codes is accepted instead of being an error'
EDITS=[('lib/src/huffman.rs', 'ensure!(run_len == 0, "run exceeds number of codes");', 'ensure!(\n        run_len == 0 || run_val == Some(0),\n        "run exceeds number of codes"\n    );')]
MAIN='''struct O(Vec<bool>);
impl O {
    fn num(&mut self, n: usize, v: usize) { for i in 0..n { self.0.push(v >> i & 1 == 1) } }
    fn word(&mut self, s: &str) { for c in s.chars() { self.0.push(c == '1') } }
    fn bytes(&self) -> Vec<u8> { self.0.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &b)| a | (b as u8) << i)).collect() }
}
/// a final dynamic block whose literal code has two words: 'a' and the end
fn head(cl: &[(usize, usize)]) -> O {
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let mut o = O(vec![]);
    o.num(1, 1); o.num(2, 2);
    o.num(5, 0); o.num(5, 0); o.num(4, 14);
    for i in 0..18 { o.num(3, cl.iter().find(|c| c.0 == ORDER[i]).map_or(0, |c| c.1)); }
    o
}
fn main() {
    let mk = |over: bool| {
        let mut o = head(&[(18, 1), (1, 2), (17, 3), (0, 3)]);
        // canonical: 18 = 0, 1 = 10, 0 = 110, 17 = 111
        o.word("0"); o.num(7, 97 - 11); o.word("10");
        o.word("0"); o.num(7, 127); o.word("0"); o.num(7, 20 - 11); o.word("10");
        if over { o.word("111"); o.num(3, 2); } else { o.word("110"); }
        o.word("0"); o.word("1");
        o.bytes()
    };
    let good: Vec<_> = librezip::parse_deflate(std::io::Cursor::new(mk(false))).collect();
    assert!(good.len() == 1 && good[0].is_ok());
    assert!(librezip::parse_deflate(std::io::Cursor::new(mk(true))).next().unwrap().is_err(), "accepted");
}
'''
