ID="c14-skip-literal"; PROPERTY="C14"
NEEDS="the three-step look-ahead with a match of exactly three here and one of 258 at the next position"
BREAKS="the guess is the 258-byte reference alone, one position too early"
EDITS=[("lib/src/lookahead.rs","            return vec![Code::Literal(first_literal), r.into()];","            return vec![r.into()];")]
MAIN='''use librezip::{all_refs::AllRefs, Code, Config, Technique, DataLen, Guesser};
fn main() {
    let long: Vec<u8> = (0..300u32).map(|i| (i * i / 3 + i / 7) as u8).collect();
    let mut w = b"?".to_vec();
    w.push(b'#');
    w.extend(&long[..2]);
    w.extend(b"..");
    w.extend(&long);
    w.extend(b"--#");
    w.extend(&long);
    w.extend(b"!!");
    let a = AllRefs::with_sixteen(&[], &w, 65535);
    let t = Technique::new(Config::spicy(), &a);
    let mut s = t.scanner();
    while s.pos < s.data_len() {
        let mut out = w[..s.pos].to_vec();
        for g in s.codes() {
            match g {
                Code::Literal(b) => out.push(b),
                Code::Reference(r) => for _ in 0..r.run() { let x = out[out.len() - r.dist as usize]; out.push(x) },
            }
        }
        assert!(w.starts_with(&out), "guess at {}", s.pos);
        s.feedback(Code::Literal(w[s.pos]));
    }
}
'''
