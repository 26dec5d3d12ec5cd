ID="c14-second-lazy"; PROPERTY="C14"
NEEDS="the gzip look-ahead putting off a match twice in a row"
BREAKS="the second literal of the guess is the first one again, not the byte of the data"
EDITS=[("lib/src/lookahead.rs","            (b, Some(new)) if new.run() > curr_ref.run() => {\n                ret.push(Code::Literal(curr_lit));\n                curr_lit = b;","            (b, Some(new)) if new.run() > curr_ref.run() => {\n                ret.push(Code::Literal(curr_lit));\n                curr_lit = if ret.is_empty() { b } else { curr_lit };")]
MAIN='''use librezip::{all_refs::AllRefs, rezip_verif::lookahead::Lookahead, Code, Config, Technique, DataLen, Guesser};
fn main() {
    let w = b"?abc.bcde,cdefgh-abcdefghi";
    let a = AllRefs::with_sixteen(&[], w, 65535);
    let mut c = Config::gzip(9);
    c.lookahead = Lookahead::Gzip;
    c.wams.lookahead = None;
    let t = Technique::new(c, &a);
    let mut s = t.scanner();
    while s.pos < s.data_len() {
        let mut out = w[..s.pos].to_vec();
        for g in s.codes() {
            match g {
                Code::Literal(b) => out.push(b),
                Code::Reference(r) => for _ in 0..r.run() { let x = out[out.len() - r.dist as usize]; out.push(x) },
            }
        }
        assert!(w.starts_with(&out), "guess at {}", s.pos);
        s.feedback(Code::Literal(w[s.pos]));
    }
}
'''
