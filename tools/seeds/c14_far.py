ID="c14-lazy-literal"; PROPERTY="C14"
NEEDS="the gzip strategy with the plain picker, a length-3 reference more than 16384 back, and a look-ahead that is aborted for runs this short"
BREAKS="two places: an aborted look-up reports the byte at the scanner instead of the byte asked for, and the strategy starts to use that byte for far length-3 references"
EDITS=[("lib/src/technique.rs", "return (current_literal, None);", "return (self.technique.all_refs.get(self.pos), None);"), ("lib/src/lookahead.rs", """            (_, None) | (_, Some(_)) => {
                ret.push(Code::Reference(curr_ref));
                break;
            }
""", """            (b, None) if curr_ref.run() == 3 && curr_ref.dist > 16384 => {
                // a far three is about as long as what it replaces
                ret.push(Code::Literal(curr_lit));
                ret.push(Code::Literal(b));
                break;
            }
            (_, None) | (_, Some(_)) => {
                ret.push(Code::Reference(curr_ref));
                break;
            }
""")]
MAIN='''use librezip::all_refs::AllRefs;
use librezip::rezip_verif::{lookahead::Lookahead, picker::Picker, wams};
use librezip::Config;
use librezip::{Code, Guesser, Technique};
fn main() {
    let mut pre = b"-abc".to_vec();
    while pre.len() < 20000 { pre.push(b'0' + (pre.len() % 7) as u8); }
    let data = b"abcxyz";
    let c = Config { first_byte_bug: false, lookahead: Lookahead::Gzip, picker: Picker::Longest, wams: wams::CONFIGURATIONS[8] };
    let a = AllRefs::with_sixteen(&pre, data, u16::MAX);
    let t = Technique::new(c, &a);
    let codes = t.scanner().codes();
    let mut out = pre.clone();
    for c in &codes {
        match *c {
            Code::Literal(b) => out.push(b),
            Code::Reference(r) => for _ in 0..r.run() { let b = out[out.len() - usize::from(r.dist)]; out.push(b); }
        }
    }
    assert!(!codes.is_empty() && data.starts_with(&out[pre.len()..]), "{:?}", codes);
}
'''
