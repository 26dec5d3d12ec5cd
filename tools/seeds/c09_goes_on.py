ID="c09-guess-goes-on"; PROPERTY="C09"
NEEDS="a strategy that guesses several codes at once (three-step), and a reference where the guess begins with a literal"
BREAKS="after an explicit reference the restorer goes on with the rest of the failed guess, so it restores other codes than were traced"
EDITS=[("lib/src/trace.rs","""                Trace::ActuallyLiteral | Trace::Actually(_) => {
                    // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                    break;
                }
                Trace::Correct => {}""","""                Trace::ActuallyLiteral => {
                    // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                    break;
                }
                Trace::Actually(_) | Trace::Correct => {}""")]
MAIN='''use librezip::{all_refs::AllRefs, trace::{restore, trace}, Code, Config, Technique, DataLen, Guesser};
fn main() {
    // ways of following or leaving the guess with a literal, over data with many short matches
    let mut y = 7u32;
    let w: Vec<u8> = (0..1500).map(|_| { y = y.wrapping_mul(1664525).wrapping_add(1013904223); b'a' + (y >> 28) as u8 % 6 }).collect();
    for seed in 1u32..20 {
        let mut x = seed.wrapping_mul(2654435761);
        let refs = AllRefs::with_sixteen(&[], &w, 65535);
        let t = Technique::new(Config::spicy(), &refs);
        let mut s = t.scanner();
        let mut codes = vec![];
        while s.pos < s.data_len() {
            for g in s.codes() {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                if x >> 29 < 3 {
                    // the nearest repeat of three, else a literal
                    let p = s.pos;
                    let near = (1..=p.min(500)).find(|d| p + 3 <= w.len() && (0..3).all(|i| w[p + i] == w[p + i - d]));
                    let c = match near { Some(d) => Code::Reference(librezip::rezip_verif::new_ref(d as u16, 3)), None => Code::Literal(w[p]) };
                    s.feedback(c);
                    codes.push(c);
                    break;
                }
                s.feedback(g);
                codes.push(g);
            }
        }
        let back = restore(&trace(&codes, &t), &t);
        assert_eq!(codes, back, "seed {}", seed);
    }
}
'''
