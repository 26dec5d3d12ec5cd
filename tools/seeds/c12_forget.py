ID="c12-forgets-hidden"; PROPERTY="C12"
NEEDS="more than sixteen long matches fed back at a level that hides what matches cover, and a later repeat of what the first of them covered"
BREAKS="positions hidden by an earlier long match are proposed again"
EDITS=[("lib/src/technique.rs","        self.obscured.push((old_pos, r.run()))","        if self.obscured.len() >= 16 {\n            self.obscured.remove(0);\n        }\n        self.obscured.push((old_pos, r.run()))")]
MAIN='''use librezip::{all_refs::AllRefs, rezip_verif::new_ref, Code, Config, Looker, Technique};
fn main() {
    // the phrase, then copies of it: each copy hides what is inside it
    let phrase = b"abcdefghijkl";
    let mut w = vec![b'?'];
    w.extend(phrase);
    let n = 20;
    for _ in 0..n { w.extend(phrase); }
    w.extend(b"..cdefgh");
    let mut conf = Config::gzip(1);
    conf.wams.limit_count_of_distances = 100;
    conf.wams.quit_search_above_length = 258;
    let a = AllRefs::with_sixteen(&w[..13], &w[13..], 65535);
    let t = Technique::new(conf, &a);
    let mut s = t.scanner();
    for _ in 0..n {
        s.feedback(Code::Reference(new_ref(12, 12)));
    }
    // only the phrase itself is not hidden at its third letter
    let pos = w.len() - 6;
    let (_, r) = s.best_candidate(pos);
    assert_eq!(r.map(|r| r.dist as usize), Some(pos - 3));
}
'''
