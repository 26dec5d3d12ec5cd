ID="c13-far-three"; PROPERTY="C13"
NEEDS="a match of three at a distance of exactly 4096"
BREAKS="the match is dropped, although it is not more than 4096 away"
EDITS=[("lib/src/picker.rs","r.dist <= 4096","r.dist < 4096")]
MAIN='''use librezip::{all_refs::AllRefs, Config, Technique, Looker};
fn main() {
    let mut w = b"?abc".to_vec();
    while w.len() < 4097 { w.push(128 + (w.len() % 100) as u8); }
    w.extend(b"abc!");
    let a = AllRefs::with_sixteen(&[], &w, 65535);
    let t = Technique::new(Config::gzip(9), &a);
    let (_, r) = t.scanner().best_candidate(4097);
    assert_eq!(r.map(|r| (r.dist, r.run())), Some((4096, 3)));
    w.insert(1000, 7);
    let a = AllRefs::with_sixteen(&[], &w, 65535);
    let t = Technique::new(Config::gzip(9), &a);
    assert_eq!(t.scanner().best_candidate(4098).1, None);
}
'''
