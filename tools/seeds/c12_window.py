ID="c12-farthest"; PROPERTY="C12"
NEEDS="an eligible position exactly 32768 bytes back"
BREAKS="the position is skipped"
EDITS=[("lib/src/all_refs.rs","pos - off <= 32_768","pos - off < 32_768")]
MAIN='''use librezip::all_refs::AllRefs;
fn main() {
    let mut w = vec![b'?'];
    w.extend(b"abc");
    while w.len() < 32769 { w.push(128 + (w.len() % 100) as u8); }
    w.extend(b"abc!");
    let a = AllRefs::with_sixteen(&w[..100], &w[100..], 65535);
    let d: Vec<(u16, u16)> = a.at(32769, &[]).unwrap().map(|r| (r.dist, r.run())).collect();
    assert_eq!(d, [(32768, 3)]);
}
'''
