ID="c12-seam"; PROPERTY="C12"
NEEDS="history, and a repeat of three bytes that begin in the history and end in the data"
BREAKS="positions whose three bytes straddle the end of the history are never proposed"
EDITS=[("lib/src/back_map.rs","            .enumerate()\n        {","            .enumerate()\n            .filter(|&(pos, _)| pos + 3 <= preroll.len() || pos >= preroll.len())\n        {")]
MAIN='''use librezip::all_refs::AllRefs;
fn main() {
    let w = b"?xyabc.abcd";
    for split in 0..w.len() {
        let a = AllRefs::with_sixteen(&w[..split], &w[split..], 65535);
        let d: Vec<(u16, u16)> = a.at(7, &[]).unwrap().map(|r| (r.dist, r.run())).collect();
        assert_eq!(d, [(4, 3)], "history of {}", split);
    }
}
'''
