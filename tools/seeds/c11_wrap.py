ID="c11-self-overlap"; PROPERTY="C11"
NEEDS="a match that would overlap itself and stops agreeing exactly one period in, then agrees again"
BREAKS="the byte one whole distance in is not compared, so a longer reference than is true is proposed"
EDITS=[("lib/src/all_refs.rs","        for cur in dist..upcoming_data_len {","        for cur in (dist + 1).max(4)..upcoming_data_len {")]
MAIN='''use librezip::all_refs::AllRefs;
fn main() {
    let w = b"?abcdeabcdeXbcdeabcde";
    for split in 0..w.len() {
        let a = AllRefs::with_sixteen(&w[..split], &w[split..], 65535);
        for pos in 1..w.len() {
            for r in a.at(pos, &[]).into_iter().flatten() {
                for i in 0..r.run() as usize {
                    assert_eq!(w[pos + i], w[pos + i - r.dist as usize], "at {} {:?}", pos, r);
                }
            }
        }
    }
}
'''
