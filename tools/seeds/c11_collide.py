ID="c11-hash-half"; PROPERTY="C11"
NEEDS="two positions with the same first byte whose other two bytes differ but hash alike, such as aBc and aCC"
BREAKS="a reference is proposed whose second and third bytes differ from the data"
EDITS=[("lib/src/all_refs.rs","""                self.get(off) == key.b0
                    && self.get(off + 1) == key.b1
                    && self.get(off + 2) == key.b2""","""                self.get(off) == key.b0""")]
MAIN='''use librezip::all_refs::AllRefs;
fn main() {
    let w = b"?aBcd-aCCd-aBcd-aBc";
    let a = AllRefs::with_sixteen(&[], w, 65535);
    for pos in 0..w.len() {
        for r in a.at(pos, &[]).into_iter().flatten() {
            for i in 0..r.run() as usize {
                assert_eq!(w[pos + i], w[pos + i - r.dist as usize], "at {} {:?}", pos, r);
            }
        }
    }
}
'''
