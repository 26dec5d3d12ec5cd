ID="c10-farthest"; PROPERTY="C10"
NEEDS="an explicit reference at the largest distance, 32768"
BREAKS="distance 32768 is read as a run of no correct guesses, and the length byte as the start of the next item"
EDITS=[("lib/src/serialise_trace.rs","} else if first <= 32_768 {","} else if first < 32_768 {")]
MAIN='''use librezip::serialise_trace::{read, write};
fn main() {
    // an explicit reference (32768, 10), from bytes by hand: 00 80 07
    let t = read(std::io::Cursor::new(&[0u8, 0, 1, 0x80, 0, 0x80, 7, 5, 0, 9][..])).unwrap();
    let u = read(std::io::Cursor::new(write(&t))).unwrap();
    assert_eq!(t, u);
    assert_eq!(t.len(), 4);
    assert!(matches!(t[2], librezip::Trace::Actually(r) if r.dist == 32768 && r.run() == 10));
}
'''
