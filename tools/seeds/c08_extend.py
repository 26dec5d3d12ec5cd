ID="c08-extend-whole"; PROPERTY="C08"
NEEDS="one extend() of at least the capacity while the write index is not at the start"
BREAKS="extend() fills the window in one go when the data is larger than it, without resetting the index: the window is rotated"
EDITS=[("lib/src/circles.rs","""        // TODO: optimise

        for byte in val {""","""        if val.len() >= self.data.len() {
            let cap = self.data.len();
            self.data.copy_from_slice(&val[val.len() - cap..]);
            self.valid_cap = cap as u16;
            return;
        }

        for byte in val {""")]
MAIN='''use librezip::CircularBuffer;
fn main() {
    let mut b = CircularBuffer::with_capacity(10);
    b.extend(b"0123456789ab");
    assert_eq!(b.vec(), b"23456789ab");
    b.extend(b"xyz");
    b.extend(b"ABCDEFGHIJKL");
    assert_eq!(b.vec(), b"CDEFGHIJKL");
    assert_eq!(b.get_at_dist(1), b'L');
}
'''
