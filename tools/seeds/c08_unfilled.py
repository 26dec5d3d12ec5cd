ID="c08-unfilled"; PROPERTY="C08"
NEEDS="a copy whose distance is beyond what has been pushed but within the capacity"
BREAKS="CircularBuffer::copy accepts a reference into the part of the window that was never filled"
EDITS=[("lib/src/circles.rs","dist > 0 && dist <= self.valid_cap,","dist > 0 && usize::from(dist) <= self.data.len(),")]
MAIN='''use librezip::CircularBuffer;
fn main() {
    let mut b = CircularBuffer::with_capacity(100);
    b.extend(b"abcdef");
    let mut out = Vec::new();
    assert!(b.copy(7, 3, &mut out).is_err());
    assert_eq!(b.vec(), b"abcdef");
    assert!(out.is_empty());
    b.copy(6, 3, &mut out).unwrap();
    assert_eq!(out, b"abc");
}
'''
