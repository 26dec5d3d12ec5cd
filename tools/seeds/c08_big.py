ID="c08-extend-65536"; PROPERTY="C08"
NEEDS="one extend by 65536 bytes or more (or a multiple of it plus little) into a window that is not full"
BREAKS="the number of bytes known is counted in 16 bits: the window is filled but claims to hold less"
EDITS=[("lib/src/circles.rs", """        for byte in val {
            self.push(*byte);
        }
""", """        let cap = self.data.len();
        for &byte in val {
            self.data[self.idx] = byte;
            self.idx += 1;
            if self.idx == cap {
                self.idx = 0;
            }
        }
        self.valid_cap = self.valid_cap.saturating_add(val.len() as u16).min(cap as u16);
""")]
MAIN='''use librezip::CircularBuffer;
fn main() {
    for n in [0usize, 1, 9, 10, 11, 65535, 65536, 65540, 131072] {
        let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let mut b = CircularBuffer::with_capacity(10);
        b.extend(&data);
        assert_eq!(b.vec(), data[n - n.min(10)..].to_vec(), "{}", n);
    }
}
'''
