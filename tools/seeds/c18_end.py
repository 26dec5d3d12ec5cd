ID="c18-read-to-end"; PROPERTY="C18"
NEEDS="read_to_end into a vector that already holds something"
BREAKS="read_to_end is passed down for speed, and the whole vector is hashed instead of what was appended"
EDITS=[("lib/src/filter.rs", """        self.hash.update(&buf[0..len]);
        Ok(len)
    }
}

impl<R: Read> FilterRead<R> {""", """        self.hash.update(&buf[0..len]);
        Ok(len)
    }

    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> Result<usize> {
        let len = self.inner.read_to_end(buf)?;
        self.hash.update(&buf[..]);
        Ok(len)
    }
}

impl<R: Read> FilterRead<R> {""")]
MAIN='''use std::io::Read;
fn main() {
    let data = b"the quick brown fox";
    let mut plain = librezip::filter::FilterRead::new(&data[..]);
    let mut v = vec![];
    let mut one = [0u8; 1];
    while plain.read(&mut one).unwrap() > 0 { v.push(one[0]); }
    assert_eq!(v, data);
    let want = plain.hash();
    for had in ["", "x", "before"] {
        let mut f = librezip::filter::FilterRead::new(&data[..]);
        let mut v = had.as_bytes().to_vec();
        assert_eq!(f.read_to_end(&mut v).unwrap(), data.len());
        assert_eq!(v, [had.as_bytes(), data].concat());
        assert!(f.hash() == want, "after {:?}", had);
    }
}
'''
