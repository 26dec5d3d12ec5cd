ID='c16-deep-name'
PROPERTY='C16'
NEEDS='a gzip header whose name or comment is some hundred thousand bytes long'
BREAKS='the name is read by a function calling itself for every byte: a long one overflows the stack'
EDITS=[('lib/src/gzip.rs','''    loop {
        let mut buf = [0u8; 1];
        from.read_exact(&mut buf)?;
        into.push(buf[0]);
        if 0 == buf[0] {
            return Ok(());
        }
    }
}
''','''    rest_of_string(&mut from, into).map(|_len| ())
}

/// Gives the length of what was read.
fn rest_of_string<R: Read>(from: &mut R, into: &mut Vec<u8>) -> Result<usize, Error> {
    let mut buf = [0u8; 1];
    from.read_exact(&mut buf)?;
    into.push(buf[0]);
    Ok(match buf[0] {
        0 => 1,
        _ => 1 + rest_of_string(from, into)?,
    })
}
''')]
MAIN='''fn main() {
    let mut d = vec![0x1fu8, 0x8b, 8, 8, 0, 0, 0, 0, 0, 3];
    d.extend(vec![b'a'; 400_000]);
    d.push(0);
    let h = librezip::gzip::discard_header(std::io::Cursor::new(&d[..])).expect("a fine header");
    assert!(h == d);
}
'''
