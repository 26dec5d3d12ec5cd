ID='c16-name-eof'
PROPERTY='C16'
NEEDS='a gzip header whose file name or comment is cut off before its terminator'
BREAKS='the name is read with read, which reports the end of the input as 0 bytes: reading the header never ends'
EDITS=[('lib/src/gzip.rs','''        from.read_exact(&mut buf)?;
        into.push(buf[0]);
        if 0 == buf[0] {''','''        if 0 == from.read(&mut buf)? {
            continue;
        }
        into.push(buf[0]);
        if 0 == buf[0] {''')]
MAIN='''use std::sync::mpsc::channel;
use std::time::Duration;
fn main() {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let d = [0x1fu8, 0x8b, 8, 8, 0, 0, 0, 0, 0, 3, b'a', b'b'];
        let r = librezip::gzip::discard_header(std::io::Cursor::new(&d[..])).is_err();
        let _ = tx.send(r);
    });
    assert!(rx.recv_timeout(Duration::from_secs(10)).expect("does not end"), "accepted");
}
'''
