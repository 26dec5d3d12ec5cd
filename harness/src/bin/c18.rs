use harness::*;
use librezip::filter::{FilterRead, FilterWrite};
use sha2::{Digest, Sha512};
use std::cell::RefCell;
use std::io::{IoSlice, IoSliceMut, Read, Write};
use std::rc::Rc;

/// records every call and its result
struct Spy {
    inner: Chunky,
    log: Vec<(usize, Result<Vec<u8>, String>)>,
}
impl Read for Spy {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let r = self.inner.read(buf);
        // scribble over the part that was not read: it must not be hashed
        if let Ok(n) = r {
            for b in &mut buf[n..] {
                *b = 0xEE;
            }
        }
        self.log.push((buf.len(), r.as_ref().map(|&n| buf[..n].to_vec()).map_err(|e| e.to_string())));
        r
    }
}
struct SpyW {
    inner: ChunkyW,
    log: Vec<(Vec<u8>, Result<usize, String>)>,
    flushes: usize,
}
impl Write for SpyW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let r = self.inner.write(buf);
        self.log.push((buf.to_vec(), r.as_ref().map(|&n| n).map_err(|e| e.to_string())));
        r
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushes += 1;
        if self.flushes % 3 == 0 { Err(std::io::Error::new(std::io::ErrorKind::Other, "flush")) } else { Ok(()) }
    }
}

/// a stream that keeps what passed through it where it can be seen from outside; it has its own vectored calls
struct Tap<T> {
    inner: T,
    passed: Rc<RefCell<Vec<u8>>>,
    vectored: bool,
}
impl<T: Read> Read for Tap<T> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.inner.read(buf)?;
        self.passed.borrow_mut().extend_from_slice(&buf[..n]);
        for b in &mut buf[n..] {
            *b = 0xEE;
        }
        Ok(n)
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> std::io::Result<usize> {
        let mut all = vec![0u8; if self.vectored { bufs.iter().map(|b| b.len()).sum() } else { bufs.iter().map(|b| b.len()).find(|&l| l > 0).unwrap_or(0) }];
        let n = self.read(&mut all)?;
        let mut at = 0;
        for b in bufs {
            let k = b.len().min(n - at);
            b[..k].copy_from_slice(&all[at..at + k]);
            at += k;
        }
        Ok(n)
    }
}
impl<T: Write> Write for Tap<T> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.inner.write(buf)?;
        self.passed.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
        if self.vectored {
            let all: Vec<u8> = bufs.iter().flat_map(|b| b.to_vec()).collect();
            self.write(&all)
        } else {
            let first = bufs.iter().find(|b| !b.is_empty()).map(|b| b.to_vec()).unwrap_or_default();
            self.write(&first)
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
fn chunks(r: &mut Rng, total: usize) -> Vec<usize> {
    let mut left = total;
    let mut v = vec![];
    while left > 0 && v.len() < 5 {
        let k = r.range(0, left);
        v.push(k);
        left -= k;
    }
    v
}

/// every way of calling a reader or a writer that std offers on top of the one required method
fn all_methods(seed: u64) -> Result<bool, String> {
    let mut r = Rng(seed);
    let n = r.skewed(3000);
    let data = if r.bool() { r.bytes(n) } else { (0..n).map(|_| b'a' + r.below(26) as u8).collect() };
    let mut src = Chunky::new(&data, r.next());
    if r.one_in(3) {
        src.fail_at = Some(r.below(n + 1));
    }
    let passed = Rc::new(RefCell::new(vec![]));
    let mut f = FilterRead::new(Tap { inner: src, passed: passed.clone(), vectored: r.bool() });
    let mut story = String::new();
    for _ in 0..r.range(1, 8) {
        let before = passed.borrow().len();
        let want = r.skewed(400);
        let op = r.below(6);
        let mut buf: Vec<u8> = vec![];
        // Some(n): the n bytes handed over must be the bytes that passed during the call
        let (name, res): (&str, Option<usize>) = match op {
            0 => { buf = vec![0; want]; ("read", f.read(&mut buf).ok()) }
            1 => { buf = vec![0; want]; ("read_exact", f.read_exact(&mut buf).ok().map(|_| want)) }
            2 => {
                let k = r.skewed(60);
                let had = r.bytes(k);
                buf = had.clone();
                let x = f.read_to_end(&mut buf).ok();
                if buf.len() < k || buf[..k] != had[..] { return Err(format!("{} read_to_end changed what the vector held", story)); }
                buf.drain(..k);
                ("read_to_end", x)
            }
            3 => {
                let mut t = String::from("\u{e9}");
                let x = f.read_to_string(&mut t).ok();
                if x.is_some() { buf = t.into_bytes()[2..].to_vec(); }
                ("read_to_string", x)
            }
            4 => {
                let lens = chunks(&mut r, want);
                let mut parts: Vec<Vec<u8>> = lens.iter().map(|&l| vec![0; l]).collect();
                let x = {
                    let mut sl: Vec<IoSliceMut> = parts.iter_mut().map(|p| IoSliceMut::new(p)).collect();
                    f.read_vectored(&mut sl).ok()
                };
                buf = parts.concat();
                ("read_vectored", x)
            }
            _ => {
                let mut k = 0;
                for b in f.by_ref().bytes().take(want) {
                    match b { Ok(b) => { buf.push(b); k += 1; } Err(_) => break }
                }
                ("bytes", Some(k))
            }
        };
        story.push_str(&format!("{} {} -> {:?}; ", name, want, res));
        if let Some(k) = res {
            let p = passed.borrow();
            if k > buf.len() || p[before..] != buf[..k] {
                return Err(format!("{} handed over {} bytes {}, below {} bytes {}", story, k, hex(&buf[..k.min(buf.len())]), p.len() - before, hex(&p[before..])));
            }
        }
    }
    if f.hash() != Sha512::digest(&*passed.borrow()).to_vec() {
        return Err(format!("{} the digest is not that of the {} bytes that passed", story, passed.borrow().len()));
    }
    let nt = !passed.borrow().is_empty();

    let mut sink = ChunkyW::new(r.next());
    if r.one_in(3) {
        sink.fail_at = Some(r.skewed(600));
    }
    let passed = Rc::new(RefCell::new(vec![]));
    let mut f = FilterWrite::new(Tap { inner: sink, passed: passed.clone(), vectored: r.bool() });
    let mut story = String::new();
    for _ in 0..r.range(1, 8) {
        let before = passed.borrow().len();
        let want = r.skewed(300);
        let buf = r.bytes(want);
        let (name, buf, res): (&str, Vec<u8>, Option<usize>) = match r.below(5) {
            0 => { let x = f.write(&buf).ok(); ("write", buf, x) }
            1 => { let x = f.write_all(&buf).ok().map(|_| want); ("write_all", buf, x) }
            2 => {
                let lens = chunks(&mut r, want);
                let mut parts = vec![];
                let mut at = 0;
                for l in lens { parts.push(IoSlice::new(&buf[at..at + l])); at += l; }
                let x = f.write_vectored(&parts).ok();
                ("write_vectored", buf, x)
            }
            3 => { let t = format!("{}-{:?}", want, &buf); let x = write!(f, "{}-{:?}", want, &buf).ok().map(|_| t.len()); ("write_fmt", t.into_bytes(), x) }
            _ => { let x = f.by_ref().write_all(&buf).ok().map(|_| want); let _ = f.flush(); ("by_ref", buf, x) }
        };
        story.push_str(&format!("{} {} -> {:?}; ", name, buf.len(), res));
        if let Some(k) = res {
            let p = passed.borrow();
            if k > buf.len() || p[before..] != buf[..k] {
                return Err(format!("{} {} of {} taken, below {}", story, k, hex(&buf), hex(&p[before..])));
            }
        }
    }
    if f.hash() != Sha512::digest(&*passed.borrow()).to_vec() {
        return Err(format!("{} the digest is not that of the {} bytes that passed", story, passed.borrow().len()));
    }
    let nt = nt || !passed.borrow().is_empty();
    Ok(nt)
}

/// totals around powers of two and their multiples, and around the numbers the code names
fn totals(seed: u64) -> Result<bool, String> {
    let mut r = Rng(seed);
    let two = 1usize << (6 + r.below(14));
    let n = match r.below(5) {
        0 => two,
        1 => two * (1 + r.below(8)),
        2 => two + r.below(3) - 1,
        _ => r.skewed(1 << 20),
    }
    .min(1 << 20);
    let data = r.bytes(n);
    let want = Sha512::digest(&data).to_vec();
    let piece = if r.bool() { n.max(1) } else { 1 + r.skewed(5000) + n / 2000 };
    let mut f = FilterRead::new(&data[..]);
    let mut got = vec![];
    loop {
        let k = if r.bool() { piece } else { 1 + r.below(piece) };
        let mut buf = vec![0u8; k];
        let k = f.read(&mut buf).map_err(|e| e.to_string())?;
        got.extend_from_slice(&buf[..k]);
        if k == 0 {
            break;
        }
    }
    if got != data { return Err(format!("{} bytes read of {} by {}, or other ones", got.len(), n, piece)); }
    if f.hash() != want { return Err(format!("{} bytes read by {}: the digest is another", n, piece)); }
    let mut f = FilterWrite::new(vec![]);
    let mut g = FilterWrite::new(vec![]);
    let mut at = 0;
    while at < n {
        let k = if r.bool() { piece } else { 1 + r.below(piece) };
        let part = &data[at..n.min(at + k)];
        at += f.write(part).map_err(|e| e.to_string())?;
        g.write_all(part).map_err(|e| e.to_string())?;
        if at > n { return Err("count beyond the buffer".into()); }
    }
    if f.hash() != want { return Err(format!("{} bytes written by {}: the digest is another", n, piece)); }
    if g.into_inner() != data { return Err(format!("{} bytes written by {}: other ones arrive", n, piece)); }
    Ok(n > 0)
}

fn main() {
    run("C18", |cx| {
        cx.rule("random call sequences with short reads and writes, interruptions and errors, against a spy underneath and a SHA-512 of what passed; non-trivial: some bytes passed");
        while cx.more() {
            let seed = cx.rng.next();
            if seed % 64 == 0 {
                cx.case(format!("totals, seed {}", seed), || totals(seed));
            }
            cx.case(format!("every method, seed {}", seed), || all_methods(seed));
            cx.case(format!("seed {}", seed), || {
                let mut r = Rng(seed);
                let n = r.skewed(2000);
                let data = r.bytes(n);
                let mut src = Chunky::new(&data, r.next());
                if r.one_in(3) {
                    src.fail_at = Some(r.below(n + 1));
                }
                let mut f = FilterRead::new(Spy { inner: src, log: vec![] });
                let mut got = vec![];
                let mut calls = vec![];
                for _ in 0..r.range(1, 20) {
                    let mut buf = vec![0u8; r.skewed(300)];
                    let res = f.read(&mut buf);
                    if let Ok(k) = res {
                        if k > buf.len() { return Err("count beyond the buffer".into()); }
                        got.extend_from_slice(&buf[..k]);
                    }
                    calls.push((buf.len(), res.as_ref().map(|&k| buf[..k].to_vec()).map_err(|e| e.to_string())));
                }
                let want = Sha512::digest(&got).to_vec();
                let nt = !got.is_empty();
                if r.bool() {
                    if f.hash() != want { return Err("read digest".into()); }
                } else {
                    let spy = f.into_inner();
                    if spy.log != calls {
                        return Err(format!("the calls below were {:?}, above {:?}", spy.log, calls));
                    }
                }
                let mut sink = ChunkyW::new(r.next());
                if r.one_in(3) {
                    sink.fail_at = Some(r.skewed(600));
                }
                let mut f = FilterWrite::new(SpyW { inner: sink, log: vec![], flushes: 0 });
                let mut calls = vec![];
                let mut put: Vec<u8> = vec![];
                let mut fl = 0;
                for _ in 0..r.range(1, 20) {
                    let k = r.skewed(300);
                    let buf = r.bytes(k);
                    let res = f.write(&buf);
                    if let Ok(k) = res {
                        put.extend_from_slice(&buf[..k]);
                    }
                    calls.push((buf, res.map_err(|e| e.to_string())));
                    if r.one_in(4) {
                        fl += 1;
                        if f.flush().is_err() != (fl % 3 == 0) { return Err("flush result".into()); }
                    }
                }
                let want = Sha512::digest(&put).to_vec();
                if r.bool() {
                    if f.hash() != want { return Err("write digest".into()); }
                } else {
                    let spy = f.into_inner();
                    if spy.log != calls || spy.flushes != fl {
                        return Err(format!("the calls below were {:?}, above {:?}", spy.log, calls));
                    }
                }
                Ok(nt || !put.is_empty())
            });
        }
    });
}
