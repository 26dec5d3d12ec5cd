//! running the command-line tool, and gzip framing (nothing here is taken from /repo)
use crate::Rng;
use std::process::{Command, Stdio};

pub fn crc32(d: &[u8]) -> u32 {
    let mut t = [0u32; 256];
    for i in 0..256u32 {
        let mut c = i;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 };
        }
        t[i as usize] = c;
    }
    !d.iter().fold(!0u32, |c, &b| t[((c ^ b as u32) & 255) as usize] ^ (c >> 8))
}

pub fn header(r: &mut Rng) -> Vec<u8> {
    let mut d = vec![0x1f, 0x8b, 8];
    let f = if r.one_in(3) { 0 } else { r.byte() & 31 };
    d.push(f);
    d.extend(r.bytes(6));
    if f & 4 != 0 {
        let n = r.skewed(300);
        d.push(n as u8);
        d.push((n >> 8) as u8);
        d.extend(r.bytes(n));
    }
    for bit in [8, 16] {
        if f & bit != 0 {
            for _ in 0..r.skewed(40) {
                d.push(r.byte() | 1);
            }
            d.push(0);
        }
    }
    if f & 2 != 0 {
        d.extend(r.bytes(2));
    }
    d
}

pub fn footer(c: &[u8]) -> Vec<u8> {
    let mut v = crc32(c).to_le_bytes().to_vec();
    v.extend((c.len() as u32).to_le_bytes());
    v
}

/// the content as stored blocks, in whole bytes
pub fn stored(c: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let n = c.chunks(65535).count();
    for (i, p) in c.chunks(65535).enumerate() {
        o.push((i + 1 == n) as u8);
        o.extend((p.len() as u16).to_le_bytes());
        o.extend((!(p.len() as u16)).to_le_bytes());
        o.extend(p);
    }
    o
}

/// once in a run: more bytes than any buffer holds
pub fn big(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 | 2 => (1 << 24) + r.below(1 << 17),
        1 => (1 << 22) + r.below(1 << 17),
        _ => (1 << 20) + r.below(3 << 20),
    };
    r.bytes(n)
}

/// what `rezippers CMD` prints for this input
pub fn tool(cmd: &str, exe: &str, file: &std::path::Path, data: &[u8], piped: bool) -> Result<Vec<u8>, String> {
    let (out, failed) = outcome(cmd, exe, file, data, piped)?;
    match failed {
        None => Ok(out),
        Some(e) => Err(e),
    }
}

/// what it prints, and how it fails if it does; a panic is an error here
pub fn outcome(cmd: &str, exe: &str, file: &std::path::Path, data: &[u8], piped: bool) -> Result<(Vec<u8>, Option<String>), String> {
    std::fs::write(file, data).map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.arg(cmd).env("RUST_BACKTRACE", "0");
    if piped {
        c.stdin(std::fs::File::open(file).map_err(|e| e.to_string())?);
    } else {
        c.arg(file).stdin(Stdio::null());
    }
    let o = c.output().map_err(|e| e.to_string())?;
    let e = format!("exit {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>());
    if o.status.success() {
        Ok((o.stdout, None))
    } else if o.status.code() == Some(1) {
        Ok((o.stdout, Some(e)))
    } else {
        Err(e)
    }
}

/// the tool, when it was built, and a scratch file in a folder of its own
pub fn scratch(prop: &str) -> Option<(String, std::path::PathBuf)> {
    let exe = std::env::var("REZIPPERS").ok().filter(|e| std::path::Path::new(e).exists())?;
    let dir = std::env::temp_dir().join(format!("rezip-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).ok()?;
    Some((exe, dir.join("in.gz")))
}
