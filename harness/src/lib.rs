//! Native companion of the proofs: runs the real code of /repo against independent oracles.
//! It turns a failed obligation into a failing input where there is one, and exercises what the
//! proofs assume about libraries.  It is a bounded search, never counted as proof.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod deflate;
pub mod tool;
pub mod guess;
pub mod real;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// one of the values the current sources name and the pinned ones do not (a dictionary for
    /// the generators, from VP_HOT), in a..=b
    pub fn hot(&mut self, a: usize, b: usize) -> Option<usize> {
        let h = &dict().0;
        if h.is_empty() || !self.one_in(6) {
            return None;
        }
        let v = *self.pick(h);
        let v = match self.below(8) { 0 => v.wrapping_sub(1), 1 => v + 1, 2 => v * 2, 3 => v * 8, 4 => v / 2, _ => v };
        if a <= v && v <= b { Some(v) } else { None }
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        if let Some(v) = self.hot(a, b) {
            return v;
        }
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..n).map(|_| self.byte()).collect();
        self.spice(&mut v);
        v
    }
    /// writes strings and byte values of the dictionary over some of it
    pub fn spice(&mut self, v: &mut [u8]) {
        let d = dict();
        if d.0.is_empty() && d.1.is_empty() || v.is_empty() || !self.one_in(3) {
            return;
        }
        for _ in 0..1 + self.below(3) {
            let at = match self.below(3) { 0 => 0, _ => self.below(v.len()) };
            if !d.1.is_empty() && self.bool() {
                let s = self.pick(&d.1).clone();
                let at = if self.one_in(3) { v.len().saturating_sub(s.len()) } else { at };
                for (i, &b) in s.iter().enumerate() {
                    if at + i < v.len() {
                        v[at + i] = b;
                    }
                }
            } else if !d.0.is_empty() {
                let x = *self.pick(&d.0);
                if x < 256 {
                    v[at] = x as u8;
                } else if at + 1 < v.len() {
                    v[at] = x as u8;
                    v[at + 1] = (x >> 8) as u8;
                }
            }
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// small numbers often, large ones sometimes
    pub fn skewed(&mut self, max: usize) -> usize {
        if let Some(v) = self.hot(0, max) {
            return v;
        }
        let bits = 64 - (max as u64).leading_zeros() as usize;
        let b = self.below(bits + 1);
        (self.next() as usize & ((1usize << b) - 1)).min(max)
    }
    /// data with repeats
    pub fn text(&mut self, n: usize) -> Vec<u8> {
        let alpha = *self.pick(&[1usize, 2, 2, 3, 4, 16, 256]);
        let mut v: Vec<u8> = vec![];
        while v.len() < n {
            if !v.is_empty() && self.one_in(3) {
                let d = 1 + self.skewed(v.len() - 1);
                let l = 1 + self.skewed(300);
                for _ in 0..l {
                    v.push(v[v.len() - d]);
                }
            } else {
                for _ in 0..1 + self.skewed(8) {
                    v.push((self.below(alpha) as u8).wrapping_mul(7).wrapping_add(b'a'));
                }
            }
        }
        v.truncate(n);
        self.spice(&mut v);
        v
    }
}

/// VP_HOT: words nNUMBER and sHEX, see tools/literals.py
fn dict() -> &'static (Vec<usize>, Vec<Vec<u8>>) {
    static D: std::sync::OnceLock<(Vec<usize>, Vec<Vec<u8>>)> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = (vec![], vec![]);
        for w in std::env::var("VP_HOT").unwrap_or_default().split_whitespace() {
            if let Some(n) = w.strip_prefix('n') {
                match n.parse::<u32>() {
                    Ok(n) => d.0.push(n as usize),
                    Err(_) => {}
                }
            } else if let Some(s) = w.strip_prefix('s') {
                d.1.push((0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect());
            }
        }
        d
    })
}

pub struct Ctx {
    pub rng: Rng,
    pub prop: String,
    pub deadline: Instant,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    known: Vec<String>,
    out: String,
    rule: String,
    busy: Arc<Mutex<Option<(Instant, String)>>>,
    slowest: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(4096) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 4096 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

fn fail(out: &str, prop: &str, what: &str, input: &str) -> ! {
    let _ = std::fs::write(out, format!("property: {}\nwhat failed: {}\ninput: {}\n", prop, what, input));
    println!("{{\"failure\": {}, \"input\": {}}}", js(what), js(&input.chars().take(400).collect::<String>()));
    std::process::exit(1)
}

/// user and system time of this process and the children it waited for, in ticks of 10 ms
fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s[s.rfind(')').unwrap_or(0)..].split_whitespace().collect();
    (12..16).filter_map(|i| f.get(i).and_then(|x| x.parse::<u64>().ok())).sum()
}

impl Ctx {
    pub fn more(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.into();
    }
    pub fn known(&mut self, s: &str) {
        if !self.known.iter().any(|k| k == s) {
            self.known.push(s.into());
        }
    }
    /// put down what is about to run, for the case that the process dies of it
    pub fn note(&self, input: &str) {
        let _ = std::fs::write(&self.out, format!("property: {}\ninput: {}\n", self.prop, input));
    }
    /// one case: Ok(true) non-trivial, Ok(false) trivial, Err what went wrong; a panic is an error
    pub fn case(&mut self, input: String, f: impl FnOnce() -> Result<bool, String>) {
        *self.busy.lock().unwrap() = Some((Instant::now(), input.clone()));
        let begun = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(f));
        if begun.elapsed() > Duration::from_secs(2) {
            eprintln!("slow: {} ms: {} bytes {}", begun.elapsed().as_millis(), input.len(), input.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>());
        }
        self.slowest = self.slowest.max(begun.elapsed().as_millis() as u64);
        *self.busy.lock().unwrap() = None;
        self.evals += 1;
        match r {
            Ok(Ok(nt)) => {
                if nt {
                    let mut h = DefaultHasher::new();
                    input.hash(&mut h);
                    let fresh = self.distinct.insert(h.finish());
                    if fresh && (self.samples.len() < 3) && input.len() < 1500 {
                        self.samples.push(input);
                    }
                }
            }
            Ok(Err(e)) => fail(&self.out, &self.prop, &e, &input),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                fail(&self.out, &self.prop, &format!("panicked: {}", m), &input)
            }
        }
    }
}

/// bin SEED BUDGET_SECONDS REPLAY_FILE
pub fn run(prop: &str, f: impl FnOnce(&mut Ctx) + Send + 'static) {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(5);
    let out = a.get(3).cloned().unwrap_or("/dev/null".into());
    std::panic::set_hook(Box::new(|_| {}));
    let busy = Arc::new(Mutex::new(None::<(Instant, String)>));
    let (b2, o2, p2) = (busy.clone(), out.clone(), prop.to_string());
    let mut since = None::<(Instant, u64)>;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        // processor time counts, so that a busy machine is not taken for an endless loop
        let g = b2.lock().unwrap().clone();
        match g {
            Some((t, i)) => {
                let now = cpu_ticks();
                match since {
                    Some((s, at)) if s == t => {
                        if now.saturating_sub(at) > 9000 || t.elapsed() > Duration::from_secs(300) {
                            fail(&o2, &p2, "does not finish (90 s of processor time)", &i);
                        }
                    }
                    _ => since = Some((t, now)),
                }
            }
            None => since = None,
        }
    });
    let prop2 = prop.to_string();
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut cx = Ctx {
                rng: Rng(seed.wrapping_mul(0x1234567)), prop: prop2, deadline: Instant::now() + Duration::from_secs(budget),
                evals: 0, distinct: HashSet::new(), samples: vec![], known: vec![], out, rule: String::new(), busy, slowest: 0,
            };
            f(&mut cx);
            let list = |v: &[String]| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ");
            println!(
                "{{\"failure\": null, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"known\": [{}], \"slowest_ms\": {}}}",
                cx.evals, cx.distinct.len(), js(&cx.rule), list(&cx.samples), list(&cx.known), cx.slowest
            );
        })
        .unwrap();
    if t.join().is_err() {
        println!("{{\"failure\": null, \"error\": \"harness panicked\"}}");
        std::process::exit(3);
    }
}

/// a reader that hands out short reads, interruptions and (optionally) an error after n bytes
pub struct Chunky {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rng: Rng,
    pub fail_at: Option<usize>,
}
impl Chunky {
    pub fn new(data: &[u8], seed: u64) -> Self {
        Chunky { data: data.to_vec(), pos: 0, rng: Rng(seed), fail_at: None }
    }
}
impl std::io::Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(n) = self.fail_at {
            if self.pos >= n {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
            }
        }
        if self.rng.one_in(7) {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if n > 1 {
            n = self.rng.range(1, n);
        }
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// a writer that accepts short writes, interrupts, and (optionally) fails after n bytes
pub struct ChunkyW {
    pub data: Vec<u8>,
    pub rng: Rng,
    pub fail_at: Option<usize>,
}
impl ChunkyW {
    pub fn new(seed: u64) -> Self {
        ChunkyW { data: vec![], rng: Rng(seed), fail_at: None }
    }
}
impl std::io::Write for ChunkyW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(n) = self.fail_at {
            if self.data.len() >= n {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
            }
        }
        if self.rng.one_in(7) {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let mut n = if buf.len() > 1 { self.rng.range(1, buf.len()) } else { 1 };
        if let Some(f) = self.fail_at {
            n = n.min(f - self.data.len());
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
