//! The overlay format: `@` directives at line starts, text up to the next directive.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default, Debug)]
pub struct LoopOverlay {
    pub spec: String,
    pub iter: Option<String>,
}
#[derive(Clone, Default, Debug)]
pub struct ClosureOverlay {
    pub ret: String,
    pub params: Option<String>,
    pub spec: String,
    pub pre: String,
}
#[derive(Clone, Debug)]
pub struct FnOverlay {
    pub ret: String,
    pub ret_set: bool,
    pub ret_type: Option<String>,
    pub external: bool,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, LoopOverlay>,
    pub closures: BTreeMap<usize, ClosureOverlay>,
    pub at: BTreeMap<String, String>,
    pub byref: Vec<String>,
    pub params: Vec<String>,
    pub desugar: BTreeSet<usize>,
    pub renames: BTreeMap<String, String>,
    pub substs: Vec<(String, String, String)>,
}
impl Default for FnOverlay {
    fn default() -> Self {
        FnOverlay {
            ret: "r".into(), ret_set: false, ret_type: None, external: false, attrs: vec![], spec: String::new(),
            loops: Default::default(), closures: Default::default(), at: Default::default(), byref: vec![], params: vec![],
            desugar: Default::default(), renames: Default::default(), substs: vec![],
        }
    }
}
#[derive(Default)]
pub struct FileOverlay {
    pub path: String,
    pub module: String,
    pub header: String,
    pub ghost: String,
    pub fns: BTreeMap<String, FnOverlay>,
    pub skip: BTreeSet<String>,
    pub attrs: BTreeMap<String, String>,
    pub structural: BTreeSet<String>,
    pub no_clone: BTreeSet<String>,
    pub derive_clone: BTreeMap<String, String>,
    pub require_derive: BTreeMap<String, Vec<String>>,
    pub consts: BTreeMap<String, String>,
    pub inherent: BTreeSet<String>,
    pub implghost: BTreeMap<String, String>,
    pub substs: Vec<(String, String, String)>,
    pub drop_use: BTreeSet<String>,
    /// calls of this path get this parameter of the caller as a further argument
    pub passes: Vec<(String, String)>,
    pub used: BTreeSet<String>,
    pub used_impl: BTreeSet<String>,
}

pub fn parse(s: &str) -> FileOverlay {
    let mut o = FileOverlay::default();
    let mut cur: Option<String> = None;
    let mut blocks: Vec<(String, String)> = vec![];
    for l in s.lines() {
        if l.starts_with("@") {
            blocks.push((l.trim().to_string(), String::new()));
        } else if let Some(b) = blocks.last_mut() {
            b.1.push_str(l);
            b.1.push('\n');
        }
    }
    for (d, body) in blocks {
        let (w, rest) = match d.split_once(char::is_whitespace) {
            Some((a, b)) => (a.to_string(), b.trim().to_string()),
            None => (d.clone(), String::new()),
        };
        let f = |o: &mut FileOverlay, cur: &Option<String>| -> *mut FnOverlay {
            let k = cur.clone().expect("directive outside @fn");
            o.fns.entry(k).or_default() as *mut FnOverlay
        };
        macro_rules! cf { () => { unsafe { &mut *f(&mut o, &cur) } } }
        match w.as_str() {
            "@@" | "@//" => {}
            "@file" => {
                let (p, m) = rest.split_once("=>").expect("@file path => mod");
                o.path = p.trim().into();
                o.module = m.trim().into();
            }
            "@header" => o.header.push_str(&body),
            "@ghost" => { o.ghost.push_str(&body); cur = None; }
            "@skip" => { o.skip.insert(rest); }
            "@attr" => { o.attrs.insert(rest, body); }
            "@structural" => { o.structural.insert(rest); }
            "@noclone" => { o.no_clone.insert(rest); }
            "@derive_clone" => { o.derive_clone.insert(rest, body); }
            "@require_derive" => {
                let mut it = rest.split_whitespace();
                let n = it.next().unwrap().to_string();
                o.require_derive.insert(n, it.map(String::from).collect());
            }
            "@const" => { o.consts.insert(rest, body); }
            "@inherent" => { o.inherent.insert(rest); }
            "@implghost" => { o.implghost.insert(rest, body); }
            "@pass" => {
                let (a, b) = rest.split_once("=>").expect("@pass path => parameter");
                o.passes.push((a.trim().to_string(), b.trim().to_string()));
            }
            "@dropuse" => { o.drop_use.insert(rest); }
            "@gsubst" => {
                let (rule, r) = rest.split_once(char::is_whitespace).unwrap();
                let (a, b) = r.split_once("==>").expect("@gsubst RULE A ==> B");
                o.substs.push((rule.into(), a.trim().into(), b.trim().into()));
            }
            "@fn" => {
                let mut key = String::new();
                let mut fo = FnOverlay::default();
                for t in rest.split_whitespace() {
                    if let Some(r) = t.strip_prefix("ret=") {
                        fo.ret = r.into();
                        fo.ret_set = true;
                    } else if t == "external" {
                        fo.external = true;
                    } else {
                        if !key.is_empty() { key.push(' '); }
                        key.push_str(t);
                    }
                }
                o.fns.insert(key.clone(), fo);
                cur = Some(key);
            }
            "@rettype" => cf!().ret_type = Some(rest),
            "@fattr" => cf!().attrs.push(rest),
            "@spec" => cf!().spec = body.trim_end().to_string(),
            "@loop" => {
                let mut it = rest.split_whitespace();
                let n: usize = it.next().unwrap().parse().unwrap();
                let mut lo = LoopOverlay { spec: body.trim_end().to_string(), iter: None };
                for t in it {
                    if let Some(x) = t.strip_prefix("iter=") { lo.iter = Some(x.into()); }
                }
                cf!().loops.insert(n, lo);
            }
            "@closure" => {
                // @closure N [params{...}] (b: bool)
                let (n, r) = rest.split_once(char::is_whitespace).unwrap();
                let mut co = ClosureOverlay::default();
                let mut r = r.trim().to_string();
                if let Some(x) = r.strip_prefix("params{") {
                    let e = x.find('}').unwrap();
                    co.params = Some(x[..e].to_string());
                    r = x[e + 1..].trim().to_string();
                }
                co.ret = r;
                let (spec, pre) = match body.split_once("---") {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (body.clone(), String::new()),
                };
                co.spec = spec.trim_end().to_string();
                co.pre = pre.trim().to_string();
                cf!().closures.insert(n.parse().unwrap(), co);
            }
            "@at" => { cf!().at.insert(rest, body.trim_end().to_string()); }
            "@byref" => cf!().byref.push(rest),
            "@param" => cf!().params.push(rest),
            "@desugar" => { cf!().desugar.insert(rest.parse().unwrap()); }
            "@rename" => {
                let (a, b) = rest.split_once("=>").unwrap();
                cf!().renames.insert(a.trim().into(), b.trim().into());
            }
            "@subst" => {
                let (rule, r) = rest.split_once(char::is_whitespace).unwrap();
                let (a, b) = r.split_once("==>").expect("@subst RULE A ==> B");
                cf!().substs.push((rule.into(), a.trim().into(), b.trim().into()));
            }
            x => panic!("unknown directive {}", x),
        }
    }
    for (a, b) in [("assert_eq", "vx_assert_eq"), ("assert_ne", "vx_assert_ne"), ("debug_assert_eq", "vx_assert_eq"), ("debug_assert_ne", "vx_assert_ne"), ("debug_assert", "assert")] {
        let a = format!("{}!", a);
        if !o.substs.iter().any(|(_, x, _)| *x == a) {
            o.substs.push(("R-assert".into(), a, format!("{}!", b)));
        }
    }
    o
}
