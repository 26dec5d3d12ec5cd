//! vx: mechanical extraction of /repo's Rust source into a Verus crate.
//!
//! The executable text of every extracted function is copied byte for byte from /repo;
//! overlays (/verif/overlay/*.vx) only add contracts, loop invariants, ghost code and closure
//! specifications at AST anchors.  The few textual rewrites (unsupported language or library
//! surface) are the rules named in DESIGN.md; every application is listed in the report.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs;
use std::path::Path;

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod inline;
mod overlay;
use overlay::*;

#[derive(Clone, Debug)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub seq: usize,
}

#[derive(Default)]
pub struct Report {
    pub functions: Vec<(String, String)>, // key, status: contract|none|external|skip
    pub lost: Vec<String>,
    pub hints_lost: Vec<String>,
    pub rules: BTreeMap<String, Vec<String>>,
    pub errors: Vec<String>,
    pub shapes: BTreeMap<String, String>,
    /// a hash of the tokens of each body
    pub hashes: BTreeMap<String, String>,
    /// closures of each function, as token text; those of the pinned tree
    pub closures: BTreeMap<String, Vec<String>>,
    pub base_closures: BTreeMap<String, Vec<String>>,
    pub force_external: BTreeSet<String>,
    pub extracted: BTreeSet<String>,
}

impl Report {
    pub fn rule(&mut self, rule: &str, what: impl Into<String>) {
        self.rules.entry(rule.into()).or_default().push(what.into());
    }
}

pub struct Ctx<'a> {
    pub src: &'a str,
    pub edits: Vec<Edit>,
    pub ov: &'a mut FileOverlay,
    pub rep: &'a mut Report,
}

pub fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

impl<'a> Ctx<'a> {
    fn put(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, text: text.into(), seq });
    }
    fn ins(&mut self, at: usize, text: impl Into<String>) {
        self.put(at, at, text)
    }
}

/// flatten a token stream to (text, start, end), delimiters included
pub fn flat(ts: TokenStream, out: &mut Vec<(String, usize, usize)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let so = g.span_open().byte_range();
                let sc = g.span_close().byte_range();
                if !o.is_empty() {
                    out.push((o.into(), so.start, so.end));
                }
                flat(g.stream(), out);
                if !c.is_empty() {
                    out.push((c.into(), sc.start, sc.end));
                }
            }
            TokenTree::Punct(p) => {
                let r = p.span().byte_range();
                out.push((p.as_char().to_string(), r.start, r.end))
            }
            other => {
                let r = other.span().byte_range();
                out.push((other.to_string(), r.start, r.end))
            }
        }
    }
}

pub fn flat_str(s: &str) -> Vec<String> {
    let ts: TokenStream = s.parse().unwrap_or_else(|e| panic!("overlay tokens {:?}: {}", s, e));
    let mut v = vec![];
    flat(ts, &mut v);
    v.into_iter().map(|x| x.0).collect()
}

pub fn find_tokens(hay: &[(String, usize, usize)], needle: &[String]) -> Vec<(usize, usize)> {
    let mut r = vec![];
    if needle.is_empty() {
        return r;
    }
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        if (0..needle.len()).all(|k| hay[i + k].0 == needle[k]) {
            r.push((hay[i].1, hay[i + needle.len() - 1].2));
            i += needle.len();
        } else {
            i += 1;
        }
    }
    r
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s == "#[test]" || s.starts_with("#[cfg(test") || s.starts_with("#[cfg(old_tests") || s.starts_with("#[cfg(never")
            || s.starts_with("#[cfg(rezip_verif") || s.starts_with("#[cfg(kani") || s.starts_with("#[cfg(feature=\"tracing\"")
    })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        syn::Type::Tuple(t) => {
            format!("({})", t.elems.iter().map(type_name).collect::<Vec<_>>().join(","))
        }
        _ => "?".into(),
    }
}

/// loops and closures of a body, in pre-order; nested fns are not descended into
#[derive(Default)]
struct Parts<'ast> {
    loops: Vec<&'ast syn::Expr>,
    closures: Vec<&'ast syn::ExprClosure>,
    methods: Vec<&'ast syn::ExprMethodCall>,
    stmts: Vec<(usize, usize)>,
    arms: Vec<&'ast syn::Arm>,
    matches: Vec<&'ast syn::ExprMatch>,
    iflets: Vec<(&'ast syn::ExprLet, &'ast syn::Block)>,
    locals: Vec<&'ast syn::Local>,
    shifts: usize,
    prints: Vec<&'ast syn::Macro>,
    folds: Vec<&'ast syn::ExprBinary>,
    calls: Vec<&'ast syn::ExprCall>,
}
impl<'ast> Visit<'ast> for Parts<'ast> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if ["println", "print", "writeln", "write"].iter().any(|n| m.path.is_ident(n)) {
            self.prints.push(m);
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        self.calls.push(c);
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        self.matches.push(m);
        visit::visit_expr_match(self, m)
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        self.arms.push(a);
        visit::visit_arm(self, a)
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        self.locals.push(l);
        visit::visit_local(self, l)
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        if let syn::Expr::Let(l) = &*e.cond {
            self.iflets.push((l, &e.then_branch));
        }
        visit::visit_expr_if(self, e)
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        if let syn::Expr::Let(l) = &*e.cond {
            self.iflets.push((l, &e.body));
        }
        visit::visit_expr_while(self, e)
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) => self.loops.push(e),
            // (a literal shifted by a literal is folded instead)
            syn::Expr::Binary(b) => match b.op {
                syn::BinOp::Shl(_) if folded(b).is_some() => self.folds.push(b),
                syn::BinOp::Shl(_) | syn::BinOp::Shr(_) | syn::BinOp::ShlAssign(_) | syn::BinOp::ShrAssign(_) => self.shifts += 1,
                _ => {}
            },
            _ => {}
        }
        visit::visit_expr(self, e)
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closures.push(c);
        visit::visit_expr_closure(self, c)
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.methods.push(m);
        if ["wrapping_shl", "wrapping_shr", "checked_shl", "checked_shr", "rotate_left", "rotate_right", "leading_zeros", "trailing_zeros", "count_ones", "swap_bytes", "reverse_bits"].contains(&m.method.to_string().as_str()) {
            self.shifts += 1;
        }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = rng(s);
        self.stmts.push(r);
        visit::visit_stmt(self, s)
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

/// reference patterns (`&x`, `&&(a, b)`): Verus has no patterns of that form, so the place gets a fresh name and
/// the inner pattern is bound to what the reference points at, first thing in the arm, block or loop
struct RefPats(Vec<((usize, usize), (usize, usize), usize)>);
impl<'ast> Visit<'ast> for RefPats {
    fn visit_pat_reference(&mut self, p: &'ast syn::PatReference) {
        let mut stars = 1;
        let mut inner = &*p.pat;
        while let syn::Pat::Reference(q) = inner {
            stars += 1;
            inner = &*q.pat;
        }
        if matches!(inner, syn::Pat::Ident(_) | syn::Pat::Tuple(_) | syn::Pat::Wild(_)) {
            self.0.push((rng(p), rng(inner), stars));
        }
    }
    fn visit_expr(&mut self, _: &'ast syn::Expr) {}
}

/// the pieces of a format string: text, and what stands in braces (argument, format)
fn format_pieces(f: &str) -> Option<Vec<Result<String, (String, String)>>> {
    let mut out = vec![];
    let mut text = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' | '}' if it.peek() == Some(&c) => {
                it.next();
                text.push(c);
            }
            '{' => {
                let mut b = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        x => b.push(x),
                    }
                }
                let (a, s) = b.split_once(':').unwrap_or((&b, ""));
                if s.contains(['$', '*']) {
                    return None;
                }
                out.push(Ok(std::mem::take(&mut text)));
                out.push(Err((a.trim().to_string(), s.trim().to_string())));
            }
            '}' => return None,
            _ => text.push(c),
        }
    }
    out.push(Ok(text));
    Some(out)
}

/// `1 << 24` as a number
fn folded(b: &syn::ExprBinary) -> Option<String> {
    let lit = |e: &syn::Expr| match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => Some((i.base10_parse::<u64>().ok()?, i.suffix().to_string())),
        _ => None,
    };
    let ((x, s), (n, _)) = (lit(&b.left)?, lit(&b.right)?);
    let v = x.checked_mul(1u64.checked_shl(n.try_into().ok()?)?)?;
    let bits = match s.as_str() {
        "u8" => 8,
        "i8" => 7,
        "u16" => 16,
        "i16" => 15,
        "u32" => 32,
        "" | "i32" => 31,
        _ => 63,
    };
    (v >> (bits - 1) >> 1 == 0).then(|| format!("{}{}", v, s))
}

/// the parameter that is a std::fmt::Formatter
fn formatter_param(sig: &syn::Signature) -> Option<String> {
    sig.inputs.iter().find_map(|a| match a {
        syn::FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
            (syn::Pat::Ident(i), syn::Type::Reference(r)) => match &*r.elem {
                syn::Type::Path(p) if p.path.segments.last()?.ident == "Formatter" => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    })
}

/// println!/print! become calls on the parameter `vx_out` (added by R-param): the text between the braces as it
/// stands, and one `show` for each argument
fn rewrite_print(cx: &mut Ctx, key: &str, m: &syn::Macro, sink: Option<&str>) -> Option<()> {
    use syn::parse::Parser;
    let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
    let mut args = args.into_iter();
    if let Some(w) = sink {
        if !matches!(args.next(), Some(syn::Expr::Path(p)) if p.path.is_ident(w)) {
            return None;
        }
    }
    let out = sink.unwrap_or("vx_out");
    let f = match args.next() {
        Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) => l.value(),
        Some(_) => return None,
        None => String::new(),
    };
    let mut named = std::collections::BTreeMap::new();
    let mut exprs = vec![];
    for (n, a) in args.enumerate() {
        match &a {
            syn::Expr::Assign(x) => {
                named.insert(quote::quote!(#x).to_string().split('=').next()?.trim().to_string(), n);
                exprs.push(rng(&*x.right));
            }
            _ => exprs.push(rng(&a)),
        }
    }
    let mut pieces = format_pieces(&f)?;
    if m.path.is_ident("println") || m.path.is_ident("writeln") {
        if let Some(Ok(t)) = pieces.last_mut() {
            t.push('\n');
        }
    }
    let mut body = String::new();
    let mut next = 0;
    for p in pieces {
        match p {
            Ok(t) if t.is_empty() => {}
            Ok(t) => {
                let _ = write!(body, "{}.put({:?}); ", out, t);
            }
            Err((a, spec)) => {
                let what = if a.is_empty() {
                    next += 1;
                    format!("__p{}", next - 1)
                } else if let Ok(n) = a.parse::<usize>() {
                    format!("__p{}", n)
                } else if let Some(n) = named.get(&a) {
                    format!("__p{}", n)
                } else {
                    format!("&{}", a)
                };
                let _ = write!(body, "{}.show({:?}, {}); ", out, spec, what);
            }
        }
    }
    // a write! is an expression, whose value says whether all of it was taken
    let (mut l, mut r) = ("", "");
    if sink.is_some() {
        body = format!("{}.begin(); {}{}.status() ", out, body, out);
        (l, r) = ("(", ")");
    }
    let (s, e) = rng(m);
    if exprs.is_empty() {
        cx.put(s, e, format!("{}{{ {}}}{}", l, body, r));
    } else {
        cx.put(s, exprs[0].0, format!("{}match (&(", l));
        for w in exprs.windows(2) {
            cx.put(w[0].1, w[1].0, "), &(");
        }
        let names: Vec<String> = (0..exprs.len()).map(|n| format!("__p{},", n)).collect();
        cx.put(exprs.last()?.1, e, format!("),) {{ ({}) => {{ {}}} }}{}", names.join(" "), body, r));
    }
    cx.rep.rule("R-print", format!("{}: {}!({:?} ..)", key, m.path.get_ident()?, f));
    Some(())
}

/// an arm that binds nothing and does nothing but return
fn guardable(a: &syn::Arm) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            if !p.ident.to_string().starts_with(char::is_uppercase) {
                self.0 = false;
            }
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {
            self.0 = false;
        }
        fn visit_expr_match(&mut self, _: &'ast syn::ExprMatch) {
            self.0 = false;
        }
        fn visit_block(&mut self, _: &'ast syn::Block) {
            self.0 = false;
        }
    }
    let mut v = V(matches!(*a.body, syn::Expr::Return(_)));
    v.visit_pat(&a.pat);
    v.visit_expr(&a.body);
    v.0
}

/// the pattern's new text edits and the bindings to put behind it
fn refpats(cx: &mut Ctx, key: &str, pat: &syn::Pat, n: &mut usize) -> (Vec<(usize, usize, String)>, String) {
    let mut v = RefPats(vec![]);
    v.visit_pat(pat);
    let mut edits = vec![];
    let mut lets = String::new();
    for (whole, inner, stars) in v.0 {
        let inner = cx.src[inner.0..inner.1].to_string();
        let name = format!("__r{}", n);
        *n += 1;
        cx.rep.rule("R-refpat", format!("{}: pattern `{}` bound as a name and dereferenced", key, &cx.src[whole.0..whole.1]));
        edits.push((whole.0, whole.1, name.clone()));
        if inner != "_" {
            lets.push_str(&format!("let {} = {}{}; ", inner, "*".repeat(stars), name));
        }
    }
    (edits, lets)
}

fn pat_text(cx: &Ctx, pat: &syn::Pat, edits: &[(usize, usize, String)]) -> String {
    let (a, b) = rng(pat);
    let mut out = String::new();
    let mut at = a;
    for (s, e, t) in edits {
        out.push_str(&cx.src[at..*s]);
        out.push_str(t);
        at = *e;
    }
    out.push_str(&cx.src[at..b]);
    out
}

fn drop_cfg_stmts(cx: &mut Ctx, b: &syn::Block) {
    struct V(Vec<(usize, usize)>);
    impl<'ast> Visit<'ast> for V {
        fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
            let attrs: &[syn::Attribute] = match s {
                syn::Stmt::Macro(m) => &m.attrs,
                syn::Stmt::Local(l) => &l.attrs,
                _ => &[],
            };
            if is_cfg_test(attrs) {
                self.0.push(rng(s));
            } else {
                visit::visit_stmt(self, s)
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    for (a, e) in v.0 {
        cx.put(a, e, "");
    }
}

fn do_fn(
    cx: &mut Ctx,
    key: &str,
    whole: (usize, usize),
    vis: Option<&syn::Visibility>,
    attrs: &[syn::Attribute],
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    semi: Option<usize>,
    tokens: TokenStream,
) {
    if cx.ov.skip.contains(key) {
        cx.put(whole.0, whole.1, "");
        cx.rep.functions.push((key.into(), "skip".into()));
        return;
    }
    // attributes go (inline, allow, doc)
    let mut sig_start = whole.0;
    for a in attrs {
        let r = rng(a);
        cx.put(r.0, r.1, "");
        sig_start = sig_start.max(r.1);
    }
    cx.ins(sig_start, format!("/*@@ {}::{} */ ", cx.ov.module, key));
    let fo = cx.ov.fns.get(key).cloned();
    let fo = match fo {
        Some(f) => f,
        None => {
            cx.rep.functions.push((format!("{}::{}", cx.ov.module, key), "none".into()));
            FnOverlay::default()
        }
    };
    let mut fo = fo;
    let full = format!("{}::{}", cx.ov.module, key);
    if cx.rep.force_external.contains(&full) {
        fo.external = true;
        if !cx.ov.fns.contains_key(key) {
            cx.rep.functions.push((full.clone(), "external".into()));
        }
    }
    if let Some(b) = block {
        let mut parts = Parts::default();
        parts.visit_block(b);
        let mut sh = String::new();
        for l in &parts.loops {
            sh.push_str(match l {
                syn::Expr::ForLoop(_) => "for ",
                syn::Expr::While(_) => "while ",
                _ => "loop ",
            });
        }
        if formatter_param(sig).is_some() || fo.params.iter().any(|p| p.starts_with("vx_out")) {
            // the texts printed are compared with what the tool prints, not proved
            for m in &parts.prints {
                let _ = write!(sh, "{} ", quote::quote!(#m).to_string().split(',').find(|p| p.contains('"')).unwrap_or("").replace(' ', ""));
            }
        }
        let _ = write!(sh, "closures {} shifts {}", parts.closures.len(), parts.shifts);
        cx.rep.closures.insert(full.clone(), parts.closures.iter().map(|c| quote::quote!(#c).to_string()).collect());
        let h = quote::quote!(#b).to_string().bytes().fold(0xcbf29ce484222325u64, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3));
        cx.rep.hashes.insert(full.clone(), format!("{:016x}", h));
        cx.rep.shapes.insert(full, sh);
    }
    if cx.ov.fns.contains_key(key) {
        cx.ov.used.insert(key.to_string());
        cx.rep.functions.push((
            format!("{}::{}", cx.ov.module, key),
            if fo.external { "external".into() } else { "contract".into() },
        ));
    }
    for a in &fo.attrs {
        cx.ins(whole.0, format!("{}\n", a));
    }
    if fo.external {
        cx.ins(whole.0, "#[verifier::external_body]\n");
    }
    if let Some(syn::Visibility::Inherited) = vis {
        // before the signature keyword
        let (s, _) = rng(sig);
        let s = sig.constness.as_ref().map(|c| rng(c).0).unwrap_or(s);
        cx.ins(s, "pub ");
    }
    // return name
    if let syn::ReturnType::Type(_, t) = &sig.output {
        if !fo.spec.is_empty() || fo.ret_set {
            let (a, b) = rng(t);
            if let Some(ty) = &fo.ret_type {
                cx.put(a, b, format!("({}: {})", fo.ret, ty));
                cx.rep.rule("R-type", format!("{}: return type rewritten to {}", key, ty));
            } else {
                cx.ins(a, format!("({}: ", fo.ret));
                cx.ins(b, ")");
            }
        } else if let Some(ty) = &fo.ret_type {
            let (a, b) = rng(t);
            cx.put(a, b, ty.clone());
        }
    }
    // what a function reaches outside its parameters is passed in
    for (n, p) in fo.params.iter().enumerate() {
        let end = sig.paren_token.span.close().byte_range().start;
        cx.ins(end, format!("{}{}", if n == 0 && (sig.inputs.is_empty() || sig.inputs.trailing_punct()) { "" } else { ", " }, p));
        cx.rep.rule("R-param", format!("{}: parameter `{}` added", key, p));
    }
    // by-value reader/writer parameters -> &mut
    for name in &fo.byref {
        for input in &sig.inputs {
            if let syn::FnArg::Typed(pt) = input {
                if let syn::Pat::Ident(pi) = &*pt.pat {
                    if pi.ident == name.as_str() {
                        let (a, b) = rng(pt);
                        let (ta, tb) = rng(&pt.ty);
                        let _ = (a, b);
                        cx.put(a, ta, format!("{}: &mut ", name));
                        let _ = tb;
                        cx.rep.rule("R-byref", format!("{}: parameter `{}` taken by &mut", key, name));
                    }
                }
            }
        }
    }
    let mut toks = vec![];
    flat(tokens, &mut toks);
    let mut substs: Vec<(String, String, String)> = fo.substs.iter().map(|(r, a, b)| (r.clone(), a.clone(), b.clone())).collect();
    substs.extend(cx.ov.substs.iter().cloned());
    for name in &fo.byref {
        substs.push(("R-byref".into(), format!("&mut {}", name), format!("&mut *{}", name)));
    }
    // where two apply to overlapping tokens, the more specific one (those of the function come first) wins
    let mut taken: Vec<(usize, usize)> = vec![];
    for (rule, a, b) in &substs {
        let hits = find_tokens(&toks, &flat_str(a));
        for (s, e) in &hits {
            // in the signature, `mut from: R` handled above
            if fo.byref.iter().any(|n| a == &format!("&mut {}", n)) && block.map_or(false, |bl| *s < rng(bl).0) {
                continue;
            }
            if taken.iter().any(|(x, y)| s < y && x < e) {
                continue;
            }
            taken.push((*s, *e));
            cx.put(*s, *e, b.clone());
            cx.rep.rule(rule, format!("{}: `{}` => `{}`", key, a, b));
        }
    }
    // std functions that have a verified twin in the prelude
    for (a, b) in [
        ("u16::from_le_bytes", "crate::vx::bits::u16_from_le_bytes"),
        ("u16::from_be_bytes", "crate::vx::bits::u16_from_be_bytes"),
        ("u16::to_le_bytes", "crate::vx::bits::u16_to_le_bytes"),
        ("u32::to_le_bytes", "crate::vx::bits::u32_to_le_bytes"),
        ("u8::from", "<u8 as crate::vx::bits::FromTwin<_>>::vx_from"),
        ("u16::from", "<u16 as crate::vx::bits::FromTwin<_>>::vx_from"),
        ("u32::from", "<u32 as crate::vx::bits::FromTwin<_>>::vx_from"),
        ("u64::from", "<u64 as crate::vx::bits::FromTwin<_>>::vx_from"),
        ("i32::from", "<i32 as crate::vx::bits::FromTwin<_>>::vx_from"),
        ("char::from", "<char as crate::vx::bits::FromTwin<_>>::vx_from"),
        ("usize::from", "<usize as crate::vx::bits::FromTwin<_>>::vx_from"),
    ] {
        for (s, e) in &find_tokens(&toks, &flat_str(a)) {
            if !taken.iter().any(|(x, y)| s < y && x < e) {
                cx.put(*s, *e, b);
                cx.rep.rule("R-twin", format!("{}: `{}`", key, a));
            }
        }
    }
    // byte string literals: Verus keeps their content opaque
    for (t, s, e) in &toks {
        if t.starts_with("b\"") && !taken.iter().any(|(x, y)| s < y && x < e) {
            if let Ok(l) = syn::parse_str::<syn::LitByteStr>(t) {
                let v: Vec<String> = l.value().iter().map(|b| format!("{}u8", b)).collect();
                cx.put(*s, *e, format!("&[{}]", v.join(", ")));
                cx.rep.rule("R-bytestr", format!("{}: `{}`", key, t));
            }
        }
    }
    if !fo.spec.is_empty() {
        let at = match block {
            Some(b) => rng(b).0,
            None => semi.unwrap(),
        };
        cx.ins(at, format!("\n{}\n", fo.spec));
    }
    let block = match block {
        Some(b) => b,
        None => return,
    };
    if fo.external {
        let (s, e) = rng(block);
        cx.put(s, e, "{ unimplemented!() }");
        return;
    }
    drop_cfg_stmts(cx, block);
    let mut parts = Parts::default();
    parts.visit_block(block);
    // reference patterns
    let mut rn = 0usize;
    for a in &parts.arms {
        let (ed, lets) = refpats(cx, key, &a.pat, &mut rn);
        if ed.is_empty() {
            continue;
        }
        for (s, e, t) in ed {
            cx.put(s, e, t);
        }
        if lets.is_empty() {
            continue;
        }
        if let Some((_, g)) = &a.guard {
            let (s, e) = rng(&**g);
            cx.ins(s, format!("{{ {}", lets));
            cx.ins(e, " }");
        }
        let (s, e) = rng(&*a.body);
        cx.ins(s, format!("{{ {}", lets));
        cx.ins(e, " }");
    }
    // match E { P if G => A, W => return B }  =>  match E { P => { if G { A } else { return B } } W => return B }
    // (a guarded first arm of two leaves the second one to take everything)
    for m in &parts.matches {
        if m.arms.len() != 2 || m.arms[1].guard.is_some() || m.arms[0].guard.is_none() || !guardable(&m.arms[1]) {
            continue;
        }
        let (_, g) = m.arms[0].guard.as_ref().unwrap();
        let (pe, gs, ge) = (rng(&m.arms[0].pat).1, rng(&**g).0, rng(&**g).1);
        let (bs, be) = rng(&*m.arms[0].body);
        let (ws, we) = rng(&*m.arms[1].body);
        let w = cx.src[ws..we].to_string();
        cx.put(pe, gs, " => { if ");
        cx.put(ge, bs, " { ");
        cx.ins(be, format!(" }} else {{ {} }} }}", w));
        cx.rep.rule("R-guard", format!("{}: match guard turned into an if, its other arm copied into the else", key));
    }
    for (l, b) in &parts.iflets {
        let (ed, lets) = refpats(cx, key, &l.pat, &mut rn);
        for (s, e, t) in ed {
            cx.put(s, e, t);
        }
        if !lets.is_empty() {
            cx.ins(rng(*b).0 + 1, format!(" {}", lets));
        }
    }
    for l in &parts.locals {
        let (ed, lets) = refpats(cx, key, &l.pat, &mut rn);
        for (s, e, t) in ed {
            cx.put(s, e, t);
        }
        if !lets.is_empty() {
            cx.ins(rng(*l).1, format!(" {}", lets));
        }
    }
    for b in &parts.folds {
        let (s, e) = rng(*b);
        cx.put(s, e, folded(b).unwrap());
        cx.rep.rule("R-fold", format!("{}: a literal shifted by a literal", key));
    }
    for (path, arg) in cx.ov.passes.clone() {
        if !fo.params.iter().any(|p| p.split(':').next().unwrap_or("").trim() == arg) {
            continue;
        }
        for c in &parts.calls {
            let f = &c.func;
            if quote::quote!(#f).to_string().replace(' ', "") == path {
                let end = c.paren_token.span.close().byte_range().start;
                let sep = if c.args.is_empty() || c.args.trailing_punct() { "" } else { ", " };
                cx.ins(end, format!("{}{}", sep, arg));
                cx.rep.rule("R-param", format!("{}: `{}` passed on to {}", key, arg, path));
            }
        }
    }
    if let Some(f) = formatter_param(sig) {
        for m in &parts.prints {
            if m.path.is_ident("write") || m.path.is_ident("writeln") {
                rewrite_print(cx, key, m, Some(&f));
            }
        }
    }
    if fo.params.iter().any(|p| p.starts_with("vx_out")) {
        for m in &parts.prints {
            if m.path.is_ident("print") || m.path.is_ident("println") {
                rewrite_print(cx, key, m, None);
            }
        }
        for c in &parts.calls {
            if let syn::Expr::Path(p) = &*c.func {
                if let Some(f) = p.path.get_ident() {
                    if cx.ov.fns.get(&f.to_string()).map_or(false, |o| o.params.iter().any(|p| p.starts_with("vx_out"))) {
                        let end = c.paren_token.span.close().byte_range().start;
                        cx.ins(end, if c.args.is_empty() || c.args.trailing_punct() { "vx_out" } else { ", vx_out" });
                        cx.rep.rule("R-param", format!("{}: `vx_out` passed on to {}", key, f));
                    }
                }
            }
        }
    }
    // method renames
    for m in &parts.methods {
        if let Some(new) = fo.renames.get(&m.method.to_string()) {
            let (a, b) = rng(&m.method);
            cx.put(a, b, new.clone());
            cx.rep.rule("R-iter", format!("{}: .{}() => .{}()", key, m.method, new));
        }
    }
    // loops
    for (n, l) in parts.loops.iter().enumerate() {
        let lo = fo.loops.get(&n).cloned().unwrap_or_default();
        let body = match l {
            syn::Expr::ForLoop(f) => &f.body,
            syn::Expr::While(w) => &w.body,
            syn::Expr::Loop(x) => &x.body,
            _ => unreachable!(),
        };
        let (bs, be) = rng(body);
        let (ls, le) = rng(*l);
        if let Some(t) = fo.at.get(&format!("loop{}.before", n)) {
            cx.ins(ls, format!("{}\n", t));
        }
        let mut desugared = false;
        match l {
            syn::Expr::ForLoop(f) if fo.desugar.contains(&n) => {
                let (es, ee) = rng(&f.expr);
                let (ps, pe) = rng(&f.pat);
                let _ = (ps, pe);
                let (ed, lets) = refpats(cx, key, &f.pat, &mut rn);
                let pat = &pat_text(cx, &f.pat, &ed);
                if !lets.is_empty() {
                    cx.ins(bs + 1, format!(" {}", lets));
                }
                cx.put(ls, es, format!("{{ let mut __it{} = ", n));
                cx.put(ee, ee, format!(";{}\nloop\n{}\n{{ match __it{}.next() {{ Some({}) => ",
                    fo.at.get(&format!("loop{}.init", n)).cloned().unwrap_or_default(), lo.spec, n, pat));
                cx.ins(be, ", None => { break } } } }");
                cx.rep.rule("R-for", format!("{}: `for {} in` desugared to loop/match next", key, pat));
                desugared = true;
            }
            syn::Expr::ForLoop(f) => {
                let (ed, lets) = refpats(cx, key, &f.pat, &mut rn);
                for (s, e, t) in ed {
                    cx.put(s, e, t);
                }
                if !lets.is_empty() {
                    cx.ins(bs + 1, format!(" {}", lets));
                }
                if let Some(it) = &lo.iter {
                    cx.ins(rng(&f.expr).0, format!("{}: ", it));
                }
            }
            _ => {}
        }
        if !desugared && !lo.spec.is_empty() {
            cx.ins(bs, format!("\n{}\n", lo.spec));
        }
        if let Some(t) = fo.at.get(&format!("loop{}.start", n)) {
            cx.ins(bs + 1, format!("\n{}\n", t));
        }
        if let Some(t) = fo.at.get(&format!("loop{}.end", n)) {
            // before a tail expression, if the body has one; after the last statement otherwise
            let tail = match body.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) => {
                    let r = rng(e);
                    cx.ins(r.1, ";");
                    be - 1
                }
                _ => be - 1,
            };
            cx.ins(tail, format!("\n{}\n", t));
        }
        if let Some(t) = fo.at.get(&format!("loop{}.after", n)) {
            // after the statement's optional semicolon
            let mut p = le;
            if cx.src[p..].trim_start().starts_with(';') {
                p = p + cx.src[p..].find(';').unwrap() + 1;
            }
            cx.ins(p, format!("\n{}\n", t));
        }
    }
    for (n, _) in &fo.loops {
        if *n >= parts.loops.len() {
            cx.rep.hints_lost.push(format!("{}::{}: loop {}", cx.ov.module, key, n));
        }
    }
    // closures
    let full = format!("{}::{}", cx.ov.module, key);
    let texts: Vec<String> = parts.closures.iter().map(|c| quote::quote!(#c).to_string()).collect();
    let base = cx.rep.base_closures.get(&full).cloned().unwrap_or_default();
    for (j, c) in parts.closures.iter().enumerate() {
        // closures that changed places keep their annotations
        let mut n = j;
        if base.len() == texts.len() && base[j] != texts[j] {
            if let Some(i) = (0..base.len()).find(|&i| base[i] == texts[j] && texts[i] != base[i]) {
                n = i;
            } else if let Some(i) = (0..base.len()).find(|&i| !texts.contains(&base[i]) && base.iter().enumerate().filter(|(_, b)| !texts.contains(b)).count() == 1) {
                n = i;
            }
        }
        if let Some(co) = fo.closures.get(&n) {
            let (bs, be) = rng(&c.body);
            let mut pre = co.pre.clone();
            if let Some(ps) = &co.params {
                let a = rng(&c.or1_token).1;
                let b = rng(&c.or2_token).0;
                let pat = cx.src[a..b].trim();
                match pat.strip_prefix('&') {
                    Some(p) => pre = pre.replace("let $PAT = __p;", &format!("let {} = *__p;", p)),
                    None => pre = pre.replace("$PAT", pat),
                }
                cx.put(a, b, ps.clone());
                cx.rep.rule("R-closure-pat", format!("{}: closure {} parameter pattern `{}` => `{}`", key, n, &cx.src[a..b], ps));
            }
            let needs_brace = !matches!(*c.body, syn::Expr::Block(_));
            cx.ins(bs, format!(" -> {} {}\n{{ {} ", co.ret, co.spec, pre));
            let _ = needs_brace;
            cx.ins(be, " }");
        }
    }
    for (n, _) in &fo.closures {
        if *n >= parts.closures.len() {
            cx.rep.hints_lost.push(format!("{}::{}: closure {}", cx.ov.module, key, n));
        }
    }
    // start / end / before / after
    let (bs, be) = rng(block);
    cx.ins(be, " /*@@end*/ ");
    if let Some(t) = fo.at.get("start") {
        cx.ins(bs + 1, format!("\n{}\n", t));
    }
    if let Some(t) = fo.at.get("end") {
        let unit = matches!(sig.output, syn::ReturnType::Default);
        let p = match block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if unit => {
                cx.ins(rng(e).1, ";");
                be - 1
            }
            Some(syn::Stmt::Expr(e, None)) => rng(e).0,
            _ => be - 1,
        };
        cx.ins(p, format!("\n{}\n", t));
    }
    if let Some(t) = fo.at.get("bindtail") {
        match block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => {
                let (a, b) = rng(e);
                cx.ins(a, "let __ret = ");
                cx.ins(b, format!(";\n{}\n__ret", t));
            }
            _ => cx.ins(be - 1, format!("\n{}\n", t)),
        }
    }
    for (k, t) in &fo.at {
        let (before, pat) = if let Some(p) = k.strip_prefix("before ") {
            (true, p)
        } else if let Some(p) = k.strip_prefix("after ") {
            (false, p)
        } else {
            continue;
        };
        let (pat, nth) = match pat.rsplit_once(" #") {
            Some((p, n)) if n.trim().parse::<usize>().is_ok() => (p, n.trim().parse::<usize>().unwrap()),
            _ => (pat, 0),
        };
        let hits = find_tokens(&toks, &flat_str(pat));
        match hits.get(nth) {
            Some((s, e)) => {
                // innermost statement containing the hit
                let best = parts
                    .stmts
                    .iter()
                    .filter(|(a, b)| a <= s && e <= b)
                    .min_by_key(|(a, b)| b - a);
                match best {
                    Some((a, b)) => {
                        if before {
                            cx.ins(*a, format!("{}\n", t));
                        } else {
                            cx.ins(*b, format!("\n{}\n", t));
                        }
                    }
                    None => cx.rep.hints_lost.push(format!("{}::{}: {}", cx.ov.module, key, k)),
                }
            }
            None => cx.rep.hints_lost.push(format!("{}::{}: {}", cx.ov.module, key, k)),
        }
    }
}

fn handle_derives(cx: &mut Ctx, name: &str, attrs: &[syn::Attribute], start: usize) -> BTreeSet<String> {
    let mut all = BTreeSet::new();
    for a in attrs {
        let (s, e) = rng(a);
        if a.path().is_ident("derive") {
            let mut keep = vec![];
            let _ = a.parse_nested_meta(|m| {
                let d = m.path.segments.last().unwrap().ident.to_string();
                all.insert(d.clone());
                match d.as_str() {
                    "Debug" | "Default" | "Parser" | "Subcommand" | "Args" => {}
                    "PartialEq" | "Eq" => {
                        if cx.ov.structural.contains(name) {
                            keep.push(d)
                        }
                    }
                    "Clone" => {
                        if !cx.ov.derive_clone.contains_key(name) && !cx.ov.no_clone.contains(name) {
                            keep.push(d)
                        }
                    }
                    _ => keep.push(d),
                }
                Ok(())
            });
            if cx.ov.structural.contains(name) && keep.iter().any(|k| k == "PartialEq") {
                keep.push("Structural".into());
            }
            if keep.is_empty() {
                cx.put(s, e, "");
            } else {
                cx.put(s, e, format!("#[derive({})]", keep.join(", ")));
            }
        } else {
            cx.put(s, e, "");
        }
    }
    if let Some(a) = cx.ov.attrs.get(name) {
        let a = a.clone();
        cx.ins(start, format!("{}\n", a));
    }
    all
}

fn flatten_use(prefix: &str, t: &syn::UseTree, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => flatten_use(&format!("{}{}::", prefix, p.ident), &p.tree, out),
        syn::UseTree::Name(n) => out.push(format!("{}{}", prefix, n.ident)),
        syn::UseTree::Rename(r) => out.push(format!("{}{} as {}", prefix, r.ident, r.rename)),
        syn::UseTree::Glob(_) => out.push(format!("{}*", prefix)),
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(prefix, i, out)
            }
        }
    }
}

const DROP_USES: &[&str] = &[
    "std", "std::fmt", "anyhow::ensure", "anyhow::bail", "anyhow::anyhow", "anyhow::format_err",
    "lazy_static::lazy_static", "more_asserts::assert_ge", "more_asserts::assert_le",
    "itertools::Itertools", "std::ops::BitOrAssign", "std::convert::TryFrom", "std::u16", "clap", "flate2", "librezip", "sha2",
];
const MAP_USES: &[(&str, &str)] = &[
    ("std::io::", "crate::vx::io::"),
    ("std::io", "crate::vx::io"),
    ("std::iter", "crate::vx::iter"),
    ("std::fs::", "crate::vx::fs::"),
    ("std::fs", "crate::vx::fs"),
    ("std::path::", "crate::vx::fs::"),
    ("anyhow::", "crate::vx::anyhow::"),
    ("byteorder::", "crate::vx::byteorder::"),
    ("sha2::", "crate::vx::sha2::"),
    ("crc::", "crate::vx::crc::"),
];

fn map_use(u: &str, ov: &FileOverlay) -> Option<String> {
    if ov.drop_use.contains(u) || DROP_USES.contains(&u) {
        return None;
    }
    if u == "std::io::Read" {
        return Some("crate::vx::io::{Read, ReadExact, ReadTake}".into());
    }
    if u == "std::io::Write" {
        return Some("crate::vx::io::{Write, WriteAll}".into());
    }
    for (a, b) in MAP_USES {
        if a.ends_with("::") {
            if let Some(r) = u.strip_prefix(a) {
                return Some(format!("{}{}", b, r));
            }
        } else if u == *a {
            return Some((*b).to_string());
        }
    }
    Some(u.to_string())
}

fn do_fields(cx: &mut Ctx, f: &syn::Fields) {
    match f {
        syn::Fields::Named(n) => {
            for x in &n.named {
                for a in &x.attrs {
                    let (s, e) = rng(a);
                    cx.put(s, e, "");
                }
                if let syn::Visibility::Inherited = x.vis {
                    let s = rng(x.ident.as_ref().unwrap()).0;
                    cx.ins(s, "pub ");
                }
            }
        }
        syn::Fields::Unnamed(n) => {
            for x in &n.unnamed {
                if let syn::Visibility::Inherited = x.vis {
                    let s = rng(&x.ty).0;
                    cx.ins(s, "pub ");
                }
            }
        }
        syn::Fields::Unit => {}
    }
}

fn pub_item(cx: &mut Ctx, vis: &syn::Visibility, kw: usize) {
    if let syn::Visibility::Inherited = vis {
        cx.ins(kw, "pub ");
    }
}

fn do_item(cx: &mut Ctx, it: &syn::Item) {
    let (ws, we) = rng(it);
    match it {
        syn::Item::Use(u) => {
            let mut v = vec![];
            flatten_use("", &u.tree, &mut v);
            let test = is_cfg_test(&u.attrs);
            let mut text = String::new();
            for x in v {
                if test {
                    continue;
                }
                if cx.ov.module == "root" && x.starts_with("crate::") && !cx.rep.extracted.is_empty()
                    && !cx.rep.extracted.contains(x.split("::").nth(1).unwrap_or("")) {
                    continue;
                }
                if let Some(m) = map_use(&x, cx.ov) {
                    let vis = if matches!(u.vis, syn::Visibility::Inherited) { "" } else { "pub " };
                    let _ = write!(text, "{}use {};\n", vis, m);
                }
            }
            cx.put(ws, we, text);
        }
        syn::Item::ExternCrate(_) => cx.put(ws, we, ""),
        syn::Item::Mod(_) => cx.put(ws, we, ""),
        syn::Item::Fn(f) => {
            if is_cfg_test(&f.attrs) {
                return cx.put(ws, we, "");
            }
            let key = f.sig.ident.to_string();
            do_fn(cx, &key, (ws, we), Some(&f.vis), &f.attrs, &f.sig, Some(&f.block), None, quote::quote!(#f));
        }
        syn::Item::Struct(s) => {
            let name = s.ident.to_string();
            if cx.ov.skip.contains(&name) {
                return cx.put(ws, we, "");
            }
            let all = handle_derives(cx, &name, &s.attrs, ws);
            if let Some(req) = cx.ov.require_derive.get(&name).cloned() {
                for r in req {
                    if !all.contains(&r) {
                        cx.rep.lost.push(format!("{}: derive({}) on {}", cx.ov.module, r, name));
                    }
                }
            }
            pub_item(cx, &s.vis, rng(&s.struct_token).0);
            do_fields(cx, &s.fields);
            let mut toks = vec![];
            flat(quote::quote!(#s), &mut toks);
            for (r, a, b) in cx.ov.substs.clone() {
                for (x, y) in find_tokens(&toks, &flat_str(&a)) {
                    cx.put(x, y, b.clone());
                    cx.rep.rule(&r, format!("{}: `{}` => `{}`", name, a, b));
                }
            }
            if let Some(c) = cx.ov.derive_clone.get(&name).cloned() {
                if !all.contains("Clone") {
                    cx.rep.lost.push(format!("{}: derive(Clone) on {}", cx.ov.module, name));
                } else {
                    let (ig, tg, wc) = s.generics.split_for_impl();
                    let mut b = String::new();
                    for f in s.fields.iter() {
                        let i = f.ident.as_ref().unwrap();
                        let _ = write!(b, "{}: self.{}.clone(), ", i, i);
                    }
                    cx.ins(we, format!("\nimpl {} Clone for {} {} {} {{ /*@@ {}::{}::clone */ fn clone(&self) -> (r: Self)\n{}\n{{ {} {{ {} }} }} }}\n",
                        quote::quote!(#ig), name, quote::quote!(#tg), quote::quote!(#wc), cx.ov.module, name, c, name, b));
                    cx.rep.rule("R-derive", format!("derive(Clone) on {} expanded field by field", name));
                    cx.rep.functions.push((format!("{}::{}::clone", cx.ov.module, name), "contract".into()));
                }
            }
        }
        syn::Item::Enum(e) => {
            let name = e.ident.to_string();
            if cx.ov.skip.contains(&name) {
                return cx.put(ws, we, "");
            }
            handle_derives(cx, &name, &e.attrs, ws);
            pub_item(cx, &e.vis, rng(&e.enum_token).0);
        }
        syn::Item::Type(t) => {
            pub_item(cx, &t.vis, rng(&t.type_token).0);
        }
        syn::Item::Const(c) => {
            let name = c.ident.to_string();
            if cx.ov.skip.contains(&name) {
                return cx.put(ws, we, "");
            }
            for a in &c.attrs {
                let (s, e) = rng(a);
                cx.put(s, e, "");
            }
            if let Some(t) = cx.ov.consts.get(&name).cloned() {
                pub_item(cx, &c.vis, rng(&c.const_token).0);
                cx.ins(rng(&c.const_token).0, "exec ");
                cx.ins(rng(&c.const_token).0, "");
                let (es, ee) = rng(&c.expr);
                let (qs, _) = rng(&c.eq_token);
                cx.put(qs, es, format!("\n{}\n{{ ", t));
                cx.put(ee, we, " }");
                cx.rep.rule("R-const", format!("{}: const checked as exec const", name));
            } else {
                pub_item(cx, &c.vis, rng(&c.const_token).0);
            }
        }
        syn::Item::Trait(t) => {
            let name = t.ident.to_string();
            if cx.ov.skip.contains(&name) {
                return cx.put(ws, we, "");
            }
            pub_item(cx, &t.vis, rng(&t.trait_token).0);
            let open = t.brace_token.span.open().byte_range().end;
            if let Some(g) = cx.ov.implghost.get(&format!("trait {}", name)).cloned() {
                cx.ins(open, format!("\n{}\n", g));
                cx.ov.used_impl.insert(format!("trait {}", name));
            }
            for i in &t.items {
                if let syn::TraitItem::Fn(f) = i {
                    let key = format!("trait {}::{}", name, f.sig.ident);
                    let semi = f.semi_token.as_ref().map(|s| rng(s).0);
                    do_fn(cx, &key, rng(f), None, &f.attrs, &f.sig, f.default.as_ref(), semi, quote::quote!(#f));
                }
            }
        }
        syn::Item::Impl(im) => {
            if is_cfg_test(&im.attrs) {
                return cx.put(ws, we, "");
            }
            let ty = type_name(&im.self_ty);
            let tr = im.trait_.as_ref().map(|(_, p, _)| {
                let s = p.segments.last().unwrap();
                match &s.arguments {
                    syn::PathArguments::None => s.ident.to_string(),
                    a => format!("{}{}", s.ident, quote::quote!(#a).to_string().replace(' ', "")),
                }
            });
            let ikey = match &tr {
                Some(t) => format!("{} for {}", t, ty),
                None => ty.clone(),
            };
            if matches!(tr.as_deref(), Some("Debug") | Some("Default")) && !cx.ov.inherent.contains(&ikey) || cx.ov.skip.contains(&ikey) {
                cx.rep.rule("R-drop", format!("impl {} dropped", ikey));
                return cx.put(ws, we, "");
            }
            let inherent = cx.ov.inherent.contains(&ikey);
            if inherent {
                let (_, p, forr) = im.trait_.as_ref().unwrap();
                let a = rng(p).0;
                let b = rng(forr).1;
                cx.put(a, b, "");
                cx.rep.rule("R-inherent", format!("impl {}: methods checked as inherent methods", ikey));
            }
            let open = im.brace_token.span.open().byte_range().end;
            if let Some(g) = cx.ov.implghost.get(&format!("impl {}", ikey)).cloned().filter(|_| !cx.ov.used_impl.contains(&format!("impl {}", ikey))) {
                cx.ins(open, format!("\n{}\n", g));
                cx.ov.used_impl.insert(format!("impl {}", ikey));
            }
            let mut item_ty = None;
            for i in &im.items {
                if let syn::ImplItem::Type(t) = i {
                    if inherent {
                        let (a, b) = rng(t);
                        let (ta, tb) = rng(&t.ty);
                        item_ty = Some((t.ident.to_string(), cx.src[ta..tb].to_string()));
                        cx.put(a, b, "");
                    }
                }
            }
            for i in &im.items {
                if let syn::ImplItem::Fn(f) = i {
                    if is_cfg_test(&f.attrs) {
                        let (a, b) = rng(f);
                        cx.put(a, b, "");
                        continue;
                    }
                    let key = format!("{}::{}", ikey, f.sig.ident);
                    let vis = if tr.is_some() && !inherent { None } else { Some(&f.vis) };
                    if let Some((n, t)) = &item_ty {
                        cx.ov.substs.push(("R-inherent".into(), format!("Self::{}", n), t.clone()));
                    }
                    do_fn(cx, &key, rng(f), vis, &f.attrs, &f.sig, Some(&f.block), None, quote::quote!(#f));
                    if item_ty.is_some() {
                        cx.ov.substs.pop();
                    }
                }
            }
            // substitutions in the impl header
            let mut toks = vec![];
            flat(quote::quote!(#im), &mut toks);
            let hdr: Vec<_> = toks.into_iter().filter(|t| t.2 <= open).collect();
            for (r, a, b) in cx.ov.substs.clone() {
                for (x, y) in find_tokens(&hdr, &flat_str(&a)) {
                    cx.put(x, y, b.clone());
                    cx.rep.rule(&r, format!("impl {}: `{}` => `{}`", ikey, a, b));
                }
            }
        }
        syn::Item::Macro(m) => {
            if m.mac.path.segments.last().map_or(false, |s| s.ident == "lazy_static") {
                do_lazy(cx, m, ws, we);
            } else {
                cx.put(ws, we, "");
            }
        }
        syn::Item::Static(_) => {}
        _ => {
            cx.put(ws, we, "");
            cx.rep.rule("R-drop", "unrecognised item dropped".to_string());
        }
    }
}

/// lazy_static! { pub static ref NAME: TYPE = EXPR; }  =>  fn NAME_init() (checked) and fn NAME()
fn do_lazy(cx: &mut Ctx, m: &syn::ItemMacro, ws: usize, we: usize) {
    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let mut i = 0;
    let mut out = String::new();
    while i < toks.len() {
        // find `ref`
        while i < toks.len() && toks[i].to_string() != "ref" {
            i += 1;
        }
        if i >= toks.len() {
            break;
        }
        let name = toks[i + 1].to_string();
        let ty_s = toks[i + 3].span().byte_range().start;
        let mut j = i + 3;
        while toks[j].to_string() != "=" {
            j += 1;
        }
        let ty_e = toks[j - 1].span().byte_range().end;
        let ex_s = toks[j + 1].span().byte_range().start;
        let mut k = j + 1;
        while k < toks.len() && toks[k].to_string() != ";" {
            k += 1;
        }
        let ex_e = toks[k - 1].span().byte_range().end;
        let ty = &cx.src[ty_s..ty_e];
        let ex = &cx.src[ex_s..ex_e];
        let fsrc = format!("pub fn {}_init() -> {} {{ {} }}", name, ty, ex);
        // run the generated fn through the normal path
        let f: syn::ItemFn = syn::parse_str(&fsrc).expect("lazy_static initialiser");
        let mut sub = Ctx { src: &fsrc, edits: vec![], ov: cx.ov, rep: cx.rep };
        let key = format!("{}_init", name);
        let r = rng(&f);
        do_fn(&mut sub, &key, r, Some(&f.vis), &f.attrs, &f.sig, Some(&f.block), None, quote::quote!(#f));
        let edits = sub.edits;
        out.push_str(&apply(&fsrc, edits));
        let spec = cx.ov.fns.get(&key).map(|f| f.spec.clone()).unwrap_or_default();
        let _ = write!(out, "\n#[verifier::external_body]\n/*@@ {}::{} */ pub fn {}() -> (r: &'static {})\n{}\n{{ unimplemented!() }}\n",
            cx.ov.module, name, name, ty, spec);
        cx.rep.rule("R-lazy", format!("{}: lazy_static checked as its initialiser; reading it gives the initialiser's result", name));
        i = k + 1;
    }
    cx.put(ws, we, out);
}

pub fn apply(src: &str, mut edits: Vec<Edit>) -> String {
    // drop edits strictly inside a replaced range that removes text
    let repl: Vec<(usize, usize, usize)> =
        edits.iter().filter(|e| e.end > e.start).map(|e| (e.start, e.end, e.seq)).collect();
    edits.retain(|e| {
        !repl.iter().any(|&(s, en, q)| {
            q != e.seq
                && ((e.start > s && e.end < en)
                    || (e.start >= s && e.end <= en && e.end > e.start && ((en - s) > (e.end - e.start) || q < e.seq)))
        })
    });
    edits.sort_by_key(|e| (e.start, e.end, e.seq));
    let mut out = String::new();
    let mut p = 0;
    for e in edits {
        if e.start > p {
            out.push_str(&src[p..e.start]);
            p = e.start;
        }
        out.push_str(&e.text);
        if e.end > p {
            p = e.end;
        }
    }
    out.push_str(&src[p..]);
    out
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let repo = get("--repo").unwrap_or("/repo".into());
    let ovdir = get("--overlay").expect("--overlay");
    let out = get("--out").expect("--out");
    let report = get("--report");
    let no_inline = args.iter().any(|a| a == "--no-inline");
    let only: Option<Vec<String>> = get("--only").map(|s| s.split(',').map(String::from).collect());
    let order = fs::read_to_string(Path::new(&ovdir).join("ORDER")).expect("ORDER");
    let mut text = String::new();
    let mut rep = Report::default();
    if let Some(o) = &only {
        rep.extracted = o.iter().cloned().collect();
    }
    if let Ok(t) = fs::read_to_string(Path::new(&ovdir).join("CLOSURES.txt")) {
        for l in t.lines() {
            if let Some((k, c)) = l.split_once('\t') {
                rep.base_closures.entry(k.to_string()).or_default().push(c.to_string());
            }
        }
    }
    if let Some(l) = get("--external") {
        rep.force_external = l.split(',').map(String::from).collect();
    }
    for line in order.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(f) = line.strip_prefix("raw ") {
            text.push_str(&fs::read_to_string(Path::new(&ovdir).join(f)).unwrap());
            text.push('\n');
            continue;
        }
        if let Some(o) = &only {
            if !o.iter().any(|m| format!("{}.vx", m) == line) {
                continue;
            }
        }
        let ovpath = Path::new(&ovdir).join(line);
        let mut ov = overlay::parse(&fs::read_to_string(&ovpath).unwrap_or_else(|e| panic!("{:?}: {}", ovpath, e)));
        let srcpath = Path::new(&repo).join(&ov.path);
        let mut src = match fs::read_to_string(&srcpath) {
            Ok(s) => s,
            Err(e) => {
                rep.lost.push(format!("{}: {}", srcpath.display(), e));
                continue;
            }
        };
        if !no_inline {
            src = inline::inline_helpers(&src, &ov, &mut rep);
        }
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                rep.errors.push(format!("{}: {}", srcpath.display(), e));
                continue;
            }
        };
        let (edits, module, header, ghost);
        {
            let mut cx = Ctx { src: &src, edits: vec![], ov: &mut ov, rep: &mut rep };
            for a in &file.attrs {
                let (s, e) = rng(a);
                cx.put(s, e, "");
            }
            for it in &file.items {
                do_item(&mut cx, it);
            }
            edits = std::mem::take(&mut cx.edits);
        }
        module = ov.module.clone();
        header = ov.header.clone();
        ghost = ov.ghost.clone();
        for k in ov.fns.keys() {
            if !ov.used.contains(k) {
                rep.lost.push(format!("{}::{}", module, k));
            }
        }
        for k in ov.implghost.keys() {
            if !ov.used_impl.contains(k) {
                rep.lost.push(format!("{}: {}", module, k));
            }
        }
        let body = apply(&src, edits);
        if module == "root" {
            let _ = write!(text, "{}\nverus! {{\n{}\n{}\n}} // verus root\n", header, body, ghost);
        } else {
            let _ = write!(
                text,
                "\npub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::prelude::*;\n{}\nverus! {{\n{}\n{}\n}} // verus\n}} // mod {}\n",
                module, header, body, ghost, module
            );
        }
    }
    fs::write(&out, text).unwrap();
    if let Some(r) = report {
        let mut j = String::from("{\n");
        let _ = write!(j, " \"closures\": {{{}}},\n", rep.closures.iter().map(|(a, b)| format!("{}: [{}]", jstr(a), b.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "));
        let _ = write!(j, " \"hashes\": {{{}}},\n", rep.hashes.iter().map(|(a, b)| format!("{}: {}", jstr(a), jstr(b))).collect::<Vec<_>>().join(", "));
        let _ = write!(j, " \"shapes\": {{{}}},\n", rep.shapes.iter().map(|(a, b)| format!("{}: {}", jstr(a), jstr(b))).collect::<Vec<_>>().join(", "));
        let list = |v: &[String]| v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ");
        let _ = write!(j, " \"functions\": {{{}}},\n", rep.functions.iter().map(|(a, b)| format!("{}: {}", jstr(a), jstr(b))).collect::<Vec<_>>().join(", "));
        let _ = write!(j, " \"lost\": [{}],\n \"hints_lost\": [{}],\n \"errors\": [{}],\n", list(&rep.lost), list(&rep.hints_lost), list(&rep.errors));
        let _ = write!(j, " \"rules\": {{{}}}\n}}\n", rep.rules.iter().map(|(a, b)| format!("{}: [{}]", jstr(a), list(b))).collect::<Vec<_>>().join(", "));
        fs::write(r, j).unwrap();
    }
}
