//! reads the emitted code: evaluates the functions of the emitted parser on given arguments
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Num(u64),
    Name(String),
    Call(String, Vec<V>),
    Set(Vec<V>),
    Tup(Vec<V>),
    Str(String),
    Panic,
    Opaque,
}
pub struct Code {
    pub fns: BTreeMap<String, ImplItemFn>,
    pub header: String,
    pub terminals: Vec<String>,
    pub non_terminals: Vec<String>,
    pub shown: BTreeMap<String, BTreeMap<String, String>>,
    pub lexical: Vec<Vec<(String, String)>>,
    pub end: String,
    pub duplicates: Vec<String>,
}
fn flat(ts: proc_macro2::TokenStream, o: &mut Vec<String>) {
    use proc_macro2::{Delimiter as D, TokenTree as TT};
    for t in ts {
        match t {
            TT::Group(g) => {
                let (a, b) = match g.delimiter() {
                    D::Parenthesis => ("(", ")"),
                    D::Brace => ("{", "}"),
                    D::Bracket => ("[", "]"),
                    D::None => ("", ""),
                };
                o.push(a.into());
                flat(g.stream(), o);
                o.push(b.into());
            }
            t => o.push(t.to_string()),
        }
    }
}
/// the tokens, separated by one blank each
pub fn norm<X: ToTokens>(x: &X) -> String {
    let mut o = vec![];
    flat(x.to_token_stream(), &mut o);
    o.join(" ")
}
pub fn norm_str(s: &str) -> std::result::Result<String, String> {
    s.parse::<proc_macro2::TokenStream>().map(|t| norm(&t)).map_err(|e| format!("{e}: {s}"))
}
fn lit_str(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Paren(p) => lit_str(&p.expr),
        Expr::Reference(p) => lit_str(&p.expr),
        _ => None,
    }
}
fn last(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Expr::Paren(p) => last(&p.expr),
        _ => None,
    }
}
fn elems(e: &Expr) -> Vec<Expr> {
    match e {
        Expr::Array(a) => a.elems.iter().cloned().collect(),
        Expr::Reference(r) => elems(&r.expr),
        Expr::Paren(r) => elems(&r.expr),
        _ => vec![],
    }
}
/// finds the arguments of LexicalAnalyzer::new in a token stream
fn find_new(ts: proc_macro2::TokenStream) -> Option<Vec<Expr>> {
    use proc_macro2::TokenTree as TT;
    let v: Vec<TT> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let TT::Group(g) = t {
            if i > 0 && matches!(&v[i - 1], TT::Ident(x) if x == "new") {
                let a: punctuated::Punctuated<Expr, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::parse_terminated, g.stream()).ok()?;
                return Some(a.into_iter().collect());
            }
            if let Some(r) = find_new(g.stream()) {
                return Some(r);
            }
        }
    }
    None
}
/// what a Display arm writes: write!(f, "text"), write!(f, "{}", "text") or f.write_str("text")
fn shown(e: &Expr) -> Option<String> {
    match e {
        Expr::Macro(w) if w.mac.path.is_ident("write") => {
            let a: punctuated::Punctuated<Expr, Token![,]> = w.mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
            let l: Vec<String> = a.iter().skip(1).map(lit_str).collect::<Option<_>>()?;
            match l.len() {
                2 if l[0] == "{}" => Some(l[1].clone()),
                1 => {
                    let t = l[0].replace("{{", "\u{1}").replace("}}", "\u{2}");
                    if t.contains(['{', '}']) { None } else { Some(t.replace('\u{1}', "{").replace('\u{2}', "}")) }
                }
                _ => None,
            }
        }
        Expr::MethodCall(m) if m.method == "write_str" || m.method == "pad" => lit_str(m.args.first()?),
        Expr::Paren(p) => shown(&p.expr),
        Expr::Block(b) => match b.block.stmts.last()? {
            Stmt::Expr(e, _) => shown(e),
            _ => None,
        },
        _ => None,
    }
}
struct Dups(Vec<String>);
impl Dups {
    fn pats(p: &Pat, out: &mut Vec<String>) {
        match p {
            Pat::Or(o) => o.cases.iter().for_each(|c| Dups::pats(c, out)),
            Pat::Paren(o) => Dups::pats(&o.pat, out),
            o => out.push(norm(o)),
        }
    }
    fn expr(&mut self, e: &Expr, what: &str) {
        match e {
            Expr::Match(m) => {
                let mut v = vec![];
                for a in &m.arms {
                    if a.guard.is_none() {
                        Dups::pats(&a.pat, &mut v);
                    }
                    self.expr(&a.body, what);
                }
                let mut s = v.clone();
                s.sort();
                for w in s.windows(2) {
                    if w[0] == w[1] {
                        self.0.push(format!("{what}: {} occurs twice", w[0]));
                    }
                }
            }
            Expr::Block(b) => self.block(&b.block, what),
            Expr::If(i) => {
                self.block(&i.then_branch, what);
                if let Some((_, e)) = &i.else_branch {
                    self.expr(e, what)
                }
            }
            _ => (),
        }
    }
    fn block(&mut self, b: &Block, what: &str) {
        for s in &b.stmts {
            match s {
                Stmt::Expr(e, _) => self.expr(e, what),
                _ => (),
            }
        }
    }
}
impl Code {
    pub fn parse(text: &str) -> std::result::Result<Code, String> {
        let f = syn::parse_file(text).map_err(|e| format!("the emitted code is not Rust: {e}"))?;
        let mut c = Code { fns: BTreeMap::new(), header: String::new(), terminals: vec![], non_terminals: vec![], shown: BTreeMap::new(), lexical: vec![], end: String::new(), duplicates: vec![] };
        for it in &f.items {
            match it {
                Item::Enum(e) => {
                    let v: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
                    if e.ident == "AATerminal" {
                        c.terminals = v
                    } else if e.ident == "AANonTerminal" {
                        c.non_terminals = v
                    }
                }
                Item::Macro(m) if !m.mac.path.is_ident("macro_rules") => {
                    if let Some(a) = find_new(m.mac.tokens.clone()) {
                        if a.len() != 4 {
                            return Err("LexicalAnalyzer::new does not have four arguments".into());
                        }
                        for x in &a[..2] {
                            let mut v = vec![];
                            for e in elems(x) {
                                match &e {
                                    Expr::Tuple(t) if t.elems.len() == 2 => v.push((last(&t.elems[0]).ok_or("token name")?, lit_str(&t.elems[1]).ok_or("token text")?)),
                                    _ => return Err("malformed lexical definition".into()),
                                }
                            }
                            c.lexical.push(v);
                        }
                        c.lexical.push(elems(&a[2]).iter().map(|e| (String::new(), lit_str(e).unwrap_or_default())).collect());
                        c.end = last(&a[3]).unwrap_or_default();
                    }
                }
                Item::Impl(i) => {
                    let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                    if tr == "Parser" {
                        c.header = format!("{} for {}", norm(&i.trait_.as_ref().unwrap().1), norm(&i.self_ty));
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                let mut d = Dups(vec![]);
                                d.block(&f.block, &f.sig.ident.to_string());
                                c.duplicates.append(&mut d.0);
                                c.fns.insert(f.sig.ident.to_string(), f.clone());
                            }
                        }
                    } else if tr == "Display" {
                        let mut m = BTreeMap::new();
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                for s in &f.block.stmts {
                                    if let Stmt::Expr(Expr::Match(mm), _) = s {
                                        for a in &mm.arms {
                                            let mut v = vec![];
                                            Dups::pats(&a.pat, &mut v);
                                            let txt = shown(&a.body);
                                            for n in v {
                                                m.insert(n.rsplit(": ").next().unwrap().to_string(), txt.clone().unwrap_or_else(|| "?".into()));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        c.shown.insert(norm(&i.self_ty), m);
                    }
                }
                _ => (),
            }
        }
        Ok(c)
    }
    pub fn call(&self, f: &str, args: &[V], preds: &BTreeMap<String, bool>) -> std::result::Result<V, String> {
        let f = self.fns.get(f).ok_or_else(|| format!("there is no function {f}"))?;
        let mut env = BTreeMap::new();
        let mut k = 0;
        for p in &f.sig.inputs {
            if let FnArg::Typed(t) = p {
                if let Pat::Ident(i) = &*t.pat {
                    env.insert(i.ident.to_string(), args.get(k).cloned().unwrap_or(V::Opaque));
                }
                k += 1;
            }
        }
        block(&f.block, &mut env, preds)
    }
    /// production id -> body of its arm
    pub fn actions(&self) -> std::result::Result<BTreeMap<u64, String>, String> {
        let f = self.fns.get("do_semantic_action").ok_or("there is no do_semantic_action")?;
        let mut out = BTreeMap::new();
        for s in &f.block.stmts {
            if let Stmt::Expr(Expr::Match(m), _) = s {
                for a in &m.arms {
                    if let Pat::Lit(PatLit { lit: Lit::Int(i), .. }) = &a.pat {
                        let mut b = norm(&a.body);
                        if let Expr::Block(bl) = &*a.body {
                            b = bl.block.stmts.iter().map(norm).collect::<Vec<_>>().join(" ");
                        }
                        if out.insert(i.base10_parse::<u64>().unwrap(), b).is_some() {
                            return Err(format!("production {i} has two actions"));
                        }
                    }
                }
            }
        }
        Ok(out)
    }
}
type R = std::result::Result<V, String>;
type Env = BTreeMap<String, V>;
fn block(b: &Block, env: &mut Env, preds: &BTreeMap<String, bool>) -> R {
    let mut r = V::Opaque;
    for s in &b.stmts {
        match s {
            Stmt::Local(l) => {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    let v = eval(&init.expr, env, preds)?;
                    env.insert(i.ident.to_string(), v);
                } else {
                    return Err(format!("cannot evaluate {}", norm(l)));
                }
            }
            Stmt::Item(_) => (),
            Stmt::Expr(Expr::Return(x), _) => return x.expr.as_ref().map(|e| eval(e, env, preds)).unwrap_or(Ok(V::Opaque)),
            Stmt::Expr(e, _) => r = eval(e, env, preds)?,
            Stmt::Macro(m) => r = mac(&m.mac, env, preds)?,
        }
    }
    Ok(r)
}
fn mac(m: &Macro, env: &mut Env, preds: &BTreeMap<String, bool>) -> R {
    let n = m.path.segments.last().unwrap().ident.to_string();
    match n.as_str() {
        "panic" | "unreachable" => Ok(V::Panic),
        "ordered_set" | "vec" => {
            let a: punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
            let mut v = vec![];
            for e in &a {
                v.push(eval(e, env, preds)?);
            }
            Ok(V::Set(v))
        }
        _ => Err(format!("cannot evaluate macro {n}")),
    }
}
fn matches(p: &Pat, v: &V, env: &mut Env) -> std::result::Result<bool, String> {
    Ok(match p {
        Pat::Wild(_) => true,
        Pat::Or(o) => {
            for c in &o.cases {
                if matches(c, v, env)? {
                    return Ok(true);
                }
            }
            false
        }
        Pat::Paren(p) => matches(&p.pat, v, env)?,
        Pat::Reference(p) => matches(&p.pat, v, env)?,
        Pat::Lit(PatLit { lit: Lit::Int(i), .. }) => *v == V::Num(i.base10_parse().map_err(|e| e.to_string())?),
        Pat::Path(p) => *v == V::Name(p.path.segments.last().unwrap().ident.to_string()),
        Pat::Ident(i) if i.subpat.is_none() => match v {
            V::Name(n) => i.ident == n,
            _ => {
                env.insert(i.ident.to_string(), v.clone());
                true
            }
        },
        Pat::Tuple(t) => match v {
            V::Tup(vs) if vs.len() == t.elems.len() => {
                for (p, v) in t.elems.iter().zip(vs) {
                    if !matches(p, v, env)? {
                        return Ok(false);
                    }
                }
                true
            }
            _ => false,
        },
        _ => return Err(format!("cannot match {}", norm(p))),
    })
}
fn eval(e: &Expr, env: &mut Env, preds: &BTreeMap<String, bool>) -> R {
    Ok(match e {
        Expr::Match(m) => {
            let v = eval(&m.expr, env, preds)?;
            for a in &m.arms {
                let mut env2 = env.clone();
                if matches(&a.pat, &v, &mut env2)? {
                    if let Some((_, g)) = &a.guard {
                        if !cond(g, preds)? {
                            continue;
                        }
                    }
                    return eval(&a.body, &mut env2, preds);
                }
            }
            return Err(format!("no arm for {v:?}"));
        }
        Expr::If(i) => {
            if cond(&i.cond, preds)? {
                block(&i.then_branch, &mut env.clone(), preds)?
            } else if let Some((_, e)) = &i.else_branch {
                eval(e, env, preds)?
            } else {
                V::Opaque
            }
        }
        Expr::Block(b) => block(&b.block, &mut env.clone(), preds)?,
        Expr::Paren(p) => eval(&p.expr, env, preds)?,
        Expr::Group(p) => eval(&p.expr, env, preds)?,
        Expr::Unary(u) => eval(&u.expr, env, preds)?,
        Expr::Reference(u) => eval(&u.expr, env, preds)?,
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => V::Num(i.base10_parse().map_err(|e| e.to_string())?),
        Expr::Lit(ExprLit { lit: Lit::Str(i), .. }) => V::Str(i.value()),
        Expr::Path(p) => {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if p.path.segments.len() == 1 {
                if let Some(v) = env.get(&n) {
                    return Ok(v.clone());
                }
            }
            V::Name(n)
        }
        Expr::MethodCall(m) if m.method == "tag" || m.method == "clone" => eval(&m.receiver, env, preds)?,
        Expr::Call(c) => {
            let n = last(&c.func).ok_or_else(|| format!("cannot evaluate {}", norm(c)))?;
            let mut v = vec![];
            for a in &c.args {
                v.push(eval(a, env, preds)?);
            }
            if n == "new" { V::Set(v) } else { V::Call(n, v) }
        }
        Expr::Tuple(t) => {
            let mut v = vec![];
            for a in &t.elems {
                v.push(eval(a, env, preds)?);
            }
            V::Tup(v)
        }
        Expr::Macro(m) => mac(&m.mac, env, preds)?,
        Expr::Return(r) => r.expr.as_ref().map(|e| eval(e, env, preds)).unwrap_or(Ok(V::Opaque))?,
        _ => return Err(format!("cannot evaluate {}", norm(e))),
    })
}
fn cond(e: &Expr, preds: &BTreeMap<String, bool>) -> std::result::Result<bool, String> {
    let n = norm(e);
    preds.get(&n).copied().ok_or(format!("PRED {n}"))
}
