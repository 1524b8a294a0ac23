//! vlift: mechanical extraction of Rust functions into Verus files with contracts woven in.
//! usage: vlift --contract F --out OUT.rs --report R.json --repo DIR --baseline B [--var K=V]... [--degrade KEY]... [--write-baseline]
mod config;
mod lower;
mod tables;
use config::{Config, FnC};
use lower::*;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
struct Func {
    key: String,
    sig: Signature,
    block: Block,
    self_ty: Option<String>,
}

#[derive(Default)]
struct Sources {
    statics: BTreeSet<String>,
    fns: BTreeMap<String, Func>,
    types: BTreeMap<String, syn::Item>,
    dup: BTreeSet<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}

fn ty_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        Type::Reference(r) => ty_name(&r.elem),
        _ => None,
    }
}

fn derives(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == what)
    })
}

fn collect(items: &[syn::Item], s: &mut Sources, module: &str) {
    fn add(s: &mut Sources, module: &str, f: Func) {
        let mk = format!("{}@{}", f.key, module);
        let mut f2 = f.clone();
        f2.key = mk.clone();
        s.fns.insert(mk, f2);
        if s.fns.contains_key(&f.key) {
            s.dup.insert(f.key.clone());
        } else {
            s.fns.insert(f.key.clone(), f);
        }
    }
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                add(s, module, Func { key: f.sig.ident.to_string(), sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None });
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let Some(ty) = ty_name(&im.self_ty) else { continue };
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let name = f.sig.ident.to_string();
                        let mut key = format!("{ty}::{name}");
                        if let Some((_, p, _)) = &im.trait_ {
                            let tn = p.segments.last().unwrap().ident.to_string();
                            // the trait is part of the key where several impls give the same method
                            if ["fmt", "cmp", "partial_cmp", "eq", "from", "from_iter", "into_iter", "default"].contains(&name.as_str()) {
                                let args = match &p.segments.last().unwrap().arguments {
                                    PathArguments::AngleBracketed(a) => a.args.to_token_stream().to_string().replace(' ', ""),
                                    _ => String::new(),
                                };
                                key = format!("{ty}::{tn}.{name}");
                                if tn == "From" && !args.is_empty() {
                                    key = format!("{ty}::{tn}<{args}>.{name}");
                                }
                            }
                        }
                        let mut sig = f.sig.clone();
                        // `self` of an impl for `&T` is a `&self` of `T`
                        if name == "into_iter" && matches!(*im.self_ty, Type::Reference(_)) {
                            if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
                                if r.reference.is_none() {
                                    *r = parse_quote!(&self);
                                }
                            }
                        }
                        add(s, module, Func { key, sig, block: f.block.clone(), self_ty: Some(ty.clone()) });
                    }
                }
            }
            syn::Item::Trait(t) if !is_test(&t.attrs) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            let key = format!("{}::{}", t.ident, f.sig.ident);
                            add(s, module, Func { key, sig: f.sig.clone(), block: b.clone(), self_ty: Some(t.ident.to_string()) });
                        }
                    }
                }
            }
            syn::Item::Struct(x) if !is_test(&x.attrs) => {
                s.types.insert(format!("{}@{}", x.ident, module), it.clone());
                s.types.entry(x.ident.to_string()).or_insert(it.clone());
                // #[derive(Default)] as the function it stands for
                if x.generics.params.is_empty() && derives(&x.attrs, "Default") {
                    let val = |t: &Type| -> proc_macro2::TokenStream {
                        let name = ty_name(t).unwrap_or_default();
                        match name.as_str() {
                            "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64" | "isize" => quote!(0),
                            "bool" => quote!(false),
                            "Option" => quote!(None),
                            "String" | "Vec" | "BTreeMap" | "BTreeSet" => {
                                let i = format_ident!("{name}");
                                quote!(#i::new())
                            }
                            "Rc" | "Arc" | "Box" | "RefCell" | "Cell" => {
                                let mut r = quote!(Default::default());
                                if let Type::Path(p) = t {
                                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                                            let (w, i) = (format_ident!("{name}"), ty_name(t).unwrap_or_default());
                                            if !i.is_empty() {
                                                let i = format_ident!("{i}");
                                                r = quote!(#w::new(#i::default()));
                                            }
                                        }
                                    }
                                }
                                r
                            }
                            _ => {
                                let i = format_ident!("{}", if name.is_empty() { "Unknown" } else { &name });
                                quote!(#i::default())
                            }
                        }
                    };
                    let n = &x.ident;
                    let body = match &x.fields {
                        Fields::Named(f) => {
                            let fs = f.named.iter().map(|y| { let (i, v) = (&y.ident, val(&y.ty)); quote!(#i: #v) });
                            quote!({ #n { #(#fs),* } })
                        }
                        Fields::Unnamed(f) => {
                            let fs = f.unnamed.iter().map(|y| val(&y.ty));
                            quote!({ #n(#(#fs),*) })
                        }
                        Fields::Unit => quote!({ #n }),
                    };
                    let sig: Signature = syn::parse2(quote!(fn default() -> Self)).unwrap();
                    add(s, module, Func { key: format!("{n}::Default.default"), sig, block: syn::parse2(body).unwrap(), self_ty: Some(n.to_string()) });
                }
            }
            syn::Item::Enum(x) if !is_test(&x.attrs) => {
                s.types.insert(format!("{}@{}", x.ident, module), it.clone());
                s.types.entry(x.ident.to_string()).or_insert(it.clone());
            }
            // lazy_static! { static ref NAME: T = EXPR; } as fn NAME() -> T { EXPR }
            syn::Item::Macro(m) if m.mac.path.segments.last().map(|x| x.ident == "lazy_static").unwrap_or(false) => {
                struct St(Vec<(Ident, Type, Expr)>);
                impl syn::parse::Parse for St {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let mut v = vec![];
                        while !i.is_empty() {
                            Attribute::parse_outer(i)?;
                            let _: Visibility = i.parse()?;
                            let _: Token![static] = i.parse()?;
                            let _: Token![ref] = i.parse()?;
                            let n = i.parse()?;
                            let _: Token![:] = i.parse()?;
                            let t = i.parse()?;
                            let _: Token![=] = i.parse()?;
                            v.push((n, t, i.parse()?));
                            let _: Token![;] = i.parse()?;
                        }
                        Ok(St(v))
                    }
                }
                if let Ok(St(v)) = syn::parse2::<St>(m.mac.tokens.clone()) {
                    for (n, t, e) in v {
                        let sig: Signature = syn::parse2(quote!(fn #n() -> #t)).unwrap();
                        s.statics.insert(n.to_string());
                        add(s, module, Func { key: n.to_string(), sig, block: syn::parse2(quote!({ #e })).unwrap(), self_ty: None });
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    collect(items, s, module)
                }
            }
            _ => {}
        }
    }
}

/// names bound in a function: parameters then every pattern binding in order
fn local_names(f: &Func) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            let s = i.ident.to_string();
            if !s.chars().next().unwrap().is_uppercase() {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, i);
        }
        fn visit_macro(&mut self, _: &'ast Macro) {}
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_signature(&mut v, &f.sig);
    syn::visit::Visit::visit_block(&mut v, &f.block);
    v.0
}

fn rename_words(t: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() {
        return t.to_string();
    }
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphanumeric() || cs[i] == '_' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[st..i].iter().collect();
            // not a field access nor a path
            let prev = if st > 0 { cs[st - 1] } else { ' ' };
            let prev2 = if st > 1 { cs[st - 2] } else { ' ' };
            let field = prev == '.' && prev2 != '.';
            if let (Some(n), false, false) = (map.get(&w), field, prev == ':') {
                out.push_str(n)
            } else {
                out.push_str(&w)
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

struct FnSink<'a> {
    c: &'a FnC,
    used: BTreeSet<String>,
    loops_used: BTreeSet<usize>,
    ren: HashMap<String, String>,
}
impl<'a> Sink for FnSink<'a> {
    fn loop_clause(&mut self, k: usize) -> String {
        self.loops_used.insert(k);
        let mut s = String::new();
        if let Some(l) = self.c.loops.get(&k) {
            for (n, t) in [("invariant_except_break", &l.invariant_except_break), ("invariant", &l.invariant), ("ensures", &l.ensures), ("decreases", &l.decreases)] {
                if !t.trim().is_empty() {
                    s.push_str(&format!("    {n}\n{}\n", rename_words(t.trim_end(), &self.ren)));
                }
            }
        }
        s
    }
    fn at_text(&mut self, name: &str) -> Option<String> {
        // anchors are written with the baseline names
        let inv: HashMap<String, String> = self.ren.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
        let name = rename_words(name, &inv);
        let t = self.c.at.get(&name)?;
        self.used.insert(name);
        Some(rename_words(t.trim_end(), &self.ren))
    }
}

struct Inliner<'a> {
    src: &'a Sources,
    known: &'a BTreeSet<String>,
    self_ty: Option<String>,
    depth: usize,
    done: Vec<String>,
}
struct SubstSelf(Expr);
impl VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
impl<'a> Inliner<'a> {
    fn find(&self, name: &str, ty: Option<&str>) -> Option<Func> {
        let c: Vec<&Func> = self
            .src
            .fns
            .values()
            .filter(|f| !f.key.contains('@') && !self.known.contains(&f.key))
            .filter(|f| f.sig.ident == name && (ty.is_none() || f.self_ty.as_deref() == ty))
            .collect();
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }
    fn build(&mut self, f: &Func, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 3 {
            return None;
        }
        let body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.block.clone() });
        if has_return(&body) {
            return None;
        }
        let mut b = f.block.clone();
        if let Some(r) = recv {
            if !matches!(strip_paren(r), Expr::Path(_) | Expr::Field(_)) {
                return None;
            }
            SubstSelf(r.clone()).visit_block_mut(&mut b);
        }
        let mut pats = vec![];
        for i in &f.sig.inputs {
            if let FnArg::Typed(t) = i {
                pats.push(t.clone());
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        self.done.push(f.key.clone());
        let st = &b.stmts;
        let tmp: Vec<_> = (0..args.len()).map(|i| format_ident!("__arg{}_{}", i, self.done.len())).collect();
        let (ps, ts): (Vec<_>, Vec<_>) = pats.iter().map(|p| (&p.pat, &p.ty)).unzip();
        parse2(quote!({ #(let #tmp: #ts = #args;)* #(let #ps = #tmp;)* #(#st)* })).ok()
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let n = match &*e {
            Expr::Call(c) => match strip_paren(&c.func) {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let ty = if segs.len() > 1 {
                        let t = segs[segs.len() - 2].clone();
                        if t == "Self" { self.self_ty.clone() } else { Some(t) }
                    } else {
                        None
                    };
                    if segs.len() == 1 && c.args.is_empty() && name.starts_with("vlit_") {
                        return;
                    }
                    let f = self.find(&name, ty.as_deref());
                    match f {
                        Some(f) if f.sig.receiver().is_none() && (segs.len() > 1) == f.self_ty.is_some() => {
                            let a: Vec<Expr> = c.args.iter().cloned().collect();
                            self.build(&f, None, a)
                        }
                        Some(f) if f.sig.receiver().is_some() && !c.args.is_empty() => {
                            let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                            let mut r = a.remove(0);
                            if let Expr::Reference(x) = &r {
                                r = (*x.expr).clone();
                            }
                            self.build(&f, Some(&r), a)
                        }
                        _ => None,
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) => match self.find(&m.method.to_string(), None) {
                Some(f) if f.sig.receiver().is_some() => {
                    let a: Vec<Expr> = m.args.iter().cloned().collect();
                    let r = (*m.receiver).clone();
                    self.build(&f, Some(&r), a)
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}

struct Baseline {
    fns: BTreeMap<String, (usize, Vec<String>)>,
    all: BTreeSet<String>,
}

fn load_baseline(p: &str) -> Baseline {
    let mut b = Baseline { fns: BTreeMap::new(), all: BTreeSet::new() };
    if let Ok(t) = std::fs::read_to_string(p) {
        for l in t.lines() {
            let v: Vec<&str> = l.split('\t').collect();
            if v[0] == "A" {
                b.all.insert(v[1].into());
            } else if v[0] == "F" {
                b.fns.insert(v[1].into(), (v[2].parse().unwrap(), v[3].split(',').filter(|s| !s.is_empty()).map(String::from).collect()));
            }
        }
    }
    b
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn generics_text(g: &Generics, cfg: &Config, keep: bool) -> String {
    let v: Vec<String> = g
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Lifetime(l) if keep => Some(l.lifetime.to_string()),
            GenericParam::Type(t) if !cfg.strip.contains(&t.ident.to_string()) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect();
    if v.is_empty() {
        String::new()
    } else {
        format!("<{}>", v.join(", "))
    }
}

struct NoSink;
impl Sink for NoSink {
    fn loop_clause(&mut self, _: usize) -> String {
        String::new()
    }
    fn at_text(&mut self, _: &str) -> Option<String> {
        None
    }
}
fn show(ts: TokenStream) -> String {
    let mut s = String::new();
    print(ts, &mut NoSink, &mut s);
    s
}

struct FnReport {
    key: String,
    emit: String,
    start: usize,
    end: usize,
    status: String,
    loops: usize,
    props: Vec<String>,
    dropped: Vec<String>,
    inlined: Vec<String>,
    trusted: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut vars = HashMap::new();
    let (mut contract, mut out, mut report, mut repo, mut base) = (String::new(), String::new(), String::new(), "/repo".to_string(), String::new());
    let mut degrade: BTreeMap<String, String> = BTreeMap::new();
    let mut write_base = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--contract" => { contract = args[i + 1].clone(); i += 1 }
            "--out" => { out = args[i + 1].clone(); i += 1 }
            "--report" => { report = args[i + 1].clone(); i += 1 }
            "--repo" => { repo = args[i + 1].clone(); i += 1 }
            "--baseline" => { base = args[i + 1].clone(); i += 1 }
            "--var" => {
                let (k, v) = args[i + 1].split_once('=').unwrap();
                vars.insert(k.to_string(), v.to_string());
                i += 1
            }
            "--degrade" => {
                let (k, v) = args[i + 1].split_once('=').unwrap_or((&args[i + 1], "requested"));
                degrade.insert(k.to_string(), v.to_string());
                i += 1
            }
            "--write-baseline" => write_base = true,
            x => panic!("argument {x}"),
        }
        i += 1;
    }
    let mut cfg = Config::default();
    config::parse(&contract, &vars, &mut cfg);
    let hf: Vec<String> = cfg.items.iter().filter_map(|i| match i {
        config::Item::Fn(f) if f.opts.contains("heap") || f.opts.contains("heapmut") => Some(f.key.clone()),
        _ => None,
    }).collect();
    for k in hf {
        let k = k.split('@').next().unwrap().to_string();
        if !k.contains("::") {
            cfg.heap_free.insert(k.clone());
        }
        cfg.heap_fns.insert(k.rsplit("::").next().unwrap().to_string());
        cfg.heap_fns.insert(k);
    }
    let mut src = Sources::default();
    for (p, m) in &cfg.sources {
        let full = format!("{repo}/{p}");
        let t = match std::fs::read_to_string(&full) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("vlift: {full}: {e}");
                std::process::exit(3)
            }
        };
        let f = match syn::parse_file(&t) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("vlift: {full}: {e}");
                std::process::exit(3)
            }
        };
        collect(&f.items, &mut src, m);
    }
    cfg.statics = src.statics.clone();
    let bl = load_baseline(&base);
    let known: BTreeSet<String> = if bl.all.is_empty() || write_base { src.fns.keys().cloned().collect() } else { bl.all.clone() };
    let mut basetext = String::new();
    for k in src.fns.keys() {
        basetext.push_str(&format!("A\t{k}\n"));
    }
    let mut lits: BTreeMap<String, usize> = BTreeMap::new();
    let mut text = String::from("// GENERATED by vlift from the current source tree; do not edit\n#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_labels, unused_assignments, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unreachable_patterns, irrefutable_let_patterns)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut reps: Vec<FnReport> = vec![];
    let mut types_missing = vec![];
    for it in &cfg.items {
        match it {
            config::Item::Raw(s) => text.push_str(s),
            config::Item::Tables(t) => {
                let f = |n: &str| src.fns.get(&format!("{t}::{n}")).map(|f| &f.block);
                match (f("next_action"), f("goto_state"), f("production_data")) {
                    (Some(a), Some(g), Some(p)) => match tables::ghost(a, g, p) {
                        Some(s) => text.push_str(&s),
                        None => types_missing.push(format!("{t} tables")),
                    },
                    _ => types_missing.push(format!("{t} tables")),
                }
            }
            config::Item::Type(n, attrs) => {
                let Some(item) = src.types.get(n) else {
                    types_missing.push(n.clone());
                    continue;
                };
                let mut item = item.clone();
                let mut low = new_low(&cfg, &mut lits, BTreeSet::new());
                for a in attrs {
                    text.push_str(a);
                    text.push('\n');
                }
                match &mut item {
                    syn::Item::Struct(s) => {
                        if cfg.keep_lt.contains(&s.ident.to_string()) {
                            low.lts = s.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
                        }
                        let g = generics_text(&s.generics, &cfg, cfg.keep_lt.contains(&s.ident.to_string()));
                        let name = map_name(&cfg, &s.ident.to_string());
                        match &mut s.fields {
                            Fields::Named(f) => {
                                text.push_str(&format!("pub struct {name}{g} {{\n"));
                                for x in f.named.iter_mut() {
                                    let fname = x.ident.as_ref().unwrap().to_string();
                                    if cfg.drop_fields.contains(&format!("{}.{fname}", s.ident)) {
                                        continue;
                                    }
                                    low.type_fix(&mut x.ty);
                                    text.push_str(&format!("    pub {fname}: {},\n", show(x.ty.to_token_stream())));
                                }
                                text.push_str("}\n");
                            }
                            Fields::Unnamed(f) => {
                                text.push_str(&format!("pub struct {name}{g} ("));
                                for x in f.unnamed.iter_mut() {
                                    low.type_fix(&mut x.ty);
                                    text.push_str(&format!("pub {}, ", show(x.ty.to_token_stream())));
                                }
                                text.push_str(");\n");
                            }
                            Fields::Unit => text.push_str(&format!("pub struct {name};\n")),
                        }
                    }
                    syn::Item::Enum(s) => {
                        if cfg.keep_lt.contains(&s.ident.to_string()) {
                            low.lts = s.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
                        }
                        let g = generics_text(&s.generics, &cfg, cfg.keep_lt.contains(&s.ident.to_string()));
                        text.push_str(&format!("pub enum {}{g} {{\n", map_name(&cfg, &s.ident.to_string())));
                        for v in s.variants.iter_mut() {
                            text.push_str(&format!("    {}", v.ident));
                            match &mut v.fields {
                                Fields::Unnamed(f) => {
                                    text.push('(');
                                    for x in f.unnamed.iter_mut() {
                                        low.type_fix(&mut x.ty);
                                        text.push_str(&format!("{}, ", show(x.ty.to_token_stream())));
                                    }
                                    text.push(')');
                                }
                                Fields::Named(f) => {
                                    text.push_str(" { ");
                                    for x in f.named.iter_mut() {
                                        low.type_fix(&mut x.ty);
                                        text.push_str(&format!("{}: {}, ", x.ident.as_ref().unwrap(), show(x.ty.to_token_stream())));
                                    }
                                    text.push('}');
                                }
                                Fields::Unit => {}
                            }
                            text.push_str(",\n");
                        }
                        text.push_str("}\n");
                        // #[derive(Default)] of an enum
                        for v in s.variants.iter() {
                            if v.attrs.iter().any(|a| a.path().is_ident("default")) && s.generics.params.is_empty() {
                                let (n, v) = (map_name(&cfg, &s.ident.to_string()), &v.ident);
                                text.push_str(&format!("impl {n} {{\n    pub fn default() -> (r: {n}) ensures r == {n}::{v} {{ {n}::{v} }}\n}}\n"));
                            }
                        }
                    }
                    _ => {}
                }
            }
            config::Item::Fn(c) => {
                let start = text.lines().count() + 1;
                let mut rep = FnReport { key: c.key.clone(), emit: String::new(), start, end: 0, status: "ok".into(), loops: 0, props: c.props.clone(), dropped: vec![], inlined: vec![], trusted: c.opts.contains("trusted") };
                let Some(f) = src.fns.get(&c.key) else {
                    rep.status = "missing".into();
                    rep.end = start;
                    reps.push(rep);
                    continue;
                };
                emit_fn(&cfg, &src, &known, &bl, c, f, &mut lits, &degrade, &mut text, &mut rep, &mut basetext, write_base);
                rep.end = text.lines().count();
                reps.push(rep);
            }
        }
    }
    // literals: t"..." in contracts
    let text0 = std::mem::take(&mut text);
    let cs: Vec<char> = text0.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        // t"..." is the text, t#"..." the function that stands for it (to reveal it)
        let name_only = cs[i] == 't' && cs.get(i + 1) == Some(&'#') && cs.get(i + 2) == Some(&'"');
        let q = if name_only { i + 1 } else { i };
        if cs[i] == 't' && cs.get(q + 1) == Some(&'"') && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) {
            let mut j = q + 2;
            while j < cs.len() && cs[j] != '"' {
                j += if cs[j] == '\\' { 2 } else { 1 };
            }
            let lit: String = cs[q + 1..(j + 1).min(cs.len())].iter().collect();
            if let Ok(l) = syn::parse_str::<LitStr>(&lit) {
                let n = lits.len();
                let k = *lits.entry(l.value()).or_insert(n);
                text.push_str(&format!("vlits_{k}{}", if name_only { "" } else { "()" }));
                i = j + 1;
                continue;
            }
        }
        text.push(cs[i]);
        i += 1;
    }
    let mut lv: Vec<(&String, &usize)> = lits.iter().collect();
    lv.sort_by_key(|x| x.1);
    for (s, k) in lv {
        let bytes: Vec<String> = s.bytes().map(|b| format!("{b}u8")).collect();
        text.push_str(&format!(
            "{}pub open spec fn vlits_{k}() -> Seq<u8> {{ seq![{}] }}\n#[verifier::external_body]\npub fn vlit_{k}() -> (r: &'static Str) ensures r@ == vlits_{k}() {{ unimplemented!() }}\n",
            if cfg.lits_opaque { "#[verifier::opaque] " } else { "" },
            bytes.join(", ")
        ));
    }
    text.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&out, text).unwrap();
    let mut r = String::from("{\"functions\":[\n");
    for (n, x) in reps.iter().enumerate() {
        if n > 0 {
            r.push_str(",\n");
        }
        let l = |v: &Vec<String>| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
        r.push_str(&format!(
            "{{\"key\":{},\"emit\":{},\"start\":{},\"end\":{},\"status\":{},\"loops\":{},\"props\":[{}],\"dropped\":[{}],\"inlined\":[{}],\"trusted\":{}}}",
            jstr(&x.key), jstr(&x.emit), x.start, x.end, jstr(&x.status), x.loops, l(&x.props), l(&x.dropped), l(&x.inlined), x.trusted
        ));
    }
    r.push_str(&format!("\n],\"types_missing\":[{}],\"newfns\":[{}]}}\n", types_missing.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        src.fns.keys().filter(|k| !known.contains(*k)).map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    std::fs::write(&report, r).unwrap();
    if write_base {
        std::fs::write(&base, basetext).unwrap();
    }
}

fn map_name(cfg: &Config, n: &str) -> String {
    cfg.tymap.get(n).cloned().unwrap_or(n.to_string())
}

fn new_low<'a>(cfg: &'a Config, lits: &'a mut BTreeMap<String, usize>, opts: BTreeSet<String>) -> Low<'a> {
    Low {
        cfg,
        errs: vec![],
        loops: 0,
        tys: BTreeMap::new(),
        bind_ret: false,
        lts: BTreeSet::new(),
        lits,
        calls: BTreeMap::new(),
        lets: BTreeMap::new(),
        rets: 0,
        dropped: BTreeSet::new(),
        fmt_precise: opts.contains("fmt"),
        self_ty: None,
        ret_is_iter: false,
        closure_alias: BTreeMap::new(),
        guards: BTreeMap::new(),
        temps: vec![],
        temps_done: 0,
        opts: opts.union(&cfg.opts).cloned().collect(),
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    cfg: &Config,
    src: &Sources,
    known: &BTreeSet<String>,
    bl: &Baseline,
    c: &FnC,
    f: &Func,
    lits: &mut BTreeMap<String, usize>,
    degrade: &BTreeMap<String, String>,
    text: &mut String,
    rep: &mut FnReport,
    basetext: &mut String,
    write_base: bool,
) {
    let names = local_names(f);
    let mut block = f.block.clone();
    let mut inl = Inliner { src, known, self_ty: f.self_ty.clone(), depth: 0, done: vec![] };
    inl.visit_block_mut(&mut block);
    rep.inlined = inl.done.clone();
    let mut low = new_low(cfg, lits, c.opts.clone());
    low.self_ty = f.self_ty.clone();
    low.lts = f.sig.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
    for (fname, p, tgt) in &cfg.closure_params {
        if *fname == c.key {
            low.closure_alias.insert(p.clone(), tgt.clone());
        }
    }
    if let ReturnType::Type(_, t) = &f.sig.output {
        low.ret_is_iter = t.to_token_stream().to_string().contains("Iter");
    }
    // signature
    let mut params = vec![];
    let mut prol = TokenStream::new();
    for i in &f.sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                let s = if r.reference.is_some() {
                    if r.mutability.is_some() { "&mut self" } else { "&self" }
                } else if r.mutability.is_some() {
                    "mut self"
                } else {
                    "self"
                };
                params.push(s.to_string());
            }
            FnArg::Typed(t) => {
                let mut ty = (*t.ty).clone();
                if let Pat::Ident(i) = &*t.pat {
                    if let Some(p) = c.ptys.get(&i.ident.to_string()) {
                        ty = parse_str(p).expect("type in contract");
                    }
                }
                low.type_fix(&mut ty);
                let name = match &*t.pat {
                    Pat::Ident(i) => {
                        if i.mutability.is_some() {
                            let (a, b) = (i.ident.clone(), format_ident!("{}__0", i.ident));
                            prol.extend(quote!(let mut #a = #b;));
                            b.to_string()
                        } else {
                            i.ident.to_string()
                        }
                    }
                    Pat::Wild(_) => "_w".to_string(),
                    _ => {
                        low.err("parameter pattern");
                        "p".into()
                    }
                };
                if c.opts.contains(&format!("drop:{name}")) {
                    continue;
                }
                params.push(format!("{name}: {}", show(ty.to_token_stream()).trim()));
            }
        }
    }
    if c.opts.contains("heap") {
        params.push("vh: &Heap".into());
    } else if c.opts.contains("heapmut") {
        params.push("vh: &mut Heap".into());
    }
    let rett = match (&c.rettype, &f.sig.output) {
        (Some(t), _) => Some(t.clone()),
        (None, ReturnType::Default) => None,
        (None, ReturnType::Type(_, t)) => {
            let mut ty = (**t).clone();
            low.type_fix(&mut ty);
            Some(show(ty.to_token_stream()).trim().to_string())
        }
    };
    let gen = if c.opts.contains("nogen") { String::new() } else { generics_text(&f.sig.generics, cfg, true) };
    let mut pre_stmts: Vec<Stmt> = if prol.is_empty() { vec![] } else { parse2::<Block>(quote!({ #prol })).unwrap().stmts };
    low.tys = c.tys.clone();
    low.bind_ret = c.at.keys().any(|k| k.starts_with("ret ")) && rett.is_some();
    low.visit_block_mut(&mut block);
    if c.at.contains_key("result") {
        if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
            if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                block.stmts.extend(parse2::<Block>(quote!({ let __ret = #e; __vl_at!("result"); __ret })).unwrap().stmts);
            }
        }
    }
    pre_stmts.extend(block.stmts.clone());
    let errs = low.errs.clone();
    rep.loops = low.loops;
    rep.dropped = low.dropped.iter().cloned().collect();
    if write_base {
        basetext.push_str(&format!("F\t{}\t{}\t{}\n", c.key, low.loops, names.join(",")));
    }
    let mut ren = HashMap::new();
    let mut lost = vec![];
    if let (Some((n, old)), false) = (bl.fns.get(&c.key), write_base) {
        if old.len() == names.len() {
            let mut ok = true;
            for (a, b) in old.iter().zip(&names) {
                if let Some(x) = ren.get(a) {
                    if x != b {
                        ok = false;
                    }
                }
                if a != b {
                    ren.insert(a.clone(), b.clone());
                }
            }
            if !ok {
                ren.clear();
            }
        }
        if *n != low.loops && !c.loops.is_empty() {
            lost.push(format!("loop count {} (contract written for {})", low.loops, n));
        }
    }
    let emit_full = c.emit_name.clone().unwrap_or_else(|| c.key.split('@').next().unwrap().to_string());
    let (ity, name) = match emit_full.rsplit_once("::") {
        Some((t, n)) => (Some(map_name(cfg, t)), n.to_string()),
        None => (None, emit_full.clone()),
    };
    let name = name.rsplit('.').next().unwrap().to_string();
    rep.emit = match &ity {
        Some(t) => format!("{t}::{name}"),
        None => name.clone(),
    };
    let mut sink = FnSink { c, used: BTreeSet::new(), loops_used: BTreeSet::new(), ren };
    let mut body = String::new();
    {
        let st = &pre_stmts;
        if let Some(t) = sink.at_text("start") {
            body.push_str(&t);
            body.push('\n');
        }
        print(quote!(#(#st)*), &mut sink, &mut body);
        if let Some(t) = sink.at_text("end") {
            body.push_str(&t);
            body.push('\n');
        }
    }
    for k in c.at.keys() {
        if !sink.used.contains(k) {
            lost.push(format!("anchor '{k}'"));
        }
    }
    for k in c.loops.keys() {
        if !sink.loops_used.contains(k) {
            lost.push(format!("loop {k}"));
        }
    }
    let why = if let Some(w) = degrade.get(&c.key) {
        Some(format!("degraded: {w}"))
    } else if !errs.is_empty() {
        Some(format!("degraded: outside the accepted subset: {}", errs.join("; ")))
    } else if !lost.is_empty() {
        Some(format!("degraded: contract anchors lost: {}", lost.join("; ")))
    } else {
        None
    };
    let mut s = String::new();
    if let Some(t) = &ity {
        s.push_str(&format!("impl {t} {{\n"));
    }
    for a in &c.attrs {
        s.push_str(a);
        s.push('\n');
    }
    if why.is_some() || c.opts.contains("trusted") {
        s.push_str("#[verifier::external_body]\n");
    }
    s.push_str(&format!("pub fn {name}{gen}({})", params.join(", ")));
    if let Some(t) = &rett {
        s.push_str(&format!(" -> ({}: {t})", c.ret));
    }
    s.push('\n');
    for (n, t) in [("requires", &c.requires), ("ensures", &c.ensures), ("decreases", &c.decreases)] {
        if !t.trim().is_empty() && !(n == "decreases" && why.is_some()) {
            s.push_str(&format!("  {n}\n{}\n", rename_words(t.trim_end(), &sink.ren)));
        }
    }
    s.push_str("{\n");
    if why.is_some() || c.opts.contains("trusted") {
        s.push_str("    unimplemented!()\n");
    } else {
        s.push_str(&body);
    }
    s.push_str("\n}\n");
    if ity.is_some() {
        s.push_str("}\n");
    }
    if let Some(w) = why {
        rep.status = w;
    }
    // tidy blank lines
    let tidy: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    text.push_str(&tidy.join("\n"));
    text.push('\n');
}
