//! Mechanical lowering of Rust function bodies to the subset Verus accepts. Every rule preserves
//! behaviour given the prelude's (assumed) contracts for the standard library.
use crate::config::Config;
use proc_macro2::{Delimiter, Literal, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Low<'a> {
    pub cfg: &'a Config,
    pub errs: Vec<String>,
    pub loops: usize,
    pub tys: BTreeMap<String, String>,
    pub lits: &'a mut BTreeMap<String, usize>,
    pub opts: BTreeSet<String>,
    pub calls: BTreeMap<String, usize>,
    pub lets: BTreeMap<String, usize>,
    pub rets: usize,
    pub dropped: BTreeSet<String>,
    pub fmt_precise: bool,
    pub lts: BTreeSet<String>,
    pub bind_ret: bool,
    pub self_ty: Option<String>,
    pub ret_is_iter: bool,
    pub closure_alias: BTreeMap<String, String>,
    /// `let mut x = place.cell.borrow_mut();`: x stands for the cell
    pub guards: BTreeMap<String, Expr>,
    pub temps: Vec<TokenStream>,
    pub temps_done: usize,
}

const ITER_SRC: &[&str] = &[
    "iter", "iter_mut", "into_iter", "keys", "values", "char_indices", "chars", "difference", "intersection", "union",
    "bytes", "tokens", "unused_tokens", "literal_tokens", "regex_tokens", "non_terminals", "undefined_non_terminals",
    "unused_non_terminals", "unused_tags", "skip_rules", "reductions", "drain", "windows", "lines", "split", "rev", "values_mut", "iter_mut",
];
const ADAPT: &[&str] = &["filter", "map", "cloned", "copied", "enumerate", "chain", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "rev", "skip", "take", "zip", "peekable"];
const TERM: &[&str] = &["any", "all", "find", "collect", "count", "position", "sum", "for_each", "fold", "find_map", "max", "min", "last", "next", "nth"];

fn pexpr(ts: TokenStream) -> Expr {
    syn::parse2::<Expr>(ts.clone()).unwrap_or_else(|e| panic!("pexpr {e}: {ts}"))
}
fn is_range(e: &Expr) -> bool {
    match e {
        Expr::Range(_) => true,
        Expr::Paren(p) => is_range(&p.expr),
        _ => false,
    }
}
pub fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

impl<'a> Low<'a> {
    pub fn err(&mut self, s: impl Into<String>) {
        self.errs.push(s.into())
    }
    fn iter_rooted(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "union" || n == "difference" || n == "intersection" || ITER_SRC.contains(&n.as_str()) {
                    true
                } else if ADAPT.contains(&n.as_str()) {
                    self.iter_rooted(&m.receiver)
                } else {
                    false
                }
            }
            e if is_range(e) => true,
            _ => false,
        }
    }
    pub fn lit(&mut self, s: &str) -> Expr {
        let n = self.lits.len();
        let k = *self.lits.entry(s.to_string()).or_insert(n);
        let id = format_ident!("vlit_{}", k);
        pexpr(quote!(#id()))
    }
    /// expression giving a Vec holding the items of the iterator expression, in order, for the
    /// sources without closures; closures adapters are returned as stages
    /// the receiver of an iterator source; a temporary is bound so that it outlives the loop
    fn keep(&mut self, r: Expr) -> Expr {
        if matches!(strip_paren(&r), Expr::MethodCall(_) | Expr::Call(_) | Expr::Block(_) | Expr::Array(_)) {
            let id = format_ident!("__t{}", self.temps.len());
            self.temps.push(quote!(let #id = &#r;));
            pexpr(quote!(#id))
        } else {
            r
        }
    }
    fn chain(&mut self, e: &Expr, stages: &mut Vec<Stage>) -> Option<Expr> {
        let e = strip_paren(e).clone();
        match &e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "filter" | "map" | "enumerate" | "filter_map" | "take_while" | "skip_while" if self.iter_rooted(&m.receiver) => {
                        let base = self.chain(&m.receiver, stages)?;
                        stages.push(Stage { kind: n, args: m.args.iter().cloned().collect() });
                        Some(base)
                    }
                    "cloned" | "copied" => {
                        let base = self.chain(&m.receiver, stages)?;
                        stages.push(Stage { kind: "cloned".into(), args: vec![] });
                        Some(base)
                    }
                    "rev" => {
                        let base = self.chain(&m.receiver, stages)?;
                        if stages.iter().any(|s| s.kind == "enumerate" || s.kind.ends_with("_while")) {
                            self.err("rev after enumerate");
                            return None;
                        }
                        Some(pexpr(quote!(vrev(#base))))
                    }
                    "chain" => {
                        let mut s1 = vec![];
                        let a = self.chain(&m.receiver, &mut s1)?;
                        let mut s2 = vec![];
                        let b = self.chain(&m.args[0], &mut s2)?;
                        if !s1.is_empty() || !s2.is_empty() {
                            self.err("chain of adapted iterators");
                            return None;
                        }
                        Some(pexpr(quote!(vchain(#a, #b))))
                    }
                    "iter" | "iter_mut" => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let r = self.keep(r);
                        Some(pexpr(quote!(#r.viter())))
                    }
                    "into_iter" => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        if self.opts.contains("intoiter") {
                            return Some(pexpr(quote!(#r.vinto_it())));
                        }
                        Some(r)
                    }
                    "keys" | "values" | "char_indices" | "chars" | "bytes" => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let id = format_ident!("v{}", n);
                        let r = self.keep(r);
                        Some(pexpr(quote!(#r.#id())))
                    }
                    "union" | "intersection" | "difference" if m.args.len() == 1 && matches!(strip_paren(&m.args[0]), Expr::Reference(r) if matches!(strip_paren(&r.expr), Expr::MethodCall(_))) => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let Expr::Reference(a) = strip_paren(&m.args[0]) else { return None };
                        let mut a = (*a.expr).clone();
                        self.visit_expr_mut(&mut a);
                        let (r, a) = (self.keep(r), self.keep(a));
                        let id = &m.method;
                        Some(pexpr(quote!(#r.#id(#a))))
                    }
                    _ => {
                        let mut r = e.clone();
                        self.visit_expr_mut(&mut r);
                        Some(r)
                    }
                }
            }
            Expr::Reference(r) => {
                let mut x = (*r.expr).clone();
                self.visit_expr_mut(&mut x);
                Some(pexpr(quote!((#x).viter())))
            }
            Expr::Path(_) | Expr::Call(_) | Expr::Field(_) | Expr::Array(_) => {
                let mut r = e.clone();
                self.visit_expr_mut(&mut r);
                // the value may be a reference to a set or a map: the trait of the contracts tells
                if self.opts.contains("intoiter") && matches!(e, Expr::Path(_) | Expr::Field(_)) {
                    return Some(pexpr(quote!(#r.vinto_it())));
                }
                Some(r)
            }
            _ => {
                let s = e.to_token_stream().to_string();
                self.err(format!("iterator expression {s}"));
                None
            }
        }
    }
    fn closure(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        match strip_paren(e) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let mut body = (*c.body).clone();
                if has_return(&body) {
                    self.err("return in closure");
                    return None;
                }
                self.visit_expr_mut(&mut body);
                Some((p, body))
            }
            Expr::Path(p) => {
                // function used as a closure: Symbol::is_x  /  Some
                let mut f = Expr::Path(p.clone());
                self.visit_expr_mut(&mut f);
                Some((parse_pat(quote!(__a)), pexpr(quote!(#f(__a)))))
            }
            _ => {
                self.err("closure shape");
                None
            }
        }
    }
    /// builds the while loop iterating over `iter`, with `mk` producing the body from the item variable
    fn iterate(&mut self, iter: &Expr, k: usize, label: Option<Label>, body: &mut dyn FnMut(&mut Self, Ident) -> TokenStream) -> Option<TokenStream> {
        let i = format_ident!("__i{}", k);
        let it = format_ident!("__it{}", k);
        let x = format_ident!("__x{}", k);
        if let Expr::Range(r) = strip_paren(iter) {
            let (mut a, mut b) = match (&r.start, &r.end) {
                (Some(a), Some(b)) => ((**a).clone(), (**b).clone()),
                _ => {
                    self.err("open range loop");
                    return None;
                }
            };
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            let hi = format_ident!("__hi{}", k);
            let cmp = if matches!(r.limits, RangeLimits::Closed(_)) { quote!(<=) } else { quote!(<) };
            let bd = body(self, x.clone());
            // written with the bound first so that the counter takes the type of the bound
            return Some(quote! {
                let #hi = #b;
                let mut #i = #a;
                __vl_at!("loop before" #k);
                #label while #i #cmp #hi {
                    __vl_loop!(#k);
                    let #x = #i;
                    #i = #i + 1;
                    __vl_at!("loop start" #k);
                    #bd
                    __vl_at!("loop end" #k);
                }
                __vl_at!("loop after" #k);
            });
        }
        let mut stages = vec![];
        let base = self.chain(iter, &mut stages)?;
        let temps: Vec<TokenStream> = self.temps[self.temps_done..].to_vec();
        self.temps_done = self.temps.len();
        let mut pre = TokenStream::new();
        let mut plain_index = true;
        for s in &stages {
            match s.kind.as_str() {
                "cloned" => pre.extend(quote!(let #x = vderef_clone(#x);)),
                "enumerate" => {
                    if !plain_index {
                        self.err("enumerate after filter");
                        return None;
                    }
                    pre.extend(quote!(let #x = (#i - 1, #x);))
                }
                "filter" => {
                    plain_index = false;
                    let (p, b) = self.closure(&s.args[0])?;
                    let (p, rf) = deref_pat(&p, true);
                    pre.extend(quote!(let __keep = { let #p = #rf #x; #b }; if !__keep { continue; }))
                }
                "map" => {
                    let (p, b) = self.closure(&s.args[0])?;
                    let (p, rf) = deref_pat(&p, false);
                    pre.extend(quote!(let #x = { let #p = #rf #x; #b };))
                }
                "take_while" => {
                    let (p, b) = self.closure(&s.args[0])?;
                    let (p, rf) = deref_pat(&p, true);
                    pre.extend(quote!(let __keep = { let #p = #rf #x; #b }; if !__keep { break; }))
                }
                "filter_map" => {
                    plain_index = false;
                    let (p, b) = self.closure(&s.args[0])?;
                    let (p, rf) = deref_pat(&p, false);
                    pre.extend(quote!(let __o = { let #p = #rf #x; #b }; if __o.is_none() { continue; } let #x = __o.unwrap();))
                }
                o => {
                    self.err(format!("iterator adapter {o}"));
                    return None;
                }
            }
        }
        let bd = body(self, x.clone());
        Some(quote! {
            #(#temps)*
            let #it = #base;
            let mut #i: usize = 0;
            __vl_at!("loop before" #k);
            #label while #i < #it.len() {
                __vl_loop!(#k);
                let #x = vget(&#it, #i);
                #i = #i + 1;
                __vl_at!("loop start" #k);
                #pre
                #bd
                __vl_at!("loop end" #k);
            }
            __vl_at!("loop after" #k);
        })
    }
    fn next_loop(&mut self) -> usize {
        self.loops += 1;
        self.loops
    }
    fn loop_body(&mut self, b: &Block, k: usize) -> TokenStream {
        let mut b = b.clone();
        self.visit_block_mut(&mut b);
        unit_tail(&mut b);
        let stmts = &b.stmts;
        quote!(__vl_loop!(#k); __vl_at!("loop start" #k); #(#stmts)* __vl_at!("loop end" #k);)
    }
    /// the type the contract states for the result of a pipeline
    fn result_ty(&self, k: usize) -> TokenStream {
        match self.tys.get(&format!("__r{k}")) {
            Some(t) => {
                let t: Type = parse_str(t).expect("type in contract");
                quote!(: #t)
            }
            None => quote!(),
        }
    }
    fn lower_term(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let recv = (*m.receiver).clone();
        let k = self.next_loop();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let r = format_ident!("__r{}", k);
        let ty = self.result_ty(k);
        Some(match n.as_str() {
            "any" | "all" => {
                let neg = n == "all";
                let lp = self.iterate(&recv, k, None, &mut |s, x| {
                    let (p, b) = match s.closure(&args[0]) {
                        Some(t) => t,
                        None => return quote!(),
                    };
                    let (p, rf) = deref_pat(&p, false);
                    let (t, v) = if neg { (quote!(!__c), quote!(false)) } else { (quote!(__c), quote!(true)) };
                    quote!(let __c = { let #p = #rf #x; #b }; if #t { #r = #v; break; })
                })?;
                pexpr(quote!({ let mut #r = #neg; #lp #r }))
            }
            "find" => {
                let lp = self.iterate(&recv, k, None, &mut |s, x| {
                    let (p, b) = match s.closure(&args[0]) {
                        Some(t) => t,
                        None => return quote!(),
                    };
                    let (p, rf) = deref_pat(&p, true);
                    quote!(let __c = { let #p = #rf #x; #b }; if __c { #r = Some(#x); break; })
                })?;
                pexpr(quote!({ let mut #r #ty = None; #lp #r }))
            }
            "position" => {
                let lp = self.iterate(&recv, k, None, &mut |s, x| {
                    let (p, b) = match s.closure(&args[0]) {
                        Some(t) => t,
                        None => return quote!(),
                    };
                    let (p, rf) = deref_pat(&p, false);
                    let i = format_ident!("__i{}", k);
                    quote!(let __c = { let #p = #rf #x; #b }; if __c { #r = Some(#i - 1); break; })
                })?;
                pexpr(quote!({ let mut #r: Option<usize> = None; #lp #r }))
            }
            "count" => {
                let lp = self.iterate(&recv, k, None, &mut |_s, _x| quote!(#r = #r + 1;))?;
                pexpr(quote!({ let mut #r: usize = 0; #lp #r }))
            }
            "collect" => {
                let lp = self.iterate(&recv, k, None, &mut |_s, x| quote!(#r.push(#x);))?;
                pexpr(quote!({ let mut #r #ty = Vec::new(); #lp vcollect(#r) }))
            }
            "next" => {
                let lp = self.iterate(&recv, k, None, &mut |_s, x| quote!(#r = Some(#x); break;))?;
                pexpr(quote!({ let mut #r #ty = None; #lp #r }))
            }
            _ => {
                self.err(format!("iterator terminal {n}"));
                return None;
            }
        })
    }
    fn collect_iter(&mut self, e: &Expr) -> Option<Expr> {
        let mut stages = vec![];
        // a plain source needs no loop
        let save = (self.loops, self.errs.len());
        let b = self.chain(e, &mut stages)?;
        if stages.is_empty() {
            self.temps_done = self.temps.len();
            return Some(orig_source(b, &self.temps));
        }
        self.temps.truncate(self.temps_done);
        self.loops = save.0;
        let k = self.next_loop();
        let r = format_ident!("__r{}", k);
        let ty = self.result_ty(k);
        let lp = self.iterate(e, k, None, &mut |_s, x| quote!(#r.push(#x);))?;
        Some(pexpr(quote!({ let mut #r #ty = Vec::new(); #lp #r })))
    }
    pub fn path_fix(&self, p: &mut Path) {
        // strip generic arguments named in cfg.strip, lifetimes; map type names
        for seg in p.segments.iter_mut() {
            let s = seg.ident.to_string();
            if let Some(t) = self.cfg.tymap.get(&s) {
                seg.ident = format_ident!("{}", t);
            }
            if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                let mut args: punctuated::Punctuated<GenericArgument, Token![,]> = Default::default();
                for a in ab.args.iter() {
                    match a {
                        GenericArgument::Lifetime(_) if self.cfg.keep_lt.contains(&seg.ident.to_string()) => args.push(a.clone()),
                        GenericArgument::Lifetime(_) => {}
                        GenericArgument::Type(Type::Path(tp)) if tp.path.get_ident().map(|i| self.cfg.strip.contains(&i.to_string())).unwrap_or(false)
                            && !["Vec", "Option", "OrderedSet", "Result", "HMap", "BMap", "BSet"].contains(&seg.ident.to_string().as_str()) => {}
                        o => args.push(o.clone()),
                    }
                }
                if args.is_empty() {
                    seg.arguments = PathArguments::None;
                } else {
                    ab.args = args;
                }
            }
        }
        // drop crate/std module prefixes
        while p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            if ["crate", "std", "super", "collections", "hash_map", "btree_set", "btree_map", "regex", "cmp", "lexan", "lalr1", "fmt", "iter", "io", "alalr1", "non_terminal", "terminal", "tag", "symbol", "production", "grammar", "state", "fs", "process", "path"].contains(&f.as_str())
                && p.segments[0].arguments.is_none()
            {
                // keep a way to tell apart equally named types of other crates
                let two = format!("{}::{}", f, p.segments[1].ident);
                let mapped = self.cfg.tymap.get(&two).cloned();
                p.segments = p.segments.iter().skip(1).cloned().collect();
                if let Some(t) = mapped {
                    p.segments[0].ident = format_ident!("{}", t);
                }
            } else {
                break;
            }
        }
        p.leading_colon = None;
    }
    pub fn type_fix(&mut self, t: &mut Type) {
        self.visit_type_mut(t)
    }
    fn macro_args(&mut self, m: &Macro) -> Vec<Expr> {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        match syn::parse::Parser::parse2(p, m.tokens.clone()) {
            Ok(v) => v.into_iter().collect(),
            Err(e) => {
                self.err(format!("macro {}: {e}", m.path.to_token_stream()));
                vec![]
            }
        }
    }
    /// pieces of a format string: Lit(text) or Arg(expr)
    pub fn fmt_pieces(&mut self, args: &[Expr]) -> Option<Vec<std::result::Result<String, Expr>>> {
        let f = match args.first() {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            _ => {
                self.err("format string");
                return None;
            }
        };
        let mut out = vec![];
        let mut cur = String::new();
        let mut next = 1;
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '{' && cs.get(i + 1) == Some(&'{') {
                cur.push('{');
                i += 2;
            } else if cs[i] == '}' && cs.get(i + 1) == Some(&'}') {
                cur.push('}');
                i += 2;
            } else if cs[i] == '{' {
                let mut j = i + 1;
                while cs[j] != '}' {
                    j += 1;
                }
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (inner, String::new()),
                };
                // {:1} = minimum width one: no effect on non empty output
                if spec != "" && spec != "1" {
                    self.err(format!("format spec {spec}"));
                    return None;
                }
                if !cur.is_empty() {
                    out.push(Ok(std::mem::take(&mut cur)));
                }
                let e = if name.is_empty() {
                    next += 1;
                    args.get(next - 1).cloned()
                } else if let Ok(n) = name.parse::<usize>() {
                    args.get(n + 1).cloned()
                } else {
                    let id = format_ident!("{}", name);
                    Some(pexpr(quote!(#id)))
                };
                match e {
                    Some(e) => out.push(Err(e)),
                    None => {
                        self.err("format args");
                        return None;
                    }
                }
                i = j + 1;
            } else {
                cur.push(cs[i]);
                i += 1;
            }
        }
        if !cur.is_empty() {
            out.push(Ok(cur));
        }
        Some(out)
    }
    fn fmt_build(&mut self, args: &[Expr]) -> Option<Expr> {
        if !self.fmt_precise {
            self.dropped.insert("text of messages (format!)".into());
            return Some(pexpr(quote!(vany_string())));
        }
        let ps = self.fmt_pieces(args)?;
        let mut b = TokenStream::new();
        for p in ps {
            match p {
                Ok(s) => {
                    let l = self.lit(&s);
                    b.extend(quote!(__s.push_str(#l);))
                }
                Err(mut e) => {
                    self.visit_expr_mut(&mut e);
                    b.extend(quote!(let __d = (#e).vdisp(); __s.push_str(&__d);))
                }
            }
        }
        Some(pexpr(quote!({ let mut __s = Str::new(); #b __s })))
    }
    fn lower_macro(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "__vl_at" | "__vl_loop" => None,
            "matches" => {
                struct MM(Expr, TokenStream);
                impl syn::parse::Parse for MM {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        Ok(MM(e, i.parse()?))
                    }
                }
                let MM(mut e, p) = match syn::parse2::<MM>(m.tokens.clone()) {
                    Ok(x) => x,
                    Err(er) => {
                        self.err(format!("matches!: {er}"));
                        return None;
                    }
                };
                let mut p: TokenStream = p;
                if let Some(TokenTree::Punct(c)) = p.clone().into_iter().last() {
                    if c.as_char() == ',' {
                        let v: Vec<TokenTree> = p.into_iter().collect();
                        p = v[..v.len() - 1].iter().cloned().collect();
                    }
                }
                self.visit_expr_mut(&mut e);
                let mut x = pexpr(quote!(match #e { #p => true, _ => false }));
                if let Expr::Match(mm) = &mut x {
                    for a in mm.arms.iter_mut() {
                        self.visit_pat_mut(&mut a.pat);
                    }
                }
                Some(x)
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(pexpr(quote!(vpanic()))),
            "debug_assert" | "assert" => {
                let mut a = self.macro_args(m);
                if a.is_empty() {
                    return None;
                }
                self.visit_expr_mut(&mut a[0]);
                let e = &a[0];
                Some(pexpr(quote!(vassert(#e))))
            }
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let mut a = self.macro_args(m);
                if a.len() < 2 {
                    return None;
                }
                self.visit_expr_mut(&mut a[0]);
                self.visit_expr_mut(&mut a[1]);
                let (x, y) = (&a[0], &a[1]);
                Some(if n.ends_with("eq") { pexpr(quote!(vassert(#x == #y))) } else { pexpr(quote!(vassert(#x != #y))) })
            }
            "vec" => {
                // vec![a, b]
                let mut a = self.macro_args(m);
                for x in a.iter_mut() {
                    self.visit_expr_mut(x);
                }
                if a.is_empty() {
                    Some(pexpr(quote!(Vec::new())))
                } else {
                    Some(pexpr(quote!({ let mut __v = Vec::new(); #(__v.push(#a);)* __v })))
                }
            }
            // the macro that generated parsers define
            "ordered_set" => {
                let mut a = self.macro_args(m);
                for x in a.iter_mut() {
                    self.visit_expr_mut(x);
                }
                Some(pexpr(quote!({ let mut __v = OrderedSet::new(); #(__v.insert(#a);)* __v })))
            }
            "format" => {
                let a = self.macro_args(m);
                self.fmt_build(&a)
            }
            "format_args" => {
                let a = self.macro_args(m);
                self.fmt_build(&a)
            }
            "write" | "writeln" => {
                let a = self.macro_args(m);
                if a.len() < 2 {
                    self.err(format!("macro {n}!"));
                    return None;
                }
                let mut w = a[0].clone();
                self.visit_expr_mut(&mut w);
                let t = self.fmt_build(&a[1..])?;
                let nl = if n == "writeln" && self.fmt_precise {
                    let l = self.lit("\n");
                    quote!(__w.push_str(#l);)
                } else {
                    quote!()
                };
                let h = if self.cfg.heap_fns.contains("write_fmt") { quote!(, vh) } else { quote!() };
                Some(if nl.is_empty() { pexpr(quote!(#w.vwrite_str(#t #h))) } else { pexpr(quote!({ let mut __w = #t; #nl #w.vwrite_str(__w #h) })) })
            }
            "println" | "eprintln" | "print" | "eprint" => {
                self.dropped.insert("console output".into());
                Some(pexpr(quote!(())))
            }
            _ => {
                self.err(format!("macro {n}!"));
                None
            }
        }
    }
    fn option_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let mut recv = (*m.receiver).clone();
        let has_cl = m.args.iter().any(|a| matches!(strip_paren(a), Expr::Closure(_)));
        if !has_cl && !(n == "map" || n == "and_then") {
            return None;
        }
        let one = |s: &mut Self, i: usize| -> Option<(Pat, Expr)> { s.closure(&m.args[i]) };
        let nullary = |s: &mut Self, i: usize| -> Option<Expr> {
            match strip_paren(&m.args[i]) {
                Expr::Closure(c) if c.inputs.is_empty() => {
                    let mut b = (*c.body).clone();
                    s.visit_expr_mut(&mut b);
                    Some(b)
                }
                _ => None,
            }
        };
        match n.as_str() {
            "map" => {
                self.visit_expr_mut(&mut recv);
                let (p, b) = one(self, 0)?;
                Some(pexpr(quote!(match #recv { Some(#p) => Some(#b), None => None })))
            }
            "and_then" => {
                self.visit_expr_mut(&mut recv);
                let (p, b) = one(self, 0)?;
                Some(pexpr(quote!(match #recv { Some(#p) => #b, None => None })))
            }
            "filter" => {
                self.visit_expr_mut(&mut recv);
                let (p, b) = one(self, 0)?;
                let (p, rf) = deref_pat(&p, true);
                Some(pexpr(quote!(match #recv { Some(__o) => { let __keep = { let #p = #rf __o; #b }; if __keep { Some(__o) } else { None } }, None => None })))
            }
            "is_some_and" => {
                self.visit_expr_mut(&mut recv);
                let (p, b) = one(self, 0)?;
                Some(pexpr(quote!(match #recv { Some(#p) => #b, None => false })))
            }
            "is_none_or" => {
                self.visit_expr_mut(&mut recv);
                let (p, b) = one(self, 0)?;
                Some(pexpr(quote!(match #recv { Some(#p) => #b, None => true })))
            }
            "map_or" => {
                self.visit_expr_mut(&mut recv);
                let mut d = m.args[0].clone();
                self.visit_expr_mut(&mut d);
                let (p, b) = one(self, 1)?;
                Some(pexpr(quote!({ let __d = #d; match #recv { Some(#p) => #b, None => __d } })))
            }
            "unwrap_or_else" => {
                self.visit_expr_mut(&mut recv);
                let b = nullary(self, 0)?;
                Some(pexpr(quote!(match #recv { Some(__o) => __o, None => #b })))
            }
            "ok_or_else" => {
                self.visit_expr_mut(&mut recv);
                let b = nullary(self, 0)?;
                Some(pexpr(quote!(match #recv { Some(__o) => Ok(__o), None => Err(#b) })))
            }
            "then" => {
                self.visit_expr_mut(&mut recv);
                let b = nullary(self, 0)?;
                Some(pexpr(quote!(if #recv { Some(#b) } else { None })))
            }
            _ => None,
        }
    }
    fn mark_stmts(&mut self, stmts: Vec<Stmt>) -> Vec<Stmt> {
        let mut out = vec![];
        for s in stmts {
            let mut after: Vec<TokenStream> = vec![];
            let mut before: Vec<TokenStream> = vec![];
            match &s {
                Stmt::Local(l) => {
                    let mut ids = vec![];
                    pat_idents(&l.pat, &mut ids);
                    for i in ids {
                        if i.starts_with("__") {
                            continue;
                        }
                        let n = self.lets.entry(i.clone()).or_insert(0);
                        *n += 1;
                        let n = *n;
                        let t = if n == 1 { format!("let {i}") } else { format!("let {i} {n}") };
                        before.push(quote!(__vl_at!(#t "before");));
                        after.push(quote!(__vl_at!(#t);));
                    }
                    if let Some(i) = &l.init {
                        self.mark_call(&i.expr, &mut before, &mut after);
                    }
                }
                Stmt::Expr(e, Some(_)) => self.mark_call(e, &mut before, &mut after),
                Stmt::Expr(Expr::Return(_), None) => {}
                _ => {}
            }
            if let Stmt::Expr(Expr::Return(_), _) = &s {
                self.rets += 1;
                let n = self.rets;
                if let (Stmt::Expr(Expr::Return(ExprReturn { expr: Some(x), .. }), _), true) = (&s, self.bind_ret) {
                    out.push(syn::parse2(quote!({ let __ret = #x; __vl_at!("ret" #n); return __ret; })).unwrap());
                    continue;
                }
                before.push(quote!(__vl_at!("ret" #n);));
            }
            for b in before {
                out.push(syn::parse2(b).unwrap());
            }
            out.push(s);
            for b in after {
                out.push(syn::parse2(b).unwrap());
            }
        }
        out
    }
    fn mark_call(&mut self, e: &Expr, before: &mut Vec<TokenStream>, after: &mut Vec<TokenStream>) {
        let n = match strip_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["unwrap", "clone", "vclone", "to_string", "expect", "len", "cloned", "is_empty"].contains(&n.as_str()) {
                    return self.mark_call(&m.receiver, before, after);
                }
                n
            }
            Expr::Call(c) => match strip_paren(&c.func) {
                Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => return,
            },
            Expr::Try(t) => return self.mark_call(&t.expr, before, after),
            Expr::Assign(a) => return self.mark_call(&a.right, before, after),
            Expr::Reference(a) => return self.mark_call(&a.expr, before, after),
            Expr::Unary(a) => return self.mark_call(&a.expr, before, after),
            Expr::Cast(a) => return self.mark_call(&a.expr, before, after),
            Expr::Binary(a) if matches!(strip_paren(&a.left), Expr::Path(_)) => return self.mark_call(&a.right, before, after),
            _ => return,
        };
        let c = self.calls.entry(n.clone()).or_insert(0);
        *c += 1;
        let c = *c;
        let t = if c == 1 { format!("call {n}") } else { format!("call {n} {c}") };
        before.push(quote!(__vl_at!(#t "before");));
        after.push(quote!(__vl_at!(#t);));
    }
}

/// the value of a loop body is ()
fn unit_tail(b: &mut Block) {
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if semi.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
            *semi = Some(Default::default());
        }
    }
}

/// without a loop no temporary needs to be kept
fn orig_source(b: Expr, temps: &[TokenStream]) -> Expr {
    fn orig(e: &Expr, temps: &[TokenStream]) -> Option<ExprReference> {
        let Expr::Path(p) = e else { return None };
        let i = p.path.get_ident()?.to_string();
        let n = i.strip_prefix("__t")?.parse::<usize>().ok()?;
        match syn::parse2::<Stmt>(temps.get(n)?.clone()) {
            Ok(Stmt::Local(l)) => match *l.init?.expr {
                Expr::Reference(r) => Some(r),
                _ => None,
            },
            _ => None,
        }
    }
    let mut b = b;
    if let Expr::MethodCall(m) = &mut b {
        if let Some(r) = orig(&m.receiver, temps) {
            m.receiver = r.expr;
        }
        for a in m.args.iter_mut() {
            if let Some(r) = orig(a, temps) {
                *a = Expr::Reference(r);
            }
        }
    }
    b
}

pub struct Stage {
    kind: String,
    args: Vec<Expr>,
}

pub fn parse_pat(ts: TokenStream) -> Pat {
    syn::parse::Parser::parse2(Pat::parse_multi_with_leading_vert, ts).unwrap()
}

/// a closure parameter pattern `p` for an item `x`: returns (pattern, prefix) for `let pattern = prefix x`
fn deref_pat(p: &Pat, by_ref: bool) -> (Pat, TokenStream) {
    let mut p = p.clone();
    let mut stars = 0i32;
    while let Pat::Reference(r) = &p {
        stars += 1;
        p = (*r.pat).clone();
    }
    let mut n = if by_ref { 1 } else { 0 } - stars;
    let mut pre = TokenStream::new();
    while n > 0 {
        pre.extend(quote!(&));
        n -= 1;
    }
    while n < 0 {
        pre.extend(quote!(*));
        n += 1;
    }
    (p, pre)
}

pub fn pat_idents(p: &Pat, out: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'ast, 'b> syn::visit::Visit<'ast> for V<'b> {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            let s = i.ident.to_string();
            if !s.chars().next().unwrap().is_uppercase() {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

pub fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn labelled_continue(b: &Block, label: &Lifetime) -> bool {
    struct V<'b>(bool, &'b Lifetime);
    impl<'ast, 'b> syn::visit::Visit<'ast> for V<'b> {
        fn visit_expr_continue(&mut self, c: &'ast ExprContinue) {
            if c.label.as_ref() == Some(self.1) {
                self.0 = true
            }
        }
        fn visit_expr_break(&mut self, c: &'ast ExprBreak) {
            if c.label.as_ref() == Some(self.1) {
                self.0 = true
            }
        }
    }
    let mut v = V(false, label);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// rewrites `continue 'l` / `break 'l` located in loops nested directly in the statements of `b`
/// (one level) to flag + break, tested after the inner loop
struct Unlabel<'b> {
    label: &'b Lifetime,
    depth: usize,
    ok: bool,
    used: (bool, bool),
}
impl<'b> VisitMut for Unlabel<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Continue(c) if c.label.as_ref() == Some(self.label) => {
                if self.depth == 0 {
                    c.label = None
                } else if self.depth == 1 {
                    self.used.0 = true;
                    *e = pexpr(quote!({ __cont = true; break }));
                } else {
                    self.ok = false
                }
            }
            Expr::Break(c) if c.label.as_ref() == Some(self.label) => {
                if self.depth == 0 {
                    c.label = None
                } else if self.depth == 1 && c.expr.is_none() {
                    self.used.1 = true;
                    *e = pexpr(quote!({ __brk = true; break }));
                } else {
                    self.ok = false
                }
            }
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            if is_loop && self.depth == 0 {
                self.depth += 1;
                let save = self.used;
                self.used = (false, false);
                visit_mut::visit_stmt_mut(self, &mut s);
                let used = self.used;
                self.used = (save.0 || used.0, save.1 || used.1);
                self.depth -= 1;
                out.push(s);
                if used.0 {
                    out.push(parse_quote!(if __cont { continue; }));
                }
                if used.1 {
                    out.push(parse_quote!(if __brk { break; }));
                }
            } else {
                if is_loop {
                    self.depth += 1;
                }
                visit_mut::visit_stmt_mut(self, &mut s);
                if is_loop {
                    self.depth -= 1;
                }
                out.push(s);
            }
        }
        b.stmts = out;
    }
}

pub fn unlabel(b: &mut Block, label: &Lifetime) -> bool {
    if !labelled_continue(b, label) {
        return true;
    }
    let mut u = Unlabel { label, depth: 0, ok: true, used: (false, false) };
    u.visit_block_mut(b);
    if u.used.0 {
        b.stmts.insert(0, parse_quote!(let mut __cont = false;));
    }
    if u.used.1 {
        b.stmts.insert(0, parse_quote!(let mut __brk = false;));
    }
    u.ok
}

impl<'a> VisitMut for Low<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                // names from other crates are in scope already
                Stmt::Item(syn::Item::Use(u)) if matches!(&u.tree, UseTree::Path(p) if ["lalr1", "alalr1", "lexan", "crate", "super"].contains(&p.ident.to_string().as_str())) => {}
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("__vl") {
                        out.push(Stmt::Macro(m));
                        continue;
                    }
                    if let Some(e) = self.lower_macro(&m.mac) {
                        out.push(Stmt::Expr(e, Some(Default::default())));
                    }
                }
                Stmt::Item(Item::Use(u)) => {
                    out.push(Stmt::Item(Item::Use(u)));
                }
                Stmt::Item(_) => self.err("nested item"),
                Stmt::Local(mut l) => {
                    // let-else
                    if let Some(init) = &l.init {
                        if let Some((_, els)) = &init.diverge {
                            let mut ids = vec![];
                            pat_idents(&l.pat, &mut ids);
                            let ids: Vec<Ident> = ids.iter().map(|i| format_ident!("{}", i)).collect();
                            let (p, e) = (&l.pat, &init.expr);
                            let x = if ids.len() == 1 { let i = &ids[0]; quote!(#i) } else { quote!((#(#ids),*)) };
                            let st: Stmt = syn::parse2(quote!(let #x = match #e { #p => #x, _ => #els };)).unwrap();
                            if let Stmt::Local(nl) = st {
                                l = nl;
                            }
                        }
                    }
                    // let &(a, b) = e
                    if let Pat::Reference(r) = &l.pat {
                        if let Some(i) = &mut l.init {
                            let e = &i.expr;
                            i.expr = Box::new(pexpr(quote!(*(#e))));
                            l.pat = (*r.pat).clone();
                        }
                    }
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        self.guards.remove(&i.ident.to_string());
                        if let Expr::MethodCall(m) = strip_paren(&init.expr) {
                            if m.method == "borrow_mut" && self.heap_cell(&m.receiver).is_some() {
                                self.guards.insert(i.ident.to_string(), (*init.expr).clone());
                                continue;
                            }
                        }
                    }
                    visit_mut::visit_local_mut(self, &mut l);
                    if let Pat::Ident(i) = &l.pat {
                        if let Some(t) = self.tys.get(&i.ident.to_string()) {
                            let ty: Type = parse_str(t).expect("type in contract");
                            let p = l.pat.clone();
                            l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(ty) });
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(e, semi) => {
                    match e {
                        // a loop over the elements of a literal array is unrolled
                        Expr::ForLoop(f) if f.label.is_none() && array_elems(&f.expr).map(|a| a.len() <= 8).unwrap_or(false) && !own_jump(&f.body) => {
                            for x in array_elems(&f.expr).unwrap() {
                                let (p, b) = (&f.pat, &f.body.stmts);
                                let mut bl: Block = parse_quote!({ { let #p = #x; #(#b)* } });
                                self.visit_block_mut(&mut bl);
                                out.extend(bl.stmts);
                            }
                        }
                        Expr::ForLoop(f) => {
                            let k = self.next_loop();
                            let mut body = f.body.clone();
                            if let Some(l) = &f.label {
                                if !unlabel(&mut body, &l.name) {
                                    self.err("labelled jump");
                                }
                            }
                            let pat = (*f.pat).clone();
                            let lp = self.iterate(&f.expr, k, None, &mut |s, x| {
                                let (mut p, rf) = deref_pat(&pat, false);
                                s.visit_pat_mut(&mut p);
                                let mut b = body.clone();
                                s.visit_block_mut(&mut b);
                                unit_tail(&mut b);
                                let st = &b.stmts;
                                if let Pat::Wild(_) = p {
                                    quote!(__vl_at!("loop body" #k); #(#st)*)
                                } else {
                                    quote!(let #p = #rf #x; __vl_at!("loop body" #k); #(#st)*)
                                }
                            });
                            if let Some(lp) = lp {
                                let bl: Block = syn::parse2(quote!({ #lp })).unwrap();
                                out.extend(bl.stmts);
                            }
                        }
                        Expr::While(_) | Expr::Loop(_) => {
                            let kk = self.loops + 1;
                            let mut e = e;
                            out.push(syn::parse2(quote!(__vl_at!("loop before" #kk);)).unwrap());
                            self.visit_expr_mut(&mut e);
                            out.push(Stmt::Expr(e, semi));
                            out.push(syn::parse2(quote!(__vl_at!("loop after" #kk);)).unwrap());
                        }
                        mut e => {
                            self.visit_expr_mut(&mut e);
                            out.push(Stmt::Expr(e, semi));
                        }
                    }
                }
            }
        }
        b.stmts = self.mark_stmts(out);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let orig = e.clone();
        match &orig {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n.starts_with("__vl") {
                    return;
                }
                if let Some(x) = self.lower_macro(&m.mac) {
                    *e = x
                }
                return;
            }
            Expr::ForLoop(_) => {
                // for in expression position: wrap in a block
                let mut b: Block = parse_quote!({ #orig });
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            Expr::While(w) => {
                let k = self.next_loop();
                let mut body = w.body.clone();
                if let Some(l) = &w.label {
                    if !unlabel(&mut body, &l.name) {
                        self.err("labelled jump");
                    }
                }
                if has_let(&w.cond) {
                    let c = &w.cond;
                    let b2 = &body;
                    let inner: Expr = pexpr(quote!(if #c #b2 else { break; }));
                    let bl: Block = parse_quote!({ #inner });
                    let st = self.loop_body(&bl, k);
                    *e = pexpr(quote!(loop { #st }));
                } else {
                    let mut c = (*w.cond).clone();
                    self.visit_expr_mut(&mut c);
                    let st = self.loop_body(&body, k);
                    *e = pexpr(quote!(while #c { #st }));
                }
                return;
            }
            Expr::Loop(w) => {
                let k = self.next_loop();
                let mut body = w.body.clone();
                if let Some(l) = &w.label {
                    if !unlabel(&mut body, &l.name) {
                        self.err("labelled jump");
                    }
                }
                let st = self.loop_body(&body, k);
                *e = pexpr(quote!(loop { #st }));
                return;
            }
            Expr::If(i) if has_chain_let(&i.cond) => {
                let mut conds = vec![];
                flat_and(&i.cond, &mut conds);
                let then = &i.then_branch;
                let els = i.else_branch.as_ref().map(|x| (*x.1).clone());
                let mut cur = quote!(#then);
                for c in conds.iter().rev() {
                    let el = match &els {
                        Some(x) => quote!(else #x),
                        None => quote!(),
                    };
                    cur = quote!({ if #c #cur #el });
                }
                let mut x = pexpr(cur);
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            Expr::If(i) => {
                // Entry API:  if let Entry::Vacant(v) = m.entry(k) { v.insert(x) } else { .. }
                if let Expr::Let(l) = strip_paren(&i.cond) {
                    if let Pat::TupleStruct(ts) = &*l.pat {
                        let last = ts.path.segments.last().unwrap().ident.to_string();
                        if let (true, Expr::MethodCall(m)) = (last == "Vacant" || last == "Occupied", strip_paren(&l.expr)) {
                            if m.method == "entry" {
                                let map = &m.receiver;
                                let key = &m.args[0];
                                let mut ids = vec![];
                                pat_idents(&ts.elems[0], &mut ids);
                                let v = ids.first().cloned().unwrap_or_default();
                                let mut th = i.then_branch.clone();
                                let mut en = EntryInsert { var: v, map: map.to_token_stream(), bad: false };
                                en.visit_block_mut(&mut th);
                                if en.bad || last == "Occupied" {
                                    self.err("entry api");
                                }
                                let els = i.else_branch.as_ref().map(|x| { let y = &x.1; quote!(else #y) });
                                let mut x = pexpr(quote!({ let __k = #key; if !#map.contains_key(&__k) #th #els }));
                                self.visit_expr_mut(&mut x);
                                *e = x;
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Assign(a) => {
                if let Expr::Unary(u) = strip_paren(&a.left) {
                    if let (UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, strip_paren(&u.expr)) {
                        if m.method == "borrow_mut" {
                            if let Some((b, f)) = self.heap_cell(&m.receiver) {
                                let mut v = (*a.right).clone();
                                self.visit_expr_mut(&mut v);
                                let id = format_ident!("{}_set", f);
                                *e = pexpr(quote!({ let __v = #v; vh.#id(&#b, __v) }));
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Struct(st) if st.path.segments.last().map(|i| self.cfg.alloc.contains_key(&i.ident.to_string())).unwrap_or(false) => {
                let name = st.path.segments.last().unwrap().ident.clone();
                let (kept, cells) = self.cfg.alloc[&name.to_string()].clone();
                let val = |f: &String| st.fields.iter().find(|x| matches!(&x.member, Member::Named(i) if i == f)).map(|x| x.expr.clone());
                let mut lits: Vec<proc_macro2::TokenStream> = vec![];
                let mut missing = false;
                for k in &kept {
                    match val(k) {
                        Some(mut v) => {
                            self.visit_expr_mut(&mut v);
                            let id = format_ident!("{}", k);
                            lits.push(quote!(#id: #v));
                        }
                        None => missing = true,
                    }
                }
                let mut args: Vec<proc_macro2::TokenStream> = vec![];
                for k in &cells {
                    match val(k) {
                        Some(v) => {
                            // RefCell::new(x), Cell::new(x), x.into()
                            let mut v = match strip_paren(&v) {
                                Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().ends_with("Cell :: new") => c.args[0].clone(),
                                Expr::MethodCall(m) if m.method == "into" => (*m.receiver).clone(),
                                x => x.clone(),
                            };
                            self.visit_expr_mut(&mut v);
                            args.push(quote!(Some(#v)));
                        }
                        None => args.push(quote!(None)),
                    }
                }
                for f in &st.fields {
                    if let Member::Named(i) = &f.member {
                        let n = i.to_string();
                        if !kept.contains(&n) && !cells.contains(&n) {
                            self.err("unknown field of a shared object");
                        }
                    }
                }
                let rest = match (&st.rest, missing) {
                    (Some(r), true) => {
                        let mut r = (**r).clone();
                        self.visit_expr_mut(&mut r);
                        quote!(..#r)
                    }
                    _ => quote!(),
                };
                let path = &st.path;
                let acc = format_ident!("alloc_{}", name);
                *e = pexpr(quote!({ let __o = #path { #(#lits,)* #rest }; vh.#acc(__o #(, #args)*) }));
                return;
            }
            Expr::Path(p) if p.path.get_ident().map(|i| self.guards.contains_key(&i.to_string())).unwrap_or(false) => {
                let g = self.guards[&p.path.get_ident().unwrap().to_string()].clone();
                *e = g;
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(m) if ["borrow", "borrow_mut", "get", "set"].contains(&m.method.to_string().as_str()) && self.heap_cell(&m.receiver).is_some() => {
                let (b, f) = self.heap_cell(&m.receiver).unwrap();
                *e = match m.method.to_string().as_str() {
                    "borrow" => {
                        let id = format_ident!("{}", f);
                        pexpr(quote!(vh.#id(&#b)))
                    }
                    "borrow_mut" => {
                        let id = format_ident!("{}_mut", f);
                        pexpr(quote!(vh.#id(&#b)))
                    }
                    "get" => {
                        let id = format_ident!("{}_get", f);
                        pexpr(quote!(vh.#id(&#b)))
                    }
                    _ => {
                        let mut v = m.args[0].clone();
                        self.visit_expr_mut(&mut v);
                        let id = format_ident!("{}_set", f);
                        pexpr(quote!({ let __v = #v; vh.#id(&#b, __v) }))
                    }
                };
                return;
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // iterator chains
                if TERM.contains(&n.as_str()) && self.iter_rooted(&m.receiver) {
                    if let Some(x) = self.lower_term(m) {
                        *e = x;
                    }
                    return;
                }
                if (ADAPT.contains(&n.as_str()) || n == "iter" || n == "keys" || n == "values") && self.iter_rooted(&orig) && self.ret_is_iter {
                    if let Some(x) = self.collect_iter(&orig) {
                        *e = x;
                    }
                    return;
                }
                if self.cfg.mut_closures.contains(&n) {
                    if let Some(Expr::Closure(c)) = m.args.last().map(strip_paren) {
                        // the callee calls the closure with unit result some number of times and cannot see what it
                        // captures: it becomes the sequence of its calls, applied after the call
                        let mut call = m.clone();
                        call.args = m.args.iter().take(m.args.len() - 1).cloned().collect();
                        let ps: Vec<Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                        let body = &c.body;
                        if has_return(body) {
                            self.err("return in closure");
                        }
                        let pat = if ps.len() == 1 { let p = &ps[0]; quote!(#p) } else { quote!((#(#ps),*)) };
                        let mut x = pexpr(quote!({ let __calls = #call; let __value = __calls.0; let __seq = __calls.1; for #pat in __seq { #body; } __value }));
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                }
                if let Some((_, _, tgt)) = self.cfg.closure_params.iter().find(|(f, _, _)| f.rsplit("::").next() == Some(&n)).cloned() {
                    let last = tgt.rsplit("::").next().unwrap().to_string();
                    let is_tgt = |p: &Path| p.segments.last().unwrap().ident == last && p.segments.len() == 2 && p.segments[0].ident == "Self";
                    let mut m2 = m.clone();
                    let before = m2.args.len();
                    m2.args = m.args.iter().filter(|a| !match strip_paren(a) {
                        Expr::Path(p) => is_tgt(&p.path),
                        Expr::Closure(c) if c.inputs.len() == 1 => {
                            let pi = match &c.inputs[0] { Pat::Ident(i) => Some(i.ident.clone()), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.clone()), _ => None }, _ => None };
                            let mut b = strip_paren(&c.body).clone();
                            while let Expr::Block(x) = &b {
                                match x.block.stmts.as_slice() { [Stmt::Expr(y, None)] => { b = strip_paren(y).clone(); } _ => break }
                            }
                            match (&b, pi) {
                                (Expr::Call(k), Some(pi)) => matches!(strip_paren(&k.func), Expr::Path(p) if is_tgt(&p.path)) && k.args.len() == 1
                                    && matches!(strip_paren(&k.args[0]), Expr::Path(p) if p.path.is_ident(&pi)),
                                _ => false,
                            }
                        }
                        _ => false,
                    }).cloned().collect();
                    if m2.args.len() + 1 != before {
                        self.err(format!("closure argument of {n} is not {tgt}"));
                    }
                    let mut x = Expr::MethodCall(m2);
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                    return;
                }
                if n == "replace_all" && m.args.len() == 2 {
                    if let Expr::Closure(c) = strip_paren(&m.args[1]) {
                        if c.inputs.len() == 1 && !has_return(&c.body) {
                            let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            let (re, arg) = (&m.receiver, &m.args[0]);
                            let mut body = (*c.body).clone();
                            if let Pat::Ident(i) = &p {
                                struct Groups(Ident);
                                impl VisitMut for Groups {
                                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                                        if let Expr::Index(ix) = e {
                                            if matches!(strip_paren(&ix.expr), Expr::Path(p) if p.path.is_ident(&self.0)) {
                                                let (b, i) = (&ix.expr, &ix.index);
                                                *e = pexpr(quote!((*#b.vgroup(#i))));
                                                return;
                                            }
                                        }
                                        visit_mut::visit_expr_mut(self, e);
                                    }
                                    fn visit_macro_mut(&mut self, m: &mut Macro) {
                                        if let Ok(mut a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                                            for x in a.iter_mut() {
                                                self.visit_expr_mut(x);
                                            }
                                            m.tokens = a.to_token_stream();
                                        }
                                    }
                                }
                                Groups(i.ident.clone()).visit_expr_mut(&mut body);
                            }
                            let mut x = pexpr(quote!({ let __rs = #arg; let __ms = #re.vcaptures(__rs); let mut __out = Str::new(); for #p in __ms.iter() { __out.push_str(#p.vbefore()); let __p = #body; __out.push_str(&__p); } __out.push_str(#re.vrest(__rs)); __out }));
                            self.visit_expr_mut(&mut x);
                            *e = x;
                            return;
                        }
                    }
                }
                if let Some(x) = self.option_closure(m) {
                    *e = x;
                    return;
                }
                if n == "or_default" {
                    if let Expr::MethodCall(m2) = strip_paren(&m.receiver) {
                        if m2.method == "entry" {
                            let (mut map, mut key) = ((*m2.receiver).clone(), m2.args[0].clone());
                            self.visit_expr_mut(&mut map);
                            self.visit_expr_mut(&mut key);
                            *e = pexpr(quote!(#map.entry_or_default(#key)));
                            return;
                        }
                    }
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if is_range(&ix.index) {
                        *e = self.slice(ix);
                        return;
                    }
                }
            }
            Expr::Index(ix) if is_range(&ix.index) => {
                *e = self.slice(ix);
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                *e = self.lit(&s.value());
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                match String::from_utf8(s.value()) {
                    Ok(t) => *e = self.lit(&t),
                    Err(_) => self.err("byte string"),
                }
                return;
            }
            Expr::Closure(_) => {
                self.err("closure");
                return;
            }
            Expr::Match(_) => {}
            Expr::Unary(u) => {
                // *x.borrow_mut() = v  is handled by Assign
                if let UnOp::Deref(_) = u.op {
                    if let Expr::MethodCall(m) = strip_paren(&u.expr) {
                        if (m.method == "borrow_mut" || m.method == "borrow") && m.args.is_empty() && self.heap_cell(&m.receiver).is_none() {
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            *e = r;
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // post transforms
        let cur = e.clone();
        match &cur {
            Expr::MethodCall(m) if m.method == "parse" && m.args.is_empty() && m.turbofish.as_ref().map(|t| ["u32", "usize"].contains(&t.args.to_token_stream().to_string().as_str())).unwrap_or(false) => {
                let (r, f) = (&m.receiver, format_ident!("v{}_from_str", m.turbofish.as_ref().unwrap().args.to_token_stream().to_string()));
                *e = pexpr(quote!(#f(#r)));
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = &m.receiver;
                if self.cfg.heap_fns.contains(&n) && m.args.last().map(|a| a.to_token_stream().to_string() != "vh").unwrap_or(true) {
                    let mut m2 = m.clone();
                    if n == "write_fmt" {
                        m2.method = format_ident!("vwrite_str");
                    }
                    m2.args.push(pexpr(quote!(vh)));
                    *e = Expr::MethodCall(m2);
                    return;
                }
                match n.as_str() {
                    "expect" => *e = pexpr(quote!(#r.unwrap())),
                    "clone" => *e = pexpr(quote!(#r.vclone())),
                    "cloned" => *e = pexpr(quote!(#r.vcloned())),
                    "borrow" | "borrow_mut" if m.args.is_empty() => *e = (**r).clone(),
                    "get" if m.args.is_empty() => *e = (**r).clone(),
                    "set" if m.args.len() == 1 && self.cell_recv(r) => {
                        let a = &m.args[0];
                        *e = pexpr(quote!(#r = #a))
                    }
                    "write_fmt" => {
                        let a = &m.args;
                        *e = pexpr(quote!(#r.vwrite_str(#a)))
                    }
                    "binary_search" => {
                        let a = &m.args[0];
                        *e = pexpr(quote!(#r.vbinary_search(#a)))
                    }
                    "into" => *e = pexpr(quote!(#r.vinto())),
                    "unwrap_or_default" if m.args.is_empty() => *e = pexpr(quote!(vunwrap_or_default(#r))),
                    "to_vec" if m.args.is_empty() => *e = pexpr(quote!(vto_vec(#r))),
                    _ => {}
                }
            }
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::BitOrAssign(_) => {
                        let l = match &**l {
                            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
                            l => l.clone(),
                        };
                        *e = pexpr(quote!(#l.vor(#r)))
                    }
                    BinOp::AddAssign(_) => {
                        let is_str = matches!(strip_paren(r), Expr::Reference(_))
                            || matches!(strip_paren(r), Expr::Call(c) if c.func.to_token_stream().to_string().starts_with("vlit_"))
                            || matches!(strip_paren(r), Expr::MethodCall(c) if c.method == "name" || c.method == "as_str");
                        if is_str {
                            *e = pexpr(quote!(#l.push_str(#r)))
                        } else {
                            *e = pexpr(quote!(#l = #l + (#r)))
                        }
                    }
                    BinOp::Eq(_) if self.opts.contains("veq") => *e = pexpr(quote!(veq(&(#l), &(#r)))),
                    BinOp::Ne(_) if self.opts.contains("veq") => *e = pexpr(quote!((!veq(&(#l), &(#r))))),
                    BinOp::Lt(_) if self.opts.contains("vord") => *e = pexpr(quote!(vlt(&(#l), &(#r)))),
                    BinOp::Gt(_) if self.opts.contains("vord") => *e = pexpr(quote!(vlt(&(#r), &(#l)))),
                    BinOp::Le(_) if self.opts.contains("vord") => *e = pexpr(quote!(!vlt(&(#r), &(#l)))),
                    BinOp::Ge(_) if self.opts.contains("vord") => *e = pexpr(quote!(!vlt(&(#l), &(#r)))),
                    BinOp::SubAssign(_) => *e = pexpr(quote!(#l = #l - (#r))),
                    BinOp::MulAssign(_) => *e = pexpr(quote!(#l = #l * (#r))),
                    _ => {}
                }
            }
            Expr::Try(t) if self.opts.contains("tryconv") => {
                let x = &t.expr;
                *e = pexpr(quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(__e.vfrom_err()) }));
            }
            Expr::Binary(b) if false => { let _ = b; }
            Expr::Path(p) if p.path.get_ident().map(|i| self.cfg.statics.contains(&i.to_string())).unwrap_or(false) => {
                *e = pexpr(quote!(#p()));
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "u32::from_str" {
                    let a = &c.args[0];
                    *e = pexpr(quote!(vu32_from_str(#a)));
                } else if f == "usize::from_str" {
                    let a = &c.args[0];
                    *e = pexpr(quote!(vusize_from_str(#a)));
                } else if f == "Arc::clone" || f == "Rc::clone" {
                    let a = &c.args[0];
                    *e = pexpr(quote!(vclone_ref(#a)));
                } else if (f == "Rc::new" || f == "RefCell::new" || f == "Arc::new" || f == "Cell::new" || f == "Box::new") && c.args.len() == 1 {
                    *e = c.args[0].clone();
                } else if !f.contains("::") && self.cfg.heap_free.contains(&f) {
                    let mut c2 = c.clone();
                    c2.args.push(pexpr(quote!(vh)));
                    *e = Expr::Call(c2);
                } else if f.contains("::") && self.cfg.heap_fns.contains(f.rsplit("::").next().unwrap()) && self.cfg.heap_fns.contains(&f) {
                    let mut c2 = c.clone();
                    c2.args.push(pexpr(quote!(vh)));
                    *e = Expr::Call(c2);
                } else if let Some(t) = self.closure_alias.get(&f) {
                    let a = &c.args;
                    if let Some(t) = t.strip_prefix('+') {
                        // the calls of the closure go to an object that records them
                        let (g, f): (Path, Path) = (parse_str(t).unwrap(), parse_str(&f).unwrap());
                        *e = pexpr(quote!(#g(#f, #a)));
                    } else {
                        let g: Path = parse_str(t).unwrap();
                        *e = pexpr(quote!(#g(#a)));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.path_fix(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        // transparent wrappers
        if let Type::Path(tp) = t {
            let last = tp.path.segments.last().unwrap().clone();
            let n = last.ident.to_string();
            if self.cfg.transparent.contains(&n) {
                if let PathArguments::AngleBracketed(ab) = &last.arguments {
                    for a in ab.args.iter() {
                        if let GenericArgument::Type(inner) = a {
                            let mut inner = inner.clone();
                            self.visit_type_mut(&mut inner);
                            *t = inner;
                            return;
                        }
                    }
                }
            }
            if ["Iter", "Difference", "Intersection", "Union"].contains(&n.as_str()) {
                // borrowed iterators become vectors of references
                if let PathArguments::AngleBracketed(ab) = &last.arguments {
                    for a in ab.args.iter() {
                        if let GenericArgument::Type(inner) = a {
                            let mut inner = inner.clone();
                            self.visit_type_mut(&mut inner);
                            *t = parse_quote!(Vec<&#inner>);
                            return;
                        }
                    }
                }
            }
        }
        if let Type::ImplTrait(it) = t {
            let s = it.to_token_stream().to_string();
            if s.starts_with("impl Iterator") {
                if let TypeParamBound::Trait(tb) = &it.bounds[0] {
                    if let PathArguments::AngleBracketed(ab) = &tb.path.segments.last().unwrap().arguments {
                        for a in ab.args.iter() {
                            if let GenericArgument::AssocType(at) = a {
                                let mut inner = at.ty.clone();
                                self.visit_type_mut(&mut inner);
                                *t = parse_quote!(Vec<#inner>);
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Type::Reference(r) = t {
            let keep = r.lifetime.as_ref().map(|l| self.lts.contains(&l.to_string())).unwrap_or(false);
            if !keep {
                r.lifetime = None;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_closure_mut(&mut self, _c: &mut ExprClosure) {
        self.err("closure");
    }
}

impl<'a> Low<'a> {
    /// (lowered object, cell) for a place that is a cell of a shared object
    fn heap_cell(&mut self, r: &Expr) -> Option<(Expr, String)> {
        if let Expr::Field(f) = strip_paren(r) {
            if let Member::Named(i) = &f.member {
                if self.cfg.heap_cells.contains(&i.to_string()) {
                    let mut b = (*f.base).clone();
                    self.visit_expr_mut(&mut b);
                    return Some((b, i.to_string()));
                }
            }
        }
        None
    }
    fn cell_recv(&self, r: &Expr) -> bool {
        match strip_paren(r) {
            Expr::Field(f) => match &f.member {
                Member::Named(i) => self.cfg.cells.contains(&i.to_string()),
                _ => false,
            },
            _ => false,
        }
    }
    fn slice(&mut self, ix: &ExprIndex) -> Expr {
        let mut b = (*ix.expr).clone();
        self.visit_expr_mut(&mut b);
        if let Expr::Range(r) = strip_paren(&ix.index) {
            let f = |s: &mut Self, x: &Option<Box<Expr>>| {
                x.as_ref().map(|x| {
                    let mut y = (**x).clone();
                    s.visit_expr_mut(&mut y);
                    y
                })
            };
            let (a, z) = (f(self, &r.start), f(self, &r.end));
            if matches!(r.limits, RangeLimits::Closed(_)) {
                self.err("closed slice range");
            }
            return match (a, z) {
                (Some(a), Some(z)) => pexpr(quote!(#b.vslice(#a, #z))),
                (Some(a), None) => pexpr(quote!(#b.vslice_from(#a))),
                (None, Some(z)) => pexpr(quote!(#b.vslice(0, #z))),
                (None, None) => pexpr(quote!(#b.vslice_from(0))),
            };
        }
        self.err("slice");
        Expr::Index(ix.clone())
    }
}

struct EntryInsert {
    var: String,
    map: TokenStream,
    bad: bool,
}
impl VisitMut for EntryInsert {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if let Expr::Path(p) = strip_paren(&m.receiver) {
                if p.path.get_ident().map(|i| i.to_string()) == Some(self.var.clone()) {
                    if m.method == "insert" {
                        let a = m.args[0].clone();
                        let map = &self.map;
                        *e = pexpr(quote!(#map.insert(__k, #a)));
                    } else {
                        self.bad = true;
                    }
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn has_chain_let(e: &Expr) -> bool {
    matches!(e, Expr::Binary(b) if matches!(b.op, BinOp::And(_)) && has_let(e))
}
fn flat_and(e: &Expr, out: &mut Vec<Expr>) {
    if let Expr::Binary(b) = e {
        if matches!(b.op, BinOp::And(_)) && has_let(e) {
            flat_and(&b.left, out);
            flat_and(&b.right, out);
            return;
        }
    }
    out.push(e.clone());
}

// ---------------------------------------------------------------- printing
pub trait Sink {
    fn loop_clause(&mut self, k: usize) -> String;
    fn at_text(&mut self, name: &str) -> Option<String>;
}

pub fn print(ts: TokenStream, sink: &mut dyn Sink, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut join = false;
    while i < v.len() {
        // markers
        if let TokenTree::Ident(id) = &v[i] {
            if id == "__vl_at" {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let name = marker_name(g.stream());
                    if let Some(t) = sink.at_text(&name) {
                        out.push('\n');
                        out.push_str(&t);
                        out.push('\n');
                    }
                }
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => (" ", " "),
                };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut st = g.stream();
                    if let Some(TokenTree::Ident(id)) = inner.first() {
                        if id == "__vl_loop" {
                            if let TokenTree::Group(gg) = &inner[2] {
                                let k: usize = gg.stream().to_string().trim_end_matches("usize").trim().parse().unwrap();
                                out.push('\n');
                                out.push_str(&sink.loop_clause(k));
                                out.push('\n');
                            }
                            st = inner[4..].iter().cloned().collect();
                        }
                    }
                    out.push_str("{\n");
                    print(st, sink, out);
                    out.push_str("\n}\n");
                } else {
                    out.push_str(o);
                    print(g.stream(), sink, out);
                    out.push_str(c);
                }
                join = false;
            }
            TokenTree::Punct(p) => {
                if !join && p.as_char() != ';' && p.as_char() != ',' && p.as_char() != '.' {
                    out.push(' ');
                }
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                }
                join = p.spacing() == proc_macro2::Spacing::Joint;
                if p.as_char() == '.' || p.as_char() == '&' || p.as_char() == '!' {
                    join = true;
                }
            }
            TokenTree::Ident(id) => {
                if !join && !out.ends_with('(') && !out.ends_with('.') {
                    out.push(' ');
                }
                out.push_str(&id.to_string());
                join = false;
            }
            TokenTree::Literal(l) => {
                if !join {
                    out.push(' ');
                }
                let s = l.to_string();
                // loop numbers come out as 1usize
                out.push_str(&s);
                join = false;
            }
        }
        i += 1;
    }
}
fn marker_name(ts: TokenStream) -> String {
    let mut s = vec![];
    for t in ts {
        if let TokenTree::Literal(l) = t {
            let x = l.to_string();
            s.push(x.trim_matches('"').trim_end_matches("usize").to_string());
        }
    }
    // "loop start" 1 -> "loop 1 start"; "let x" "before" -> "before let x"; "ret" 2 -> "ret 2"
    if s.len() == 2 && s[0].starts_with("loop ") {
        return format!("loop {} {}", s[1], &s[0][5..]);
    }
    if s.len() == 2 && s[1] == "before" {
        return format!("before {}", s[0]);
    }
    s.join(" ")
}
#[allow(dead_code)]
fn _u(_: Literal) {}

/// the elements of a literal array that is iterated
fn array_elems(e: &Expr) -> Option<Vec<Expr>> {
    match strip_paren(e) {
        Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
        Expr::Reference(r) => array_elems(&r.expr).map(|v| v.into_iter().map(|x| parse_quote!((&#x))).collect()),
        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => array_elems(&m.receiver),
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => array_elems(&m.receiver).map(|v| v.into_iter().map(|x| parse_quote!((&#x))).collect()),
        _ => None,
    }
}
/// break or continue that belongs to this loop body
fn own_jump(b: &Block) -> bool {
    struct F(bool);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {
            self.0 = true;
        }
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {
            self.0 = true;
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}
