//! Ghost tables for the parser that lalr1_gen wrote for the specification language (directive @lrtables TYPE).
//! They are candidates only, computed from the current source's tables: the verifier checks them against the
//! functions themselves (see contracts/tables.vc).
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::*;

#[derive(Default)]
struct Acts {
    shifts: BTreeSet<u32>,
    reduces: BTreeSet<u32>,
}
fn lit(e: &Expr) -> Option<u32> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => lit(e),
            _ => None,
        },
        _ => None,
    }
}
impl<'a> Visit<'a> for Acts {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let (Expr::Path(p), Some(Some(n))) = (&*c.func, c.args.first().map(lit)) {
            match p.path.segments.last().unwrap().ident.to_string().as_str() {
                "Shift" => { self.shifts.insert(n); }
                "Reduce" => { self.reduces.insert(n); }
                _ => {}
            }
        }
        visit::visit_expr_call(self, c);
    }
}
struct FirstMatch<'a>(Option<&'a ExprMatch>);
impl<'a> Visit<'a> for FirstMatch<'a> {
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        if self.0.is_none() {
            self.0 = Some(m);
        }
    }
}
fn first_match<'a>(b: &'a Block) -> Option<&'a ExprMatch> {
    let mut f = FirstMatch(None);
    f.visit_block(b);
    f.0
}
fn in_expr(e: &Expr) -> Option<&ExprMatch> {
    let mut f = FirstMatch(None);
    f.visit_expr(e);
    f.0
}
fn names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Path(p) => out.push(p.path.segments.last().unwrap().ident.to_string()),
        Pat::Or(o) => o.cases.iter().for_each(|c| names(c, out)),
        Pat::Reference(r) => names(&r.pat, out),
        Pat::Paren(r) => names(&r.pat, out),
        _ => {}
    }
}
fn nums(p: &Pat, out: &mut Vec<u32>) {
    match p {
        Pat::Lit(l) => {
            if let Lit::Int(i) = &l.lit {
                if let Ok(n) = i.base10_parse() {
                    out.push(n);
                }
            }
        }
        Pat::Or(o) => o.cases.iter().for_each(|c| nums(c, out)),
        _ => {}
    }
}
type Sym = String;
pub fn ghost(next_action: &Block, goto_state: &Block, production_data: &Block) -> Option<String> {
    let mut edges: BTreeSet<(u32, Sym, u32)> = BTreeSet::new();
    let mut states: BTreeSet<u32> = BTreeSet::new();
    let mut reduces: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    let mut expects: BTreeMap<u32, BTreeSet<String>> = BTreeMap::new();
    let mut has: BTreeMap<u32, BTreeSet<String>> = BTreeMap::new();
    for arm in &first_match(next_action)?.arms {
        let mut ss = vec![];
        nums(&arm.pat, &mut ss);
        for s in ss {
            states.insert(s);
            let Some(m) = in_expr(&arm.body) else { continue };
            for a in &m.arms {
                let mut ns = vec![];
                names(&a.pat, &mut ns);
                let mut acts = Acts::default();
                acts.visit_expr(&a.body);
                for n in ns {
                    if !matches!(a.pat, Pat::Wild(_)) {
                        expects.entry(s).or_default().insert(n.clone());
                    }
                    for q in &acts.shifts {
                        edges.insert((s, format!("Sy::Terminal(AATerminal::{n})"), *q));
                    }
                }
                for p in &acts.reduces {
                    reduces.entry(*p).or_default().insert(s);
                }
            }
        }
    }
    for arm in &first_match(goto_state)?.arms {
        let mut ss = vec![];
        nums(&arm.pat, &mut ss);
        for s in ss {
            let Some(m) = in_expr(&arm.body) else { continue };
            for a in &m.arms {
                let mut ns = vec![];
                names(&a.pat, &mut ns);
                if let Some(q) = lit(&a.body) {
                    for n in ns {
                        edges.insert((s, format!("Sy::NonTerminal(AANonTerminal::{n})"), q));
                        has.entry(s).or_default().insert(n);
                    }
                }
            }
        }
    }
    let mut prods: BTreeMap<u32, (String, u32)> = BTreeMap::new();
    for arm in &first_match(production_data)?.arms {
        let mut ps = vec![];
        nums(&arm.pat, &mut ps);
        if let Expr::Tuple(t) = &*arm.body {
            if let (Some(Expr::Path(l)), Some(Some(n))) = (t.elems.first(), t.elems.last().map(lit)) {
                for p in ps {
                    prods.insert(p, (l.path.segments.last().unwrap().ident.to_string(), n));
                }
            }
        }
    }
    // what the symbols and states below a state are, whatever way led to it
    let mut past: BTreeMap<u32, Vec<Sym>> = BTreeMap::new();
    past.insert(0, vec![]);
    loop {
        let mut changed = false;
        for (s, x, q) in &edges {
            let Some(below) = past.get(s) else { continue };
            let mut v = vec![x.clone()];
            v.extend(below.iter().cloned());
            let w = match past.get(q) {
                None => v.into_iter().take(40).collect(),
                Some(o) => o.iter().zip(&v).take_while(|(a, b)| a == b).map(|(a, _)| a.clone()).collect::<Vec<_>>(),
            };
            if past.get(q) != Some(&w) {
                past.insert(*q, w);
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    // no more of it than reductions need
    let mut need: BTreeMap<u32, usize> = BTreeMap::new();
    for (p, ss) in &reduces {
        let n = prods.get(p).map(|x| x.1 as usize).unwrap_or(0);
        for s in ss {
            let e = need.entry(*s).or_default();
            *e = (*e).max(n);
        }
    }
    for s in &states {
        let e = need.entry(*s).or_default();
        *e = (*e).max(1);
    }
    loop {
        let mut changed = false;
        for (s, _, q) in &edges {
            let n = need.get(q).copied().unwrap_or(0).saturating_sub(1);
            let e = need.entry(*s).or_default();
            if *e < n {
                *e = n;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    for (s, v) in past.iter_mut() {
        v.truncate(need.get(s).copied().unwrap_or(0));
    }
    let mut under: BTreeMap<(u32, usize), BTreeSet<u32>> = BTreeMap::new();
    loop {
        let mut changed = false;
        for (s, _, q) in &edges {
            let d = past.get(q).map(|v| v.len()).unwrap_or(0);
            for j in 0..d {
                let add: BTreeSet<u32> = if j == 0 { [*s].into() } else { under.get(&(*s, j - 1)).cloned().unwrap_or_default() };
                let e = under.entry((*q, j)).or_default();
                let n = e.len();
                e.extend(add);
                changed |= e.len() != n;
            }
        }
        if !changed {
            break;
        }
    }
    let mut o = String::new();
    let chain = |o: &mut String, v: Vec<(String, String)>, last: &str| {
        for (c, e) in v {
            o.push_str(&format!("if {c} {{ {e} }} else "));
        }
        o.push_str(&format!("{{ {last} }}\n}}\n"));
    };
    let states: Vec<u32> = states.into_iter().filter(|s| past.contains_key(s)).collect();
    o.push_str("pub open spec fn gh_state(s: u32) -> bool {\n    ");
    o.push_str(&states.iter().map(|s| format!("s == {s}")).collect::<Vec<_>>().join(" || "));
    o.push_str("\n}\n");
    o.push_str("pub open spec fn gh_depth(s: u32) -> int {\n    ");
    chain(&mut o, states.iter().map(|s| (format!("s == {s}"), past[s].len().to_string())).collect(), "0");
    o.push_str("pub open spec fn gh_past(s: u32, j: int) -> Sy {\n    ");
    chain(&mut o, states.iter().filter(|s| !past[s].is_empty()).map(|s| {
        let mut e = String::new();
        for (j, x) in past[s].iter().enumerate() {
            e.push_str(&if j + 1 == past[s].len() { format!("{{ {x} }}") } else { format!("if j == {j} {{ {x} }} else ") });
        }
        (format!("s == {s}"), e)
    }).collect(), "Sy::Start");
    o.push_str("pub open spec fn gh_under(s: u32, j: int, u: u32) -> bool {\n    ");
    chain(&mut o, states.iter().filter(|s| !past[s].is_empty()).map(|s| {
        let mut e = String::new();
        for j in 0..past[s].len() {
            let us = under.get(&(*s, j)).map(|v| v.iter().map(|u| format!("u == {u}")).collect::<Vec<_>>().join(" || ")).unwrap_or("false".into());
            e.push_str(&if j + 1 == past[s].len() { format!("{{ {us} }}") } else { format!("if j == {j} {{ {us} }} else ") });
        }
        (format!("s == {s}"), e)
    }).collect(), "false");
    o.push_str("pub open spec fn gh_has(s: u32, n: AANonTerminal) -> bool {\n    ");
    chain(&mut o, has.iter().map(|(s, v)| (format!("s == {s}"), v.iter().map(|n| format!("n is {n}")).collect::<Vec<_>>().join(" || "))).collect(), "false");
    o.push_str("pub open spec fn gh_expects(s: u32, t: AATerminal) -> bool {\n    ");
    chain(&mut o, expects.iter().map(|(s, v)| (format!("s == {s}"), v.iter().map(|n| format!("t is {n}")).collect::<Vec<_>>().join(" || "))).collect(), "false");
    o.push_str("pub open spec fn gh_production(p: u32) -> bool {\n    ");
    o.push_str(&prods.keys().map(|s| format!("p == {s}")).collect::<Vec<_>>().join(" || "));
    o.push_str("\n}\n");
    o.push_str("pub open spec fn gh_lhs(p: u32) -> AANonTerminal {\n    ");
    chain(&mut o, prods.iter().map(|(p, (l, _))| (format!("p == {p}"), format!("AANonTerminal::{l}"))).collect(), "arbitrary()");
    o.push_str("pub open spec fn gh_len(p: u32) -> int {\n    ");
    chain(&mut o, prods.iter().map(|(p, (_, n))| (format!("p == {p}"), n.to_string())).collect(), "0");
    // the right hand side as the stack of a state that reduces it shows it
    o.push_str("pub open spec fn gh_sym(p: u32, i: int) -> Sy {\n    ");
    chain(&mut o, prods.iter().filter_map(|(p, (_, n))| {
        let s = reduces.get(p)?.iter().next()?;
        let v = past.get(s)?;
        if *n == 0 || v.len() < *n as usize {
            return None;
        }
        let mut e = String::new();
        for i in 0..*n as usize {
            let x = &v[*n as usize - 1 - i];
            e.push_str(&if i + 1 == *n as usize { format!("{{ {x} }}") } else { format!("if i == {i} {{ {x} }} else ") });
        }
        Some((format!("p == {p}"), e))
    }).collect(), "Sy::Start");
    Some(o)
}
