//! The generators against an independent LALR(1) construction, on random specifications
#[path = "../../common/mod.rs"]
mod common;
mod code;
mod fuzz;
mod reference;
mod spec;
use code::*;
use common::*;
use reference::*;
use spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

#[derive(Debug, Clone, PartialEq)]
enum Outcome {
    Ok,
    Parse(String),
    Undefined(u32),
    Errors(u32),
    SR(u32, u32),
    RR(u32, u32),
}
struct Out {
    code: String,
    desc: String,
}
macro_rules! backend {
    ($name:ident, $lib:ident) => {
        fn $name(text: &str, label: &str, isr: bool, irr: bool, dir: &Path, write: bool) -> (Outcome, Option<Out>) {
            let spec = match $lib::grammar::Specification::new(text, label) {
                Ok(s) => s,
                Err(e) => return (Outcome::Parse(e.to_string()), None),
            };
            match $lib::grammar::Grammar::try_from((spec, isr, irr)) {
                Err($lib::grammar::Error::TooManyErrors(n)) => (Outcome::Errors(n), None),
                Err($lib::grammar::Error::UndefinedSymbols(n)) => (Outcome::Undefined(n), None),
                Err($lib::grammar::Error::UnexpectedSRConflicts(n, m, _)) => (Outcome::SR(n, m), None),
                Err($lib::grammar::Error::UnexpectedRRConflicts(n, m, _)) => (Outcome::RR(n, m), None),
                Ok(g) => {
                    if !write {
                        return (Outcome::Ok, None);
                    }
                    let (c, d) = (dir.join("p.rs"), dir.join("p.states"));
                    g.write_parser_code_to_file(&c).unwrap();
                    g.write_description(&d).unwrap();
                    let r = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap()).into_owned();
                    (Outcome::Ok, Some(Out { code: r(&c), desc: r(&d) }))
                }
            }
        }
    };
}
backend!(plain, lalr1_lib);
backend!(augmented, alalr1_lib);
fn generate(aug: bool, text: &str, label: &str, isr: bool, irr: bool, dir: &Path, write: bool) -> (Outcome, Option<Out>) {
    if aug {
        augmented(text, label, isr, irr, dir, write)
    } else {
        plain(text, label, isr, irr, dir, write)
    }
}
// ------------------------------------------------------------------------------------- the description
#[derive(Default, Debug)]
struct DState {
    /// in the order of the description
    items: Vec<(String, BTreeSet<String>)>,
    shifts: BTreeMap<String, usize>,
    gotos: BTreeMap<String, usize>,
}
#[derive(Default, Debug)]
struct Desc {
    tokens: BTreeMap<String, (String, String)>,
    tags: BTreeMap<String, String>,
    nts: BTreeMap<String, (BTreeSet<String>, String)>,
    prods: Vec<String>,
    states: Vec<DState>,
}
fn set_of(s: &str) -> Option<BTreeSet<String>> {
    let b = s.strip_prefix("TokenSet{")?.strip_suffix('}')?;
    Some(if b.is_empty() { BTreeSet::new() } else { b.split(", ").map(String::from).collect() })
}
fn flat(p: &str) -> String {
    p.replace(['\n', '\r'], " ")
}
fn read_desc(t: &str, r: &Ref) -> Option<Desc> {
    let mut d = Desc::default();
    // predicates may have more than one line
    let mut t = t.to_string();
    for p in r.prods.iter().filter_map(|p| p.pred.as_ref()) {
        t = t.replace(p.as_str(), &flat(p));
    }
    let mut sec = 0;
    for l in t.lines() {
        if l.is_empty() || l.trim() == "<empty>" {
            continue;
        }
        if let Some(n) = l.strip_prefix("State<") {
            if n.strip_suffix(">:")?.parse::<usize>().ok()? != d.states.len() {
                return None;
            }
            d.states.push(DState::default());
            sec = 0;
            continue;
        }
        let known = [
            ("Symbols:", 0),
            ("  Tokens:", 1),
            ("  Tags:", 2),
            ("  Non Terminal Symbols:", 3),
            ("Productions:", 4),
            ("  Grammar Items:", 5),
            ("  Parser Action Table:", 0),
            ("    Shifts:", 6),
            ("    Reductions:", 0),
            ("  Go To Table:", 7),
            ("  Shift/Reduce Conflicts:", 0),
            ("  Reduce/Reduce Conflicts:", 0),
        ];
        if let Some((_, s)) = known.iter().find(|k| k.0 == l) {
            sec = *s;
            continue;
        }
        if l.starts_with("  Error Recovery State:") {
            sec = 0;
            continue;
        }
        let x = l.trim_start();
        match sec {
            1 => {
                let (n, r) = x.split_once('(')?;
                let (txt, p) = r.rsplit_once("): #(")?;
                d.tokens.insert(n.into(), (txt.into(), p.strip_suffix(')')?.into()));
            }
            2 => {
                let (n, p) = x.split_once(": #(")?;
                d.tags.insert(n.into(), p.strip_suffix(')')?.into());
            }
            3 => {
                let (n, r) = x.split_once(": ")?;
                let (s, b) = r.rsplit_once(":(")?;
                d.nts.insert(n.into(), (set_of(s)?, b.strip_suffix(')')?.into()));
            }
            4 => d.prods.push(x.to_string()),
            5 => {
                let i = x.rfind(": TokenSet{")?;
                let s = d.states.last_mut()?;
                s.items.push((x[..i].trim_end().to_string(), set_of(&x[i + 2..])?));
            }
            6 | 7 => {
                let (n, r) = x.rsplit_once(" -> State<")?;
                let k = r.strip_suffix('>')?.parse().ok()?;
                let s = d.states.last_mut()?;
                if sec == 6 { s.shifts.insert(n.into(), k) } else { s.gotos.insert(n.into(), k) };
            }
            _ => (),
        }
    }
    Some(d)
}
struct Ck<'a> {
    s: &'a Spec,
    r: &'a Ref,
    fails: Vec<(&'static str, String)>,
}
fn ap(a: Assoc, p: u16) -> String {
    format!("{}, {}", a.show(), p)
}
impl<'a> Ck<'a> {
    fn fail(&mut self, p: &'static str, w: impl Into<String>) {
        if !self.fails.iter().any(|f| f.0 == p) {
            self.fails.push((p, w.into()));
        }
    }
    /// as shown in sets and items
    fn shown(&self, t: usize) -> String {
        if t == self.r.end() {
            "AAEnd".into()
        } else if self.s.toks[t].lit {
            self.s.toks[t].text.clone()
        } else {
            self.s.toks[t].name.clone()
        }
    }
    fn name(&self, t: usize) -> String {
        if t == self.r.end() { "AAEnd".into() } else { self.s.toks[t].name.clone() }
    }
    fn set(&self, m: Mask) -> BTreeSet<String> {
        (0..=self.r.end()).filter(|t| m >> t & 1 == 1).map(|t| self.shown(t)).collect()
    }
    fn names(&self, m: Mask) -> BTreeSet<String> {
        (0..=self.r.end()).filter(|t| m >> t & 1 == 1).map(|t| self.name(t)).collect()
    }
    fn sym(&self, y: &S) -> String {
        match y {
            S::T(t) => self.shown(*t),
            S::N(n) => self.r.nts[*n].clone(),
        }
    }
    fn tail(&self, p: &Prod) -> String {
        let mut s = format!(" #({})", ap(p.assoc, p.prec));
        if let Some(q) = &p.pred {
            s += &format!(" ?({}?)", flat(q));
        }
        s
    }
    fn prod(&self, p: &Prod) -> String {
        let mut s = format!("{}:", self.r.nts[p.lhs]);
        if p.rhs.is_empty() {
            s += " <empty>";
        }
        for y in &p.rhs {
            s += &format!(" {}", self.sym(y));
        }
        s + &self.tail(p)
    }
    fn item(&self, p: &Prod, dot: usize) -> String {
        let mut s = format!("{}:", self.r.nts[p.lhs]);
        if p.rhs.is_empty() {
            s += " . <empty>";
        } else {
            for (i, y) in p.rhs.iter().enumerate() {
                s += &format!(" {}{}", if i == dot { ". " } else { "" }, self.sym(y));
            }
            if dot >= p.rhs.len() {
                s += " . ";
            }
        }
        s + &self.tail(p)
    }
    fn symbols(&mut self, d: &Desc) {
        for (i, t) in self.s.toks.iter().enumerate() {
            let want = (t.text.clone(), ap(self.r.tok[i].0, self.r.tok[i].1));
            match d.tokens.get(&t.name) {
                Some(g) if *g == want => (),
                g => self.fail("C17", format!("token {}: expected text and precedence {want:?}, described as {g:?}", t.name)),
            }
        }
        if d.tokens.len() != self.s.toks.len() + 1 {
            self.fail("C17", format!("{} tokens described, {} declared (and the end marker)", d.tokens.len(), self.s.toks.len()));
        }
        let want: BTreeMap<String, String> = self.r.tags.iter().map(|(n, v)| (n.clone(), ap(v.0, v.1))).collect();
        if want != d.tags {
            self.fail("C17", format!("tags: expected {want:?}, described {:?}", d.tags));
        }
        let want: BTreeSet<&String> = self.r.nts.iter().enumerate().filter(|(i, _)| *i != ERROR || self.r.error_used).map(|x| x.1).collect();
        let got: BTreeSet<&String> = d.nts.keys().collect();
        if want != got {
            self.fail("C17", format!("non terminals: expected {want:?}, described {got:?}"));
        }
        let want: Vec<String> = self.r.prods.iter().map(|p| self.prod(p)).collect();
        if want != d.prods {
            let i = (0..want.len().max(d.prods.len())).find(|i| want.get(*i) != d.prods.get(*i)).unwrap();
            self.fail("C17", format!("production {i}: expected {:?}, described {:?}", want.get(i), d.prods.get(i)));
        }
    }
    fn firsts(&mut self, d: &Desc) {
        for (i, n) in self.r.nts.iter().enumerate() {
            if let Some((f, e)) = d.nts.get(n) {
                let want = (self.set(self.r.first[i]), self.r.nullable[i].to_string());
                if *f != want.0 || *e != want.1 {
                    self.fail("C10", format!("{n}: expected FIRST {:?} and nullable {}, got {f:?} and {e}", want.0, want.1));
                }
            }
        }
    }
    /// description state -> reference state
    fn automaton(&mut self, d: &Desc, a: &Auto) -> Option<Vec<usize>> {
        let sig = |st: &State| -> Vec<String> { st.items.keys().map(|(p, k)| self.item(&self.r.prods[*p], *k)).collect() };
        let want: Vec<Vec<String>> = a.states.iter().map(sig).collect();
        let got: Vec<Vec<String>> = d.states.iter().map(|s| s.items.iter().map(|i| i.0.clone()).collect()).collect();
        let (mut w, mut g) = (want.clone(), got.clone());
        w.sort();
        g.sort();
        if w != g {
            let miss = w.iter().find(|x| w.iter().filter(|y| y == x).count() != g.iter().filter(|y| y == x).count());
            let extra = g.iter().find(|x| w.iter().filter(|y| y == x).count() != g.iter().filter(|y| y == x).count());
            self.fail("C11", format!("{} states expected, {} generated; missing (or too few of): {miss:?}; unexpected (or too many of): {extra:?}", w.len(), g.len()));
            return None;
        }
        let mut map: Vec<Option<usize>> = got.iter().map(|g| if want.iter().filter(|w| *w == g).count() == 1 { want.iter().position(|w| w == g) } else { None }).collect();
        if let Some(k) = map.first_mut() {
            *k = Some(0);
        }
        let tok: BTreeMap<String, usize> = (0..=self.r.end()).map(|t| (self.shown(t), t)).collect();
        // follow the transitions
        loop {
            let mut ch = false;
            for i in 0..map.len() {
                if let Some(k) = map[i] {
                    let mut e: Vec<(usize, usize)> = vec![];
                    for (n, t) in &d.states[i].shifts {
                        if let Some(r) = tok.get(n).and_then(|x| a.states[k].shifts.get(x)) {
                            e.push((*t, *r));
                        }
                    }
                    for (n, t) in &d.states[i].gotos {
                        if let Some(r) = self.r.nts.iter().position(|x| x == n).and_then(|x| a.states[k].gotos.get(&x)) {
                            e.push((*t, *r));
                        }
                    }
                    for (t, r) in e {
                        if t < map.len() && map[t].is_none() && got[t] == want[r] {
                            map[t] = Some(r);
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let map: Option<Vec<usize>> = map.into_iter().collect();
        let map = map?;
        if map.iter().collect::<BTreeSet<_>>().len() != map.len() {
            self.fail("C11", "two states with the same kernel");
            return None;
        }
        let mut c12 = None;
        for (i, k) in map.iter().enumerate() {
            let (ds, st) = (&d.states[i], &a.states[*k]);
            let conf = self.set(st.conflicts);
            for ((it, m), (txt, got)) in st.items.iter().zip(&ds.items) {
                let want = self.set(*m);
                if want != *got {
                    let diff: BTreeSet<String> = want.symmetric_difference(got).cloned().collect();
                    let w = format!("state {i}, item {txt}: expected look ahead set {want:?}, got {got:?}");
                    if it.1 == self.r.prods[it.0].rhs.len() && diff.is_subset(&conf) {
                        c12 = Some(w);
                    } else {
                        self.fail("C11", w);
                    }
                }
            }
            let want: BTreeMap<String, usize> = st.shifts.iter().map(|(t, r)| (self.shown(*t), *r)).collect();
            let got: BTreeMap<String, usize> = ds.shifts.iter().map(|(t, r)| (t.clone(), *map.get(*r).unwrap_or(&usize::MAX))).collect();
            if want != got {
                let w = format!("state {i}: expected shifts on {:?}, got {:?}", want.keys().collect::<Vec<_>>(), got.keys().collect::<Vec<_>>());
                let dk: BTreeSet<String> = want.keys().chain(got.keys()).filter(|x| want.get(*x) != got.get(*x)).cloned().collect();
                if dk.is_subset(&conf) && dk.iter().all(|x| !(want.contains_key(x) && got.contains_key(x))) {
                    c12 = Some(w);
                } else {
                    self.fail("C11", w);
                }
            }
            let want: BTreeMap<String, usize> = st.gotos.iter().map(|(t, r)| (self.r.nts[*t].clone(), *r)).collect();
            let got: BTreeMap<String, usize> = ds.gotos.iter().map(|(t, r)| (t.clone(), *map.get(*r).unwrap_or(&usize::MAX))).collect();
            if want != got {
                self.fail("C11", format!("state {i}: expected gotos on {:?}, got {:?} (or to other states)", want.keys().collect::<Vec<_>>(), got.keys().collect::<Vec<_>>()));
            }
        }
        if let Some(w) = c12 {
            if !self.fails.iter().any(|f| f.0 == "C11" || f.0 == "C17" || f.0 == "C10") {
                self.fail("C12", w);
            }
        }
        Some(map)
    }
    fn code(&mut self, c: &Code, a: &Auto, map: &[usize], rep: &mut Report) {
        let n = |k: usize| V::Num(k as u64);
        let name = |x: &str| V::Name(x.to_string());
        // state numbers of the generated parser
        let mut num = vec![0; map.len()];
        for (i, k) in map.iter().enumerate() {
            num[*k] = i;
        }
        let none = BTreeMap::new();
        let mut calls = 0;
        for (k, st) in a.states.iter().enumerate() {
            let i = num[k];
            // actions
            for t in 0..=self.r.end() {
                let red = self.r.reductions(st, t);
                let mut texts: Vec<String> = vec![];
                let ptext = |p: usize| -> Option<String> {
                    let p = &self.r.prods[p];
                    p.pred.as_ref().map(|x| norm_str(&predicate(x, p.rhs.len())).unwrap_or_default())
                };
                for p in &red {
                    if let Some(x) = ptext(*p) {
                        if !texts.contains(&x) {
                            texts.push(x);
                        }
                    }
                }
                if texts.len() > 5 {
                    texts.truncate(5);
                }
                for bits in 0..1u32 << texts.len() {
                    let preds: BTreeMap<String, bool> = texts.iter().enumerate().map(|(j, x)| (x.clone(), bits >> j & 1 == 1)).collect();
                    let mut want = V::Name("SyntaxError".into());
                    if let Some(g) = st.shifts.get(&t) {
                        want = V::Call("Shift".into(), vec![n(num[*g])]);
                    } else {
                        for p in &red {
                            if ptext(*p).map(|x| preds.get(&x).copied().unwrap_or(false)).unwrap_or(true) {
                                want = if *p == 0 { V::Name("Accept".into()) } else { V::Call("Reduce".into(), vec![n(*p)]) };
                                break;
                            }
                        }
                    }
                    let tv = name(&self.name(t));
                    let args = if self.s.aug { vec![n(i), V::Opaque, tv] } else { vec![n(i), tv] };
                    calls += 1;
                    match c.call("next_action", &args, &preds) {
                        Ok(v) if v == want => (),
                        Err(e) if e.starts_with("PRED ") && self.s.aug => self.fail("C15", format!("state {i}, token {}: the emitted predicate is {}, expected one of {texts:?}", self.name(t), &e[5..])),
                        v => self.fail("C14", format!("next_action in state {i} on {} is {v:?}, expected {want:?} (predicates {preds:?})", self.name(t))),
                    }
                }
            }
            for (x, nt) in self.r.nts.iter().enumerate() {
                if x == ERROR && !self.r.error_used {
                    continue;
                }
                let want = st.gotos.get(&x).map(|g| n(num[*g])).unwrap_or(V::Panic);
                calls += 1;
                match c.call("goto_state", &[name(nt), n(i)], &none) {
                    Ok(v) if v == want => (),
                    v => self.fail("C14", format!("goto_state of {nt} in state {i} is {v:?}, expected {want:?}")),
                }
            }
            let want: BTreeSet<String> = self.names(self.r.acceptable(st));
            match c.call("look_ahead_set", &[n(i)], &none) {
                Ok(V::Set(v)) if v.len() == want.len() && v.iter().all(|x| matches!(x, V::Name(y) if want.contains(y))) => (),
                v => self.fail("C14", format!("look_ahead_set of state {i} is {v:?}, expected {want:?}")),
            }
            calls += 1;
        }
        for f in ["next_action", "goto_state", "look_ahead_set"] {
            let k = n(a.states.len());
            let args = match f {
                "next_action" if self.s.aug => vec![k, V::Opaque, name("AAEnd")],
                "next_action" => vec![k, name("AAEnd")],
                "goto_state" => vec![name(&self.r.nts[2.min(self.r.nts.len() - 1)]), k],
                _ => vec![k],
            };
            match c.call(f, &args, &none) {
                Ok(V::Panic) => (),
                v => self.fail("C14", format!("{f} of a state that does not exist is {v:?}")),
            }
        }
        for (i, p) in self.r.prods.iter().enumerate() {
            let want = V::Tup(vec![name(&self.r.nts[p.lhs]), n(p.rhs.len())]);
            match c.call("production_data", &[n(i)], &none) {
                Ok(v) if v == want => (),
                v => self.fail("C14", format!("production_data of {i} is {v:?}, expected {want:?}")),
            }
        }
        match c.call("production_data", &[n(self.r.prods.len())], &none) {
            Ok(V::Panic) => (),
            v => self.fail("C14", format!("production_data of a production that does not exist is {v:?}")),
        }
        if let Some(x) = c.duplicates.first() {
            self.fail("C14", x.clone());
        }
        // symbols
        let mut want: Vec<String> = self.s.toks.iter().map(|t| t.name.clone()).collect();
        want.push("AAEnd".into());
        want.sort();
        let mut got = c.terminals.clone();
        got.sort();
        if want != got {
            self.fail("C14", format!("AATerminal is {got:?}, expected {want:?}"));
        }
        let mut want: Vec<String> = self.r.nts.iter().enumerate().filter(|(i, _)| *i != ERROR || self.r.error_used).map(|x| x.1.clone()).collect();
        want.sort();
        let mut got = c.non_terminals.clone();
        got.sort();
        if want != got {
            self.fail("C14", format!("AANonTerminal is {got:?}, expected {want:?}"));
        }
        let want: BTreeMap<String, String> = (0..=self.r.end()).map(|t| (self.name(t), self.shown(t))).collect();
        if c.shown.get("AATerminal") != Some(&want) {
            self.fail("C14", format!("tokens are shown as {:?}, expected {want:?}", c.shown.get("AATerminal")));
        }
        let lits: BTreeSet<(String, String)> = self.s.toks.iter().filter(|t| t.lit).map(|t| (t.name.clone(), t.text[1..t.text.len() - 1].to_string())).collect();
        let rxs: BTreeSet<(String, String)> = self.s.toks.iter().filter(|t| !t.lit).map(|t| (t.name.clone(), t.text.clone())).collect();
        let skips: BTreeSet<(String, String)> = self.s.skips.iter().map(|t| (String::new(), t.clone())).collect();
        for (w, what, g) in [(&lits, "literals", 0), (&rxs, "regexes", 1), (&skips, "skips", 2)] {
            let got = c.lexical.get(g).cloned().unwrap_or_default();
            if got.len() != w.len() || got.iter().cloned().collect::<BTreeSet<_>>() != *w {
                self.fail("C14", format!("the {what} of the lexical analyzer are {got:?}, expected {w:?}"));
            }
        }
        if c.end != "AAEnd" {
            self.fail("C14", format!("the end marker is {}", c.end));
        }
        let want = norm_str(&format!("{}::Parser<AATerminal, AANonTerminal, {}>", if self.s.aug { "alalr1" } else { "lalr1" }, self.s.attr)).unwrap();
        if c.header != format!("{want} for {}", self.s.target) {
            self.fail("C14", format!("the parser is emitted as `{}`", c.header));
        }
        // recovery
        let mut some = false;
        for t in 0..=self.r.end() {
            let want: BTreeSet<u64> = self.r.viable(a, t).iter().map(|k| num[*k] as u64).collect();
            some |= !want.is_empty();
            calls += 1;
            match c.call("viable_error_recovery_states", &[name(&self.name(t))], &none) {
                Ok(V::Set(v)) if v.len() == want.len() && v.iter().all(|x| matches!(x, V::Num(k) if want.contains(k))) => (),
                v => self.fail("C18", format!("viable_error_recovery_states of {} is {v:?}, expected {want:?}", self.name(t))),
            }
        }
        if some {
            for (k, st) in a.states.iter().enumerate() {
                let want = st.gotos.get(&ERROR).map(|g| n(num[*g])).unwrap_or(V::Panic);
                match c.call("error_goto_state", &[n(num[k])], &none) {
                    Ok(v) if v == want => (),
                    v => self.fail("C18", format!("error_goto_state of {} is {v:?}, expected {want:?}", num[k])),
                }
            }
        }
        // actions
        let mut want = BTreeMap::new();
        for (i, p) in self.r.prods.iter().enumerate() {
            if let Some(x) = &p.act {
                want.insert(i as u64, norm_str(&action(x)).unwrap_or_else(|e| e));
            }
        }
        match c.actions() {
            Err(e) => self.fail("C14", e),
            Ok(got) => {
                for i in want.keys().chain(got.keys()) {
                    match (want.get(i), got.get(i)) {
                        (Some(w), Some(g)) if w == g => (),
                        (Some(w), Some(g)) => self.fail("C15", format!("action of production {i}: emitted `{g}`, expected `{w}`")),
                        (w, g) => self.fail("C14", format!("semantic action of production {i}: emitted {g:?}, expected {w:?}")),
                    }
                }
            }
        }
        rep.count("calls of emitted functions", calls);
    }
}
fn check(s: &Spec, dir: &Path, slot: &Slot, rng: &mut Rng, rep: &mut Report, prev: &mut Option<(bool, String, Vec<u8>)>) -> Vec<(&'static str, String)> {
    let r = Ref::new(s);
    let mut ck = Ck { s, r: &r, fails: vec![] };
    let mut s2 = s.clone();
    let bad = r.undefined > 0 || r.errors > 0;
    let auto = if bad { None } else { r.lalr(160) };
    if !bad && !r.productive() {
        rep.count("specifications in which a non terminal derives nothing", 1);
    }
    if !bad && auto.is_none() {
        *rep.skipped.entry("too many canonical LR(1) states".into()).or_insert(0) += 1;
        return vec![];
    }
    if let Some(a) = &auto {
        let near = |rng: &mut Rng, n: u32| match rng.below(6) {
            0 => None,
            1 => Some(n + 1),
            2 => Some(n.saturating_sub(1)),
            _ => Some(n),
        };
        s2.sr = near(rng, a.sr);
        s2.rr = near(rng, a.rr);
    }
    let mut text = s2.text();
    let mut files = vec![];
    if rng.chance(1, 6) {
        let f = |n: &str| dir.join(n).display().to_string();
        (text, files) = s2.injected(rng, &f("injected"), &f("nested"));
        for (n, t) in &files {
            std::fs::write(n, t).unwrap();
        }
    }
    let shown = text.clone() + &files.iter().map(|(n, t)| format!("----- {n}:\n{t}")).collect::<String>();
    begin(slot, "C10", || format!("{}\n{text}", if s.aug { "alalr1" } else { "lalr1" }));
    let mut out = None;
    for ign in 0..4 {
        let (isr, irr) = (ign & 1 == 1, ign & 2 == 2);
        let want = match &auto {
            None if r.undefined > 0 => Outcome::Undefined(r.undefined),
            None => Outcome::Errors(r.errors),
            Some(a) => {
                let (es, er) = (s2.sr.unwrap_or(0), s2.rr.unwrap_or(0));
                if !isr && a.sr != es {
                    Outcome::SR(a.sr, es)
                } else if !irr && a.rr != er {
                    Outcome::RR(a.rr, er)
                } else {
                    Outcome::Ok
                }
            }
        };
        if ign != 3 && rng.chance(1, 2) {
            continue;
        }
        rep.count("generator runs", 1);
        match catch_unwind(AssertUnwindSafe(|| generate(s.aug, &text, "label", isr, irr, dir, ign == 3))) {
            Err(e) => {
                let w = panic_text(&*e);
                end(slot);
                ck.fail(if w.contains("should be set") { "C10" } else { "C14" }, format!("the generator panics: {w}\u{0}{}\n{text}", if s.aug { "alalr1" } else { "lalr1" }));
                return ck.fails;
            }
            Ok((o, f)) => {
                if o != want {
                    // a wrong number of conflicts is a wrong resolution, unless the automaton is wrong (seen below)
                    let counts = |o: &Outcome| match o {
                        Outcome::SR(n, _) => Some((0, *n)),
                        Outcome::RR(n, _) => Some((1, *n)),
                        _ => None,
                    };
                    let w = format!("with ignore_sr={isr}, ignore_rr={irr} the outcome is {o:?}, expected {want:?}");
                    let number = auto.as_ref().map(|a| match counts(&o) {
                        Some((0, n)) => n != a.sr,
                        Some((_, n)) => n != a.rr,
                        None => false,
                    });
                    match (&o, number) {
                        (Outcome::Parse(_), _) => ck.fail(if files.is_empty() { "C13" } else { "C17" }, w),
                        (_, Some(true)) => ck.fails.push(("count", w)),
                        // the count itself is wrong if the outcome is Ok although the number differs: decided with (false, false)
                        _ => ck.fails.push(("gate", w)),
                    }
                }
                if f.is_some() {
                    out = f;
                }
            }
        }
    }
    end(slot);
    let gate: Vec<(&str, String)> = ck.fails.drain(..).collect();
    if let (Some(a), Some(o)) = (&auto, &out) {
        match read_desc(&o.desc, &r) {
            None => {
                *rep.skipped.entry("description not understood".into()).or_insert(0) += 1;
                if std::env::var("H_GEN_DESC").is_ok() {
                    println!("{}", o.desc);
                    std::process::exit(1);
                }
            }
            Some(d) => {
                ck.symbols(&d);
                if ck.fails.is_empty() {
                    ck.firsts(&d);
                }
                if ck.fails.is_empty() {
                    rep.count("automata compared", 1);
                    rep.count("states compared", a.states.len() as u64);
                    rep.count("automata with conflicts", a.any_conflict as u64);
                    match ck.automaton(&d, a) {
                        Some(map) if ck.fails.is_empty() => match Code::parse(&o.code) {
                            Err(e) => {
                                // is it the text of an action or a predicate that makes the emitted code unreadable?
                                let squeeze = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                                let code = squeeze(&o.code);
                                let texts = r.prods.iter().flat_map(|p| p.act.as_ref().map(|x| action(x)).into_iter().chain(p.pred.as_ref().map(|x| predicate(x, p.rhs.len()))));
                                let lost = texts.filter(|t| !code.contains(&squeeze(t))).next();
                                match lost {
                                    Some(t) => ck.fail("C15", format!("the emitted code does not contain `{t}` and cannot be read: {e}")),
                                    None => ck.fail("C14", e),
                                }
                            }
                            Ok(c) => {
                                ck.code(&c, a, &map, rep);
                                if let Some(p) = &s.preamble {
                                    if !o.code.contains(p.as_str()) {
                                        ck.fail("C14", "the preamble is not emitted");
                                    }
                                }
                            }
                        },
                        None if ck.fails.is_empty() => {
                            *rep.skipped.entry("states not identified".into()).or_insert(0) += 1;
                        }
                        _ => (),
                    }
                }
            }
        }
        // once more
        let mut b = o.code.as_bytes().to_vec();
        b.extend_from_slice(o.desc.as_bytes());
        if rng.chance(1, 4) {
            if let Some((aug, t, bytes)) = prev.take() {
                if let Ok((_, Some(o2))) = catch_unwind(AssertUnwindSafe(|| generate(aug, &t, "another label", true, true, dir, true))) {
                    let mut b2 = o2.code.into_bytes();
                    b2.extend_from_slice(o2.desc.as_bytes());
                    rep.count("generated again", 1);
                    if b2 != bytes {
                        ck.fails.push(("again", t));
                    }
                }
            }
        }
        if prev.is_none() && files.is_empty() {
            *prev = Some((s.aug, text.clone(), b));
        }
    }
    let clean = !ck.fails.iter().any(|f| ["C10", "C11", "C17", "C12"].contains(&f.0));
    for (k, w) in gate {
        match k {
            "count" if clean => ck.fail("C12", w),
            "gate" if clean => ck.fail("C13", w),
            "count" | "gate" => (),
            _ => ck.fails.push((if k == "C13" { "C13" } else { "C14" }, w)),
        }
    }
    let p = if s.aug { "alalr1" } else { "lalr1" };
    ck.fails.iter_mut().for_each(|f| {
        if f.0 == "again" {
            *f = ("C16", format!("not the same output when generated again later:\n{}", f.1));
        } else {
            f.1 = format!("{} ({p}_lib)", f.1);
        }
    });
    ck.fails.into_iter().map(|(k, w)| (k, format!("{w}\u{0}{p}\n{shown}"))).collect()
}
/// smaller specifications that still fail
fn shrink(s: &Spec, prop: &str, dir: &Path, slot: &Slot, seed: u64, t0: std::time::Instant) -> Spec {
    let fails = |x: &Spec| {
        let mut rep = Report::default();
        let mut prev = None;
        !x.rules.is_empty() && x.rules.iter().all(|r| !r.1.is_empty()) && (0..4).any(|k| check(x, dir, slot, &mut Rng::new(seed + k), &mut rep, &mut prev).iter().any(|f| f.0 == prop))
    };
    let mut best = s.clone();
    loop {
        let mut cands: Vec<Spec> = vec![];
        for i in 0..best.rules.len() {
            let mut x = best.clone();
            x.rules.remove(i);
            cands.push(x);
            for j in 0..best.rules[i].1.len() {
                if best.rules[i].1.len() > 1 {
                    let mut x = best.clone();
                    x.rules[i].1.remove(j);
                    cands.push(x);
                }
                for k in 0..best.rules[i].1[j].rhs.len() {
                    if best.rules[i].1[j].act.is_none() && best.rules[i].1[j].pred.is_none() {
                        let mut x = best.clone();
                        x.rules[i].1[j].rhs.remove(k);
                        cands.push(x);
                    }
                }
                let mut x = best.clone();
                if x.rules[i].1[j].act.take().is_some() {
                    cands.push(x.clone());
                }
                if x.rules[i].1[j].pred.take().is_some() {
                    cands.push(x);
                }
            }
        }
        for i in 0..best.prec.len() {
            if best.rules.iter().all(|r| r.1.iter().all(|t| t.prec.is_none())) {
                let mut x = best.clone();
                x.prec.remove(i);
                cands.push(x);
            }
        }
        for i in 0..best.skips.len() {
            let mut x = best.clone();
            x.skips.remove(i);
            cands.push(x);
        }
        if best.preamble.is_some() {
            let mut x = best.clone();
            x.preamble = None;
            cands.push(x);
        }
        let mut found = None;
        for c in cands {
            if t0.elapsed().as_secs_f64() > 8.0 {
                return best;
            }
            if fails(&c) {
                found = Some(c);
                break;
            }
        }
        match found {
            Some(c) => best = c,
            None => return best,
        }
    }
}
/// C19: nothing that is given as a specification makes a generator panic or hang
fn robust(rng: &mut Rng, dir: &Path, files: &fuzz::Files, slot: &Slot, rep: &mut Report) {
    let s = { let aug = rng.chance(1, 2); gen(rng, aug) };
    let text = fuzz::text(rng, &s, files);
    for aug in [s.aug, !s.aug] {
        let input = |t: &str| format!("{}\n{t}", if aug { "alalr1" } else { "lalr1" });
        begin(slot, "C19", || input(&text));
        rep.count("texts", 1);
        let all = rng.chance(3, 4);
        let run = |t: &str| catch_unwind(AssertUnwindSafe(|| generate(aug, t, "label", all, all, dir, true)));
        let r = run(&text);
        end(slot);
        match r {
            Ok((Outcome::Ok, _)) => rep.count("texts accepted", 1),
            Ok((Outcome::Parse(_), _)) => rep.count("texts that are no specification", 1),
            Ok(_) => rep.count("texts with errors or conflicts", 1),
            Err(e) => {
                // fewer lines, then fewer characters
                let mut best = text.clone();
                let t0 = std::time::Instant::now();
                for sep in ["\n", " ", ""] {
                    loop {
                        let parts: Vec<&str> = if sep.is_empty() { best.split_inclusive(|_| true).collect() } else { best.split_inclusive(sep).collect() };
                        let mut found = None;
                        for i in 0..parts.len() {
                            let t: String = parts.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect();
                            if t0.elapsed().as_secs_f64() > 6.0 {
                                break;
                            }
                            begin(slot, "C19", || input(&t));
                            let bad = run(&t).is_err();
                            end(slot);
                            if bad {
                                found = Some(t);
                                break;
                            }
                        }
                        match found {
                            Some(t) => best = t,
                            None => break,
                        }
                    }
                }
                let w = panic_text(&*e);
                rep.fail("C19", || input(&best), || format!("the generator panics: {w}"));
            }
        }
    }
    if rep.samples.len() < 2 {
        rep.samples.push(text);
    }
}
fn main() {
    let a = args();
    let scratch = a.scratch.clone();
    let robustness = a.props.iter().any(|p| p == "C19");
    run(&a, 20.0, |t, mut rng, slot, deadline| {
        let mut rep = Report::default();
        let dir = Path::new(&scratch).join(format!("gen{t}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut prev = None;
        let files = fuzz::files(&dir);
        while robustness && std::time::Instant::now() < deadline {
            robust(&mut rng, &dir, &files, slot, &mut rep);
        }
        let mut shrunk: BTreeSet<&str> = BTreeSet::new();
        while std::time::Instant::now() < deadline {
            let aug = rng.chance(1, 2);
            let s = gen(&mut rng, aug);
            rep.count("specifications", 1);
            let seed = rng.next() >> 1;
            let fs = check(&s, &dir, slot, &mut Rng::new(seed), &mut rep, &mut prev);
            for (p, w) in fs {
                let mut w = w;
                if p != "C16" && shrunk.insert(p) {
                    let m = shrink(&s, p, &dir, slot, seed, std::time::Instant::now());
                    let (mut r2, mut pr2) = (Report::default(), None);
                    for k in 0..4 {
                        if let Some(f) = check(&m, &dir, slot, &mut Rng::new(seed + k), &mut r2, &mut pr2).into_iter().find(|f| f.0 == p) {
                            w = f.1;
                            break;
                        }
                    }
                }
                let (w, i) = w.split_once('\u{0}').unwrap();
                rep.fail(p, || i.to_string(), || w.to_string());
            }
            if rep.samples.len() < 2 {
                rep.samples.push(s.text());
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        rep
    });
}
