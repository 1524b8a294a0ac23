//! what the generators ought to make of a specification: written from the definitions, not from the code
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Mask = u32;
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum S {
    T(usize),
    N(usize),
}
#[derive(Clone, Debug)]
pub struct Prod {
    pub lhs: usize,
    pub rhs: Vec<S>,
    pub assoc: Assoc,
    pub prec: u16,
    pub pred: Option<String>,
    pub act: Option<String>,
    pub err_tail: bool,
}
pub const START: usize = 0;
pub const ERROR: usize = 1;
pub struct Ref {
    /// non terminals: 0 is the start symbol, 1 the error symbol
    pub nts: Vec<String>,
    pub ntoks: usize,
    pub tok: Vec<(Assoc, u16)>,
    pub tags: BTreeMap<String, (Assoc, u16)>,
    pub prods: Vec<Prod>,
    pub undefined: u32,
    pub errors: u32,
    pub error_used: bool,
    pub first: Vec<Mask>,
    pub nullable: Vec<bool>,
}
/// an item is a production and a dot; states are kernels with their look aheads
pub type Item = (usize, usize);
#[derive(Clone, Debug, Default)]
pub struct State {
    pub items: BTreeMap<Item, Mask>,
    pub shifts: BTreeMap<usize, usize>,
    pub gotos: BTreeMap<usize, usize>,
    /// tokens in conflict (before resolution)
    pub conflicts: Mask,
}
pub struct Auto {
    pub states: Vec<State>,
    pub sr: u32,
    pub rr: u32,
    pub any_conflict: bool,
}
impl Ref {
    pub fn end(&self) -> usize {
        self.ntoks
    }
    pub fn new(s: &Spec) -> Ref {
        let mut nts = vec!["AAStart".to_string(), "AAError".to_string()];
        let mut id = |n: &str| match nts.iter().position(|x| x == n) {
            Some(i) => i,
            None => {
                nts.push(n.to_string());
                nts.len() - 1
            }
        };
        let mut tok = vec![(Assoc::Non, 0u16); s.toks.len()];
        let mut tags = BTreeMap::new();
        for (i, (a, ms)) in s.prec.iter().enumerate() {
            for m in ms {
                let v = (ASSOC[*a as usize], i as u16 + 1);
                match m {
                    Mem::T(t) | Mem::L(t) => tok[*t] = v,
                    Mem::Tag(n) => {
                        tags.insert(n.clone(), v);
                    }
                }
            }
        }
        let mut defined = BTreeSet::new();
        let mut used = BTreeSet::new();
        let mut error_used = false;
        let mut prods = vec![];
        for (lhs, tails) in &s.rules {
            let l = id(lhs);
            defined.insert(l);
            for t in tails {
                if prods.is_empty() {
                    prods.push(Prod { lhs: START, rhs: vec![S::N(l)], assoc: Assoc::Non, prec: 0, pred: None, act: None, err_tail: false });
                }
                let mut rhs = vec![];
                for y in &t.rhs {
                    rhs.push(match y {
                        Sym::T(i) | Sym::L(i) => S::T(*i),
                        Sym::N(n) => {
                            let k = id(n);
                            used.insert(k);
                            S::N(k)
                        }
                        Sym::Error | Sym::Unknown(_) => {
                            error_used = true;
                            S::N(ERROR)
                        }
                    });
                }
                let (assoc, prec) = match &t.prec {
                    Some(Mem::T(i)) | Some(Mem::L(i)) => tok[*i],
                    Some(Mem::Tag(n)) => *tags.get(n).unwrap_or(&(Assoc::Non, 0)),
                    None => rhs.iter().find_map(|y| if let S::T(i) = y { Some(tok[*i]) } else { None }).unwrap_or((Assoc::Non, 0)),
                };
                let err_tail = rhs.last() == Some(&S::N(ERROR));
                prods.push(Prod { lhs: l, rhs, assoc, prec, pred: t.pred.clone(), act: t.act.clone(), err_tail });
            }
        }
        if error_used {
            prods.push(Prod { lhs: ERROR, rhs: vec![], assoc: Assoc::Non, prec: 0, pred: None, act: None, err_tail: false });
        }
        let undefined = used.iter().filter(|k| !defined.contains(*k)).count() as u32;
        let n = nts.len();
        let mut r = Ref { nts, ntoks: s.toks.len(), tok, tags, prods, undefined, errors: s.extra_errors, error_used, first: vec![0; n], nullable: vec![false; n] };
        r.firsts();
        r
    }
    /// nullable and FIRST by derivation: grow the sets from the productions until nothing changes
    fn firsts(&mut self) {
        loop {
            let mut ch = false;
            for p in &self.prods {
                if !self.nullable[p.lhs] && p.rhs.iter().all(|y| matches!(y, S::N(k) if self.nullable[*k])) {
                    self.nullable[p.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        loop {
            let mut ch = false;
            for p in &self.prods {
                for y in &p.rhs {
                    let (m, go) = match y {
                        S::T(t) => (1 << t, false),
                        S::N(k) => (self.first[*k], self.nullable[*k]),
                    };
                    if self.first[p.lhs] | m != self.first[p.lhs] {
                        self.first[p.lhs] |= m;
                        ch = true;
                    }
                    if !go {
                        break;
                    }
                }
            }
            if !ch {
                break;
            }
        }
    }
    /// every non terminal that is used derives some string of tokens
    pub fn productive(&self) -> bool {
        let mut ok = vec![false; self.nts.len()];
        loop {
            let mut ch = false;
            for p in &self.prods {
                if !ok[p.lhs] && p.rhs.iter().all(|y| matches!(y, S::T(_)) || matches!(y, S::N(k) if ok[*k])) {
                    ok[p.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        self.prods.iter().all(|p| ok[p.lhs] && p.rhs.iter().all(|y| !matches!(y, S::N(k) if !ok[*k])))
    }
    fn first_of(&self, rest: &[S], la: Mask) -> Mask {
        if la == 0 {
            return 0; // not a valid item for any token: nothing to propagate
        }
        let mut m = 0;
        for y in rest {
            match y {
                S::T(t) => return m | 1 << t,
                S::N(k) => {
                    m |= self.first[*k];
                    if !self.nullable[*k] {
                        return m;
                    }
                }
            }
        }
        m | la
    }
    fn closure(&self, kernel: &BTreeMap<Item, Mask>) -> BTreeMap<Item, Mask> {
        let mut c = kernel.clone();
        let mut todo: Vec<Item> = c.keys().cloned().collect();
        while let Some((p, d)) = todo.pop() {
            let la = c[&(p, d)];
            if let Some(S::N(k)) = self.prods[p].rhs.get(d) {
                let m = self.first_of(&self.prods[p].rhs[d + 1..], la);
                for (q, pr) in self.prods.iter().enumerate() {
                    if pr.lhs == *k {
                        let old = c.get(&(q, 0)).copied();
                        let new = old.unwrap_or(0) | m;
                        if old != Some(new) {
                            c.insert((q, 0), new);
                            todo.push((q, 0));
                        }
                    }
                }
            }
        }
        c
    }
    fn gotos(&self, c: &BTreeMap<Item, Mask>) -> BTreeMap<S, BTreeMap<Item, Mask>> {
        let mut g: BTreeMap<S, BTreeMap<Item, Mask>> = BTreeMap::new();
        for ((p, d), m) in c {
            if let Some(y) = self.prods[*p].rhs.get(*d) {
                *g.entry(y.clone()).or_default().entry((*p, d + 1)).or_insert(0) |= m;
            }
        }
        g
    }
    /// the canonical LR(1) collection, merged by core
    pub fn lalr(&self, cap: usize) -> Option<Auto> {
        let k0 = BTreeMap::from([((0, 0), 1 << self.end())]);
        let mut kernels = vec![k0.clone()];
        let mut at: HashMap<BTreeMap<Item, Mask>, usize> = HashMap::from([(k0, 0)]);
        let mut closures: Vec<BTreeMap<Item, Mask>> = vec![];
        let mut edges: Vec<BTreeMap<S, usize>> = vec![];
        let mut i = 0;
        while i < kernels.len() {
            let c = self.closure(&kernels[i]);
            let mut e = BTreeMap::new();
            for (y, k) in self.gotos(&c) {
                let n = kernels.len();
                let t = *at.entry(k.clone()).or_insert(n);
                if t == n {
                    kernels.push(k);
                }
                e.insert(y, t);
            }
            closures.push(c);
            edges.push(e);
            i += 1;
            if kernels.len() > cap {
                return None;
            }
        }
        let mut core: BTreeMap<BTreeSet<Item>, usize> = BTreeMap::new();
        let mut states: Vec<State> = vec![];
        let mut of = vec![];
        for (k, c) in kernels.iter().zip(&closures) {
            let key: BTreeSet<Item> = k.keys().cloned().collect();
            let n = states.len();
            let t = *core.entry(key).or_insert(n);
            if t == n {
                states.push(State::default());
            }
            for (it, m) in c {
                *states[t].items.entry(*it).or_insert(0) |= m;
            }
            of.push(t);
        }
        for (i, e) in edges.iter().enumerate() {
            for (y, t) in e {
                match y {
                    S::T(a) => states[of[i]].shifts.insert(*a, of[*t]),
                    S::N(a) => states[of[i]].gotos.insert(*a, of[*t]),
                };
            }
        }
        let mut a = Auto { states, sr: 0, rr: 0, any_conflict: false };
        self.resolve(&mut a);
        Some(a)
    }
    fn reducible(&self, st: &State) -> Vec<Item> {
        st.items.keys().filter(|(p, d)| *d == self.prods[*p].rhs.len()).cloned().collect()
    }
    fn resolve(&self, a: &mut Auto) {
        for i in 0..a.states.len() {
            let mut st = a.states[i].clone();
            let red = self.reducible(&st);
            // conflicts before anything is resolved
            let sh: Mask = st.shifts.keys().fold(0, |m, t| m | 1 << t);
            for (j, x) in red.iter().enumerate() {
                st.conflicts |= st.items[x] & sh;
                for y in &red[..j] {
                    st.conflicts |= st.items[x] & st.items[y];
                }
            }
            a.any_conflict |= st.conflicts != 0;
            let before = st.clone();
            for t in before.shifts.keys() {
                for x in &red {
                    if before.items[x] >> t & 1 == 0 {
                        continue;
                    }
                    let p = &self.prods[x.0];
                    let tp = self.tok[*t].1;
                    let reduce = tp < p.prec || (tp == p.prec && p.assoc == Assoc::Left);
                    if reduce {
                        st.shifts.remove(t);
                    } else {
                        *st.items.get_mut(x).unwrap() &= !(1 << t);
                        if tp == p.prec && !p.err_tail {
                            a.sr += 1;
                        }
                    }
                }
            }
            for (j, x) in red.iter().enumerate() {
                for y in &red[j + 1..] {
                    let both = st.items[x] & st.items[y];
                    if both == 0 || self.prods[x.0].pred.is_some() {
                        continue;
                    }
                    let loser = if self.prods[x.0].err_tail { x } else { y };
                    *st.items.get_mut(loser).unwrap() &= !both;
                    if !self.prods[x.0].err_tail && !self.prods[y.0].err_tail {
                        a.rr += 1;
                    }
                }
            }
            a.states[i] = st;
        }
    }
    /// the productions reduced on a token, in declaration order
    pub fn reductions(&self, st: &State, t: usize) -> Vec<usize> {
        self.reducible(st).iter().filter(|x| st.items[x] >> t & 1 == 1).map(|x| x.0).collect()
    }
    pub fn acceptable(&self, st: &State) -> Mask {
        let mut m = st.shifts.keys().fold(0, |m, t| m | 1 << t);
        for x in self.reducible(st) {
            m |= st.items[&x];
        }
        m
    }
    pub fn viable(&self, a: &Auto, t: usize) -> Vec<usize> {
        (0..a.states.len())
            .filter(|i| match a.states[*i].gotos.get(&ERROR) {
                Some(g) => self.reductions(&a.states[*g], t).iter().any(|p| self.prods[*p].err_tail),
                None => false,
            })
            .collect()
    }
}
/// $-placeholders of an action
pub fn action(a: &str) -> String {
    let (b, mut o, mut i) = (a.as_bytes(), String::new(), 0);
    while i < b.len() {
        if b[i] == b'$' {
            if a[i..].starts_with("$$") {
                o += "aa_lhs";
                i += 2;
                continue;
            }
            if a[i..].starts_with("$INJECT") {
                o += "aa_inject";
                i += 7;
                continue;
            }
            let n: String = a[i + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if !n.is_empty() {
                o += &format!("aa_rhs[{}]", n.parse::<usize>().unwrap() - 1);
                i += 1 + n.len();
                continue;
            }
        }
        let c = a[i..].chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
    }
    o
}
pub fn predicate(a: &str, len: usize) -> String {
    let (b, mut o, mut i) = (a.as_bytes(), String::new(), 0);
    while i < b.len() {
        if b[i] == b'$' {
            if a[i..].starts_with("$?") {
                o += "aa_tag";
                i += 2;
                continue;
            }
            let n: String = a[i + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if !n.is_empty() {
                o += &format!("aa_attributes.at_len_minus_n({})", len + 1 - n.parse::<usize>().unwrap());
                i += 1 + n.len();
                continue;
            }
        }
        let c = a[i..].chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
    }
    o
}
