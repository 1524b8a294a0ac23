//! Runs the two parser runtimes on random tables (any tables, not only those of a grammar) and random texts,
//! and compares everything the user's code sees with an independent simulation of the LR machine.
#[path = "../../common/mod.rs"]
mod common;
use common::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub const NTOK: u8 = 5; // a b c d and the end marker
pub const LIMIT: usize = 300;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct T(pub u8);
impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", name(self.0))
    }
}
fn name(t: u8) -> String {
    if t + 1 == NTOK { "END".into() } else { ((b'a' + t) as char).to_string() }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Shift(u32),
    Reduce(u32),
    Accept,
    Error,
}
/// the tables of a parser; entries are invented while the reference runs and are fixed from then on
#[derive(Clone, Default, Debug)]
pub struct Tables {
    pub aug: bool,
    /// (state, token, what the predicate sees)
    pub act: BTreeMap<(u32, u8, u64), Act>,
    pub prods: Vec<(u8, usize)>,
    pub inj: Vec<Vec<String>>,
    pub goto_: BTreeMap<(u8, u32), u32>,
    pub viable: BTreeMap<u8, Vec<u32>>,
    pub err_goto: BTreeMap<u32, u32>,
    pub look: BTreeMap<u32, Vec<u8>>,
    pub nstates: u32,
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)) % 2
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    Reported(String),
    Reduced(u32, Vec<String>),
    Result(String),
}
thread_local! {
    pub static TAB: RefCell<Tables> = RefCell::new(Tables::default());
    pub static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) };
    pub static CALLS: RefCell<usize> = const { RefCell::new(0) };
}
pub fn log(e: Ev) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.push(e);
        if l.len() > 4 * LIMIT {
            panic!("runs on after the machine has stopped")
        }
    })
}
pub fn tick() {
    CALLS.with(|c| {
        *c.borrow_mut() += 1;
        if *c.borrow() > 4 * LIMIT {
            panic!("runs on after the machine has stopped")
        }
    })
}
pub fn act_of(state: u32, t: u8, seen: impl FnOnce() -> String) -> Act {
    tick();
    TAB.with(|tb| {
        let tb = tb.borrow();
        let h = if tb.aug { hash(&seen()) } else { 0 };
        match tb.act.get(&(state, t, h)) {
            Some(a) => *a,
            None => panic!("asks for the action of state {state} on {} that the machine never needs", name(t)),
        }
    })
}

macro_rules! runtime {
    ($r:ident, $m:ident, $aug:tt) => {
        mod $r {
            use super::*;
            use ::$m::{Action, Error, Parser, ReportError};
            #[derive(Clone, Debug, Default)]
            pub struct A(pub String);
            impl From<lexan::Token<T>> for A {
                fn from(t: lexan::Token<T>) -> A {
                    A(format!("{}", t.lexeme()))
                }
            }
            pub fn show(e: &Error<T>) -> String {
                match e {
                    Error::SyntaxError(t, s) => format!("S:{}:{}@{}+{}", t.lexeme(), t.location().label(), t.location().line_number(), set(s)),
                    Error::LexicalError(e, s) => match e {
                        lexan::Error::UnexpectedText(x, l) => format!("U:{}@{}+{}", x, l, set(s)),
                        o => format!("?{o}+{}", set(s)),
                    },
                }
            }
            fn set(s: &::lalr1::OrderedSet<T>) -> String {
                s.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(",")
            }
            impl From<Error<T>> for A {
                fn from(e: Error<T>) -> A {
                    A(show(&e))
                }
            }
            pub struct P(pub lexan::LexicalAnalyzer<T>);
            impl ReportError<T> for P {
                fn report_error(&mut self, e: &Error<T>) {
                    log(Ev::Reported(show(e)))
                }
            }
            fn conv(a: Act) -> Action {
                match a {
                    Act::Shift(s) => Action::Shift(s),
                    Act::Reduce(p) => Action::Reduce(p),
                    Act::Accept => Action::Accept,
                    Act::Error => Action::SyntaxError,
                }
            }
            impl Parser<T, u8, A> for P {
                fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<T> {
                    &self.0
                }
                runtime!(@next $m $aug);
                fn production_data(p: u32) -> (u8, usize) {
                    TAB.with(|t| t.borrow().prods[p as usize])
                }
                fn goto_state(lhs: &u8, state: u32) -> u32 {
                    TAB.with(|t| *t.borrow().goto_.get(&(*lhs, state)).expect("asks for a goto that the machine never needs"))
                }
                fn do_semantic_action<F: FnMut(String, String)>(&mut self, p: u32, attrs: Vec<A>, mut inject: F) -> A {
                    tick();
                    let v: Vec<String> = attrs.into_iter().map(|a| a.0).collect();
                    let r = format!("({}{})", p, v.iter().map(|x| format!(" {x}")).collect::<String>());
                    log(Ev::Reduced(p, v));
                    for (n, x) in TAB.with(|t| t.borrow().inj[p as usize].clone()).into_iter().enumerate() {
                        inject(x, format!("I{p}.{n}"));
                    }
                    A(clip(r))
                }
                fn viable_error_recovery_states(t: &T) -> ::lalr1::OrderedSet<u32> {
                    TAB.with(|tb| tb.borrow().viable.get(&t.0).cloned().unwrap_or_default().into_iter().collect())
                }
                fn error_goto_state(s: u32) -> u32 {
                    tick();
                    TAB.with(|t| *t.borrow().err_goto.get(&s).expect("asks for an error goto that the machine never needs"))
                }
                fn look_ahead_set(s: u32) -> ::lalr1::OrderedSet<T> {
                    tick();
                    TAB.with(|t| t.borrow().look.get(&s).cloned().unwrap_or_default().into_iter().map(T).collect())
                }
            }
            pub fn go(text: &str) {
                let an = lexan::LexicalAnalyzer::new(&[(T(0), "a"), (T(1), "b"), (T(2), "c"), (T(3), "d")], &[], &["[ \n]+"], T(NTOK - 1));
                let mut p = P(an);
                let r = p.parse_text(text, "main");
                log(Ev::Result(match r {
                    Ok(()) => "Ok".into(),
                    Err(e) => show(&e),
                }));
            }
        }
    };
    (@next $m:ident false) => {
        fn next_action(&self, state: u32, tok: &lexan::Token<T>) -> Action {
            conv(act_of(state, tok.tag().0, String::new))
        }
    };
    (@next $m:ident true) => {
        fn next_action(&self, state: u32, st: &::$m::ParseStack<T, u8, A>, tok: &lexan::Token<T>) -> Action {
            // what a predicate may look at: as many attributes as the state's items have symbols before the dot
            conv(act_of(state, tok.tag().0, || {
                let k = TAB.with(|t| t.borrow().act.get(&(state, 255, 0)).copied());
                match k {
                    Some(Act::Shift(n)) => (1..=n as usize).map(|i| st.at_len_minus_n(i).0.clone()).collect::<Vec<_>>().join("|"),
                    _ => String::new(),
                }
            }))
        }
    };
}
pub fn clip(s: String) -> String {
    if s.len() > 60 {
        let h = s.bytes().fold(7u64, |h, b| h.wrapping_mul(1099511628211).wrapping_add(b as u64));
        format!("#{h:x}")
    } else {
        s
    }
}
runtime!(r_lalr1, lalr1, false);
runtime!(r_alalr1, alalr1, true);

// ------------------------------------------------------------------------------------------------ the reference
#[derive(Clone, Debug)]
enum Kind {
    Tok(u8, String),
    Bad(String),
    /// the stream of a text without any tokens
    Blank,
}
#[derive(Clone, Debug)]
struct It {
    kind: Kind,
    label: String,
    line: usize,
    col: usize,
    /// for the last item of a text: the line at the text's end
    ends: Option<usize>,
}
/// tokens of a text: a b c d, spaces and line ends skipped, anything else unexpected up to the next of these
fn lex(text: &str, label: &str) -> Vec<It> {
    let cs: Vec<char> = text.chars().collect();
    let mut v = vec![];
    let (mut i, mut line, mut col) = (0, 1, 1);
    while i < cs.len() {
        match cs[i] {
            ' ' => col += 1,
            '\n' => {
                line += 1;
                col = 1
            }
            c @ 'a'..='d' => {
                v.push(It { kind: Kind::Tok(c as u8 - b'a', c.to_string()), label: label.to_string(), line, col, ends: None });
                col += 1
            }
            _ => {
                let (mut s, c0) = (String::new(), col);
                while i < cs.len() && !" \nabcd".contains(cs[i]) {
                    s.push(cs[i]);
                    col += 1;
                    i += 1;
                }
                v.push(It { kind: Kind::Bad(s), label: label.to_string(), line, col: c0, ends: None });
                continue;
            }
        }
        i += 1;
    }
    if let Some(l) = v.last_mut() {
        l.ends = Some(line);
    }
    v
}
struct Machine<'a> {
    tb: Tables,
    rng: &'a mut Rng,
    /// next token last
    toks: Vec<It>,
    end: It,
    states: Vec<u32>,
    attrs: Vec<String>,
    last: Option<u32>,
    log: Vec<Ev>,
    injected: usize,
    recoveries: usize,
    shifts: usize,
}
enum Stop {
    Done,
    Skip(&'static str),
}
impl Machine<'_> {
    fn pop(&mut self) {
        let it = self.toks.pop().unwrap();
        if let Some(line) = it.ends {
            self.end = It { kind: Kind::Tok(NTOK - 1, String::new()), label: it.label, line, col: 0, ends: None };
        }
    }
    fn action(&mut self, t: u8) -> Act {
        let s = *self.states.last().unwrap();
        let mut h = 0;
        if self.tb.aug {
            let depth = self.attrs.len();
            let k = match self.tb.act.get(&(s, 255, 0)) {
                Some(Act::Shift(n)) => *n as usize,
                _ => {
                    let n = self.rng.below(4).min(depth);
                    self.tb.act.insert((s, 255, 0), Act::Shift(n as u32));
                    n
                }
            };
            if k > depth {
                return Act::Reduce(u32::MAX);
            }
            let seen: Vec<String> = (1..=k).map(|i| self.attrs[depth - i].clone()).collect();
            h = hash(&seen.join("|"));
        }
        if let Some(a) = self.tb.act.get(&(s, t, h)) {
            return *a;
        }
        let end = t + 1 == NTOK;
        let n = self.tb.nstates as usize;
        let a = match self.rng.below(100) {
            0..=39 if !end => Act::Shift(self.rng.below(n) as u32),
            0..=74 => {
                let fit: Vec<u32> = (0..self.tb.prods.len() as u32).filter(|p| self.tb.prods[*p as usize].1 <= self.attrs.len()).collect();
                if fit.is_empty() { Act::Error } else { Act::Reduce(*self.rng.pick(&fit)) }
            }
            75..=79 => Act::Accept,
            80..=84 if end => Act::Accept,
            _ => Act::Error,
        };
        self.tb.act.insert((s, t, h), a);
        a
    }
    fn error(&mut self, what: String) -> bool {
        let s = *self.states.last().unwrap();
        if !self.tb.look.contains_key(&s) {
            let v: Vec<u8> = (0..NTOK).filter(|_| self.rng.chance(1, 2)).collect();
            self.tb.look.insert(s, v);
        }
        let exp = self.tb.look[&s].iter().map(|t| name(*t)).collect::<Vec<_>>().join(",");
        let e = format!("{what}+{exp}");
        self.log.push(Ev::Reported(e.clone()));
        while let Some(it) = self.toks.last() {
            if let Kind::Tok(t, _) = it.kind {
                if !self.tb.viable.contains_key(&t) {
                    let v: Vec<u32> = (0..self.tb.nstates).filter(|_| self.rng.chance(1, 4)).collect();
                    self.tb.viable.insert(t, v);
                }
                let ok = &self.tb.viable[&t];
                if let Some(i) = (0..self.states.len()).rev().find(|i| ok.contains(&self.states[*i]) && self.last != Some(self.states[*i])) {
                    self.states.truncate(i + 1);
                    self.attrs.truncate(i);
                    let c = self.states[i];
                    self.last = Some(c);
                    let n = self.tb.nstates as usize;
                    let r = self.rng.below(n) as u32;
                    let g = *self.tb.err_goto.entry(c).or_insert(r);
                    self.states.push(g);
                    self.attrs.push(e);
                    self.recoveries += 1;
                    return true;
                }
            }
            self.pop();
        }
        self.log.push(Ev::Result(e));
        false
    }
    fn run(&mut self) -> Stop {
        let mut res = "Ok".to_string();
        for _ in 0..LIMIT {
            let It { kind, label: l, line, col, .. } = self.toks.last().unwrap_or(&self.end).clone();
            let what = match kind {
                Kind::Bad(x) => format!("U:{x}@{}", locs(&l, line, col)),
                Kind::Blank => "?Advanced when empty at 0:0".into(),
                Kind::Tok(t, lx) => match self.action(t) {
                    Act::Accept => {
                        self.log.push(Ev::Result(res));
                        return Stop::Done;
                    }
                    Act::Shift(s) => {
                        self.pop();
                        self.states.push(s);
                        self.attrs.push(lx);
                        self.last = None;
                        self.shifts += 1;
                        continue;
                    }
                    Act::Reduce(p) => {
                        if p == u32::MAX || self.tb.prods[p as usize].1 > self.attrs.len() {
                            return Stop::Skip("table reduces more than the stack holds");
                        }
                        let (lhs, n) = self.tb.prods[p as usize];
                        let args = self.attrs.split_off(self.attrs.len() - n);
                        self.states.truncate(self.states.len() - n);
                        let below = *self.states.last().unwrap();
                        let ns = self.tb.nstates as usize;
                        let r = self.rng.below(ns) as u32;
                        let g = *self.tb.goto_.entry((lhs, below)).or_insert(r);
                        let a = clip(format!("({}{})", p, args.iter().map(|x| format!(" {x}")).collect::<String>()));
                        self.log.push(Ev::Reduced(p, args));
                        for (k, x) in self.tb.inj[p as usize].iter().enumerate() {
                            self.toks.extend(lex(x, &format!("I{p}.{k}")).into_iter().rev());
                            self.injected += 1;
                        }
                        if self.toks.len() > LIMIT {
                            return Stop::Skip("injects without end");
                        }
                        self.states.push(g);
                        self.attrs.push(a);
                        continue;
                    }
                    Act::Error => format!("S:{lx}:{l}@{line}"),
                },
            };
            if !self.error(what) {
                return Stop::Done;
            }
            match self.log.last() {
                Some(Ev::Reported(e)) => res = e.clone(),
                _ => unreachable!(),
            }
        }
        Stop::Skip("runs too long")
    }
}
fn locs(label: &str, line: usize, col: usize) -> String {
    if label.contains(' ') { format!("\"{label}\":{line}:{col}") } else { format!("{label}:{line}:{col}") }
}
fn text(rng: &mut Rng, n: usize) -> String {
    let n = rng.below(n + 1);
    (0..n).map(|_| *rng.pick(&['a', 'a', 'b', 'b', 'c', 'c', 'd', 'd', 'a', 'b', ' ', '\n', '!', '?'])).collect()
}
fn case(rng: &mut Rng, aug: bool, rep: &mut Report, slot: &Slot) {
    let mut tb = Tables { aug, nstates: 2 + rng.below(8) as u32, ..Default::default() };
    for _ in 0..1 + rng.below(6) {
        tb.prods.push((rng.below(4) as u8, rng.below(4)));
        let k = if rng.chance(1, 4) { 1 + rng.below(2) } else { 0 };
        let v = (0..k).map(|_| text(rng, 4)).collect();
        tb.inj.push(v);
    }
    for round in 0..4 {
        let txt = text(rng, 14);
        let mut m = Machine { tb: tb.clone(), rng, toks: lex(&txt, "main").into_iter().rev().collect(), end: It { kind: Kind::Blank, label: String::new(), line: 0, col: 0, ends: None }, states: vec![0], attrs: vec![], last: None, log: vec![], injected: 0, recoveries: 0, shifts: 0 };
        let stop = m.run();
        let (ntb, want, inj, recs, shifts) = (m.tb, m.log, m.injected, m.recoveries, m.shifts);
        if let Stop::Skip(why) = stop {
            *rep.skipped.entry(why.into()).or_insert(0) += 1;
            continue;
        }
        tb = ntb;
        let input = || format!("{} text={:?} tables={}", if aug { "alalr1" } else { "lalr1" }, txt, show_tables(&tb));
        TAB.with(|t| *t.borrow_mut() = tb.clone());
        LOG.with(|l| l.borrow_mut().clear());
        CALLS.with(|l| *l.borrow_mut() = 0);
        begin(slot, "C07", input);
        let r = catch_unwind(AssertUnwindSafe(|| if aug { r_alalr1::go(&txt) } else { r_lalr1::go(&txt) }));
        end(slot);
        let mut got = LOG.with(|l| l.borrow().clone());
        if let Err(e) = &r {
            got.push(Ev::Result(format!("panic: {}", panic_text(&**e))));
        }
        rep.count("parses compared", 1);
        rep.count("recoveries", recs as u64);
        rep.count("shifts", shifts as u64);
        rep.count("injections", inj as u64);
        rep.count("reductions", want.iter().filter(|e| matches!(e, Ev::Reduced(..))).count() as u64);
        if rep.samples.len() < 2 && round == 1 && recs > 0 {
            rep.samples.push(format!("{:?} -> {:?}", txt, want));
        }
        if got != want {
            judge(rep, &got, &want, recs, &input);
        }
    }
}
fn show_tables(tb: &Tables) -> String {
    let mut s = String::new();
    for ((st, t, h), a) in &tb.act {
        s += &format!("act({st},{}{})={a:?}; ", if *t == 255 { "looks".into() } else { name(*t) }, if tb.aug { format!("/{h}") } else { String::new() });
    }
    s += &format!("productions={:?}; injects={:?}; goto={:?}; viable={:?}; error goto={:?}; expected={:?}", tb.prods, tb.inj, tb.goto_, tb.viable, tb.err_goto, tb.look);
    s
}
/// which property does a difference break?
fn judge(rep: &mut Report, got: &[Ev], want: &[Ev], recs: usize, input: &dyn Fn() -> String) {
    let k = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
    let what = || format!("event {k} is {:?}, expected {:?}", got.get(k), want.get(k));
    let reports = |v: &[Ev]| v.iter().filter(|e| matches!(e, Ev::Reported(_))).count();
    // C08: the result, what is said of an error, an error that is not reported or reported twice
    let result_only = got.len() == want.len() && k + 1 == want.len();
    let off = |e: Option<&Ev>| match e {
        Some(Ev::Reported(a)) => a.rsplit_once('+').map(|x| x.0.to_string()),
        _ => None,
    };
    let extra = |a: &[Ev], b: &[Ev]| k < a.len() && off(a.get(k)).is_some() && a[k + 1..] == b[k..];
    let c08 = result_only || off(got.get(k)).is_some() && off(got.get(k)) == off(want.get(k)) || extra(got, want) || extra(want, got);
    if c08 {
        rep.fail("C08", input, what);
    }
    // once an error has been met, what happens next is decided by recovery
    let after_error = reports(&want[..k.min(want.len())]) > 0;
    if after_error && recs > 0 && !result_only || after_error && matches!(want.get(k), Some(Ev::Result(_))) && !result_only {
        rep.fail("C09", input, what);
    }
    if !after_error && !c08 {
        rep.fail("C07", input, what);
    }
}
fn work(_t: usize, mut rng: Rng, slot: &Slot, deadline: Instant) -> Report {
    let mut rep = Report::default();
    while Instant::now() < deadline && !rep.fails.values().any(|f| f.0 > 500) {
        for aug in [false, true] {
            case(&mut rng, aug, &mut rep, slot);
        }
    }
    rep
}
fn main() {
    let a = args();
    run(&a, 15.0, work);
}
