//! Bounded check of lexan against an independent reference lexer.
#[path = "../../common/mod.rs"]
mod common;
use common::*;
use lexan::{Error, LexicalAnalyzer, TokenStream};
use regex::Regex;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

const END: u32 = 999;
const LITS: &[&str] = &["a", "ab", "abc", "b", "ba", "aa", "aab", "é", "éa", "€", "\n", "if", "iff", "i", "a b", "=", "==", "=>", " ", "\r\n", "f1", "1", "x", "abca", "c", "€é", "#"];
const RXS: &[&str] = &["[a-z]+", "a|b", "ab?", "a*", "(a|b)*", "é+", "[^ ]", "b+|é", "[0-9]+", "[ab]{2}", "a+?", "x*", ".", "..", "\\n", "(?s).b", "a\\n", "€|é", "i|if", "(?i)AB", "[a-f]*1", "aa|a", "c|ab|abc", "[a-c]{1,3}", "=+", "ab|\\n", "[^a]", "[=>]+", "abc"];
const SKS: &[&str] = &["\\s+", "[ \\n]", " ", "#[^\\n]*", "x|y", "/\\*(.|\\n)*?\\*/", "é", "a|c", "\\r\\n", "\\t*", "\\n|=", "€+", "b"];
const PIECES: &[&str] = &["a", "b", "c", " ", "\n", "\r", "é", "x", "€", "=", "#", "i", "f", "1", "/*", "*/", "ab", "abc", "if", "\r\n", "==", "=>", "y", "\t", "aab", "z", "\n\n", " \n", "𝄞"];

#[derive(Clone, Debug, Default)]
struct Defs {
    lits: Vec<(u32, String)>,
    rxs: Vec<(u32, String)>,
    sks: Vec<String>,
}
struct Ref {
    d: Defs,
    rx: Vec<Regex>,
    sk: Vec<Regex>,
}
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Tok(u32),
    Unexp,
    Ambig(BTreeSet<u32>),
    Adv,
}
#[derive(Clone, Debug, PartialEq)]
struct It {
    kind: Kind,
    text: String,
    label: String,
    line: usize,
    off: usize,
}
impl Defs {
    fn show(&self) -> String {
        format!("literals={:?} regexes={:?} skips={:?} end=999", self.lits, self.rxs, self.sks)
    }
    fn build(&self) -> LexicalAnalyzer<u32> {
        let l: Vec<(u32, &str)> = self.lits.iter().map(|(a, b)| (*a, b.as_str())).collect();
        let r: Vec<(u32, &str)> = self.rxs.iter().map(|(a, b)| (*a, b.as_str())).collect();
        let s: Vec<&str> = self.sks.iter().map(|b| b.as_str()).collect();
        LexicalAnalyzer::new(&l, &r, &s, END)
    }
}
fn comp(p: &str) -> Regex {
    Regex::new(&format!("\\A(?:{p})")).unwrap()
}
impl Ref {
    fn new(d: &Defs) -> Ref {
        Ref { d: d.clone(), rx: d.rxs.iter().map(|r| comp(&r.1)).collect(), sk: d.sks.iter().map(|r| comp(r)).collect() }
    }
    fn at(r: &Regex, t: &str) -> usize {
        r.find(t).map(|m| m.end()).unwrap_or(0)
    }
    fn skip_to(&self, t: &str, mut i: usize) -> usize {
        'o: while i < t.len() {
            for r in &self.sk {
                let k = Self::at(r, &t[i..]);
                if k > 0 {
                    i += k;
                    continue 'o;
                }
            }
            break;
        }
        i
    }
    fn valid(&self, t: &str) -> bool {
        self.d.lits.iter().any(|l| t.starts_with(l.1.as_str())) || self.rx.iter().chain(&self.sk).any(|r| Self::at(r, t) > 0)
    }
    fn loc(t: &str, i: usize) -> (usize, usize) {
        let line = 1 + t[..i].matches('\n').count();
        let st = t[..i].rfind('\n').map(|x| x + 1).unwrap_or(0);
        (line, i - st + 1)
    }
    /// items with their start positions
    fn lex(&self, t: &str, label: &str) -> Vec<(It, usize)> {
        let mut out = vec![];
        let mut i = 0;
        loop {
            i = self.skip_to(t, i);
            if i >= t.len() {
                return out;
            }
            let r = &t[i..];
            let lit = self.d.lits.iter().filter(|l| r.starts_with(l.1.as_str())).map(|l| (l.1.len(), l.0)).max();
            let m = self.rx.iter().map(|x| Self::at(x, r)).max().unwrap_or(0);
            let tags: BTreeSet<u32> = self.rx.iter().zip(&self.d.rxs).filter(|(x, _)| m > 0 && Self::at(x, r) == m).map(|(_, d)| d.0).collect();
            let (kind, n) = match lit {
                Some((k, tag)) if k >= m => (Kind::Tok(tag), k),
                _ if tags.len() == 1 => (Kind::Tok(*tags.iter().next().unwrap()), m),
                _ if tags.len() > 1 => (Kind::Ambig(tags), m),
                _ => (Kind::Unexp, r.char_indices().map(|x| x.0).find(|&j| self.valid(&r[j..])).unwrap_or(r.len())),
            };
            let (line, off) = Self::loc(t, i);
            out.push((It { kind, text: t[i..i + n].to_string(), label: label.to_string(), line, off }, i));
            i += n;
        }
    }
    /// can `bodies` be laid out over t with skips between? gives the positions
    fn tiles(&self, t: &str, bodies: &[String]) -> bool {
        let close = |s: &BTreeSet<usize>| -> BTreeSet<usize> {
            let mut r = s.clone();
            let mut w: Vec<usize> = s.iter().cloned().collect();
            while let Some(i) = w.pop() {
                for k in &self.sk {
                    let n = Self::at(k, &t[i..]);
                    if n > 0 && r.insert(i + n) {
                        w.push(i + n)
                    }
                }
            }
            r
        };
        let mut cur = close(&[0].into());
        for b in bodies {
            if b.is_empty() {
                return false;
            }
            let nx: BTreeSet<usize> = cur.iter().filter(|&&i| t[i..].starts_with(b.as_str())).map(|i| i + b.len()).collect();
            cur = close(&nx);
            if cur.is_empty() {
                return false;
            }
        }
        cur.contains(&t.len())
    }
}
fn obs(r: Result<lexan::Token<u32>, Error<u32>>) -> It {
    let l = |k: Kind, s: &str, l: &lexan::Location| It { kind: k, text: s.to_string(), label: l.label().clone(), line: l.line_number(), off: l.offset() };
    match r {
        Ok(t) => l(Kind::Tok(*t.tag()), t.lexeme(), t.location()),
        Err(Error::UnexpectedText(s, x)) => l(Kind::Unexp, &s, &x),
        Err(Error::AmbiguousMatches(ts, s, x)) => l(Kind::Ambig(ts.0.iter().cloned().collect()), &s, &x),
        Err(Error::AdvancedWhenEmpty(x)) => l(Kind::Adv, "", &x),
    }
}
fn gen_defs(r: &mut Rng) -> Defs {
    let mut d = Defs::default();
    let mut tag = 0;
    let mut used = BTreeSet::new();
    for _ in 0..r.below(5) {
        let p = *r.pick(LITS);
        if used.insert(p) {
            tag += 1;
            d.lits.push((tag, p.to_string()));
        }
    }
    for _ in 0..r.below(4) {
        let p = *r.pick(RXS);
        if used.insert(p) {
            tag += 1;
            d.rxs.push((tag, p.to_string()));
        }
    }
    for _ in 0..r.below(4) {
        let p = *r.pick(SKS);
        if used.insert(p) {
            d.sks.push(p.to_string());
        }
    }
    // tags need not be in order
    if r.chance(1, 2) {
        let n = tag + 1;
        for x in d.lits.iter_mut().chain(d.rxs.iter_mut()) {
            x.0 = n - x.0;
        }
    }
    d
}
fn gen_text(r: &mut Rng, d: &Defs) -> String {
    let mut s = String::new();
    for _ in 0..r.below(9) {
        if r.chance(1, 4) && !d.lits.is_empty() {
            s.push_str(&r.pick(&d.lits).1.clone());
        } else {
            s.push_str(r.pick(PIECES));
        }
    }
    s
}
fn plain(rep: &mut Report, rf: &Ref, an: &LexicalAnalyzer<u32>, text: &str) {
    let input = || format!("{} text={:?}", rf.d.show(), text);
    let exp = rf.lex(text, "L");
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut ts = an.token_stream(text, "L");
        let mut v = vec![];
        let mut over = false;
        while !ts.is_empty() {
            v.push(obs(ts.front()));
            ts.advance();
            if v.len() > text.len() {
                over = true;
                break;
            }
        }
        let mut tail = vec![obs(ts.front())];
        for _ in 0..3 {
            ts.advance();
            tail.push(obs(ts.front()));
        }
        (v, tail, over)
    }));
    rep.count("texts", 1);
    let (v, tail, over) = match res {
        Ok(x) => x,
        Err(e) => {
            rep.fail("C04", input, || format!("panic: {}", panic_text(&*e)));
            return;
        }
    };
    if exp.len() > 1 {
        rep.count("texts with several tokens or errors", 1);
    }
    if over {
        rep.fail("C04", input, || format!("more than {} advances without reaching the end", text.len()));
        rep.fail("C01", input, || "more items than bytes".into());
        return;
    }
    let bodies: Vec<String> = v.iter().map(|x| x.text.clone()).collect();
    let tiles = rf.tiles(text, &bodies);
    if !tiles {
        rep.fail("C01", input, || format!("the delivered texts {:?} and the skip patterns do not make up the text", bodies));
    }
    let shape = |x: &It| (x.kind.clone(), x.text.clone());
    if let Some(k) = (0..v.len().max(exp.len())).find(|&k| v.get(k).map(shape) != exp.get(k).map(|e| shape(&e.0))) {
        let (a, b) = (v.get(k).map(shape), exp.get(k).map(|e| shape(&e.0)));
        // a wrong body that breaks the tiling is C01's unless the kind is wrong as well
        if tiles || a.as_ref().map(|x| &x.0) != b.as_ref().map(|x| &x.0) {
            rep.fail("C02", input, || format!("item {k} is {a:?}, the longest match rule gives {b:?}"));
        }
        for j in 0..k {
            if v[j] != exp[j].0 {
                rep.fail("C03", input, || format!("item {j}: {:?}, expected {:?}", v[j], exp[j].0));
                break;
            }
        }
    } else {
        for j in 0..v.len() {
            if v[j] != exp[j].0 {
                rep.fail("C03", input, || format!("item {j}: {:?}, expected {:?}", v[j], exp[j].0));
                break;
            }
        }
    }
    if !exp.is_empty() && v.len() == exp.len() {
        let (line, off) = Ref::loc(text, text.len());
        let e = It { kind: Kind::Tok(END), text: String::new(), label: "L".into(), line, off };
        if tail[0].kind != e.kind || !tail[0].text.is_empty() {
            rep.fail("C06", input, || format!("after the last token: {:?}, expected the end token", tail[0]));
        } else if tail[0] != e {
            rep.fail("C03", input, || format!("end token {:?}, expected {:?}", tail[0], e));
        }
        if tail[1..].iter().any(|x| x.kind != Kind::Adv) {
            rep.fail("C06", input, || format!("reads after the end token: {:?}", &tail[1..]));
        }
    } else if exp.is_empty() && tail.iter().any(|x| x.kind != Kind::Adv) {
        rep.fail("C06", input, || format!("a text without tokens gives {:?}", tail));
    }
    if rep.samples.len() < 2 && exp.len() > 3 {
        rep.samples.push(format!("{} -> {:?}", input(), v));
    }
}
/// histories of advances and injections against a stack of remaining items
fn history(rep: &mut Report, rng: &mut Rng, rf: &Ref, an: &LexicalAnalyzer<u32>) {
    let mut log = vec![];
    let first = gen_text(rng, &rf.d);
    log.push(format!("text {first:?}"));
    struct Lvl {
        text: String,
        label: String,
        items: Vec<It>,
    }
    let mut stack: Vec<Lvl> = vec![];
    let mut endfront: Option<It> = None; // front when the stack is empty
    let mk = |t: &str, l: &str| Lvl { text: t.to_string(), label: l.to_string(), items: rf.lex(t, l).into_iter().map(|x| x.0).rev().collect() };
    let l = mk(&first, "L0");
    if !l.items.is_empty() {
        stack.push(l);
    }
    let input = |log: &Vec<String>| format!("{} history={:?}", rf.d.show(), log);
    let r = catch_unwind(AssertUnwindSafe(|| an.token_stream(&first, "L0")));
    let mut ts: TokenStream<u32> = match r {
        Ok(t) => t,
        Err(e) => {
            rep.fail("C04", || input(&log), || panic_text(&*e));
            return;
        }
    };
    rep.count("histories", 1);
    let n = 2 + rng.below(14);
    let mut injections = 0;
    for step in 0..n {
        let op = rng.below(10);
        let r = if op < 3 {
            let t = gen_text(rng, &rf.d);
            let lab = format!("L{}", step + 1);
            log.push(format!("inject {t:?} as {lab}"));
            let l = mk(&t, &lab);
            if !l.items.is_empty() {
                injections += 1;
                stack.push(l);
                endfront = None;
            }
            catch_unwind(AssertUnwindSafe(|| ts.inject(&t, &lab)))
        } else {
            let how = rng.below(3);
            log.push(["advance", "front_advance", "advance_front"][how].to_string());
            let before = stack.last().map(|l| l.items.last().unwrap().clone());
            if let Some(l) = stack.last_mut() {
                l.items.pop();
                while let Some(l) = stack.last() {
                    if l.items.is_empty() {
                        if stack.len() == 1 {
                            let (line, off) = Ref::loc(&l.text, l.text.len());
                            endfront = Some(It { kind: Kind::Tok(END), text: String::new(), label: l.label.clone(), line, off });
                        }
                        stack.pop();
                    } else {
                        break;
                    }
                }
            } else {
                endfront = None;
            }
            let _ = before;
            catch_unwind(AssertUnwindSafe(|| match how {
                0 => ts.advance(),
                1 => {
                    let f = obs(ts.front());
                    let g = obs(ts.front_advance());
                    if f != g {
                        panic!("front_advance gives {g:?} when the front is {f:?}")
                    }
                }
                _ => {
                    let g = obs(ts.advance_front());
                    let f = obs(ts.front());
                    if f != g {
                        panic!("advance_front gives {g:?} when the front is {f:?}")
                    }
                }
            }))
        };
        if let Err(e) = r {
            let t = panic_text(&*e);
            let p = if t.contains("when the front is") { "C06" } else { "C04" };
            rep.fail(p, || input(&log), || t);
            return;
        }
        let got = match catch_unwind(AssertUnwindSafe(|| (obs(ts.front()), ts.is_empty()))) {
            Ok(g) => g,
            Err(e) => {
                rep.fail("C04", || input(&log), || panic_text(&*e));
                return;
            }
        };
        let want = match stack.last() {
            Some(l) => l.items.last().unwrap().clone(),
            None => match &endfront {
                Some(e) => e.clone(),
                None => {
                    if got.0.kind != Kind::Adv {
                        rep.fail("C06", || input(&log), || format!("nothing left but the front is {:?}", got.0));
                        return;
                    }
                    got.0.clone()
                }
            },
        };
        if got.0 != want || got.1 != stack.is_empty() {
            if got.0.kind == want.kind && got.0.text == want.text && got.0.label == want.label && got.1 == stack.is_empty() {
                rep.fail("C03", || input(&log), || format!("front {:?}, expected {:?}", got.0, want));
            } else if injections > 0 || want.kind == Kind::Tok(END) {
                rep.fail("C06", || input(&log), || format!("front {:?} (is_empty {}), expected {:?} (is_empty {})", got.0, got.1, want, stack.is_empty()));
            }
            return;
        }
    }
    if injections > 0 {
        rep.count("histories with injections", 1);
    }
}
fn ctor(rep: &mut Report, rng: &mut Rng) {
    const P: &[&str] = &["a", "b", "ab", "c", "", "(", "[a", "*a", "a|b", "é", "x+", "a{2", "\\", "(?P<n>a)", "b)", "[[:foo:]]"];
    let mut d = Defs::default();
    let tag = |r: &mut Rng| if r.chance(1, 12) { END } else { r.below(9) as u32 };
    let good = rng.chance(1, 2);
    let pat = |r: &mut Rng| if good { r.pick(&["a", "b", "ab", "c", "é", "x+", "d", "ee", "f|g", "h", "\\w", "0"]).to_string() } else { r.pick(P).to_string() };
    for _ in 0..rng.below(4) {
        d.lits.push((tag(rng), pat(rng)));
    }
    for _ in 0..rng.below(4) {
        d.rxs.push((tag(rng), pat(rng)));
    }
    for _ in 0..rng.below(3) {
        d.sks.push(pat(rng));
    }
    if rng.chance(2, 3) {
        // distinct tags, possibly one repeated
        let mut k = 0;
        for x in d.lits.iter_mut().chain(d.rxs.iter_mut()) {
            x.0 = k;
            k += 1;
        }
        if k > 1 && rng.chance(1, 3) {
            let (a, b) = (rng.below(k as usize), rng.below(k as usize));
            let n = d.lits.len();
            let t = if b < n { d.lits[b].0 } else { d.rxs[b - n].0 };
            if a < n { d.lits[a].0 = t } else { d.rxs[a - n].0 = t }
        }
    }
    rep.count("constructions", 1);
    // reference
    let mut want: Option<String> = None;
    let mut tags = vec![END];
    let mut pats: Vec<String> = vec![];
    for (t, p) in d.lits.iter().chain(d.rxs.iter()) {
        if tags.contains(t) {
            want = Some(format!("DuplicateHandle({t})"));
            break;
        }
        tags.push(*t);
        if pats.contains(p) {
            want = Some(format!("DuplicatePattern({p:?})"));
            break;
        }
        pats.push(p.clone());
    }
    if want.is_none() {
        for p in &d.sks {
            if pats.contains(p) {
                want = Some(format!("DuplicatePattern({p:?})"));
                break;
            }
            pats.push(p.clone());
        }
    }
    let bad = want.is_none() && (pats.iter().any(|p| p.is_empty()) || d.rxs.iter().map(|x| &x.1).chain(d.sks.iter()).any(|p| Regex::new(p).is_err() || Regex::new(&format!("\\A{p}")).is_err()));
    let got = catch_unwind(AssertUnwindSafe(|| d.build()));
    let input = || d.show();
    match (got, &want) {
        (Ok(_), Some(w)) => rep.fail("C05", input, || format!("accepted, expected {w}")),
        (Ok(_), None) if bad => rep.fail("C05", input, || "accepted in spite of an empty or malformed pattern".into()),
        (Ok(an), None) => {
            rep.count("constructions accepted", 1);
            // recognises exactly the given definitions
            let rf = Ref::new(&d);
            let text = gen_text(rng, &d);
            let exp: Vec<_> = rf.lex(&text, "L").into_iter().map(|x| (x.0.kind, x.0.text)).collect();
            let got = catch_unwind(AssertUnwindSafe(|| {
                let mut ts = an.token_stream(&text, "L");
                let mut v = vec![];
                while !ts.is_empty() && v.len() <= text.len() {
                    let o = obs(ts.front());
                    v.push((o.kind, o.text));
                    ts.advance();
                }
                v
            }));
            if let Ok(v) = got {
                if v != exp {
                    // which lexemes are recognised at all is C05's, which one wins is C02's
                    for (k, (a, b)) in v.iter().zip(exp.iter()).enumerate() {
                        if a != b {
                            let own = |t: u32| d.lits.iter().chain(d.rxs.iter()).any(|x| x.0 == t);
                            if let Kind::Tok(t) = a.0 {
                                let lit = d.lits.iter().any(|l| l.0 == t && l.1 == a.1);
                                let rx = d.rxs.iter().position(|l| l.0 == t).map(|i| Ref::at(&rf.rx[i], &a.1) == a.1.len()).unwrap_or(false);
                                if !own(t) || (!lit && !rx) {
                                    rep.fail("C05", input, || format!("text {text:?}: item {k} {a:?} is not one of the definitions"));
                                }
                            }
                            break;
                        }
                    }
                }
            }
        }
        (Err(e), w) => {
            let t = panic_text(&*e);
            match w {
                Some(w) => {
                    if !t.contains(w.as_str()) {
                        rep.fail("C05", input, || format!("refused with {t}, expected {w}"))
                    }
                }
                None if bad => {
                    if !t.contains("EmptyPattern") && !t.contains("RegexError") {
                        rep.fail("C05", input, || format!("refused with {t}, expected an empty or malformed pattern error"))
                    }
                }
                None => rep.fail("C05", input, || format!("refused with {t}")),
            }
        }
    }
}
fn work(t: usize, mut rng: Rng, slot: &Slot, deadline: Instant) -> Report {
    let mut rep = Report::default();
    let mut n = 0u64;
    while Instant::now() < deadline && !rep.fails.values().any(|f| f.0 > 2000) {
        n += 1;
        let d = gen_defs(&mut rng);
        begin(slot, "C05", || d.show());
        let an = catch_unwind(AssertUnwindSafe(|| d.build()));
        end(slot);
        let an = match an {
            Ok(a) => a,
            Err(e) => {
                rep.fail("C05", || d.show(), || format!("refused: {}", panic_text(&*e)));
                continue;
            }
        };
        let rf = Ref::new(&d);
        for _ in 0..12 {
            let text = gen_text(&mut rng, &d);
            begin(slot, "C04", || format!("{} text={:?}", d.show(), text));
            plain(&mut rep, &rf, &an, &text);
            end(slot);
        }
        if t == 0 && n == 1 {
            // the literals of the empty lexicon: nothing is recognised
            let e = Defs::default();
            plain(&mut rep, &Ref::new(&e), &e.build(), "abc\n");
        }
        for _ in 0..6 {
            let sv = rng.clone();
            begin(slot, "C04", || format!("{} history from generator state {}", d.show(), sv.0));
            history(&mut rep, &mut rng, &rf, &an);
            end(slot);
        }
        for _ in 0..4 {
            begin(slot, "C05", || "construction".into());
            ctor(&mut rep, &mut rng);
            end(slot);
        }
        rep.count("analyzers", 1);
    }
    rep
}
fn main() {
    let a = args();
    run(&a, 15.0, work);
}
