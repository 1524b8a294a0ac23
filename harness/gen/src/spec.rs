//! random specifications
use crate::common::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Assoc {
    Non,
    Left,
    Right,
}
impl Assoc {
    pub fn show(self) -> &'static str {
        match self {
            Assoc::Non => "NonAssoc",
            Assoc::Left => "Left",
            Assoc::Right => "Right",
        }
    }
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub name: String,
    pub text: String,
    pub lit: bool,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sym {
    /// token by its name / by its literal text
    T(usize),
    L(usize),
    /// non terminal
    N(String),
    Error,
    /// a literal nobody declared
    Unknown(String),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Mem {
    T(usize),
    L(usize),
    Tag(String),
}
#[derive(Clone, Debug)]
pub struct Tail {
    pub rhs: Vec<Sym>,
    pub pred: Option<String>,
    pub prec: Option<Mem>,
    pub act: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub aug: bool,
    pub toks: Vec<Tok>,
    pub skips: Vec<String>,
    pub prec: Vec<(u8, Vec<Mem>)>,
    pub rules: Vec<(String, Vec<Tail>)>,
    pub sr: Option<u32>,
    pub rr: Option<u32>,
    pub preamble: Option<String>,
    pub attr: String,
    pub target: String,
    /// deliberate mistakes: definitions appended to the text and the number of errors they make
    pub extra_defs: Vec<String>,
    pub extra_prec: Vec<String>,
    pub extra_errors: u32,
    pub layout: u64,
}
fn mem(s: &Spec, m: &Mem) -> String {
    match m {
        Mem::T(i) => s.toks[*i].name.clone(),
        Mem::L(i) => s.toks[*i].text.clone(),
        Mem::Tag(t) => t.clone(),
    }
}
pub const ASSOC: [Assoc; 3] = [Assoc::Left, Assoc::Right, Assoc::Non];
impl Spec {
    pub fn text(&self) -> String {
        self.parts().into_iter().map(|p| p.1).collect()
    }
    /// the text in parts: 1 definitions, 2 productions, 0 everything else
    pub fn parts(&self) -> Vec<(u8, String)> {
        let mut rng = Rng::new(self.layout);
        let mut v = vec![];
        let mut s = String::new();
        if let Some(p) = &self.preamble {
            s += &format!("%{{{p}%}}\n");
        }
        let (a, t) = (format!("%attr {}\n", self.attr), format!("%target {}\n", self.target));
        s += &if rng.chance(1, 2) { format!("{a}{t}") } else { format!("{t}{a}") };
        let r = self.rr.map(|n| format!("%reduce_reduce {n}\n")).unwrap_or_default();
        let h = self.sr.map(|n| format!("%shift_reduce {n}\n")).unwrap_or_default();
        s += &if rng.chance(1, 2) { format!("{r}{h}") } else { format!("{h}{r}") };
        s += "%%\n";
        v.push((0, s));
        for t in &self.toks {
            v.push((1, format!("%token {} {}\n", t.name, t.text)));
        }
        for d in &self.extra_defs {
            v.push((1, format!("{d}\n")));
        }
        for k in &self.skips {
            v.push((1, format!("%skip {k}\n")));
        }
        for (a, ms) in &self.prec {
            let mut s = ["%left", "%right", "%nonassoc"][*a as usize].to_string();
            for m in ms {
                s += &format!(" {}", mem(self, m));
            }
            v.push((1, s + "\n"));
        }
        for d in &self.extra_prec {
            v.push((1, format!("{d}\n")));
        }
        v.push((0, "%%\n".to_string()));
        for (lhs, tails) in &self.rules {
            let mut s = format!("{lhs}{}:", if rng.chance(1, 4) { " " } else { "" });
            for (i, t) in tails.iter().enumerate() {
                if i > 0 {
                    s += if rng.chance(1, 2) { "\n  |" } else { " |" };
                }
                for y in &t.rhs {
                    s += " ";
                    s += &match y {
                        Sym::T(i) => self.toks[*i].name.clone(),
                        Sym::L(i) => self.toks[*i].text.clone(),
                        Sym::N(n) => n.clone(),
                        Sym::Error => "%error".into(),
                        Sym::Unknown(l) => l.clone(),
                    };
                }
                if let Some(p) = &t.pred {
                    s += &format!(" ?({p}?)");
                }
                if let Some(p) = &t.prec {
                    s += &format!(" %prec {}", mem(self, p));
                }
                if let Some(a) = &t.act {
                    s += &format!(" !{{{a}!}}");
                }
                if rng.chance(1, 12) {
                    s += " // a comment\n";
                }
            }
            s += "\n  .\n";
            v.push((2, s));
        }
        v
    }
    /// the same specification, some of it in a file that is injected: its text and that of the file
    pub fn injected(&self, rng: &mut Rng, file: &str, inner: &str) -> (String, Vec<(String, String)>) {
        let v = self.parts();
        let k = if rng.chance(1, 2) { 1 } else { 2 };
        let a = v.iter().position(|p| p.0 == k);
        let Some(a) = a else { return (self.text(), vec![]) };
        let b = v.iter().rposition(|p| p.0 == k).unwrap() + 1;
        let i = a + rng.below(b - a);
        let j = i + 1 + rng.below(b - i);
        let cat = |x: &[(u8, String)]| x.iter().map(|p| p.1.as_str()).collect::<String>();
        let directive = |n: &str, rng: &mut Rng| format!("%inject \"{n}\"{}", *rng.pick(&[".\n", " .", ". // injected\n"]));
        let mut files = vec![];
        let mut part = cat(&v[i..j]);
        if j - i >= 3 && rng.chance(1, 2) {
            // an injection in the injected text (not at its end or beginning)
            files.push((inner.to_string(), v[i + 1].1.clone()));
            part = format!("{}{}{}", v[i].1, directive(inner, rng), cat(&v[i + 2..j]));
        }
        files.push((file.to_string(), part));
        (format!("{}{}{}", cat(&v[..i]), directive(file, rng), cat(&v[j..])), files)
    }
}
const TN: &[&str] = &["A", "B", "C", "D", "Zed", "Plus", "t_1", "t_10", "t_2", "If", "Ident", "k"];
const NN: &[&str] = &["s", "e", "x", "y", "z", "list", "item", "T1", "Stmt", "a1"];
const LT: &[&str] = &["\"+\"", "\"a\"", "\"b\"", "\"if\"", "\"(\"", "\")\"", "\"=\"", "\"==\"", "\"{}\"", "\";\"", "\"###\"", "\"\\\"###\""];
const RT: &[&str] = &["([0-9]+)", "([a-z]+)", "(x|y)", "(\"[^\"]*\")", "(\\{[^}]*\\})", "((a|b)*c)", "(#.)", "(\"###+)"];
const SK: &[&str] = &["(\\s+)", "(//[^\\n\\r]*)", "(#)", "([ \\t]+)", "(\"#####[0-9])"];
pub const TAGS: &[&str] = &["UMINUS", "low", "T9"];

fn words(rng: &mut Rng, n: usize, from: &[&str]) -> Vec<String> {
    let mut v: Vec<&str> = from.to_vec();
    let mut out = vec![];
    for _ in 0..n.min(v.len()) {
        let i = rng.below(v.len());
        out.push(v.swap_remove(i).to_string());
    }
    out
}
fn action(rng: &mut Rng, len: usize) -> String {
    let mut s = String::from(" ");
    for _ in 0..rng.below(5) {
        let k = if len > 0 { 1 + rng.below(len) } else { 1 };
        s += &match rng.below(if len > 0 { 9 } else { 5 }) {
            0 => "$$ = f();".to_string(),
            1 => "let a = \"cost $ 5 $a $INJEC\";".into(),
            2 => "$INJECT(String::new(), \"$$\".into());".into(),
            3 => "if x { y(); }".into(),
            4 => "g('$', $$);".into(),
            5 => format!("h(${k}, $$, \"${k}0$\");").replace(&format!("${k}0"), &format!("${k} 0")),
            6 => format!("let b = ${k}.c(${});", 1 + rng.below(len)),
            7 => format!("$$ = ${k}$$${k};").replace("$$$", "+ $$ + $"),
            _ => format!("p[${k}]; q(\"x${k}y\");"),
        };
        s += *rng.pick(&[" ", " ", "\n    ", " // note\n"]);
    }
    s
}
fn predicate(rng: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    for i in 0..1 + rng.below(2) {
        if i > 0 {
            s += *rng.pick(&[" && ", " && ", "\n    && ", "\r\n&& "]);
        }
        let k = if len > 0 { 1 + rng.below(len) } else { 1 };
        s += &match rng.below(if len > 0 { 6 } else { 3 }) {
            0 => "($? != AATerminal::A)".to_string(),
            1 => "flag()".into(),
            2 => "f($?, \"$ b $$\")".into(),
            3 => format!("${k}.ok()"),
            4 => format!("m(${k}, ${})", 1 + rng.below(len)),
            _ => format!("(${k} == \"${k}x\")"),
        };
    }
    s
}
fn pick_tok(rng: &mut Rng, s: &Spec, i: usize) -> Sym {
    if s.toks[i].lit && rng.chance(1, 2) { Sym::L(i) } else { Sym::T(i) }
}
fn decorate(rng: &mut Rng, s: &mut Spec, rhs: Vec<Sym>) -> Tail {
    let len = rhs.len();
    let mut mems: Vec<Mem> = s.prec.iter().flat_map(|p| p.1.clone()).collect();
    mems.extend((0..s.toks.len()).map(Mem::T));
    let prec = if len > 0 && rng.chance(1, 7) { Some(rng.pick(&mems).clone()) } else { None };
    let act = if rng.chance(1, 3) { Some(action(rng, len)) } else { None };
    let pred = if s.aug && rng.chance(1, 4) { Some(predicate(rng, len)) } else { None };
    Tail { rhs, pred, prec, act }
}
/// a symbol of a grammar template: upper case letters are tokens, lower case ones non terminals, ! is %error
const TEMPLATES: &[&[&str]] = &[
    // expressions
    &["s=e", "e=ePe|eMe|NeN|A|LeR"],
    &["s=e", "e=ePt|t", "t=tMf|f", "f=LeR|A"],
    // lists, with recovery
    &["s=l", "l=|li", "i=AS|eS|!|!S", "e=ePe|B|Le!|LeR"],
    &["s=l", "l=i|lCi", "i=A|Bl|!"],
    // dangling else
    &["s=i", "i=TcI|TcIEi|X", "I=i|B", "c=A"],
    &["s=i", "i=Tci|TciEi|X|Y!", "c=A|!"],
    // LR(1) but not LALR(1), LALR but not SLR
    &["s=AxD|BeD|AeE|Bxe", "x=C", "e=C"],
    &["s=lQr|r", "l=Mr|A", "r=l"],
    &["s=AaD|BbD|AbE|BaE", "a=C", "b=C"],
    // nullable and mutually recursive
    &["s=abC", "a=|Ab", "b=|Ba"],
    &["s=xy", "x=y|A|", "y=zx|B", "z=|xC"],
    &["s=aB", "a=bA|", "b=aD|c", "c=b|"],
    &["s=a", "a=aaA|B|b", "b=ab|"],
    // reduce/reduce
    &["s=xA|yA|zB", "x=C|CC", "y=C", "z=C|!"],
    &["s=x|y|xB", "x=A!|A", "y=A!|A|AA"],
];
pub fn gen(rng: &mut Rng, aug: bool) -> Spec {
    let mut s = Spec { aug, attr: rng.pick(&["AttributeData", "Attr_1"]).to_string(), target: rng.pick(&["Spec", "Calc2"]).to_string(), layout: rng.next(), ..Default::default() };
    if rng.chance(1, 3) {
        s.preamble = Some("\nuse std::io;\nfn f() -> u32 { 3 }\n".into());
    }
    let tpl = rng.chance(2, 5).then(|| *rng.pick(TEMPLATES));
    // how many tokens
    let mut up: Vec<char> = vec![];
    if let Some(t) = tpl {
        for c in t.iter().flat_map(|r| r[2..].chars()).filter(|c| c.is_ascii_uppercase()) {
            if !up.contains(&c) && c != 'I' {
                up.push(c)
            }
        }
    }
    let nt = if tpl.is_some() { up.len() + rng.below(2) } else { 2 + rng.below(5) };
    let nt = nt.clamp(1, 11);
    let mut lits = words(rng, nt, LT);
    let mut rxs = words(rng, nt, RT);
    for name in words(rng, nt, TN) {
        let lit = rxs.is_empty() || (rng.chance(2, 3) && !lits.is_empty());
        let text = if lit { lits.pop().unwrap() } else { rxs.pop().unwrap() };
        s.toks.push(Tok { name, text, lit });
    }
    let n = rng.below(3);
    s.skips = words(rng, n, SK);
    // precedences
    let mut pool: Vec<Mem> = (0..s.toks.len()).map(|i| if s.toks[i].lit && rng.chance(1, 2) { Mem::L(i) } else { Mem::T(i) }).collect();
    if rng.chance(1, 2) {
        let n = 1 + rng.below(2);
        pool.extend(words(rng, n, TAGS).into_iter().map(Mem::Tag));
    }
    if rng.chance(3, 5) {
        for _ in 0..1 + rng.below(4) {
            let mut ms = vec![];
            for _ in 0..1 + rng.below(3) {
                if !pool.is_empty() {
                    let i = rng.below(pool.len());
                    ms.push(pool.swap_remove(i));
                }
            }
            if !ms.is_empty() {
                s.prec.push((rng.below(3) as u8, ms));
            }
        }
    }
    // productions
    if let Some(t) = tpl {
        let names = words(rng, NN.len(), NN);
        let mut low: Vec<char> = vec![];
        let mut nn = |c: char| {
            if !low.contains(&c) {
                low.push(c);
            }
            names[low.iter().position(|x| *x == c).unwrap() % names.len()].clone()
        };
        for r in t {
            let lhs = nn(r.chars().next().unwrap());
            let mut tails = vec![];
            for alt in r[2..].split('|') {
                let mut rhs = vec![];
                for c in alt.chars() {
                    rhs.push(match c {
                        '!' => Sym::Error,
                        'I' => Sym::N(nn('I')),
                        c if c.is_ascii_uppercase() => {
                            let i = up.iter().position(|x| *x == c).unwrap() % s.toks.len();
                            pick_tok(rng, &s, i)
                        }
                        c => Sym::N(nn(c)),
                    })
                }
                // small mutations
                if rng.chance(1, 25) && !rhs.is_empty() {
                    let i = rng.below(rhs.len());
                    rhs.remove(i);
                }
                let tl = decorate(rng, &mut s, rhs);
                tails.push(tl);
            }
            s.rules.push((lhs, tails));
        }
    } else {
        let n = 1 + rng.below(5);
        let names = words(rng, n, NN);
        let errs = rng.chance(1, 3);
        let mut left: Vec<String> = vec![];
        for nm in &names {
            left.push(nm.clone());
            if rng.chance(1, 8) {
                left.push(nm.clone());
            }
        }
        let dense = 1 + rng.below(3);
        for lhs in left {
            let mut tails = vec![];
            for _ in 0..1 + rng.below(dense + 1) {
                let len = *rng.pick(&[0, 1, 1, 2, 2, 3, 3, 4]);
                let mut rhs: Vec<Sym> = vec![];
                for _ in 0..len {
                    rhs.push(if rng.chance(1, 2) {
                        let i = rng.below(s.toks.len());
                        pick_tok(rng, &s, i)
                    } else {
                        Sym::N(rng.pick(&names).clone())
                    });
                }
                if errs && rng.chance(1, 4) {
                    if rng.chance(1, 6) {
                        rhs.insert(0, Sym::Error)
                    } else {
                        rhs.push(Sym::Error)
                    }
                }
                let tl = decorate(rng, &mut s, rhs);
                tails.push(tl);
            }
            s.rules.push((lhs, tails));
        }
        // a long right hand side with big placeholder numbers
        if rng.chance(1, 8) {
            let len = 10 + rng.below(4);
            let rhs: Vec<Sym> = (0..len)
                .map(|_| {
                    let i = rng.below(s.toks.len());
                    pick_tok(rng, &s, i)
                })
                .collect();
            let tl = decorate(rng, &mut s, rhs);
            let i = rng.below(s.rules.len());
            s.rules[i].1.push(tl);
        }
    }
    // mistakes
    if rng.chance(1, 10) {
        let mut kinds: Vec<usize> = (0..7).collect();
        for _ in 0..1 + rng.below(2) {
            let k = rng.below(kinds.len());
            match kinds.swap_remove(k) {
                0 => {
                    // not defined
                    let i = rng.below(s.rules.len());
                    s.rules[i].1.push(Tail { rhs: vec![Sym::N("nowhere".into())], pred: None, prec: None, act: None })
                }
                1 => {
                    let t = s.toks[0].name.clone();
                    s.extra_defs.push(format!("%token {t} \"dup{}\"", s.extra_defs.len()));
                    s.extra_errors += 1;
                    // the second definition replaces the first: nothing but the number of errors is expected
                }
                2 => {
                    if let Some(k) = s.skips.first().cloned() {
                        s.skips.push(k);
                        s.extra_errors += 1;
                    }
                }
                3 => {
                    if let Some((_, ms)) = s.prec.first() {
                        let m = mem(&s, &ms[0]);
                        s.extra_prec.push(format!("%right {m}"));
                        s.extra_errors += 1;
                    }
                }
                4 => {
                    let i = rng.below(s.rules.len());
                    s.rules[i].1.push(Tail { rhs: vec![Sym::Unknown("\"unknown\"".into())], pred: None, prec: None, act: None });
                    s.extra_errors += 1;
                }
                5 => {
                    s.extra_prec.push("%left \"nope\"".into());
                    s.extra_errors += 1;
                }
                _ => {
                    s.extra_defs.push("%token Bad__ ([)".into());
                    s.extra_errors += 1;
                }
            }
        }
    }
    s
}
