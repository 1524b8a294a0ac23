//! texts that are hardly ever specifications: neither generator may panic or hang on any of them
use crate::common::Rng;
use crate::spec::{gen, Spec};
use std::path::Path;

const PIECES: &[&str] = &[
    "%attr ", "%target ", "%token ", "%left ", "%right ", "%nonassoc ", "%prec ", "%skip ", "%error ", "%inject ", "%%\n", "%%", ":", "|", ".", "Ident ", "s ", "e ", "A ", "B ", "?(", "?)", "?( $1 ?)", "?($9?)", "!{", "!}",
    "!{ $1 $2 $10 $$ !}", "!{$0!}", "!{$18446744073709551616!}", "!{$4294967297 !}", "%{", "%}", "%{ x %}", "%reduce_reduce ", "%shift_reduce ", "%reduce_reduce 18446744073709551616\n", "%shift_reduce 4294967296\n", "0 ", "1 ", "7 ",
    "%shift_reduce 00001\n", "\"", "\"\" ", "\"\\\" ", "\"\\\"\" ", "\"+\" ", "\"a\" ", "\"{\" ", "(", ")", "() ", "([) ", "(a*) ", "(\\) ", "((?i)a) ", "(.+) ", "(x{1000}) ", "(a{2,1}) ", "(\\p{Greek}) ", "(é+) ", "/*", "*/", "//", "\n", "\r\n", "\r", "\t", " ", "\u{0}", "é", "€", "𝄞", "\u{feff}",
    "\u{85}", "\u{2028}", "AAError ", "AAStart ", "AAEnd ", "AAUnexpected", "AAAmbiguous ", "error ", "self ", "_ ", "a_1 ", "1a ", "$", "\\", "#", "###", "\"###\" ", "%", "%foo ", "!", "?", "s: .", "s: s.", "s: | .", "s: %error.", "s: A %prec A.", "s: %prec A.", "s: A %prec \"+\" !{!}.", "x: x x.", "s: x. x: s | .",
];
const LINES: &[&str] = &[
    "%token A \"a\"", "%token A (a+)", "%token B \"a\"", "%token AAEnd \"z\"", "%token s \"s\"", "%token AAError (e)", "%token Q ()", "%token Q (\"###+)", "%skip (a+)", "%skip ()", "%skip (\\s*)", "%left A", "%left nobody", "%left A A", "%right \"a\" \"b\"", "%nonassoc", "%left", "%prec A",
    "%target T", "%attr U", "%target", "%attr 7", "%shift_reduce 3", "%reduce_reduce 2", "%shift_reduce 1\n%reduce_reduce 1\n%shift_reduce 1", "%%", "%{ %}", "s: A.", "A: s.", "A: .", "s: \"a\" \"b\".", "s: nowhere.", "AAStart: s.", "AAError: A.", "s: AAEnd.", "s: AAError.", "s: %error | %error.", "s: s s | A | .",
    "s: ?(x?) .", "s: ?(x?) !{ y !}.", "s: A ?($1 == 2?) %prec A !{ $1; $2; !}.", "s: A ?($2 == $3?) | A.", "s: !{ a !} B.", "s: A !{ a !} !{ b !}.", "s: A | | B.", "s", "s:", ": A.", ".",
];
pub struct Files {
    pub names: Vec<String>,
}
/// files that can be injected, some of them into themselves
pub fn files(dir: &Path) -> Files {
    let inner = dir.join("inner");
    let mut names = vec![];
    let mut file = |n: &str, b: &[u8]| {
        let p = dir.join(n);
        std::fs::write(&p, b).unwrap();
        names.push(p.display().to_string());
    };
    file("empty", b"");
    file("blank", b" \n\n// nothing\n");
    file("tokens", b"%token I1 \"i1\"\n%token I2 (i+)\n");
    file("rules", b"inj: A | inj A . ");
    file("latin", b"%token I3 \"\xe9\xff\"\n");
    file("open", b"%token I4 \"i4");
    file("code", b"%{ fn injected() {} %}\n");
    file("inner", b"%token I5 \"i5\"\n");
    let text = format!("%inject \"{}\".\n%token I6 \"i6\"\n", inner.display());
    file("outer", text.as_bytes());
    let text = format!("%token I7 \"i7\"\n%inject \"{}\".\n", dir.join("self").display());
    file("self", text.as_bytes());
    let text = format!("%inject \"{}\".\n%inject \"{0}\".", dir.join("pong").display());
    file("ping", text.as_bytes());
    let text = format!("%inject \"{}\".", dir.join("ping").display());
    file("pong", text.as_bytes());
    names.push(dir.display().to_string());
    names.push(dir.join("missing").display().to_string());
    names.push("".into());
    Files { names }
}
fn inject(rng: &mut Rng, f: &Files) -> String {
    format!("%inject \"{}\"{}", rng.pick(&f.names), *rng.pick(&[".", ".\n", " .\n", "\n", ""]))
}
fn piece(rng: &mut Rng, f: &Files) -> String {
    match rng.below(12) {
        0 => inject(rng, f),
        1 => format!("{}\n", *rng.pick(LINES)),
        _ => rng.pick(PIECES).to_string(),
    }
}
fn boundary(rng: &mut Rng, t: &str) -> usize {
    let mut i = rng.below(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// where words, white space and other things meet
fn words(t: &str) -> Vec<usize> {
    let kind = |c: char| if c.is_alphanumeric() || c == '_' { 0 } else if c.is_whitespace() { 1 } else { 2 };
    let mut v = vec![0];
    let mut last = None;
    for (i, c) in t.char_indices() {
        if last != Some(kind(c)) || kind(c) == 2 {
            v.push(i);
        }
        last = Some(kind(c));
    }
    v.push(t.len());
    v
}
fn mutate(rng: &mut Rng, t: &mut String, other: &str, f: &Files) {
    match rng.below(12) {
        0 => {
            let i = boundary(rng, t);
            t.insert_str(i, &piece(rng, f));
        }
        1 | 2 => {
            let w = words(t);
            let i = *rng.pick(&w);
            t.insert_str(i, &piece(rng, f));
        }
        3 | 4 => {
            let w = words(t);
            let i = rng.below(w.len() - 1);
            let j = (i + 1 + rng.below(2)).min(w.len() - 1);
            t.replace_range(w[i]..w[j], "");
        }
        5 => {
            let w = words(t);
            let i = rng.below(w.len() - 1);
            let p = piece(rng, f);
            t.replace_range(w[i]..w[i + 1], &p);
        }
        6 => {
            // a line: gone, twice, or somewhere else
            let mut l: Vec<String> = t.split('\n').map(String::from).collect();
            let i = rng.below(l.len());
            let x = match rng.below(3) {
                0 => l[i].clone(),
                _ => l.remove(i),
            };
            if rng.chance(2, 3) {
                let j = rng.below(l.len() + 1);
                l.insert(j, x);
            }
            *t = l.join("\n");
        }
        7 => {
            let mut l: Vec<String> = t.split('\n').map(String::from).collect();
            let i = rng.below(l.len() + 1);
            let x = rng.pick(LINES).to_string();
            l.insert(i, x);
            *t = l.join("\n");
        }
        8 => {
            let mut l: Vec<String> = t.split('\n').map(String::from).collect();
            let i = rng.below(l.len() + 1);
            l.insert(i, inject(rng, f));
            *t = l.join("\n");
        }
        9 => {
            let (i, j) = (boundary(rng, t), boundary(rng, other));
            *t = format!("{}{}", &t[..i], &other[j..]);
        }
        10 => {
            let i = boundary(rng, t);
            t.truncate(i);
        }
        _ => {
            // names: one word becomes another
            let w = words(t);
            let (i, j) = (rng.below(w.len() - 1), rng.below(w.len() - 1));
            let x = t[w[j]..w[j + 1]].to_string();
            t.replace_range(w[i]..w[i + 1], &x);
        }
    }
}
pub fn text(rng: &mut Rng, s: &Spec, f: &Files) -> String {
    if rng.chance(1, 12) {
        return (0..rng.below(40)).map(|_| piece(rng, f)).collect();
    }
    let mut t = s.text();
    let o = gen(rng, s.aug).text();
    for _ in 0..*rng.pick(&[1, 1, 1, 2, 2, 3, 5, 9]) {
        mutate(rng, &mut t, &o, f);
    }
    t
}
