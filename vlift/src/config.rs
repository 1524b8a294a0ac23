//! Contract ("sidecar") files: see /verif/contracts/README
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub key: String,
    pub emit_name: Option<String>,
    pub ret: String,
    pub rettype: Option<String>,
    pub attrs: Vec<String>,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub at: BTreeMap<String, String>,
    pub opts: BTreeSet<String>,
    pub props: Vec<String>,
    pub tys: BTreeMap<String, String>,
    /// parameter types that replace the source's (generic iterators)
    pub ptys: BTreeMap<String, String>,
}
#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub invariant: String,
    pub invariant_except_break: String,
    pub ensures: String,
    pub decreases: String,
}
#[derive(Clone, Debug)]
pub enum Item {
    Raw(String),
    Type(String, Vec<String>),
    Fn(FnC),
    Tables(String),
}
#[derive(Default, Debug)]
pub struct Config {
    pub sources: Vec<(String, String)>,
    pub tymap: HashMap<String, String>,
    pub strip: BTreeSet<String>,
    pub transparent: BTreeSet<String>,
    pub lits_opaque: bool,
    pub items: Vec<Item>,
    pub drop_fields: BTreeSet<String>,
    pub closure_params: Vec<(String, String, String)>,
    pub cells: BTreeSet<String>,
    pub mut_closures: BTreeSet<String>,
    pub keep_lt: BTreeSet<String>,
    /// fields of shared objects that live in the heap object `vh`
    pub heap_cells: BTreeSet<String>,
    /// methods that take the heap object
    pub heap_fns: BTreeSet<String>,
    pub heap_free: BTreeSet<String>,
    pub statics: BTreeSet<String>,
    /// structs whose literals allocate cells in the heap object: (fields kept in the struct, fields that are cells)
    pub alloc: HashMap<String, (Vec<String>, Vec<String>)>,
    pub opts: BTreeSet<String>,
}

pub fn parse(path: &str, vars: &HashMap<String, String>, cfg: &mut Config) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut text = text;
    for (k, v) in vars {
        text = text.replace(&format!("${{{k}}}"), v);
    }
    // conditional blocks  @if VAR=VALUE ... @endif
    let mut lines: Vec<String> = vec![];
    let mut skip = false;
    for l in text.lines() {
        if let Some(c) = l.strip_prefix("@if ") {
            let (k, v) = c.trim().split_once('=').unwrap();
            skip = vars.get(k).map(|s| s.as_str()) != Some(v);
            continue;
        }
        if l.trim() == "@endif" {
            skip = false;
            continue;
        }
        if !skip && !l.starts_with("# ") {
            lines.push(l.to_string());
        }
    }
    enum Cur {
        None,
        Raw(String),
        Fn(FnC, String),
    }
    let mut cur = Cur::None;
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    fn flush(cfg: &mut Config, cur: &mut Cur) {
        match std::mem::replace(cur, Cur::None) {
            Cur::None => {}
            Cur::Raw(s) => cfg.items.push(Item::Raw(s)),
            Cur::Fn(f, _) => cfg.items.push(Item::Fn(f)),
        }
    }
    for l in lines {
        if let Some(d) = l.strip_prefix('@') {
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            flush(cfg, &mut cur);
            match word {
                "source" => {
                    let (p, m) = rest.split_once(' ').unwrap();
                    cfg.sources.push((p.to_string(), m.trim().to_string()));
                }
                "include" => parse(dir.join(rest).to_str().unwrap(), vars, cfg),
                // the same, but nothing of it is verified here (it is in the unit of that file)
                "import" => {
                    let n = cfg.items.len();
                    parse(dir.join(rest).to_str().unwrap(), vars, cfg);
                    for i in cfg.items[n..].iter_mut() {
                        match i {
                            Item::Fn(f) => f.opts.extend(["trusted".to_string(), "imported".to_string()]),
                            Item::Raw(t) => {
                                let mut o = String::new();
                                for l in t.lines() {
                                    if !o.ends_with("/*imported*/\n") && (l.starts_with("pub proof fn") || l.starts_with("pub broadcast proof fn") || l.starts_with("proof fn")) {
                                        o.push_str("#[verifier::external_body] /*imported*/\n");
                                    }
                                    o.push_str(l);
                                    o.push('\n');
                                }
                                *t = o;
                            }
                            _ => {}
                        }
                    }
                }
                "map" => {
                    for kv in rest.split_whitespace() {
                        let (k, v) = kv.split_once('=').unwrap();
                        cfg.tymap.insert(k.to_string(), v.to_string());
                    }
                }
                "strip" => cfg.strip.extend(rest.split_whitespace().map(String::from)),
                "litsopaque" => cfg.lits_opaque = true,
                "transparent" => cfg.transparent.extend(rest.split_whitespace().map(String::from)),
                "heapcells" => cfg.heap_cells.extend(rest.split_whitespace().map(String::from)),
                "heapfns" => cfg.heap_fns.extend(rest.split_whitespace().map(String::from)),
                "heapfree" => cfg.heap_free.extend(rest.split_whitespace().map(String::from)),
                "alloc" => {
                    let (a, b) = rest.split_once(" / ").expect("@alloc needs /");
                    let mut it = a.split_whitespace().map(String::from);
                    let n = it.next().unwrap();
                    cfg.alloc.insert(n, (it.collect(), b.split_whitespace().map(String::from).collect()));
                }
                "opts" => cfg.opts.extend(rest.split_whitespace().map(String::from)),
                "cells" => cfg.cells.extend(rest.split_whitespace().map(String::from)),
                "mutclosure" => cfg.mut_closures.extend(rest.split_whitespace().map(String::from)),
                "keeplt" => cfg.keep_lt.extend(rest.split_whitespace().map(String::from)),
                "dropfield" => cfg.drop_fields.extend(rest.split_whitespace().map(String::from)),
                "closureparam" => {
                    let v: Vec<&str> = rest.split_whitespace().collect();
                    cfg.closure_params.push((v[0].into(), v[1].into(), v[2].into()));
                }
                "type" => {
                    let mut it = rest.split(" :: ");
                    let n = it.next().unwrap().trim().to_string();
                    cfg.items.push(Item::Type(n, it.map(|s| s.trim().to_string()).collect()));
                }
                "raw" => cur = Cur::Raw(String::new()),
                "fn" => {
                    let mut f = FnC::default();
                    let mut it = rest.split_whitespace();
                    f.key = it.next().unwrap().to_string();
                    if let Some(e) = it.next() {
                        f.emit_name = Some(e.trim_start_matches('=').to_string());
                    }
                    f.ret = "r".into();
                    cur = Cur::Fn(f, String::new());
                }
                "lrtables" => cfg.items.push(Item::Tables(rest.to_string())),
                "end" => {}
                "note" => {}
                w => panic!("{path}: unknown directive @{w}"),
            }
            continue;
        }
        match &mut cur {
            Cur::None => {
                if !l.trim().is_empty() && !l.trim().starts_with('#') {
                    panic!("{path}: stray line {l}")
                }
            }
            Cur::Raw(s) => {
                s.push_str(&l);
                s.push('\n');
            }
            Cur::Fn(f, sec) => {
                let content;
                if let Some(d) = l.strip_prefix('%') {
                    let d = d.trim();
                    let w = d.split_whitespace().next().unwrap();
                    match w {
                        "ret" => {
                            f.ret = d[3..].trim().into();
                            continue;
                        }
                        "rettype" => {
                            f.rettype = Some(d[7..].trim().into());
                            continue;
                        }
                        "attr" => {
                            f.attrs.push(d[4..].trim().into());
                            continue;
                        }
                        "ty" => {
                            let (a, b) = d[2..].trim().split_once(' ').unwrap();
                            f.tys.insert(a.into(), b.trim().into());
                            continue;
                        }
                        "pty" => {
                            let (a, b) = d[3..].trim().split_once(' ').unwrap();
                            f.ptys.insert(a.into(), b.trim().into());
                            continue;
                        }
                        "opt" => {
                            f.opts.extend(d[3..].split_whitespace().map(String::from));
                            continue;
                        }
                        "props" => {
                            f.props.extend(d[5..].split_whitespace().map(String::from));
                            continue;
                        }
                        "requires" | "ensures" | "decreases" => {
                            *sec = w.to_string();
                            content = d[w.len()..].to_string();
                        }
                        "loop" => {
                            let v: Vec<&str> = d.splitn(4, ' ').collect();
                            *sec = format!("loop {} {}", v[1], v[2]);
                            content = v.get(3).unwrap_or(&"").to_string();
                        }
                        "at" => {
                            let (a, b) = d[2..].split_once(':').expect("%at needs :");
                            *sec = format!("at {}", a.trim());
                            content = b.to_string();
                        }
                        _ => panic!("{path}: unknown section %{w}"),
                    }
                } else {
                    content = l.clone();
                }
                let tgt: &mut String = if sec == "requires" {
                    &mut f.requires
                } else if sec == "ensures" {
                    &mut f.ensures
                } else if sec == "decreases" {
                    &mut f.decreases
                } else if let Some(a) = sec.strip_prefix("at ") {
                    f.at.entry(a.to_string()).or_default()
                } else if let Some(a) = sec.strip_prefix("loop ") {
                    let (n, k) = a.split_once(' ').unwrap();
                    let lc = f.loops.entry(n.parse().unwrap()).or_default();
                    match k {
                        "invariant" => &mut lc.invariant,
                        "invariant_except_break" => &mut lc.invariant_except_break,
                        "ensures" => &mut lc.ensures,
                        "decreases" => &mut lc.decreases,
                        _ => panic!("{path}: loop section {k}"),
                    }
                } else {
                    if content.trim().is_empty() {
                        continue;
                    }
                    panic!("{path}: text outside section in {}: {l}", f.key)
                };
                tgt.push_str(&content);
                tgt.push('\n');
            }
        }
    }
    flush(cfg, &mut cur);
}
