//! runs the command line tools in scratch directories, for all combinations of output files that exist,
//! --force, -o and good, bad or missing specifications (C20; bounded)
#[path = "../../common/mod.rs"]
mod common;
use common::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn spec(good: usize) -> String {
    match good {
        0 => "%{\n%}\n%attr A\n%target T\n%%\n%token  X  \"x\"\n%token  Y  \"y\"\n%%\nlist: \"x\" | list \"x\" .\n".into(),
        1 => "%attr A\n%target T\n%%\n%token  X  \"x\"\n%%\nlist: unknown \"x\" .\n".into(),
        2 => "%attr A\n%target T\n%%\n%token  X  \"x\"\n%%\ne: e e | \"x\" .\n".into(),
        3 => "this is %% not a specification".into(),
        4 => "%attr A\n%target T\n%%\n%token  X  \"x\"\n%%\ns: a | b .\na: \"x\" .\nb: \"x\" .\n".into(),
        _ => String::new(),
    }
}
/// every file below the directory
fn files(d: &Path, o: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            files(&p, o)
        } else {
            let b = std::fs::read(&p).unwrap();
            o.insert(p, b);
        }
    }
}
struct Case {
    tool: usize,
    spec: usize,
    out: usize,
    exist: usize,
    force: usize,
    ign: usize,
    dotted: usize,
}
fn one(c: &Case, dir: &Path, bin: &Path, rep: &mut Report, ok: &mut Option<bool>) -> Option<String> {
    let tool = ["lalr1_gen", "alalr1_gen"][c.tool];
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let base = ["a", "b-1", ".a"][c.dotted];
    let sname = format!("sub/{base}.spec");
    if c.spec < 5 {
        std::fs::write(dir.join(&sname), spec(c.spec)).unwrap();
    }
    let mut args: Vec<String> = vec![];
    match c.force {
        0 => (),
        1 => args.push("-f".into()),
        _ => args.push("--force".into()),
    }
    if c.ign & 1 == 1 {
        args.push("--ignore-sr-conflicts".into());
    }
    if c.ign & 2 == 2 {
        args.push("--ignore-rr-conflicts".into());
    }
    let (out, states) = match c.out {
        0 => (format!("sub/{base}.rs"), format!("sub/{base}.states")),
        1 => ("o.rs".into(), "o.states".into()),
        2 => ("sub/x.txt".into(), "sub/x.states".into()),
        3 => ("plain".into(), "plain.states".into()),
        4 => ("missing/o.rs".into(), "missing/o.states".into()),
        // the specification itself
        _ => (sname.clone(), format!("sub/{base}.states")),
    };
    if c.out > 0 {
        args.push(["-o", "--output"][c.spec % 2].into());
        args.push(if c.ign == 3 { dir.join(&out).to_string_lossy().to_string() } else { out.clone() });
    }
    args.push(if c.ign == 2 { dir.join(&sname).to_string_lossy().to_string() } else { sname.clone() });
    if c.out != 4 {
        if c.exist & 1 == 1 && c.out < 5 {
            match c.ign {
                1 => std::fs::write(dir.join(&out), "").unwrap(),
                2 => {
                    std::fs::write(dir.join("target.txt"), "precious parser behind a link\n").unwrap();
                    std::os::unix::fs::symlink(dir.join("target.txt"), dir.join(&out)).unwrap();
                }
                _ => std::fs::write(dir.join(&out), "precious parser\n").unwrap(),
            }
        }
        if c.exist & 2 == 2 {
            std::fs::write(dir.join(&states), if c.ign == 3 { "" } else { "precious description\n" }).unwrap();
        }
    }
    // files with similar names
    for f in [format!("sub/{base}.txt"), "o".into(), "x.states".into(), "sub/x.states".into(), format!("{base}.rs"), format!("{base}.states"), "a.rs".into(), "sub/o.states".into()] {
        if f != out && f != states && f != sname {
            std::fs::write(dir.join(&f), "bystander\n").unwrap();
        }
    }
    let mut before = BTreeMap::new();
    files(dir, &mut before);
    let mut child = Command::new(bin).args(&args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let t0 = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().ok()? {
            break s;
        }
        if t0.elapsed().as_secs() > 20 {
            let _ = child.kill();
            let _ = child.wait();
            return Some(format!("{tool} {} does not end", args.join(" ")));
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    };
    rep.count("runs of the tools", 1);
    let mut after = BTreeMap::new();
    files(dir, &mut after);
    let there = |f: &str| before.contains_key(&dir.join(f));
    let blocked = c.force == 0 && (there(&out) || there(&states));
    let head = format!("{tool} {} with {}{} (status {:?})", args.join(" "), if there(&out) { format!("an existing {out} ") } else { String::new() }, if there(&states) { format!("an existing {states}") } else { String::new() }, status.code());
    for (p, b) in &before {
        let own = !blocked && status.success() && (*p == dir.join(&out) || *p == dir.join(&states) || p.ends_with("target.txt"));
        let may = !blocked && c.spec == 0 && (*p == dir.join(&out) || *p == dir.join(&states) || p.ends_with("target.txt"));
        if !own && !may && after.get(p) != Some(b) {
            return Some(format!("{head}: {} was {}", p.strip_prefix(dir).unwrap().display(), if after.contains_key(p) { "overwritten" } else { "removed" }));
        }
    }
    for p in after.keys() {
        if !before.contains_key(p) && (blocked || (*p != dir.join(&out) && *p != dir.join(&states))) {
            return Some(format!("{head}: {} was created", p.strip_prefix(dir).unwrap().display()));
        }
        if !before.contains_key(p) && c.spec != 0 && !status.success() {
            return Some(format!("{head}: {} was created by a run that failed", p.strip_prefix(dir).unwrap().display()));
        }
    }
    if blocked && status.success() {
        return Some(format!("{head}: ends successfully although an output file exists and it was not forced"));
    }
    if status.success() {
        for f in [&out, &states] {
            match after.get(&dir.join(f)) {
                None => return Some(format!("{head}: ends successfully without {f}")),
                Some(b) if b.is_empty() || b.starts_with(b"precious") => return Some(format!("{head}: ends successfully without writing {f}")),
                _ => (),
            }
        }
    }
    // conflicts are accepted only if they are to be ignored (C13)
    if !blocked && c.out != 4 && (c.spec == 2 || c.spec == 4) {
        let want = c.ign & if c.spec == 2 { 1 } else { 2 } != 0;
        if status.success() != want {
            return Some(format!("[C13]{head}: {} conflicts that {} to be ignored", if c.spec == 2 { "shift/reduce" } else { "reduce/reduce" }, if want { "were" } else { "were not" }));
        }
        rep.count("runs with conflicts", 1);
    }
    // a specification that is accepted when nothing stands in the way is accepted whenever nothing stands in the way
    if c.spec == 0 && !blocked && c.out != 4 {
        match *ok {
            None => *ok = Some(status.success()),
            Some(w) if w != status.success() => return Some(format!("{head}: the outcome depends on more than the specification")),
            _ => (),
        }
    }
    None
}
fn main() {
    let a = args();
    let scratch = a.scratch.clone();
    let exe = std::env::current_exe().unwrap();
    let bins = [exe.with_file_name("t_lalr1_gen"), exe.with_file_name("t_alalr1_gen")];
    let threads = a.threads;
    run(&a, 60.0, |t, _, slot, _| {
        let mut rep = Report::default();
        let dir = Path::new(&scratch).join(format!("cli{t}"));
        let mut k = 0;
        for tool in 0..2 {
            let mut ok = None;
            for exist in 0..4 {
                for out in 0..6 {
                    for force in 0..3 {
                        for spec in 0..6 {
                            let dotted = (exist + out + force + spec) % 3;
                            k += 1;
                            // the first runs of every thread establish the outcome without files in the way
                            if k % threads != t && !(exist == 0 && out == 0 && force == 0 && spec == 0) {
                                continue;
                            }
                            let c = Case { tool, spec, out, exist, force, ign: (k / threads) % 4, dotted };
                            begin(slot, "C20", || format!("{} spec {spec} out {out} exist {exist} force {force}", ["lalr1_gen", "alalr1_gen"][tool]));
                            let r = one(&c, &dir, &bins[tool], &mut rep, &mut ok);
                            end(slot);
                            if let Some(w) = r {
                                let (prop, w) = match w.strip_prefix("[C13]") {
                                    Some(w) => ("C13", w.to_string()),
                                    None => ("C20", w),
                                };
                                let i = w.split(": ").next().unwrap_or("").to_string();
                                rep.fail(prop, || i, || w.clone());
                            }
                        }
                    }
                }
            }
            if ok == Some(true) {
                rep.count("tools that accept the sample specification", 1);
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        rep
    });
}
