//! shared by the bounded harnesses: random numbers, failure reports, watchdog
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub struct Args {
    pub seed: u64,
    pub secs: f64,
    pub threads: usize,
    pub out: String,
    pub props: Vec<String>,
    pub replay: Option<String>,
    pub scratch: String,
    pub extra: BTreeMap<String, String>,
}
pub fn args() -> Args {
    let mut a = Args { seed: 1, secs: 10.0, threads: 8, out: String::new(), props: vec![], replay: None, scratch: "/tmp".into(), extra: BTreeMap::new() };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--seed" => a.seed = x.parse().unwrap_or(1),
            "--secs" => a.secs = x.parse().unwrap(),
            "--threads" => a.threads = x.parse().unwrap(),
            "--out" => a.out = x,
            "--props" => a.props = x.split(',').map(String::from).collect(),
            "--replay" => a.replay = Some(x),
            "--scratch" => a.scratch = x,
            o => {
                a.extra.insert(o.trim_start_matches('-').to_string(), x);
            }
        }
        i += 2;
    }
    a
}
#[derive(Default)]
pub struct Report {
    /// property -> (number of failing inputs, first failing input as text, what is wrong)
    pub fails: BTreeMap<String, (u64, String, String)>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub skipped: BTreeMap<String, u64>,
}
pub static STOP: AtomicBool = AtomicBool::new(false);
pub static REPORT: Mutex<Option<Report>> = Mutex::new(None);
static OUT: Mutex<String> = Mutex::new(String::new());
static T0: Mutex<Option<Instant>> = Mutex::new(None);

impl Report {
    pub fn fail(&mut self, prop: &str, input: impl FnOnce() -> String, what: impl FnOnce() -> String) {
        let e = self.fails.entry(prop.to_string()).or_insert_with(|| (0, String::new(), String::new()));
        e.0 += 1;
        if e.0 == 1 {
            e.1 = input();
            e.2 = what();
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: Report) {
        for (k, v) in o.fails {
            let e = self.fails.entry(k).or_insert_with(|| (0, v.1.clone(), v.2.clone()));
            e.0 += v.0;
            if v.1.len() < e.1.len() {
                e.1 = v.1;
                e.2 = v.2;
            }
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
    }
    pub fn write(&self, path: &str, secs: f64) {
        let f: Vec<String> = self.fails.iter().map(|(k, v)| format!("{}:{{\"count\":{},\"input\":{},\"what\":{}}}", jstr(k), v.0, jstr(&v.1), jstr(&v.2))).collect();
        let c: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let k: Vec<String> = self.skipped.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let s: Vec<String> = self.samples.iter().map(|v| jstr(v)).collect();
        let t = format!("{{\"fails\":{{{}}},\"counts\":{{{}}},\"skipped\":{{{}}},\"samples\":[{}],\"secs\":{:.2}}}\n", f.join(","), c.join(","), k.join(","), s.join(","), secs);
        if path.is_empty() {
            print!("{t}");
        } else {
            std::fs::write(path, t).unwrap();
        }
    }
}
/// one slot per thread: the case being run and when it started
pub struct Slot {
    pub start: AtomicU64,
    pub case: Mutex<(String, String)>,
}
pub static TRACE: Mutex<String> = Mutex::new(String::new());
pub fn begin(slot: &Slot, prop: &str, input: impl FnOnce() -> String) {
    let tr = TRACE.lock().unwrap().clone();
    if !tr.is_empty() {
        let i = input();
        std::fs::write(&tr, format!("{prop}\n{i}")).unwrap();
        *slot.case.lock().unwrap() = (prop.to_string(), i);
        slot.start.store(now_ms(), Ordering::SeqCst);
        return;
    }
    *slot.case.lock().unwrap() = (prop.to_string(), input());
    slot.start.store(now_ms(), Ordering::SeqCst);
}
pub fn end(slot: &Slot) {
    slot.start.store(0, Ordering::SeqCst);
}
fn now_ms() -> u64 {
    let t = T0.lock().unwrap();
    t.unwrap().elapsed().as_millis() as u64 + 1
}
/// runs `work` on several threads until the time is up; a case that takes longer than `limit` seconds is
/// reported as a failure of the property given to `begin`
pub fn run(a: &Args, limit: f64, work: impl Fn(usize, Rng, &Slot, Instant) -> Report + Sync) {
    *T0.lock().unwrap() = Some(Instant::now());
    *OUT.lock().unwrap() = a.out.clone();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!(" ({}:{})", l.file(), l.line())).unwrap_or_default();
        WHERE.with(|w| *w.borrow_mut() = l);
    }));
    if let Some(t) = a.extra.get("trace") {
        *TRACE.lock().unwrap() = t.clone();
    }
    let tid0: usize = a.extra.get("tid").map(|t| t.parse().unwrap()).unwrap_or(0);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(a.secs);
    let slots: Vec<Slot> = (0..a.threads).map(|_| Slot { start: AtomicU64::new(0), case: Mutex::new((String::new(), String::new())) }).collect();
    let total = Mutex::new(Report::default());
    let left = AtomicU64::new(a.threads as u64);
    std::thread::scope(|s| {
        for t in 0..a.threads {
            let (slots, total, left, work) = (&slots, &total, &left, &work);
            let seed = a.seed;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(t + tid0, Rng::new(seed.wrapping_mul(1000).wrapping_add((t + tid0) as u64)), &slots[t], deadline)));
                    match r {
                        Ok(r) => total.lock().unwrap().merge(r),
                        Err(e) => {
                            // the harness itself failed: nothing is concluded from this thread
                            total.lock().unwrap().skipped.insert(format!("harness thread ended early: {}", panic_text(&*e)), 1);
                        }
                    }
                    left.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        loop {
            std::thread::sleep(Duration::from_millis(50));
            if left.load(Ordering::SeqCst) == 0 {
                break;
            }
            let now = now_ms();
            for sl in &slots {
                let st = sl.start.load(Ordering::SeqCst);
                if st != 0 && now > st + (limit * 1000.0) as u64 {
                    let (p, c) = sl.case.lock().unwrap().clone();
                    let mut tot = total.lock().unwrap();
                    tot.fail(&p, || c, || format!("does not terminate (no result after {limit} s)"));
                    tot.write(&a.out, t0.elapsed().as_secs_f64());
                    std::process::exit(0);
                }
            }
        }
    });
    total.lock().unwrap().write(&a.out, t0.elapsed().as_secs_f64());
}
thread_local! {
    static WHERE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let t = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    t + &WHERE.with(|w| w.borrow().clone())
}
