//! The exploration engine: exhaustive families of indexed cases, run on all cores, with the first
//! failing case of each family turned into a replay file.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Decodes a case number as a mixed-radix number, one digit per choice.
pub struct Digits(u64);

impl Digits {
    pub fn new(n: u64) -> Self {
        Digits(n)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        let d = self.0 % n;
        self.0 /= n;
        d
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        &from[self.below(from.len() as u64) as usize]
    }
    pub fn rest(&self) -> u64 {
        self.0
    }
}

pub fn product(dims: &[usize]) -> u64 {
    dims.iter().map(|d| *d as u64).product()
}

/// All subsets of 0..n with at least `lo` and at most `hi` members, smallest first.
pub fn subsets(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = Vec::new();
    for k in lo..=hi.min(n) {
        let mut cur: Vec<usize> = (0..k).collect();
        loop {
            out.push(cur.clone());
            // next combination
            let mut i = k;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                if cur[i] < n - k + i {
                    cur[i] += 1;
                    for j in i + 1..k {
                        cur[j] = cur[j - 1] + 1;
                    }
                    i = usize::MAX;
                    break;
                }
            }
            if i != usize::MAX {
                break;
            }
        }
    }
    out
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

#[derive(Default)]
pub struct Tally {
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    pub evaluations: u64,
    pub executions: u64,
    pub samples: Vec<String>,
    /// a part of this case was cut short by a cap
    pub capped: bool,
}

impl Tally {
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }
    /// one complete trace of the model was compared with the implementation
    pub fn trace(&mut self, steps: u64) {
        self.traces += 1;
        self.transitions += steps;
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.insert(hash_of(t));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    fn merge(&mut self, o: Tally) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.nontrivial += o.nontrivial;
        self.evaluations += o.evaluations;
        self.executions += o.executions;
        self.capped |= o.capped;
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Violation {
    pub family: String,
    pub case: u64,
    pub detail: String,
}

struct Family {
    name: String,
    cases: u64,
    done: u64,
    note: String,
    tally: Tally,
    wall: f64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub level: &'static str,
    replay: Option<(String, u64)>,
    serial: bool,
    threads: usize,
    start: Instant,
    deadline: Instant,
    families: Vec<Family>,
    violations: Vec<Violation>,
    pub assumptions: Vec<String>,
    pub rule: String,
    running: Arc<Mutex<BTreeMap<usize, (String, u64, Instant)>>>,
    journal: Option<PathBuf>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static SILENT: RefCell<bool> = RefCell::new(false);
}

fn install_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let at = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            *LAST_ANY.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", msg, at);
            let silent = SILENT.try_with(|s| *s.borrow()).unwrap_or(true);
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, at)));
            if !silent && !vsched::controlled() {
                default(info);
            }
        }));
    });
}

static LAST_ANY: Mutex<String> = Mutex::new(String::new());

/// Runs `f`; a panic becomes an error message with its place.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    install_hook();
    let before = SILENT.with(|s| s.replace(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    SILENT.with(|s| *s.borrow_mut() = before);
    r.map_err(|_| {
        let here = LAST_PANIC.with(|p| p.borrow_mut().take());
        let m = here.unwrap_or_else(|| LAST_ANY.lock().unwrap_or_else(|e| e.into_inner()).clone());
        format!("panicked: {}", m)
    })
}

static CASE_SECONDS: AtomicU64 = AtomicU64::new(120);
static FINISHED: AtomicBool = AtomicBool::new(false);

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// picks by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Explores cases 0..total; every one must return Ok.
    pub fn family(
        &mut self,
        name: &str,
        note: &str,
        total: u64,
        f: impl Fn(u64, &mut Tally) -> Result<(), String> + Sync,
    ) {
        if let Some((fam, case)) = self.replay.clone() {
            if fam != name {
                return;
            }
            let mut t = Tally::default();
            println!("replaying {} case {}", name, case);
            match guarded(|| f(case, &mut t)).and_then(|r| r) {
                Ok(()) => println!("the case passes"),
                Err(e) => self.violations.push(Violation { family: name.into(), case, detail: e }),
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let failed: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let merged: Mutex<Tally> = Mutex::new(Tally::default());
        let threads = if self.serial { 1 } else { self.threads };
        let chunk = (total / (threads as u64 * 64)).clamp(1, 4096);
        let deadline = self.deadline;
        let running = self.running.clone();
        let journal = self.journal.clone();
        std::thread::scope(|s| {
            for th in 0..threads {
                let (next, done, stop, failed, merged, f, running, journal) =
                    (&next, &done, &stop, &failed, &merged, &f, &running, &journal);
                let name = name.to_string();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut tally = Tally::default();
                        'outer: loop {
                            let from = next.fetch_add(chunk, Ordering::Relaxed);
                            if from >= total || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                break;
                            }
                            for case in from..(from + chunk).min(total) {
                                // keep the smallest failing case: cases below it still run
                                if stop.load(Ordering::Relaxed) {
                                    let limit = failed.lock().unwrap().as_ref().map(|x| x.0);
                                    if limit.map_or(false, |l| case >= l) {
                                        break 'outer;
                                    }
                                }
                                running
                                    .lock()
                                    .unwrap()
                                    .insert(th, (name.clone(), case, Instant::now()));
                                if let Some(j) = journal {
                                    let _ = std::fs::write(j, format!("{}\n{}\n", name, case));
                                }
                                let r = guarded(|| f(case, &mut tally)).and_then(|r| r);
                                done.fetch_add(1, Ordering::Relaxed);
                                if let Err(e) = r {
                                    let mut fl = failed.lock().unwrap();
                                    if fl.as_ref().map_or(true, |x| case < x.0) {
                                        *fl = Some((case, e));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                        running.lock().unwrap().remove(&th);
                        merged.lock().unwrap().merge(tally);
                    })
                    .expect("spawn");
            }
        });
        if let Some((case, detail)) = failed.into_inner().unwrap() {
            self.violations.push(Violation { family: name.into(), case, detail });
        }
        let tally = merged.into_inner().unwrap();
        if self.thorough() {
            eprintln!("{} {}: done after {:.0} s", self.prop, name, t0.elapsed().as_secs_f64());
        }
        self.families.push(Family {
            name: name.into(),
            cases: total,
            done: done.load(Ordering::Relaxed),
            note: note.into(),
            tally,
            wall: t0.elapsed().as_secs_f64(),
        });
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(ctx: &Ctx, violations: usize) {
    let mut total = Tally::default();
    let mut fams = String::new();
    let mut exhaustive = true;
    let mut samples: Vec<String> = Vec::new();
    let (mut evals, mut traces, mut transitions, mut nontrivial, mut execs) = (0, 0, 0, 0, 0);
    let mut states = HashSet::new();
    let mut outcomes = HashSet::new();
    for (i, f) in ctx.families.iter().enumerate() {
        if f.done < f.cases || f.tally.capped {
            exhaustive = false;
        }
        if i > 0 {
            fams.push(',');
        }
        let _ = write!(
            fams,
            "{{\"name\":{},\"bounds\":{},\"cases\":{},\"cases_run\":{},\"capped\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"evaluations\":{},\"nontrivial\":{},\"schedules\":{},\"distinct_outcomes\":{},\"wall_s\":{:.3}}}",
            json_str(&f.name),
            json_str(&f.note),
            f.cases,
            f.done,
            f.done < f.cases || f.tally.capped,
            f.tally.states.len(),
            f.tally.transitions,
            f.tally.traces,
            f.tally.evaluations,
            f.tally.nontrivial,
            f.tally.executions,
            f.tally.outcomes.len(),
            f.wall
        );
        for s in &f.tally.samples {
            samples.push(format!("[{}] {}", f.name, s));
        }
        evals += f.tally.evaluations;
        traces += f.tally.traces;
        transitions += f.tally.transitions;
        nontrivial += f.tally.nontrivial;
        execs += f.tally.executions;
        states.extend(f.tally.states.iter().map(|s| hash_of(&(i, s))));
        outcomes.extend(f.tally.outcomes.iter().map(|s| hash_of(&(i, s))));
    }
    total.evaluations = evals;
    let assumptions: Vec<String> = ctx.assumptions.iter().map(|s| json_str(s)).collect();
    let samples: Vec<String> = samples.iter().take(12).map(|s| json_str(s)).collect();
    let mut cov = String::new();
    if ctx.level == "model_checking" {
        let _ = write!(
            cov,
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},",
            states.len(),
            transitions,
            traces
        );
        if execs > 0 {
            let _ = write!(cov, "\"schedules\":{},", execs);
        }
    } else {
        let _ = write!(
            cov,
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"model_states\":{},",
            evals,
            nontrivial.min(outcomes.len() as u64),
            states.len(),
        );
    }
    let _ = write!(
        cov,
        "\"distinct_outcomes\":{},\"rule\":{},\"samples\":[{}],\"exhaustive\":{},\"families\":[{}]",
        outcomes.len(),
        json_str(&ctx.rule),
        samples.join(","),
        exhaustive,
        fams
    );
    let out = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(&ctx.prop),
        json_str(if ctx.thorough() { "thorough" } else { "quick" }),
        ctx.seed,
        json_str(ctx.level),
        cov,
        assumptions.join(","),
        ctx.start.elapsed().as_secs_f64(),
        violations
    );
    let dir = ctx.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", ctx.prop)), out);
}

fn write_replay(root: &Path, prop: &str, tier: Tier, v: &Violation) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.txt", prop, v.family, v.case));
    let _ = std::fs::write(
        &path,
        format!(
            "property {}\ntier {}\nfamily {}\ncase {}\nrun: bash /verif/run.sh {} --replay {}\n\n{}\n",
            prop,
            if tier == Tier::Thorough { "thorough" } else { "quick" },
            v.family,
            v.case,
            prop,
            path.display(),
            v.detail
        ),
    );
    path
}

fn first_line(s: &str) -> String {
    let l = s.lines().next().unwrap_or("");
    if l.len() > 400 {
        l.chars().take(400).collect()
    } else {
        l.to_string()
    }
}

/// known-findings.txt: `known: property=<id> family=<family> case=<n>: <what fails>`
fn known_findings(root: &Path, prop: &str) -> Vec<(String, u64, String)> {
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let (head, what) = rest.split_once(": ").unwrap_or((rest, ""));
            let mut p = None;
            let mut f = None;
            let mut c = None;
            for w in head.split_whitespace() {
                if let Some(v) = w.strip_prefix("property=") {
                    p = Some(v.to_string());
                } else if let Some(v) = w.strip_prefix("family=") {
                    f = Some(v.to_string());
                } else if let Some(v) = w.strip_prefix("case=") {
                    c = v.parse().ok();
                }
            }
            if let (Some(p), Some(f), Some(c)) = (p, f, c) {
                if p == prop {
                    out.push((f, c, what.to_string()));
                }
            }
        }
    }
    out
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Ctx),
}

/// Entry point of the checker programs.
pub fn main_with(props: &[Prop]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2);
        }
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    let mut serial = std::env::var("MC_SERIAL").is_ok();
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let get = |k: &str| {
                    text.lines()
                        .find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string()))
                        .unwrap_or_default()
                };
                if get("tier ") == "thorough" {
                    tier = Tier::Thorough;
                }
                replay = Some((get("family "), get("case ").parse::<u64>().expect("case")));
                serial = true;
                i += 2;
            }
            "--thorough" => {
                tier = Tier::Thorough;
                i += 1;
            }
            "--serial" => {
                serial = true;
                i += 1;
            }
            a => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let budget = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(
        if tier == Tier::Thorough { 7200 } else { 420 },
    );
    let start = Instant::now();
    let threads =
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let mut ctx = Ctx {
        prop: prop.id.to_string(),
        tier,
        seed,
        root,
        level: prop.level,
        replay,
        serial,
        threads,
        start,
        deadline: start + Duration::from_secs(budget),
        families: Vec::new(),
        violations: Vec::new(),
        assumptions: Vec::new(),
        rule: if prop.rule.is_empty() { "the cases of a family are numbered, and each number decodes to one point of the product of the choices under `bounds`; a state is a distinct state of the model".to_string() } else { prop.rule.to_string() },
        running: Arc::new(Mutex::new(BTreeMap::new())),
        journal: std::env::var("MC_JOURNAL").ok().map(PathBuf::from),
    };
    ctx.assume("The storage engine, the double-ended priority queue, the z-order functions, the point index and the thread pool are stand-ins with the same interface (/verif/shims), because the pinned git dependencies cannot be fetched offline; the repository's own 43 unit and integration tests pass on them (/verif/selftest).");
    spawn_watchdog(&ctx);
    (prop.run)(&mut ctx);
    FINISHED.store(true, Ordering::SeqCst);
    finish(ctx)
}

fn finish(ctx: Ctx) -> ! {
    let known = known_findings(&ctx.root, &ctx.prop);
    let mut real = 0;
    for v in &ctx.violations {
        if let Some(k) = known.iter().find(|k| k.0 == v.family && k.1 == v.case) {
            println!("KNOWN-FINDING: property={} {}", ctx.prop, k.2);
        } else {
            real += 1;
        }
    }
    if ctx.replay.is_none() {
        write_evidence(&ctx, real);
    }
    for f in &ctx.families {
        println!(
            "{} {}: {}/{} cases, {} states, {} transitions, {} traces, {} outcomes, {} schedules, {:.1}s{}",
            ctx.prop,
            f.name,
            f.done,
            f.cases,
            f.tally.states.len(),
            f.tally.transitions,
            f.tally.traces,
            f.tally.outcomes.len(),
            f.tally.executions,
            f.wall,
            if f.done < f.cases || f.tally.capped { " CAPPED" } else { "" }
        );
    }
    if ctx.families.is_empty() && ctx.replay.is_none() {
        eprintln!("no family ran");
        std::process::exit(2);
    }
    let mut code = 0;
    for v in &ctx.violations {
        if known.iter().any(|k| k.0 == v.family && k.1 == v.case) {
            continue;
        }
        let path = write_replay(&ctx.root, &ctx.prop, ctx.tier, v);
        println!("{} case {}: {}", v.family, v.case, first_line(&v.detail));
        println!("VIOLATION property={} replay={}", ctx.prop, path.display());
        code = 1;
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

/// A case that never ends, or that eats all the memory, is a violation too: cases take
/// milliseconds.
fn spawn_watchdog(ctx: &Ctx) {
    let running = ctx.running.clone();
    let root = ctx.root.clone();
    let prop = ctx.prop.clone();
    let tier = ctx.tier;
    if let Tier::Thorough = tier {
        CASE_SECONDS.store(400, Ordering::Relaxed);
    }
    if let Ok(s) = std::env::var("MC_CASE_S") {
        CASE_SECONDS.store(s.parse().unwrap_or(120), Ordering::Relaxed);
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if FINISHED.load(Ordering::SeqCst) {
            return;
        }
        let rss = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|s| s.split_whitespace().nth(1).and_then(|w| w.parse::<u64>().ok()))
            .unwrap_or(0)
            * 4096;
        let limit = CASE_SECONDS.load(Ordering::Relaxed);
        let oldest = running
            .lock()
            .unwrap()
            .values()
            .min_by_key(|v| v.2)
            .cloned();
        if let Some((family, case, since)) = oldest {
            let slow = since.elapsed() > Duration::from_secs(limit);
            let big = rss > 12 << 30;
            if slow || big {
                let v = Violation {
                    family,
                    case,
                    detail: if slow {
                        format!("the case did not end within {} s", limit)
                    } else {
                        "the case used more than 12 GB of memory".to_string()
                    },
                };
                let path = write_replay(&root, &prop, tier, &v);
                let dir = root.join("evidence");
                let _ = std::fs::create_dir_all(&dir);
                println!("{} case {}: {}", v.family, v.case, v.detail);
                println!("VIOLATION property={} replay={}", prop, path.display());
                use std::io::Write;
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
    });
}
