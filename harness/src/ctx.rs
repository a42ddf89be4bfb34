//! The monitor's runtime: deterministic streams of cases over worker threads, watchdogs, verdicts and evidence.
//!
//! A case is a pure function of (VERIF_SEED, stream name, index), so a violation is replayed from those three.
use crate::{alloc, obs, rng};
use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    io::Write as _,
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    process,
    sync::{
        atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*},
        Mutex, OnceLock,
    },
    thread,
    time::{Duration, Instant},
};

pub const THREADS: usize = 8;
pub const EXIT_INCONCLUSIVE: i32 = 3;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

struct Slot {
    busy: AtomicBool,
    start_cpu_ms: AtomicU64,
    clock: AtomicI32,
    limit_ms: AtomicU64,
    epoch: AtomicU64,
}

pub struct Ctx {
    pub meta: Meta,
    pub tier: Tier,
    pub seed: u64,
    pub dir: PathBuf,
    /// Run only this case.
    pub only: Option<(String, u64)>,
    started: Instant,
    slots: Vec<Slot>,
    cur: Option<fs::File>,
    counters: Mutex<BTreeMap<String, u64>>,
    streams: Mutex<BTreeMap<String, (u64, bool)>>,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    known: Vec<String>,
    known_hit: Mutex<Vec<String>>,
}

static CTX: OnceLock<Ctx> = OnceLock::new();
static VERDICT: Mutex<()> = Mutex::new(());

thread_local! {
    static CUR: RefCell<Cur> = RefCell::new(Cur::default());
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Default, Clone)]
struct Cur {
    stream: String,
    idx: u64,
    input: Vec<u8>,
    note: String,
}

pub struct Local {
    counters: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

pub struct Case<'a> {
    pub rng: rng::Rng,
    pub idx: u64,
    local: &'a mut Local,
    hash: u64,
    trivial: bool,
}

impl<'a> Case<'a> {
    /// The input under test: part of the replay file, of the samples and of the distinct count.
    pub fn input(&mut self, bytes: &[u8]) {
        self.hash = rng::mix(self.hash ^ rng::hash_bytes(bytes));
        CUR.with(|c| {
            let mut c = c.borrow_mut();
            c.input.clear();
            c.input.extend_from_slice(bytes);
        });
    }

    pub fn note(&mut self, text: impl Into<String>) {
        let text = text.into();
        self.hash = rng::mix(self.hash ^ rng::hash_bytes(text.as_bytes()));
        CUR.with(|c| c.borrow_mut().note = text);
    }

    pub fn count(&mut self, key: &'static str, n: u64) {
        *self.local.counters.entry(key).or_insert(0) += n;
    }

    /// The case observed nothing that could have refuted the property.
    pub fn trivial(&mut self) {
        self.trivial = true;
    }

    pub fn fail(&self, msg: impl AsRef<str>) -> ! {
        violation(msg.as_ref())
    }

    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            violation(&msg());
        }
    }

    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, what: &str, got: &T, want: &T) {
        if got != want {
            violation(&format!("{what}:\n  observed: {got:?}\n  expected: {want:?}"));
        }
    }
}

fn short(bytes: &[u8], max: usize) -> String {
    let s: String = String::from_utf8_lossy(&bytes[..bytes.len().min(max)]).into_owned();
    if bytes.len() > max {
        format!("{s}… ({} bytes)", bytes.len())
    } else {
        s
    }
}

pub fn ctx() -> &'static Ctx {
    CTX.get().expect("ctx")
}

pub fn install(meta: Meta, tier: Tier, seed: u64, dir: PathBuf, only: Option<(String, u64)>) -> &'static Ctx {
    let known = fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
    let pat = format!("finding: property={} ", meta.id);
    let cur = std::env::var_os("POMON_CUR").and_then(|p| {
        fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(p).ok()
    });
    let c = Ctx {
        meta,
        tier,
        seed,
        dir,
        only,
        started: Instant::now(),
        slots: (0..THREADS)
            .map(|_| Slot {
                busy: AtomicBool::new(false),
                start_cpu_ms: AtomicU64::new(0),
                clock: AtomicI32::new(0),
                limit_ms: AtomicU64::new(0),
                epoch: AtomicU64::new(0),
            })
            .collect(),
        cur,
        counters: Mutex::default(),
        streams: Mutex::default(),
        distinct: Mutex::default(),
        samples: Mutex::default(),
        known: known.lines().filter(|l| l.starts_with(&pat)).map(str::to_string).collect(),
        known_hit: Mutex::default(),
    };
    assert!(CTX.set(c).is_ok());
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
    thread::spawn(watchdog);
    ctx()
}

pub fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

/// Location and message of the last panic of this thread.
pub fn last_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}

fn cpu_ms(clock: i32) -> u64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(clock, &mut ts) } != 0 {
        return 0;
    }
    (ts[0] as u64) * 1000 + (ts[1] as u64) / 1_000_000
}

/// CPU time used by the calling thread, in ms.
pub fn my_cpu_ms() -> u64 {
    cpu_ms(3) // CLOCK_THREAD_CPUTIME_ID
}

pub const CASE_CPU_MS: u64 = 60_000;

fn watchdog() {
    let c = ctx();
    let wall = match c.tier {
        Tier::Quick => 820,
        Tier::Thorough => 3300,
    };
    loop {
        thread::sleep(Duration::from_millis(250));
        for (i, s) in c.slots.iter().enumerate() {
            let epoch = s.epoch.load(SeqCst);
            if !s.busy.load(SeqCst) {
                continue;
            }
            let used = cpu_ms(s.clock.load(SeqCst)).saturating_sub(s.start_cpu_ms.load(SeqCst));
            if used > s.limit_ms.load(SeqCst) && s.busy.load(SeqCst) && s.epoch.load(SeqCst) == epoch {
                let (stream, idx) = read_slot(c, i);
                CUR.with(|k| {
                    let mut k = k.borrow_mut();
                    k.stream = stream;
                    k.idx = idx;
                    k.note = "the case was still running".into();
                });
                violation(&format!("no end after {used} ms of CPU time in one case (a case takes milliseconds)"));
            }
        }
        if c.started.elapsed() > Duration::from_secs(wall) {
            println!("INCONCLUSIVE property={} wall-clock limit of {wall} s reached", c.meta.id);
            process::exit(EXIT_INCONCLUSIVE);
        }
    }
}

const SLOT_LEN: usize = 128;

fn write_slot(c: &Ctx, slot: usize, stream: &str, idx: u64) {
    if let Some(f) = &c.cur {
        let mut b = [b' '; SLOT_LEN];
        let s = format!("{idx} {stream}\n");
        let n = s.len().min(SLOT_LEN);
        b[..n].copy_from_slice(&s.as_bytes()[..n]);
        let _ = f.write_at(&b, (slot * SLOT_LEN) as u64);
    }
}

fn read_slot(c: &Ctx, slot: usize) -> (String, u64) {
    let mut b = [0u8; SLOT_LEN];
    if let Some(f) = &c.cur {
        let _ = f.read_at(&mut b, (slot * SLOT_LEN) as u64);
    }
    parse_slot(&b).unwrap_or_default()
}

fn parse_slot(b: &[u8]) -> Option<(String, u64)> {
    let s = std::str::from_utf8(b).ok()?;
    let line = s.lines().next()?;
    let (idx, stream) = line.split_once(' ')?;
    Some((stream.trim().to_string(), idx.parse().ok()?))
}

/// The cases that were running when a worker died.
pub fn slots_of(path: &std::path::Path) -> Vec<(String, u64)> {
    let data = fs::read(path).unwrap_or_default();
    data.chunks(SLOT_LEN).filter_map(parse_slot).collect()
}

pub fn budget_blown(msg: &str) {
    violation(msg);
}

/// The verdict "violated": write the witness, print the line and end the process.
pub fn violation(msg: &str) -> ! {
    alloc::disarm();
    let _g = VERDICT.lock();
    let c = ctx();
    let cur = CUR.with(|k| k.try_borrow().map(|k| k.clone()).unwrap_or_default());
    let path = write_replay(&c.dir, c.meta.id, c.seed, c.tier, &cur.stream, cur.idx, &cur.input, &cur.note, msg);
    evidence(c, 1);
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "--- {} stream={} idx={}\n{}", c.meta.id, cur.stream, cur.idx, short(msg.as_bytes(), 4000));
    if !cur.input.is_empty() {
        let _ = writeln!(out, "input: {:?}", short(&cur.input, 1500));
    }
    if !cur.note.is_empty() {
        let _ = writeln!(out, "note: {}", short(cur.note.as_bytes(), 1500));
    }
    let _ = writeln!(out, "VIOLATION property={} replay={}", c.meta.id, path.display());
    let _ = out.flush();
    process::exit(1)
}

#[allow(clippy::too_many_arguments)]
pub fn write_replay(
    dir: &std::path::Path,
    id: &str,
    seed: u64,
    tier: Tier,
    stream: &str,
    idx: u64,
    input: &[u8],
    note: &str,
    msg: &str,
) -> PathBuf {
    let rdir = dir.join("replay");
    let _ = fs::create_dir_all(&rdir);
    let safe: String = stream.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = rdir.join(format!("{id}-{safe}-{idx}.txt"));
    let mut s = format!(
        "property={id}\nseed={seed}\ntier={}\nstream={stream}\nidx={idx}\n\n{msg}\n\nnote: {note}\n\ninput ({} bytes, escaped):\n",
        if tier == Tier::Quick { "quick" } else { "thorough" },
        input.len()
    );
    for &b in input.iter().take(1 << 20) {
        match b {
            b'\n' => s.push_str("\\n\n"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(b as char),
            _ => {
                let _ = write!(s, "\\x{b:02x}");
            }
        }
    }
    s.push('\n');
    let _ = fs::write(&path, s);
    path
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(c: &Ctx, violations: u64) {
    if c.only.is_some() || std::env::var_os("POMON_NO_EVIDENCE").is_some() {
        return;
    }
    let counters = c.counters.lock().map(|g| g.clone()).unwrap_or_default();
    let streams = c.streams.lock().map(|g| g.clone()).unwrap_or_default();
    let distinct = c.distinct.lock().map(|g| g.len()).unwrap_or(0);
    let samples = c.samples.lock().map(|g| g.clone()).unwrap_or_default();
    let evals: u64 = streams.values().map(|s| s.0).sum();
    let mut o = String::from("{\n");
    let _ = writeln!(o, "  \"property\": {},", json(c.meta.id));
    let _ = writeln!(o, "  \"tier\": \"{}\",", if c.tier == Tier::Quick { "quick" } else { "thorough" });
    let _ = writeln!(o, "  \"seed\": {},", c.seed);
    let _ = writeln!(o, "  \"level\": {},", json(c.meta.level));
    let _ = writeln!(o, "  \"coverage\": {{");
    let _ = writeln!(o, "    \"evaluations\": {evals},");
    let _ = writeln!(o, "    \"distinct_nontrivial\": {distinct},");
    let _ = writeln!(o, "    \"rule\": {},", json(c.meta.rule));
    let list = |v: Vec<String>| v.join(", ");
    let _ = writeln!(o, "    \"samples\": [{}],", list(samples.iter().map(|s| json(s)).collect()));
    let _ = writeln!(
        o,
        "    \"streams\": {{{}}},",
        list(
            streams
                .iter()
                .map(|(k, v)| format!("{}: {{\"cases\": {}, \"exhaustive\": {}}}", json(k), v.0, v.1))
                .collect()
        )
    );
    let _ = writeln!(
        o,
        "    \"observed\": {{{}}}",
        list(counters.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect())
    );
    let _ = writeln!(o, "  }},");
    let mut assumptions: Vec<String> = c.meta.assumptions.iter().map(|s| json(s)).collect();
    if let Ok(k) = c.known_hit.lock() {
        assumptions.extend(k.iter().map(|s| json(s)));
    }
    if let Ok(p) = std::env::var("POMON_PASSES") {
        assumptions.extend(p.split("; ").filter(|s| !s.is_empty()).map(|s| json(&format!("also run: {s}"))));
    }
    let _ = writeln!(o, "  \"assumptions\": [{}],", list(assumptions));
    let _ = writeln!(o, "  \"wall_s\": {:.3},", c.started.elapsed().as_secs_f64());
    let _ = writeln!(o, "  \"violations\": {violations}\n}}");
    let dir = c.dir.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::write(dir.join(format!("{}.json", c.meta.id)), o);
}

impl Ctx {
    /// Cases of the tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Run `n` cases; `f` must depend on nothing but the case it is given.
    pub fn stream<F: Fn(&mut Case) + Sync>(&self, name: &str, n: u64, f: F) {
        self.run(name, n, false, CASE_CPU_MS, f)
    }

    /// As `stream`, over a space whose `n` elements are all enumerated.
    pub fn exhaustive<F: Fn(&mut Case) + Sync>(&self, name: &str, n: u64, f: F) {
        self.run(name, n, true, CASE_CPU_MS, f)
    }

    pub fn run<F: Fn(&mut Case) + Sync>(&self, name: &str, n: u64, exhaustive: bool, limit_ms: u64, f: F) {
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        let next = AtomicU64::new(0);
        let chunk = (n / (THREADS as u64 * 16)).clamp(1, 256);
        let threads = if self.only.is_some() { 1 } else { THREADS.min(n.max(1) as usize) };
        thread::scope(|sc| {
            for slot in 0..threads {
                let (next, f) = (&next, &f);
                thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || self.thread(slot, name, n, chunk, limit_ms, next, f))
                    .expect("spawn");
            }
        });
        let done = if self.only.is_some() { 1 } else { n };
        self.streams.lock().unwrap().insert(name.to_string(), (done, exhaustive));
    }

    #[allow(clippy::too_many_arguments)]
    fn thread<F: Fn(&mut Case)>(
        &self,
        slot: usize,
        name: &str,
        n: u64,
        chunk: u64,
        limit_ms: u64,
        next: &AtomicU64,
        f: &F,
    ) {
        let s = &self.slots[slot];
        SLOT.with(|k| k.set(slot));
        let mut clock = 0i32;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
        s.clock.store(clock, SeqCst);
        s.limit_ms.store(limit_ms, SeqCst);
        let mut local = Local { counters: BTreeMap::new(), distinct: HashSet::new(), samples: Vec::new() };
        let stream_hash = rng::hash_bytes(name.as_bytes());
        let one = |idx: u64, local: &mut Local| {
            write_slot(self, slot, name, idx);
            CUR.with(|c| {
                let mut c = c.borrow_mut();
                if c.stream != name {
                    c.stream = name.to_string();
                }
                c.idx = idx;
                c.input.clear();
                c.note.clear();
            });
            s.epoch.fetch_add(1, SeqCst);
            s.start_cpu_ms.store(cpu_ms(clock), SeqCst);
            s.busy.store(true, SeqCst);
            let mut case = Case {
                rng: rng::Rng::new(rng::mix(self.seed ^ rng::mix(stream_hash ^ rng::mix(idx)))),
                idx,
                local,
                hash: stream_hash,
                trivial: false,
            };
            alloc::arm(16 << 30);
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            alloc::disarm();
            s.busy.store(false, SeqCst);
            let (hash, trivial) = (case.hash, case.trivial);
            if let Err(p) = res {
                let (loc, _) = last_panic();
                let msg = payload(&*p);
                if obs::is_harness(&loc) {
                    println!("INCONCLUSIVE property={} harness error at {loc}: {msg} (stream {name}, case {idx})", self.meta.id);
                    process::exit(EXIT_INCONCLUSIVE);
                }
                violation(&format!("panic in the library at {loc}: {msg}"));
            }
            if !trivial && local.distinct.len() < 2_000_000 {
                local.distinct.insert(hash);
            }
            if local.samples.is_empty() && (idx == 0 || idx == n / 2) {
                let t = CUR.with(|c| {
                    let c = c.borrow();
                    let mut t = format!("[{name} #{idx}] ");
                    if !c.note.is_empty() {
                        t.push_str(&short(c.note.as_bytes(), 200));
                        t.push(' ');
                    }
                    t.push_str(&short(&c.input, 300));
                    t
                });
                local.samples.push(t);
            }
        };
        if let Some((_, idx)) = self.only {
            one(idx, &mut local);
        } else {
            loop {
                let a = next.fetch_add(chunk, SeqCst);
                if a >= n {
                    break;
                }
                for idx in a..(a + chunk).min(n) {
                    one(idx, &mut local);
                }
            }
        }
        let mut g = self.counters.lock().unwrap();
        for (k, v) in local.counters {
            *g.entry(k.to_string()).or_insert(0) += v;
        }
        drop(g);
        self.distinct.lock().unwrap().extend(local.distinct);
        let mut g = self.samples.lock().unwrap();
        for s in local.samples {
            if g.len() < 16 {
                g.push(s);
            }
        }
    }

    /// A defect recorded in known_findings.txt (by its exact key) was observed again; anything else is a violation.
    pub fn known(&self, key: &str, what: &str) {
        let pat = format!("finding: property={} key={key} ", self.meta.id);
        if self.known.iter().any(|l| l.starts_with(&pat)) {
            let line = format!("KNOWN-FINDING: property={} {key}: {what}", self.meta.id);
            let mut g = self.known_hit.lock().unwrap();
            if !g.contains(&line) {
                println!("{line}");
                g.push(line);
            }
        } else {
            violation(&format!("{key}: {what}"));
        }
    }

    /// The run is worth nothing if it did not observe this.
    pub fn require(&self, key: &str, min: u64) {
        if self.only.is_some() {
            return;
        }
        let got = self.counters.lock().unwrap().get(key).copied().unwrap_or(0);
        if got < min {
            println!("INCONCLUSIVE property={} observed only {got} × {key} (needs {min})", self.meta.id);
            process::exit(EXIT_INCONCLUSIVE);
        }
    }

    pub fn add(&self, key: &str, n: u64) {
        *self.counters.lock().unwrap().entry(key.to_string()).or_insert(0) += n;
    }

    pub fn finish(&self) {
        evidence(self, 0);
        let evals: u64 = self.streams.lock().unwrap().values().map(|s| s.0).sum();
        let distinct = self.distinct.lock().unwrap().len();
        if self.only.is_some() {
            println!("REPLAYED property={}: no violation", self.meta.id);
        } else {
            println!(
                "HELD property={} on {evals} cases ({distinct} distinct and non-trivial) in {:.1} s",
                self.meta.id,
                self.started.elapsed().as_secs_f64()
            );
        }
    }
}

/// Evidence of a run that a crash ended.
pub fn crash_evidence(dir: &std::path::Path, meta: &Meta, tier: Tier, seed: u64, msg: &str) {
    let o = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {seed},\n  \"level\": {},\n  \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]}},\n  \"assumptions\": [],\n  \"wall_s\": 0.0,\n  \"violations\": 1\n}}\n",
        json(meta.id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        json(meta.level),
        json(meta.rule),
        json(msg)
    );
    let _ = fs::create_dir_all(dir.join("evidence"));
    let _ = fs::write(dir.join("evidence").join(format!("{}.json", meta.id)), o);
}
