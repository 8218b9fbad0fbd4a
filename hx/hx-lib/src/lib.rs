//! Exploration engine shared by all harnesses.
//!
//! A check enumerates a bounded space; every element is a *case* with a
//! deterministic textual key. For each case the real code and a reference model
//! are run in lockstep, any disagreement (or panic, or hang) is a violation whose
//! replay file names the key. `--replay <file|key>` re-runs exactly that case.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    future::Future,
    hash::{Hash, Hasher},
    io::Write as _,
    panic::{self, AssertUnwindSafe},
    path::PathBuf,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst},
        Mutex,
    },
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
    time::Instant,
};

pub type R = Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static LOCAL_STATES: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

#[macro_export]
macro_rules! ck {
    ($c:expr) => { $crate::ck!($c, "{} fails", stringify!($c)) };
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr) => { $crate::ck_eq!($a, $b, "{}", stringify!($a)) };
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

const SHARDS: usize = 64;
const SLOTS: usize = 64;

pub struct Hx {
    pub property: String,
    tier: String,
    seed: u64,
    dir: PathBuf,
    start: Instant,
    replay: Option<String>,
    known: Vec<(String, String)>, // (key, what)
    shards: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    traces: AtomicU64,
    cases: AtomicU64,
    samples: Mutex<Vec<String>>,
    counters: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    n_violations: AtomicU64,
    slots: Vec<Mutex<Option<(Instant, String)>>>,
    next_slot: AtomicUsize,
    hang_s: AtomicU64,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Minimal extractor for `"field": "string"` in a one-line JSON object.
fn json_field(line: &str, field: &str) -> Option<String> {
    let pat = format!("\"{field}\"");
    let mut i = line.find(&pat)? + pat.len();
    let b: Vec<char> = line[i..].chars().collect();
    i = 0;
    while i < b.len() && (b[i].is_whitespace() || b[i] == ':') {
        i += 1;
    }
    if i >= b.len() || b[i] != '"' {
        return None;
    }
    i += 1;
    let mut o = String::new();
    while i < b.len() && b[i] != '"' {
        if b[i] == '\\' && i + 1 < b.len() {
            i += 1;
            match b[i] {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                'u' => {
                    let h: String = b[i + 1..i + 5].iter().collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    i += 4;
                }
                c => o.push(c),
            }
        } else {
            o.push(b[i]);
        }
        i += 1;
    }
    Some(o)
}

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the std hasher's input: deterministic across runs.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                self.0 = (self.0 ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 56))
                    .wrapping_mul(0x9E3779B97F4A7C15)
                    .rotate_left(23);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

impl Hx {
    fn new(property: &str, tier: &str, replay: Option<String>) -> Self {
        let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(dir.join("known_findings.jsonl")) {
            for l in t.lines() {
                if json_field(l, "property").as_deref() == Some(property)
                    && json_field(l, "status").as_deref() == Some("known")
                {
                    if let Some(k) = json_field(l, "key") {
                        known.push((k, json_field(l, "what").unwrap_or_default()));
                    }
                }
            }
        }
        Hx {
            property: property.into(),
            tier: tier.into(),
            seed,
            dir,
            start: Instant::now(),
            replay,
            known,
            shards: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            counters: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            known_hit: Mutex::new(BTreeMap::new()),
            n_violations: AtomicU64::new(0),
            slots: (0..SLOTS).map(|_| Mutex::new(None)).collect(),
            next_slot: AtomicUsize::new(0),
            hang_s: AtomicU64::new(90),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Picks the bound for the current tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn seed(&self) -> u64 {
        self.seed
    }
    pub fn dir(&self) -> &std::path::Path {
        &self.dir
    }
    /// Records a reached model state (deduplicated by fingerprint).
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = fp(t);
        LOCAL_STATES.with(|l| {
            let mut l = l.borrow_mut();
            l.push(h);
            if l.len() >= 4096 {
                self.flush(&mut l);
            }
        });
    }
    fn flush(&self, l: &mut Vec<u64>) {
        let mut by: Vec<Vec<u64>> = vec![vec![]; SHARDS];
        for h in l.drain(..) {
            by[(h % SHARDS as u64) as usize].push(h);
        }
        for (i, v) in by.into_iter().enumerate() {
            if !v.is_empty() {
                self.shards[i].lock().unwrap().extend(v);
            }
        }
    }
    fn flush_local(&self) {
        LOCAL_STATES.with(|l| self.flush(&mut l.borrow_mut()));
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, SeqCst);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn note(&self, k: &str, v: impl Into<String>) {
        self.notes.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn violated(&self) -> bool {
        self.n_violations.load(SeqCst) >= 32
    }
    pub fn report(&self, key: &str, msg: &str) {
        if let Some((k, what)) = self.known.iter().find(|(k, _)| k == key || (k.ends_with('*') && key.starts_with(&k[..k.len() - 1]))) {
            self.known_hit.lock().unwrap().entry(k.clone()).or_insert_with(|| format!("{what} [{msg}]"));
            return;
        }
        self.n_violations.fetch_add(1, SeqCst);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 32 {
            v.push((key.into(), msg.into()));
        }
    }
    /// Runs one case against the implementation. Returns true when it ran and held.
    pub fn case(&self, key: impl Fn() -> String, f: impl FnOnce() -> R) -> bool {
        if let Some(r) = &self.replay {
            if key() != *r {
                return true;
            }
        } else if self.violated() {
            return false;
        }
        let n = self.cases.fetch_add(1, SeqCst);
        self.traces.fetch_add(1, SeqCst);
        if n < 4 || (n & (n - 1)) == 0 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 24 {
                s.push(key());
            }
        }
        let slot = my_slot(self);
        *self.slots[slot].lock().unwrap() = Some((Instant::now(), key()));
        let r = catch(f);
        *self.slots[slot].lock().unwrap() = None;
        match r {
            Ok(()) => {
                if self.replay.is_some() {
                    println!("replay: held: {}", key());
                }
                true
            }
            Err(m) => {
                if self.replay.is_some() {
                    println!("replay: FAILED: {}: {m}", key());
                }
                self.report(&key(), &m);
                false
            }
        }
    }
    /// Splits `items` over the cores.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let idx = AtomicUsize::new(0);
        let workers = 8.min(items.len().max(1));
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let i = idx.fetch_add(1, SeqCst);
                            if i >= items.len() || self.violated() {
                                break;
                            }
                            if let Err(m) = catch(|| {
                                f(&items[i]);
                                Ok(())
                            }) {
                                eprintln!("harness error outside a case: {m}");
                                std::process::exit(3);
                            }
                        }
                        self.flush_local();
                    })
                    .unwrap();
            }
        });
    }
    fn finish(&self, replaying: bool) -> i32 {
        self.flush_local();
        let wall = self.start.elapsed().as_secs_f64();
        let states: usize = self.shards.iter().map(|s| s.lock().unwrap().len()).sum();
        let viol = self.violations.lock().unwrap().clone();
        for (k, w) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {w} (key {k})", self.property);
        }
        let rdir = self.dir.join("evidence/replays");
        let _ = std::fs::create_dir_all(&rdir);
        if !replaying {
            if let Ok(rd) = std::fs::read_dir(&rdir) {
                for e in rd.flatten() {
                    if e.file_name().to_string_lossy().starts_with(&format!("{}-", self.property)) {
                        let _ = std::fs::remove_file(e.path());
                    }
                }
            }
        }
        for (i, (k, m)) in viol.iter().enumerate() {
            let p = rdir.join(format!("{}-{i}.json", self.property));
            let _ = std::fs::write(
                &p,
                format!(
                    "{{\"property\": {}, \"key\": {}, \"message\": {}, \"replay\": {}}}\n",
                    json_str(&self.property),
                    json_str(k),
                    json_str(m),
                    json_str(&format!("./run.sh {} {} --replay {}", self.property, self.tier, p.display()))
                ),
            );
            if i < 8 {
                println!("  {k}: {m}");
                println!("VIOLATION property={} replay={}", self.property, p.display());
            }
        }
        let samples = self.samples.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
        let mut cov = vec![
            format!("\"states\": {states}"),
            format!("\"transitions\": {}", self.transitions.load(SeqCst)),
            format!("\"traces_validated_against_impl\": {}", self.traces.load(SeqCst)),
            format!("\"exhaustive\": {}", viol.is_empty()),
            format!("\"samples\": [{samples}]"),
        ];
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.push(format!("{}: {v}", json_str(k)));
        }
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.push(format!("{}: {}", json_str(k), json_str(v)));
        }
        let ass = self.assumptions.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
        let ev = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": [{ass}],\n  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}\n",
            json_str(&self.property), json_str(&self.tier), self.seed, cov.join(",\n    "), self.n_violations.load(SeqCst)
        );
        if !replaying {
            let _ = std::fs::write(self.dir.join(format!("evidence/{}.json", self.property)), ev);
        }
        println!(
            "{} {}: {} states, {} transitions, {} traces, {:.1} s, {} violations",
            self.property, self.tier, states, self.transitions.load(SeqCst), self.traces.load(SeqCst), wall,
            self.n_violations.load(SeqCst)
        );
        let _ = std::io::stdout().flush();
        if self.n_violations.load(SeqCst) > 0 {
            1
        } else if self.traces.load(SeqCst) == 0 {
            eprintln!("nothing was explored");
            3
        } else {
            0
        }
    }
}

thread_local! { static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) }; }
fn my_slot(h: &Hx) -> usize {
    SLOT.with(|s| *s.borrow_mut().get_or_insert_with(|| h.next_slot.fetch_add(1, SeqCst) % SLOTS))
}

/// Runs `f`, turning a panic into an error naming its message and place.
pub fn catch<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_else(|| "?".into())
        )),
    }
}

/// Entry point of a harness binary: `<bin> <property> <tier> [--replay key|file]`.
pub fn run(checks: &[(&str, fn(&Hx))]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    let replay = a.iter().position(|x| x == "--replay").and_then(|i| a.get(i + 1)).map(|r| {
        match std::fs::read_to_string(r) {
            Ok(t) => json_field(&t, "key").unwrap_or_else(|| r.clone()),
            Err(_) => r.clone(),
        }
    });
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{m} at {at}")));
    }));
    let replaying = replay.is_some();
    let hx: &'static Hx = Box::leak(Box::new(Hx::new(&id, &tier, replay)));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let lim = hx.hang_s.load(SeqCst);
        // A case that eats memory without end is stopped before the system runs out of it. The
        // largest resident size of any check on the unchanged tree is below 100 MB.
        if resident_mb() > 4096 {
            let worst = hx.slots.iter().filter_map(|s| s.lock().unwrap().clone()).min_by_key(|(t, _)| *t);
            let k = worst.map(|(_, k)| k).filter(|k| !k.is_empty()).unwrap_or_else(|| "memory".into());
            hx.report(&k, "the implementation used more than 4 GiB of memory and did not return");
            std::process::exit(hx.finish(replaying));
        }
        for s in &hx.slots {
            let hung = s.lock().unwrap().clone().filter(|(t, _)| t.elapsed().as_secs() > lim);
            if let Some((_, k)) = hung {
                hx.report(
                    &if k.is_empty() { "hang".to_string() } else { k },
                    &format!("the implementation did not return within {lim} s"),
                );
                std::process::exit(hx.finish(replaying));
            }
        }
    });
    // Large stack: recursive enumerators.
    let f = *f;
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let r = catch(|| {
                f(hx);
                Ok(())
            });
            hx.flush_local();
            r
        })
        .unwrap()
        .join();
    match r {
        Ok(Ok(())) => std::process::exit(hx.finish(replaying)),
        Ok(Err(m)) => {
            eprintln!("harness error outside a case: {m}");
            std::process::exit(3)
        }
        Err(_) => std::process::exit(3),
    }
}

/// Resident set size of this process in MiB (0 when it cannot be read).
fn resident_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|p| p.parse::<u64>().ok()))
        .map_or(0, |pages| pages / 256)
}

// ---------------------------------------------------------------- enumerators

/// All sequences of length exactly `n` over `0..k`.
pub fn for_seqs(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0; n];
    if k == 0 && n > 0 {
        return;
    }
    loop {
        f(&v);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}
/// All sequences with length in `lo..=hi`.
pub fn all_seqs(k: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut o = vec![];
    for n in lo..=hi {
        for_seqs(k, n, &mut |s| o.push(s.to_vec()));
    }
    o
}
/// Mixed-radix product of `dims`.
pub fn product(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut o = vec![vec![]];
    for &d in dims {
        o = o.into_iter().flat_map(|p| (0..d).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
    }
    o
}
/// All compositions of `n` (ordered lists of positive parts summing to n).
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (0..1u64 << (n - 1))
        .map(|m| {
            let mut parts = vec![];
            let mut c = 1;
            for i in 0..n - 1 {
                if m >> i & 1 == 1 {
                    parts.push(c);
                    c = 1;
                } else {
                    c += 1;
                }
            }
            parts.push(c);
            parts
        })
        .collect()
}
/// All ways to cut `0..n` with at most `k` interior cut points taken from `at`.
pub fn cuts(at: &[usize], k: usize) -> Vec<Vec<usize>> {
    fn go(at: &[usize], i: usize, k: usize, cur: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
        o.push(cur.clone());
        if k == 0 {
            return;
        }
        for j in i..at.len() {
            cur.push(at[j]);
            go(at, j + 1, k - 1, cur, o);
            cur.pop();
        }
    }
    let mut o = vec![];
    go(at, 0, k, &mut vec![], &mut o);
    o
}
/// All permutations of `0..n`.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, n: usize, o: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            o.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, n, o);
                cur.pop();
            }
        }
    }
    let mut o = vec![];
    go(&mut vec![], n, &mut o);
    o
}
/// Subset of `0..n` from a bit mask.
pub fn bits(mask: u64, n: usize) -> Vec<usize> {
    (0..n).filter(|i| mask >> i & 1 == 1).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---------------------------------------------------------------- async

fn noop_waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// Polls a future to completion; an error if it is still pending after `max` polls.
pub fn block_on<F: Future>(f: F, max: usize) -> Result<F::Output, String> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..max {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Ok(v);
        }
    }
    Err(format!("future still pending after {max} polls"))
}
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}
