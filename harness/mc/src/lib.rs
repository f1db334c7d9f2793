//! Bounded exhaustive exploration engine.
//!
//! A check is a set of *families*.  A family enumerates a finite space completely, calling [`Family::case`] for
//! every member in a fixed order (simplest first).  A run is split over shard processes by case index, so every case is
//! identified by (family, index), which is all that is needed to replay it.
//!
//! `states`      distinct states (hashes of the explored input / system states, as recorded by the check)
//! `transitions` implementation steps whose observable result was compared with the reference model
//! `traces`      complete executions of the implementation compared with the reference model
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fs::{self, File};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod la;
pub mod sched;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Result of evaluating one case: `Err(what failed)`.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}
/// Fails unless two values are equal, printing both.
#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $($arg:tt)*) => {{
        let (g, w) = (&$got, &$want);
        if g != w { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), g, w)); }
    }};
}

#[derive(Default)]
pub struct Rec {
    transitions: u64,
    traces: u64,
    states: Vec<u64>,
    outcomes: Vec<u64>,
}
impl Rec {
    /// `n` observable steps of the implementation were compared with the reference.
    pub fn step(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// `n` complete executions (default: one per case).
    pub fn trace(&mut self, n: usize) {
        self.traces += n as u64;
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(hash_of(t));
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.push(hash_of(t));
    }
}

#[derive(Clone, PartialEq)]
enum Mode {
    Run,
    /// Run exactly one case and report.
    Replay(String, u64),
    /// Only print the description of one case.
    Describe(String, u64),
    /// Enumerate without running (counts only)
    Count,
}

struct FamStat {
    name: String,
    bound: String,
    total: u64,
    run: u64,
    traces: u64,
    transitions: u64,
    secs: f64,
    slowest: f64,
}

pub struct Mc {
    pub thorough: bool,
    mode: Mode,
    pub shard: u64,
    nshards: u64,
    out: Option<PathBuf>,
    crumb: Option<File>,
    known: HashSet<String>,
    known_hit: Vec<String>,
    fams: Vec<FamStat>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    only: Option<String>,
    found: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static CASE_START_MS: AtomicU64 = AtomicU64::new(0);
static HB: AtomicU64 = AtomicU64::new(0);
static FAM_NO: AtomicU64 = AtomicU64::new(0);
static CASE_NO: AtomicU64 = AtomicU64::new(0);

static BEATS: AtomicU64 = AtomicU64::new(0);
/// One of the executions of a case has come to its end.
pub fn beat() {
    BEATS.fetch_add(1, Ordering::Relaxed);
}

/// Wall-clock seconds a single case (or execution of it) may take before it counts as divergence (cases normally take far less than 1 s).
/// In the thorough tier ten times as long.
static HANG_S: AtomicU64 = AtomicU64::new(100);
const RSS_LIMIT_KB: u64 = 3_000_000;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn rss_kb() -> u64 {
    fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4)
        .unwrap_or(0)
}

fn write_violation(out: &Path, shard: u64, fam: &str, idx: u64, desc: &str, msg: &str, kind: &str) {
    let text = format!(
        "{{\"family\":\"{}\",\"index\":{},\"case\":\"{}\",\"message\":\"{}\",\"kind\":\"{}\"}}\n",
        esc(fam),
        idx,
        esc(desc),
        esc(msg),
        kind
    );
    let tmp = out.join(format!("violation-{shard}.tmp"));
    fs::write(&tmp, text).expect("write violation");
    fs::rename(&tmp, out.join(format!("violation-{shard}.json"))).expect("rename violation");
}

impl Mc {
    fn want(&self, name: &str) -> bool {
        self.only.as_deref().is_none_or(|o| o == name)
    }

    pub fn family(&mut self, name: &str, bound: &str, f: impl FnOnce(&mut Family)) {
        if self.found {
            return;
        }
        match &self.mode {
            Mode::Replay(n, _) | Mode::Describe(n, _) if n != name => return,
            _ => {}
        }
        if !self.want(name) {
            return;
        }
        assert!(self.fams.iter().all(|f| f.name != name), "two families named {name}");
        let t0 = Instant::now();
        FAM_NO.store(self.fams.len() as u64, Ordering::Relaxed);
        let stat = FamStat {
            name: name.into(),
            bound: bound.into(),
            total: 0,
            run: 0,
            traces: 0,
            transitions: 0,
            secs: 0.0,
            slowest: 0.0,
        };
        self.fams.push(stat);
        let mut fam = Family { mc: self, idx: 0 };
        f(&mut fam);
        let total = fam.idx;
        let st = self.fams.last_mut().unwrap();
        st.total = total;
        st.secs = t0.elapsed().as_secs_f64();
    }
}

pub struct Family<'a> {
    mc: &'a mut Mc,
    idx: u64,
}

impl Family<'_> {
    pub fn thorough(&self) -> bool {
        self.mc.thorough
    }
    pub fn stop(&self) -> bool {
        self.mc.found
    }

    /// Evaluate one member of the space.
    pub fn case(&mut self, desc: impl FnOnce() -> String, body: impl FnOnce(&mut Rec) -> Res) {
        let idx = self.idx;
        self.idx += 1;
        let mc = &mut *self.mc;
        if mc.found {
            return;
        }
        match &mc.mode {
            Mode::Count => return,
            Mode::Run => {
                // spread neighbouring cases over the shards
                if (idx ^ (idx / mc.nshards)) % mc.nshards != mc.shard {
                    return;
                }
            }
            Mode::Replay(_, i) => {
                if *i != idx {
                    return;
                }
            }
            Mode::Describe(_, i) => {
                if *i == idx {
                    println!("{}", desc());
                    mc.found = true;
                }
                return;
            }
        }
        CASE_NO.store(idx, Ordering::Relaxed);
        HB.fetch_add(1, Ordering::Relaxed);
        CASE_START_MS.store(HB.load(Ordering::Relaxed), Ordering::Relaxed);
        if let Some(f) = &mc.crumb {
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&(mc.fams.len() as u64).to_le_bytes());
            b[8..16].copy_from_slice(&idx.to_le_bytes());
            b[16..].copy_from_slice(&1u64.to_le_bytes());
            f.write_all_at(&b, 0).expect("breadcrumb");
        }
        let mut rec = Rec::default();
        let begun = Instant::now();
        let res = match catch_unwind(AssertUnwindSafe(|| body(&mut rec))) {
            Ok(r) => r.map_err(|m| (m, "mismatch")),
            Err(_) => Err((LAST_PANIC.with(|p| p.borrow().clone()), "panic")),
        };
        let st = mc.fams.last_mut().unwrap();
        st.run += 1;
        st.slowest = st.slowest.max(begun.elapsed().as_secs_f64());
        st.traces += if rec.traces == 0 { 1 } else { rec.traces };
        st.transitions += rec.transitions;
        if st.run == 3 && mc.shard == 0 && mc.samples.len() < 40 {
            // an early case as a written-out sample of this family
            let d = desc();
            mc.samples.push(format!("{} #{}: {}", st.name, idx, d));
            mc.states.extend(rec.states);
            mc.outcomes.extend(rec.outcomes);
            if let Err(e) = res {
                Self::fail(mc, idx, d, e);
            }
            return;
        }
        mc.states.extend(rec.states);
        mc.outcomes.extend(rec.outcomes);
        if let Err(e) = res {
            let d = desc();
            Self::fail(mc, idx, d, e);
        }
    }

    fn fail(mc: &mut Mc, idx: u64, d: String, (msg, kind): (String, &str)) {
        let fam = mc.fams.last().unwrap().name.clone();
        let key = format!("{}\t{}", fam, d);
        if mc.known.contains(&key) {
            mc.known_hit.push(key);
            return;
        }
        mc.found = true;
        if let Some(out) = &mc.out {
            write_violation(out, mc.shard, &fam, idx, &d, &msg, kind);
        } else {
            println!("FAILS family={fam} index={idx} kind={kind}\ncase: {d}\n{msg}");
        }
    }
}

fn spawn_watchdog(out: Option<PathBuf>, shard: u64) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || {
        let mut last = ((0, 0), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let hb = CASE_START_MS.load(Ordering::Relaxed);
            let now = (hb, BEATS.load(Ordering::Relaxed));
            if now != last.0 {
                last = (now, Instant::now());
            }
            let hung = hb != 0 && hb != u64::MAX && last.1.elapsed() > Duration::from_secs(HANG_S.load(Ordering::Relaxed));
            let rss = rss_kb();
            if hung || (rss > RSS_LIMIT_KB && hb != 0 && hb != u64::MAX) {
                let what = if hung {
                    format!("no result after {HANG_S:?} s for one case: the computation does not terminate")
                } else {
                    format!("memory grew to {rss} kB on one small case: the computation diverges")
                };
                match &out {
                    Some(out) => {
                        let f = FAM_NO.load(Ordering::Relaxed);
                        write_violation(out, shard, &format!("#{f}"), CASE_NO.load(Ordering::Relaxed), "", &what, "divergence");
                        std::process::exit(1);
                    }
                    None => {
                        println!("FAILS family no {} case {}: {what}", FAM_NO.load(Ordering::Relaxed), CASE_NO.load(Ordering::Relaxed));
                        std::process::exit(1);
                    }
                }
            }
        }
    });
}

fn dump_u64(p: &Path, s: &HashSet<u64>) {
    let mut v = Vec::with_capacity(s.len() * 8);
    for x in s {
        v.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(p, v).expect("write set");
}

fn merge(out: &Path, n: u64, what: &str) -> usize {
    let mut v: Vec<u64> = vec![];
    for i in 0..n {
        if let Ok(b) = fs::read(out.join(format!("{what}-{i}.bin"))) {
            v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    v.sort_unstable();
    v.dedup();
    v.len()
}

/// Entry point of a harness binary; `checks` maps a property id to the function that explores it.
///
/// child PROP TIER SHARD NSHARDS OUTDIR | replay PROP TIER FAMILY INDEX | describe PROP TIER FAMILY INDEX |
/// merge OUTDIR NSHARDS | count PROP TIER | families PROP TIER | list
pub fn main(checks: &[(&str, fn(&mut Mc))]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let cmd = arg(0);
    if cmd == "list" {
        for (id, _) in checks {
            println!("{id}");
        }
        return;
    }
    if cmd == "merge" {
        let out = PathBuf::from(arg(1));
        let n: u64 = arg(2).parse().unwrap();
        println!("{{\"states\":{},\"outcomes\":{}}}", merge(&out, n, "states"), merge(&out, n, "outcomes"));
        return;
    }
    let prop = arg(1);
    let Some((_, f)) = checks.iter().find(|(id, _)| *id == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    };
    let thorough = arg(2) == "thorough";
    if thorough {
        HANG_S.store(600, Ordering::Relaxed);
    }
    let mut mc = Mc {
        thorough,
        mode: Mode::Run,
        shard: 0,
        nshards: 1,
        out: None,
        crumb: None,
        known: HashSet::new(),
        known_hit: vec![],
        fams: vec![],
        states: HashSet::new(),
        outcomes: HashSet::new(),
        samples: vec![],
        only: std::env::var("MC_FAMILY").ok(),
        found: false,
    };
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
    match cmd.as_str() {
        "child" => {
            mc.shard = arg(3).parse().unwrap();
            mc.nshards = arg(4).parse().unwrap();
            let out = PathBuf::from(arg(5));
            let c = File::create(out.join(format!("crumb-{}", mc.shard))).expect("crumb");
            mc.crumb = Some(c);
            mc.out = Some(out.clone());
            if let Ok(k) = fs::read_to_string(out.join("known.txt")) {
                mc.known = k.lines().map(|l| l.to_string()).collect();
            }
            spawn_watchdog(Some(out), mc.shard);
        }
        "replay" => {
            mc.mode = Mode::Replay(arg(3), arg(4).parse().unwrap());
            spawn_watchdog(None, 0);
        }
        "describe" => mc.mode = Mode::Describe(arg(3), arg(4).parse().unwrap()),
        "count" | "families" => mc.mode = Mode::Count,
        "run" => spawn_watchdog(None, 0),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(3);
        }
    }
    f(&mut mc);
    CASE_START_MS.store(u64::MAX, Ordering::Relaxed);
    match cmd.as_str() {
        "families" => {
            for (i, st) in mc.fams.iter().enumerate() {
                println!("{i}\t{}", st.name);
            }
        }
        "count" => {
            for st in &mc.fams {
                println!("{:<40} {:>12}  enumerated in {:.2}s  ({})", st.name, st.total, st.secs, st.bound);
            }
        }
        "run" => {
            for st in &mc.fams {
                println!(
                    "{:<40} cases {:>9} traces {:>10} transitions {:>11} {:>7.2}s, slowest case {:.2}s",
                    st.name, st.run, st.traces, st.transitions, st.secs, st.slowest
                );
            }
            println!("states {} outcomes {}", mc.states.len(), mc.outcomes.len());
            std::process::exit(if mc.found { 1 } else { 0 });
        }
        "replay" => {
            if !mc.found {
                println!("HOLDS");
            }
            std::process::exit(if mc.found { 1 } else { 0 });
        }
        "child" => {
            let out = mc.out.clone().unwrap();
            dump_u64(&out.join(format!("states-{}.bin", mc.shard)), &mc.states);
            dump_u64(&out.join(format!("outcomes-{}.bin", mc.shard)), &mc.outcomes);
            let mut s = String::from("{\"families\":[");
            for (i, st) in mc.fams.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(&format!(
                    "{{\"name\":\"{}\",\"bound\":\"{}\",\"total\":{},\"run\":{},\"traces\":{},\"transitions\":{},\"secs\":{:.3},\"slowest\":{:.3}}}",
                    esc(&st.name), esc(&st.bound), st.total, st.run, st.traces, st.transitions, st.secs, st.slowest
                ));
            }
            s.push_str("],\"samples\":[");
            s.push_str(&mc.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","));
            s.push_str(&format!("],\"cut\":{},\"known\":[", sched::cut()));
            s.push_str(&mc.known_hit.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","));
            s.push_str("]}\n");
            let mut f = File::create(out.join(format!("result-{}.json", mc.shard))).expect("result");
            f.write_all(s.as_bytes()).expect("result");
            if mc.found {
                std::process::exit(1);
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------- enumeration helpers

/// All words of length `len` over `0..k`, least significant digit first fastest; stops early if `f` returns false.
pub fn words(k: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut w = vec![0usize; len];
    if k == 0 && len > 0 {
        return;
    }
    loop {
        f(&w);
        let mut i = 0;
        loop {
            if i == len {
                return;
            }
            w[i] += 1;
            if w[i] < k {
                break;
            }
            w[i] = 0;
            i += 1;
        }
    }
}

/// All words of lengths `0..=max`.
pub fn words_upto(k: usize, max: usize, mut f: impl FnMut(&[usize])) {
    for l in 0..=max {
        words(k, l, &mut f);
    }
}

/// All permutations of `0..n` in lexicographic order.
pub fn perms(n: usize, mut f: impl FnMut(&[usize])) {
    let mut p: Vec<usize> = (0..n).collect();
    loop {
        f(&p);
        let Some(i) = (1..n).rev().find(|&i| p[i - 1] < p[i]) else {
            return;
        };
        let j = (i..n).rev().find(|&j| p[j] > p[i - 1]).unwrap();
        p.swap(i - 1, j);
        p[i..].reverse();
    }
}

/// All ordered lists of distinct elements of `0..n` (all lengths).
pub fn ordered_sublists(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(n: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        for x in 0..n {
            if !cur.contains(&x) {
                cur.push(x);
                rec(n, cur, f);
                cur.pop();
            }
        }
    }
    rec(n, &mut vec![], f)
}

/// All weak orders on `n` items, as level vectors using every level from 0.
pub fn weak_orders(n: usize, mut f: impl FnMut(&[usize])) {
    words(n.max(1), n, |w| {
        let m = w.iter().copied().max().map_or(0, |m| m + 1);
        if (0..m).all(|l| w.contains(&l)) {
            f(w)
        }
    })
}

/// All subsets of `0..n` as sorted vectors, of size `k`.
pub fn subsets(n: usize, k: usize, mut f: impl FnMut(&[usize])) {
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == k {
            f(cur);
            return;
        }
        for x in from..n {
            cur.push(x);
            rec(n, k, x + 1, cur, f);
            cur.pop();
        }
    }
    rec(n, k, 0, &mut vec![], &mut f)
}
