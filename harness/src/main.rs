//! webcheck: generated-input checks for webparse.
//!
//!   webcheck check ID --tier quick|thorough --seed N   run one property's checks
//!   webcheck replay FILE                               rerun a replay file
//!   webcheck one ID SUB INDEX SEED                      run a single generated case
//!   webcheck list                                       property ids
mod engine;
mod props;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

const HANG_CPU_MS: u64 = 40_000;
const MEM_LIMIT: u64 = 8 << 30;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    let lim = [MEM_LIMIT, MEM_LIMIT];
    let core = [0u64, 0u64];
    unsafe {
        setrlimit(9, &lim); // RLIMIT_AS
        setrlimit(4, &core); // RLIMIT_CORE
    }
}

fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entries `known: property=<id> key=<key> <what>` of known_findings.txt.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", prop) {
                out.push((k.trim_start_matches("key=").to_string(), w.to_string()));
            }
        }
    }
    out
}

struct Shard {
    case: AtomicU64, // changes with every case; 0 = idle
    sub: AtomicU64,
    index: AtomicU64,
    tid: AtomicU64,
}

fn thread_cpu_ms(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let after = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = after.split_whitespace().collect();
    if f.len() > 13 {
        let u: u64 = f[11].parse().unwrap_or(0);
        let k: u64 = f[12].parse().unwrap_or(0);
        (u + k) * 10
    } else {
        0
    }
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn replay_dir() -> PathBuf {
    let d = verif_root().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn write_replay(prop: &str, sub: &str, index: u64, seed: u64, tape: Option<&[u64]>, msg: &str, render: &str) -> PathBuf {
    let path = replay_dir().join(format!("{}.replay", prop));
    let mut s = String::new();
    let _ = writeln!(s, "property {}", prop);
    let _ = writeln!(s, "sub {}", sub);
    let _ = writeln!(s, "index {}", index);
    let _ = writeln!(s, "seed {}", seed);
    if let Some(t) = tape {
        let v: Vec<String> = t.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "tape {}", v.join(" "));
    }
    let _ = writeln!(s, "# what: {}", msg.replace('\n', "\\n"));
    let _ = writeln!(s, "# case: {}", render.replace('\n', "\\n"));
    let _ = writeln!(s, "# rerun: {}/checks/replay.sh {}", verif_root().display(), path.display());
    let _ = std::fs::write(&path, s);
    path
}

fn report_violation(prop: &str, path: &Path, sub: &str, msg: &str, render: &str) {
    println!("  check {}/{} failed: {}", prop, sub, msg);
    println!("  case: {}", render);
    println!("VIOLATION property={} replay={}", prop, path.display());
    let _ = std::io::stdout().flush();
}

struct Run<'a> {
    prop: &'a Prop,
    tier: &'a str,
    seed: u64,
    t0: Instant,
}

fn write_evidence(run: &Run, st: &Stats, violations: u64, note: &str) {
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json(run.prop.id),
        json(run.tier),
        run.seed,
        st.evaluations,
        st.distinct.len(),
        json(run.prop.rule)
    );
    let _ = write!(s, "  \"sub_checks\": [");
    for (i, (n, c, e)) in st.per_sub.iter().enumerate() {
        let _ = write!(
            s,
            "{}{{\"name\": {}, \"cases\": {}, \"enumerated\": {}}}",
            if i > 0 { ", " } else { "" },
            json(n),
            c,
            e
        );
    }
    let _ = write!(s, "],\n  \"classes\": {{");
    for (i, (k, v)) in st.classes.iter().enumerate() {
        let _ = write!(s, "{}{}: {}", if i > 0 { ", " } else { "" }, json(k), v);
    }
    let _ = write!(s, "}},\n  \"samples\": [");
    for (i, x) in st.samples.iter().enumerate() {
        let _ = write!(s, "{}\n   {}", if i > 0 { "," } else { "" }, json(x));
    }
    let _ = write!(s, "\n  ]\n }},\n \"assumptions\": [");
    for (i, x) in run.prop.assumptions.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { ", " } else { "" }, json(x));
    }
    let _ = write!(
        s,
        "],\n \"wall_s\": {:.3},\n \"violations\": {},\n \"note\": {}\n}}\n",
        run.t0.elapsed().as_secs_f64(),
        violations,
        json(note)
    );
    let _ = std::fs::write(dir.join(format!("{}.json", run.prop.id)), s);
}

struct ThreadOut {
    evals: u64,
    distinct: Vec<u64>,
    classes: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, String>,
    samples: Vec<(u64, String)>,
    fail: Option<(u64, String)>,
}

/// Cases slower than VERIF_SLOW_MS are reported (to keep cases far below the
/// limit at which a case counts as hanging).
fn slow_case() -> Duration {
    static D: std::sync::OnceLock<Duration> = std::sync::OnceLock::new();
    *D.get_or_init(|| {
        let ms = std::env::var("VERIF_SLOW_MS").ok().and_then(|s| s.parse().ok());
        Duration::from_millis(ms.unwrap_or(u64::MAX >> 12))
    })
}

const DISTINCT_CAP: usize = 12_000_000;

/// Runs indices lo..hi of a sub-check on all threads; returns the smallest
/// failing index.
#[allow(clippy::too_many_arguments)]
fn run_range(
    run: &Run,
    sub_no: usize,
    lo: u64,
    hi: u64,
    threads: usize,
    shards: &[Shard],
    state: Option<&std::fs::File>,
    st: &mut Stats,
    deadline: Instant,
    sample: bool,
) -> (Option<(u64, String)>, bool) {
    let sub = run.prop.subs[sub_no];
    let min_fail = AtomicU64::new(u64::MAX);
    let timed_out = AtomicBool::new(false);
    let outs: Mutex<Vec<ThreadOut>> = Mutex::new(Vec::new());
    let threads_here = threads.min(((hi - lo) as usize).max(1));
    std::thread::scope(|sc| {
        for t in 0..threads_here {
            let (min_fail, timed_out, outs) = (&min_fail, &timed_out, &outs);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    let shard = &shards[t];
                    shard.tid.store(own_tid(), Ordering::SeqCst);
                    let mut o = ThreadOut {
                        evals: 0,
                        distinct: Vec::new(),
                        classes: BTreeMap::new(),
                        known: BTreeMap::new(),
                        samples: Vec::new(),
                        fail: None,
                    };
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut ctx = Ctx::default();
                    let mut i = lo + t as u64;
                    let mut slow = false;
                    while i < hi {
                        if i > min_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        if (slow || o.evals % 64 == 63) && Instant::now() > deadline {
                            timed_out.store(true, Ordering::Relaxed);
                            break;
                        }
                        shard.sub.store(sub_no as u64, Ordering::Relaxed);
                        shard.index.store(i, Ordering::Relaxed);
                        shard.case.fetch_add(1, Ordering::SeqCst);
                        if let Some(f) = state {
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(sub_no as u64 + 1).to_le_bytes());
                            b[8..].copy_from_slice(&i.to_le_bytes());
                            let _ = f.write_at(&b, t as u64 * 16);
                        }
                        let mut src = Src::random(case_seed(run.seed, run.prop.id, sub.name, i), i);
                        let want = sample && i - lo < 400 && o.samples.len() < 2;
                        ctx.start(want);
                        let t1 = Instant::now();
                        let r = run_case(sub.f, &mut src, &mut ctx);
                        let took = t1.elapsed();
                        slow = took > Duration::from_millis(20);
                        if took > slow_case() {
                            eprintln!("slow case {}/{} index {}: {:?}", run.prop.id, sub.name, i, took);
                        }
                        o.evals += 1;
                        if ctx.nontrivial && seen.len() < DISTINCT_CAP / threads {
                            seen.insert(ctx.hash());
                        }
                        if want && ctx.nontrivial {
                            if let Some(r) = ctx.render.take() {
                                o.samples.push((i, r));
                            }
                        }
                        if let Err(m) = r {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            o.fail = Some((i, m));
                            break;
                        }
                        i += threads_here as u64;
                    }
                    shard.case.store(0, Ordering::SeqCst);
                    shard.tid.store(0, Ordering::SeqCst);
                    if let Some(f) = state {
                        let _ = f.write_at(&[0u8; 16], t as u64 * 16);
                    }
                    o.distinct = seen.into_iter().collect();
                    o.classes = std::mem::take(&mut ctx.classes);
                    o.known = std::mem::take(&mut ctx.known);
                    outs.lock().unwrap().push(o);
                })
                .expect("spawn");
        }
    });
    let mut n = 0;
    let mut samples: Vec<(u64, String)> = Vec::new();
    let mut fail: Option<(u64, String)> = None;
    for o in outs.into_inner().unwrap() {
        n += o.evals;
        if let Some(f) = o.fail {
            if fail.as_ref().is_none_or(|(i, _)| f.0 < *i) {
                fail = Some(f);
            }
        }
        if st.distinct.len() < DISTINCT_CAP {
            st.distinct.extend(o.distinct);
        }
        for (k, v) in o.classes {
            *st.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            st.known.entry(k).or_insert(v);
        }
        samples.extend(o.samples);
    }
    samples.sort();
    for (i, s) in samples.into_iter().take(2) {
        st.samples.push(format!("{}[{}]: {}", sub.name, i, s));
    }
    st.evaluations += n;
    st.per_sub[sub_no].1 += n;
    (fail, timed_out.load(Ordering::Relaxed))
}

fn new_stats(prop: &Prop) -> Stats {
    Stats {
        evaluations: 0,
        distinct: HashSet::new(),
        classes: BTreeMap::new(),
        known: BTreeMap::new(),
        samples: Vec::new(),
        per_sub: prop
            .subs
            .iter()
            .map(|s| (s.name.to_string(), 0, matches!(s.kind, Kind::Every(_))))
            .collect(),
    }
}

fn handle_failure(run: &Run, sub_no: usize, index: u64, first: String, state: Option<&std::fs::File>, st: &mut Stats) -> i32 {
    let sub = run.prop.subs[sub_no];
    // if a smaller case ends the process, the parent still knows this one
    if let Some(f) = state {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(sub_no as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&index.to_le_bytes());
        let _ = f.write_at(&b, 0);
    }
    let (send, recv) = std::sync::mpsc::channel();
    let seed = case_seed(run.seed, run.prop.id, sub.name, index);
    let _ = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        // what went before in the process may matter, so give it a few runs
        for _ in 0..5 {
            let mut ctx = Ctx::default();
            ctx.start(false);
            let mut src = Src::random(seed, index);
            if let Err(msg) = run_case(sub.f, &mut src, &mut ctx) {
                let full = (src.tape.clone(), msg.clone());
                let _ = send.send(full);
                let _ = send.send(shrink(sub.f, index, src.tape, msg));
                return;
            }
        }
    });
    // the whole case, then its smallest form, if that does not take for ever
    let mut found = recv.recv_timeout(Duration::from_secs(300)).ok();
    if found.is_some() {
        if let Ok(small) = recv.recv_timeout(Duration::from_secs(60)) {
            found = Some(small);
        }
    }
    let Some((tape, msg)) = found else {
        let msg = format!("{} (once; not when the case runs on its own)", first);
        let path = write_replay(run.prop.id, sub.name, index, run.seed, None, &msg, "(see seed and index)");
        write_evidence(run, st, 1, &format!("violation in {}: {}", sub.name, msg));
        report_violation(run.prop.id, &path, sub.name, &msg, &format!("seed {} index {}", run.seed, index));
        return 1;
    };
    let mut ctx = Ctx::default();
    ctx.start(true);
    let mut src = Src::replay(tape.clone(), index);
    let msg = run_case(sub.f, &mut src, &mut ctx).err().unwrap_or(msg);
    let render = ctx.render.take().unwrap_or_default();
    let path = write_replay(run.prop.id, sub.name, index, run.seed, Some(&tape), &msg, &render);
    write_evidence(run, st, 1, &format!("violation in {}: {}", sub.name, msg));
    report_violation(run.prop.id, &path, sub.name, &msg, &render);
    1
}

fn spawn_watchdog(shards: std::sync::Arc<Vec<Shard>>, prop_id: &'static str, seed: u64) {
    let subs: Vec<&'static str> = props::get(prop_id).unwrap().subs.iter().map(|s| s.name).collect();
    std::thread::spawn(move || {
        let mut last: Vec<(u64, u64, Instant)> = shards.iter().map(|_| (0, 0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (k, s) in shards.iter().enumerate() {
                let c = s.case.load(Ordering::SeqCst);
                let tid = s.tid.load(Ordering::SeqCst);
                if c == 0 || tid == 0 {
                    last[k].0 = 0;
                    continue;
                }
                if last[k].0 != c {
                    last[k] = (c, thread_cpu_ms(tid), Instant::now());
                    continue;
                }
                let cpu = thread_cpu_ms(tid).saturating_sub(last[k].1);
                if cpu > HANG_CPU_MS || last[k].2.elapsed().as_secs() > 300 {
                    let sub = s.sub.load(Ordering::SeqCst) as usize;
                    let index = s.index.load(Ordering::SeqCst);
                    let msg = format!("one case used more than {} ms of CPU time without returning", HANG_CPU_MS);
                    let path = write_replay(prop_id, subs[sub], index, seed, None, &msg, "(see seed and index)");
                    report_violation(prop_id, &path, subs[sub], &msg, &format!("seed {} index {}", seed, index));
                    std::process::exit(1);
                }
            }
        }
    });
}

fn child(id: &str, tier: &str, seed: u64, state_path: &Path) -> i32 {
    limit_memory();
    install_hook();
    let prop = match props::get(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let shards: std::sync::Arc<Vec<Shard>> = std::sync::Arc::new(
        (0..threads)
            .map(|_| Shard {
                case: AtomicU64::new(0),
                sub: AtomicU64::new(0),
                index: AtomicU64::new(0),
                tid: AtomicU64::new(0),
            })
            .collect(),
    );
    spawn_watchdog(shards.clone(), prop.id, seed);
    let state = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(state_path).ok();
    let run = Run { prop: &prop, tier, seed, t0: Instant::now() };
    let mut st = new_stats(&prop);
    let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse::<u64>().ok());
    let budget = Duration::from_secs(budget.unwrap_or(if tier == "thorough" { 600 } else { 150 }));
    let deadline = run.t0 + budget;
    let listed = known_findings(prop.id);
    let mut round = 0u64;
    let mut note = String::new();
    'outer: loop {
        for sub_no in 0..prop.subs.len() {
            let (lo, hi) = match prop.subs[sub_no].kind {
                Kind::Every(n) => {
                    if round > 0 {
                        continue;
                    }
                    (0, n)
                }
                Kind::Random(n) => (round * n, (round + 1) * n),
            };
            let (fail, late) = run_range(
                &run, sub_no, lo, hi, threads, &shards, state.as_ref(), &mut st, deadline, round == 0,
            );
            if let Some((i, msg)) = fail {
                return handle_failure(&run, sub_no, i, msg, state.as_ref(), &mut st);
            }
            if late {
                let _ = write!(note, "time budget reached in {} (round {}); ", prop.subs[sub_no].name, round);
                if tier == "thorough" || Instant::now() > deadline {
                    break 'outer;
                }
            }
        }
        round += 1;
        let any_random = prop.subs.iter().any(|s| matches!(s.kind, Kind::Random(_)));
        // the first round always runs whole; the quick tier goes on for a while
        let more = if tier == "thorough" { round < 2000 } else { round < 25 && run.t0.elapsed() < Duration::from_secs(8) };
        if !more || !any_random || Instant::now() > deadline {
            break;
        }
    }
    for (k, m) in &st.known {
        if !listed.iter().any(|(l, _)| l == k) {
            println!("unlisted finding {}: {}", k, m);
            return 2;
        }
    }
    for (k, w) in &listed {
        println!("KNOWN-FINDING: property={} {} [{}]", prop.id, w, k);
    }
    if prop.subs.iter().enumerate().any(|(i, _)| st.per_sub[i].1 == 0) {
        note.push_str("some sub-checks did not run; ");
    }
    write_evidence(&run, &st, 0, &note);
    println!(
        "{} {} seed={}: {} cases, {} distinct non-trivial, no violation ({:.1}s) {}",
        prop.id,
        tier,
        seed,
        st.evaluations,
        st.distinct.len(),
        run.t0.elapsed().as_secs_f64(),
        note
    );
    0
}

fn parent(id: &str, tier: &str, seed: u64) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let state_path = dir.join(format!(".state-{}-{}", id, std::process::id()));
    let status = std::process::Command::new(&exe)
        .args(["child", id, "--tier", tier, "--seed", &seed.to_string(), "--state"])
        .arg(&state_path)
        .status();
    let state = std::fs::read(&state_path).unwrap_or_default();
    let _ = std::fs::remove_file(&state_path);
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot run child: {}", e);
            return 2;
        }
    };
    if let Some(c) = status.code() {
        return c;
    }
    // The child died on a signal: a case aborted the process (stack overflow,
    // memory exhaustion, double panic).  Find it.
    eprintln!("child ended abnormally ({:?}); looking for the case", status.signal());
    let prop = match props::get(id) {
        Some(p) => p,
        None => return 2,
    };
    let mut cands = Vec::new();
    for c in state.chunks_exact(16) {
        let s = u64::from_le_bytes(c[..8].try_into().unwrap());
        let i = u64::from_le_bytes(c[8..].try_into().unwrap());
        if s > 0 {
            cands.push(((s - 1) as usize, i));
        }
    }
    cands.sort();
    for (s, i) in cands.iter().copied() {
        let name = prop.subs[s].name;
        let r = std::process::Command::new(&exe)
            .args(["one", id, name, &i.to_string(), &seed.to_string()])
            .stdout(std::process::Stdio::null())
            .status();
        if let Ok(st) = r {
            if st.code() != Some(0) {
                let msg = format!(
                    "the case ends the process abnormally (signal {:?}): stack overflow, memory exhaustion or abort",
                    st.signal()
                );
                let path = write_replay(id, name, i, seed, None, &msg, "(see seed and index)");
                let run = Run { prop: &prop, tier, seed, t0: Instant::now() };
                let mut stats = new_stats(&prop);
                stats.evaluations = 1;
                write_evidence(&run, &stats, 1, &msg);
                report_violation(id, &path, name, &msg, &format!("seed {} index {}", seed, i));
                return 1;
            }
        }
    }
    let sig = status.signal().unwrap_or(0);
    let (Some((s, i)), true) = (cands.first().copied(), [4, 6, 7, 8, 11].contains(&sig)) else {
        eprintln!("no single case reproduces the abnormal end");
        return 2;
    };
    // a fault of the process itself that needs what ran before
    let names: Vec<String> = cands.iter().map(|(s, i)| format!("{}[{}]", prop.subs[*s].name, i)).collect();
    let msg = format!("the process ended with signal {} while running {}; none of them does so alone", sig, names.join(", "));
    let path = write_replay(id, prop.subs[s].name, i, seed, None, &msg, "(see seed and index)");
    let run = Run { prop: &prop, tier, seed, t0: Instant::now() };
    let mut stats = new_stats(&prop);
    stats.evaluations = 1;
    write_evidence(&run, &stats, 1, &msg);
    report_violation(id, &path, prop.subs[s].name, &msg, &format!("seed {} index {}", seed, i));
    1
}

fn one(id: &str, sub: &str, src: &mut Src) -> i32 {
    limit_memory();
    install_hook();
    let prop = props::get(id).expect("property");
    let s = prop.subs.iter().find(|s| s.name == sub).expect("sub-check");
    let f = s.f;
    let shards: std::sync::Arc<Vec<Shard>> = std::sync::Arc::new(vec![Shard {
        case: AtomicU64::new(1),
        sub: AtomicU64::new(0),
        index: AtomicU64::new(src.index),
        tid: AtomicU64::new(own_tid()),
    }]);
    spawn_watchdog(shards, prop.id, 0);
    let mut ctx = Ctx::default();
    ctx.start(true);
    let r = run_case(f, src, &mut ctx);
    println!("case: {}", ctx.render.take().unwrap_or_default());
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("failed: {}", m);
            1
        }
    }
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| -> Option<String> {
        text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')).map(|s| s.to_string()))
    };
    let id = get("property").expect("property");
    let sub = get("sub").expect("sub");
    let index: u64 = get("index").and_then(|s| s.parse().ok()).unwrap_or(0);
    let seed: u64 = get("seed").and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut src = match get("tape") {
        Some(t) => Src::replay(t.split_whitespace().map(|x| x.parse().unwrap()).collect(), index),
        None if text.lines().any(|l| l == "tape" || l == "tape ") => Src::replay(vec![], index),
        None => Src::random(case_seed(seed, &id, &sub, index), index),
    };
    let r = one(&id, &sub, &mut src);
    if r == 1 {
        println!("VIOLATION property={} replay={}", id, file);
    }
    r
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let seed: u64 = opt("--seed", "1").parse().unwrap_or_else(|_| hash_str(&opt("--seed", "1")) >> 1);
    let tier = opt("--tier", "quick");
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => parent(&a[1], &tier, seed),
        Some("child") => child(&a[1], &tier, seed, Path::new(&opt("--state", "/dev/null"))),
        Some("replay") => replay(&a[1]),
        Some("one") => {
            let index: u64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let mut src = Src::random(case_seed(seed, &a[1], &a[2], index), index);
            one(&a[1], &a[2], &mut src)
        }
        Some("list") => {
            for id in props::IDS {
                println!("{}", id);
            }
            0
        }
        _ => {
            eprintln!("usage: webcheck check ID --tier T --seed N | replay FILE | one ID SUB INDEX SEED | list");
            2
        }
    };
    std::process::exit(code);
}
