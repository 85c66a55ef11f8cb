//! Supervisor and workers. The supervisor never runs code under test itself: workers (one process
//! per shard) do, so a crash of the code under test is observed, re-run and reported.
use crate::gen::{self, Gen, Spec};
use crate::model::{mix, Case};
use crate::obs::Obs;
use crate::registry::{all, Prop};
use crate::val;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const SHARDS: u64 = 8;
/// Only has an effect in the AddressSanitizer build (C18).
const ASAN: &str = "abort_on_error=1:detect_leaks=0:symbolize=1:handle_abort=0:detect_stack_use_after_return=1";
const STACK: usize = 512 << 20;
/// A worker that has not moved on to its next case for this long is stopped (error, not violation).
const STALL: Duration = Duration::from_secs(180);

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// How the messages of the language's own checks for undefined behaviour start.
const UB_PANICS: &[&str] = &[
    "unsafe precondition(s) violated",
    "misaligned pointer dereference",
    "null pointer dereference occurred",
    "trying to construct an enum from an invalid value",
];
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // What the compiler's own checks say about undefined behaviour, for whoever finds the process dead.
        if UB_PANICS.iter().any(|u| msg.contains(u)) {
            eprintln!("{} ({})", msg, at);
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{} ({})", msg, at));
    }));
}
/// Run the check on one case; any panic that escapes is a failure.
pub fn run_case(p: &Prop, c: &Case, o: &mut Obs) -> Result<(), String> {
    o.begin(c);
    val::reset();
    let r = catch_unwind(AssertUnwindSafe(|| (p.check)(c, o)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    val::reset();
    r
}
fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(70))
}
fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
fn spec(p: &Prop, tier: &str) -> Spec {
    let mut s = if tier == "thorough" { p.thorough } else { p.quick };
    // For trying things out by hand.
    if let Some(n) = std::env::var("VH_RANDOM").ok().and_then(|n| n.parse().ok()) {
        s.random = n;
    }
    s
}
/// The deterministic list of inputs: all small ones, then the random ones of this seed.
struct Inputs {
    ex: Vec<Case>,
    big: usize,
    gen: Gen,
    n: u64,
}
impl Inputs {
    fn new(p: &Prop, s: &Spec, seed: u64) -> Inputs {
        let mut ex = gen::exhaustive(s);
        let big = gen::big(s);
        let count = big.len();
        ex.extend(big);
        let n = ex.len() as u64 + s.random;
        let tag = p.id.bytes().fold(0u64, |a, b| mix(a, b as u64));
        Inputs { ex, big: count, gen: Gen::new(s, mix(seed, tag)), n }
    }
    fn case(&self, g: u64) -> Case {
        match self.ex.get(g as usize) {
            Some(c) => c.clone(),
            None => self.gen.case(g - self.ex.len() as u64),
        }
    }
}

// ------------------------------------------------------------------ worker

fn worker(id: &str, tier: &str, seed: u64, shard: u64, dir: PathBuf) -> i32 {
    quiet_panics();
    let (id, tier) = (id.to_string(), tier.to_string());
    on_big_stack(move || {
        let p = find(&id).unwrap();
        let s = spec(&p, &tier);
        let inp = Inputs::new(&p, &s, seed);
        let slot = fs::File::create(dir.join(format!("slot{}", shard))).unwrap();
        let mut o = Obs { thorough: tier == "thorough", ..Obs::default() };
        let mut g = shard;
        let (mut cases, mut biggest) = (0u64, 0usize);
        let mut samples = vec![];
        let mut fail = Value::Null;
        while g < inp.n {
            let c = inp.case(g);
            slot.write_at(&g.to_le_bytes(), 0).unwrap();
            cases += 1;
            biggest = biggest.max(c.nodes());
            let before = o.hashes.len();
            let r = run_case(&p, &c, &mut o);
            if o.hashes.len() > before && (samples.is_empty() || (g >= inp.ex.len() as u64 && samples.len() < 3 && c.nodes() <= 24)) {
                samples.push(c.text());
            }
            if let Err(msg) = r {
                // Written before shrinking, in case shrinking itself brings the process down.
                fail = json!({"case": c.json(), "message": msg, "index": g});
                fs::write(dir.join(format!("fail{}.json", shard)), fail.to_string()).unwrap();
                let mut dummy = Obs { thorough: o.thorough, ..Obs::default() };
                let (small, m) = gen::shrink(&c, 6000, Duration::from_secs(40), &mut |k| {
                    dummy.hashes.clear();
                    run_case(&p, k, &mut dummy).err()
                });
                if let Some(m) = m {
                    fail["shrunk"] = small.json();
                    fail["message"] = json!(m);
                }
                break;
            }
            g += SHARDS;
        }
        o.compact();
        let bytes: Vec<u8> = o.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
        fs::write(dir.join(format!("hash{}", shard)), bytes).unwrap();
        let out = json!({"evals": o.evals, "cases": cases, "biggest": biggest, "classes": o.classes, "samples": samples, "fail": fail,
            "exhaustive_cases": inp.ex.len() - inp.big, "big_cases": inp.big, "last": g});
        fs::write(dir.join(format!("out{}.json", shard)), out.to_string()).unwrap();
        0
    })
}
/// Run exactly one case from a file. Exit 0 held, 1 failed (message on stdout).
fn one(id: &str, file: &str, thorough: bool) -> i32 {
    quiet_panics();
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("replay JSON");
    let c = Case::from_json(&v["case"]).expect("case");
    let p = find(id).expect("property");
    on_big_stack(move || {
        let mut o = Obs { thorough, ..Obs::default() };
        match run_case(&p, &c, &mut o) {
            Ok(()) => 0,
            Err(m) => {
                println!("{}", m);
                1
            }
        }
    })
}

// ------------------------------------------------------------------ supervisor

/// Does this abnormal end show undefined behaviour (as opposed to, say, a double panic)?
fn is_ub(sig: i32, err: &str) -> bool {
    if UB_PANICS.iter().any(|u| err.contains(u)) {
        return true;
    }
    if let Some(i) = err.find("AddressSanitizer: ") {
        let kind = err[i + 18..].split_whitespace().next().unwrap_or("");
        return !["stack-overflow", "out-of-memory", "allocation-size-too-big", "calloc-overflow", "rss-limit-exceeded", "requested"].contains(&kind);
    }
    (sig == 11 || sig == 7 || sig == 4) && !err.contains("has overflowed its stack")
}
fn headline(err: &str) -> String {
    let l: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
    let i = l.iter().position(|l| l.contains("AddressSanitizer: ")).unwrap_or(0);
    let mut s = l.get(i).unwrap_or(&"").to_string();
    if let Some(f) = l.iter().skip(i).find(|l| l.trim_start().starts_with('#') && l.contains("tree_iterators_rs")) {
        s.push_str(" at ");
        s.push_str(f.trim());
    }
    s
}
enum Verdict {
    Held,
    Fails(String),
    Crashes(String),
    Unclear(String),
}
fn probe(id: &str, case: &Value, dir: &Path, thorough: bool, limit: Duration) -> Verdict {
    let f = dir.join("probe.json");
    fs::write(&f, json!({ "case": case }).to_string()).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["one", id, f.to_str().unwrap(), if thorough { "thorough" } else { "quick" }])
        .env("ASAN_OPTIONS", ASAN)
        .stdout(Stdio::piped())
        .stderr(fs::File::create(dir.join("probe.err")).unwrap())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            use std::io::Read;
            let mut s = String::new();
            let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
            let err = fs::read_to_string(dir.join("probe.err")).unwrap_or_default();
            return match (st.code(), st.signal()) {
                (Some(0), _) => Verdict::Held,
                (Some(1), _) => Verdict::Fails(s.trim().to_string()),
                (_, Some(sig)) if sig != 9 && sig != 15 && !err.contains("memory allocation of") && (id != "C18" || is_ub(sig, &err)) => {
                    Verdict::Crashes(format!("process killed by signal {} {}", sig, headline(&err)))
                }
                (c, s) => Verdict::Unclear(format!("exit {:?} signal {:?} {}", c, s, err)),
            };
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Verdict::Unclear("timeout".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
fn spawn_worker(id: &str, tier: &str, seed: u64, shard: u64, dir: &Path) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tier, &seed.to_string(), &shard.to_string(), dir.to_str().unwrap()])
        .env("ASAN_OPTIONS", ASAN)
        .stdout(Stdio::null())
        .stderr(fs::File::create(dir.join(format!("err{}", shard))).unwrap())
        .spawn()
        .unwrap()
}
fn read_json(p: PathBuf) -> Option<Value> {
    serde_json::from_str(&fs::read_to_string(p).ok()?).ok()
}
fn slot_of(dir: &Path, shard: u64) -> u64 {
    fs::read(dir.join(format!("slot{}", shard))).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(0)
}
pub struct Violation {
    pub message: String,
    pub replay: Value,
}
pub struct Summary {
    pub evals: u64,
    pub cases: u64,
    pub biggest: u64,
    pub distinct: u64,
    pub classes: serde_json::Map<String, Value>,
    pub samples: Vec<Value>,
    pub exhaustive_cases: u64,
    pub big_cases: u64,
    pub violation: Option<Violation>,
}
/// Run all shards of one property. `Err` is an infrastructure problem (no verdict).
pub fn campaign(p: &Prop, tier: &str, seed: u64, dir: &Path) -> Result<Summary, String> {
    let id = p.id;
    let thorough = tier == "thorough";
    let mut kids: Vec<_> = (0..SHARDS).map(|s| Some(spawn_worker(id, tier, seed, s, dir))).collect();
    let mut seen = vec![(u64::MAX, Instant::now()); SHARDS as usize];
    let mut ended: Vec<Option<std::process::ExitStatus>> = vec![None; SHARDS as usize];
    let mut stalled = None;
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(5));
        for s in 0..SHARDS as usize {
            if let Some(k) = &mut kids[s] {
                if let Some(st) = k.try_wait().unwrap() {
                    ended[s] = Some(st);
                    kids[s] = None;
                    continue;
                }
                let g = slot_of(dir, s as u64);
                if g != seen[s].0 {
                    seen[s] = (g, Instant::now());
                } else if seen[s].1.elapsed() > STALL {
                    let _ = k.kill();
                    let _ = k.wait();
                    kids[s] = None;
                    stalled = Some(s);
                }
            }
        }
    }
    let sp = spec(p, tier);
    let mut sum = Summary {
        evals: 0,
        cases: 0,
        biggest: 0,
        distinct: 0,
        classes: Default::default(),
        samples: vec![],
        exhaustive_cases: 0,
        big_cases: 0,
        violation: None,
    };
    let mut unclear = None;
    let mut hashes: Vec<u64> = vec![];
    for s in 0..SHARDS {
        let out = read_json(dir.join(format!("out{}.json", s)));
        if let Some(out) = &out {
            sum.evals += out["evals"].as_u64().unwrap();
            sum.cases += out["cases"].as_u64().unwrap();
            sum.biggest = sum.biggest.max(out["biggest"].as_u64().unwrap());
            sum.exhaustive_cases = out["exhaustive_cases"].as_u64().unwrap();
            sum.big_cases = out["big_cases"].as_u64().unwrap();
            for (k, v) in out["classes"].as_object().unwrap() {
                let n = sum.classes.get(k).and_then(|v| v.as_u64()).unwrap_or(0) + v.as_u64().unwrap();
                sum.classes.insert(k.clone(), json!(n));
            }
            sum.samples.extend(out["samples"].as_array().unwrap().iter().take(2).cloned());
            let b = fs::read(dir.join(format!("hash{}", s))).unwrap_or_default();
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        if sum.violation.is_some() || stalled == Some(s as usize) {
            continue;
        }
        // A failing comparison, possibly followed by a crash while shrinking.
        let fail = out.as_ref().map(|o| o["fail"].clone()).filter(|f| !f.is_null()).or_else(|| read_json(dir.join(format!("fail{}.json", s))));
        let crashed = out.is_none();
        let mut tries: Vec<(Value, String)> = vec![];
        if let Some(f) = &fail {
            let m = f["message"].as_str().unwrap_or("").to_string();
            if !f["shrunk"].is_null() {
                tries.push((f["shrunk"].clone(), m.clone()));
            }
            tries.push((f["case"].clone(), m));
        } else if crashed {
            let inp = Inputs::new(p, &sp, seed);
            let g = slot_of(dir, s);
            if g < inp.n {
                tries.push((inp.case(g).json(), String::new()));
            }
        } else {
            continue;
        }
        for (case, _) in &tries {
            match probe(id, case, dir, thorough, Duration::from_secs(60)) {
                Verdict::Fails(m) => {
                    sum.violation = Some(Violation { message: m, replay: json!({"case": case}) });
                }
                Verdict::Crashes(m) => {
                    let c = Case::from_json(case).unwrap();
                    let mut last = m.clone();
                    let (small, _) = gen::shrink(&c, 400, Duration::from_secs(40), &mut |k| match probe(id, &k.json(), dir, thorough, Duration::from_secs(20)) {
                        Verdict::Crashes(m) => {
                            last = m.clone();
                            Some(m)
                        }
                        _ => None,
                    });
                    sum.violation = Some(Violation { message: last, replay: json!({"case": small.json()}) });
                }
                Verdict::Held => continue,
                Verdict::Unclear(m) => {
                    unclear = Some(m);
                    continue;
                }
            }
            break;
        }
        if sum.violation.is_none() {
            // Only happens together with the inputs before it: repeat the shard to confirm.
            let g = slot_of(dir, s);
            let first = fail.as_ref().map(|f| f["message"].to_string()).unwrap_or_else(|| format!("worker ended with {:?}", ended[s as usize]));
            let again = dir.join(format!("again{}", s));
            fs::create_dir_all(&again).unwrap();
            let st = spawn_worker(id, tier, seed, s, &again).wait().unwrap();
            let f2 = read_json(again.join(format!("out{}.json", s))).map(|o| o["fail"].clone()).filter(|f| !f.is_null()).or_else(|| read_json(again.join(format!("fail{}.json", s))));
            let oom = |d: &Path| fs::read_to_string(d.join(format!("err{}", s))).unwrap_or_default().contains("memory allocation of");
            let sig_ok = |st: Option<std::process::ExitStatus>| st.and_then(|x| x.signal()).map_or(false, |x| x != 9 && x != 15);
            let both_crash = crashed && sig_ok(ended[s as usize]) && sig_ok(Some(st)) && !oom(dir) && !oom(&again);
            let ub = |d: &Path, st: Option<std::process::ExitStatus>| {
                let e = fs::read_to_string(d.join(format!("err{}", s))).unwrap_or_default();
                id != "C18" || st.and_then(|x| x.signal()).map_or(false, |sig| is_ub(sig, &e))
            };
            let both_crash = both_crash && ub(dir, ended[s as usize]) && ub(&again, Some(st));
            if (fail.is_some() && f2.is_some()) || both_crash {
                sum.violation = Some(Violation {
                    message: format!("{} (only after the inputs before it in the same process, twice)", first),
                    replay: json!({"worker": {"tier": tier, "seed": seed, "shard": s, "last_index": g}}),
                });
            } else {
                unclear = Some(format!("shard {}: {} did not reproduce", s, first));
            }
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    sum.distinct = hashes.len() as u64;
    if sum.violation.is_none() {
        if let Some(u) = unclear {
            return Err(u);
        }
        if let Some(s) = stalled {
            return Err(format!("shard {} made no progress for {:?} (input index {})", s, STALL, slot_of(dir, s as u64)));
        }
    }
    Ok(sum)
}

fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1)
}
pub fn finish(p: &Prop, tier: &str, seed: u64, start: Instant, sum: Summary, extra: Value) -> i32 {
    let sp = spec(p, tier);
    let root = verif_root();
    let mut cov = json!({
        "evaluations": sum.evals,
        "distinct_nontrivial": sum.distinct,
        "rule": p.rule,
        "samples": sum.samples,
        "inputs_run": sum.cases,
        "exhaustive_inputs": sum.exhaustive_cases,
        "exhaustive_bound": format!("{}: every general shape up to {} nodes, every binary shape up to {} nodes", if sp.forest {"forests by total node count"} else {"single trees"}, sp.ex_t, sp.ex_b),
        "fixed_large_inputs": sum.big_cases,
        "random_inputs": sp.random,
        "largest_input_nodes": sum.biggest,
        "classes": sum.classes,
    });
    if let (Some(c), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            c.insert(k.clone(), v.clone());
        }
    }
    let mut ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "violations": 0,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    let mut code = 0;
    if let Some(v) = &sum.violation {
        let rp = root.join("replays").join(format!("{}-seed{}-{}.json", p.id, seed, tier));
        fs::create_dir_all(rp.parent().unwrap()).unwrap();
        let mut r = v.replay.clone();
        r["property"] = json!(p.id);
        r["tier"] = json!(tier);
        r["message"] = json!(v.message);
        fs::write(&rp, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        ev["violations"] = json!(1);
        ev["coverage"]["violation"] = json!({ "replay": rp.to_str().unwrap(), "message": v.message });
        println!("{}", v.message);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        code = 1;
    }
    fs::create_dir_all(root.join("evidence")).unwrap();
    fs::write(root.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    if code == 0 {
        println!("{} {} held: {} executions, {} distinct non-trivial, {:.1} s", p.id, tier, sum.evals, sum.distinct, start.elapsed().as_secs_f64());
    }
    code
}
fn check(id: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let Some(p) = find(id) else {
        eprintln!("unknown property {}", id);
        return 64;
    };
    let dir = verif_root().join("harness/target/run").join(format!("{}-{}", id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = if id == "C18" { c18(&p, tier, &dir) } else { campaign(&p, tier, seed(), &dir).map(|s| (s, json!({}))) };
    let code = match r {
        Ok((sum, extra)) => finish(&p, tier, seed(), start, sum, extra),
        Err(e) => {
            eprintln!("ERROR property={} no verdict: {}", id, e);
            2
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}
/// AddressSanitizer campaign, known-finding probes, interpreter phase.
fn c18(p: &Prop, tier: &str, dir: &Path) -> Result<(Summary, Value), String> {
    if std::env::var("VH_ASAN").is_err() {
        return Err("C18 must be run from the AddressSanitizer build (see check.sh)".into());
    }
    let t = Instant::now();
    let mut sum = campaign(p, tier, seed(), dir)?;
    let asan_s = t.elapsed().as_secs_f64();
    let mut extra = json!({"asan": {"executions": sum.evals, "inputs": sum.cases, "wall_s": asan_s.round()}});
    let listed = fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
    let mut kf = vec![];
    for (name, what) in KNOWN {
        let out = Command::new(std::env::current_exe().unwrap()).args(["probe", name]).env("ASAN_OPTIONS", ASAN).output().map_err(|e| e.to_string())?;
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        if !out.status.signal().map_or(false, |s| is_ub(s, &err)) {
            continue;
        }
        if listed.lines().any(|l| l.starts_with("open:") && l.contains("property=C18") && l.contains(&format!("probe={} ", name))) {
            println!("KNOWN-FINDING: property=C18 {} {}", name, what);
            kf.push(json!({"probe": name, "what": what, "report": headline(&err)}));
        } else if sum.violation.is_none() {
            sum.violation = Some(Violation { message: format!("{}: {}", what, headline(&err)), replay: json!({"probe": name}) });
        }
    }
    extra["known_findings_still_present"] = json!(kf);
    if sum.violation.is_none() {
        let models: &[(&str, u64)] = if tier == "thorough" { &[("tree", 10), ("stacked", 4)] } else { &[("tree", 2)] };
        let budget = Duration::from_secs(if tier == "thorough" { 7200 } else { 300 });
        let rounds = std::env::var("VH_ROUNDS").ok().and_then(|n| n.parse().ok());
        let mut m = vec![];
        for (model, r) in models {
            if sum.violation.is_none() {
                m.push(crate::miri::phase(model, seed(), rounds.unwrap_or(*r), budget, dir, &mut sum)?);
            }
        }
        extra["miri"] = json!(m);
    }
    Ok((sum, extra))
}
const KNOWN: &[(&str, &str)] = &[
    ("KF-1a", "dfs_postorder_iter().attach_context() on nodes whose borrowed children collection owns memory (e.g. Vec<&Node>) frees that memory twice"),
    ("KF-1b", "dfs_postorder_iter_mut().attach_context() on nodes whose mutably borrowed children collection owns memory (e.g. Vec<&mut Node>) frees that memory twice"),
    ("KF-2a", "dfs_inorder_iter_mut().attach_context(): a child taken out of children_mut() stays usable while the traversal visits the same node (two live mutable references)"),
    ("KF-2b", "dfs_postorder_iter_mut().attach_context(): a value taken out of ancestors_mut() stays usable while its node is reachable through the parent's children() (two live mutable references)"),
];
fn probe_known(name: &str) -> i32 {
    use crate::props::ub::{kf1, kf2};
    match name {
        "KF-1a" => kf1(false),
        "KF-1b" => kf1(true),
        "KF-2a" => kf2(true),
        "KF-2b" => kf2(false),
        _ => return 64,
    }
    0
}
fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("replay JSON");
    let id = v["property"].as_str().expect("property").to_string();
    let tier = v["tier"].as_str().unwrap_or("quick").to_string();
    if let Some(n) = v["probe"].as_str() {
        return probe_known(n);
    }
    if let Some(m) = v.get("miri") {
        let dir = std::env::temp_dir().join(format!("vharness-replay-{}", std::process::id()));
        fs::create_dir_all(&dir).unwrap();
        let task = m["task"].as_str().unwrap().to_string();
        let out = crate::miri::run_batch(m["model"].as_str().unwrap(), &[task], &dir, "replay", Duration::from_secs(600));
        let _ = fs::remove_dir_all(&dir);
        return match out {
            crate::miri::Out::Ub { message, .. } => {
                println!("{}", message);
                1
            }
            crate::miri::Out::Clean { .. } => 0,
            crate::miri::Out::Unclear(m) => {
                eprintln!("{}", m);
                2
            }
        };
    }
    if let Some(w) = v.get("worker") {
        let dir = std::env::temp_dir().join(format!("vharness-replay-{}", std::process::id()));
        fs::create_dir_all(&dir).unwrap();
        return worker(&id, w["tier"].as_str().unwrap(), w["seed"].as_u64().unwrap(), w["shard"].as_u64().unwrap(), dir);
    }
    one(&id, file, tier == "thorough")
}
pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match s(1) {
        "check" => check(s(2), if s(3) == "thorough" { "thorough" } else { "quick" }),
        "worker" => worker(s(2), s(3), s(4).parse().unwrap(), s(5).parse().unwrap(), PathBuf::from(s(6))),
        "one" => one(s(2), s(3), s(4) == "thorough"),
        "replay" => replay(s(2)),
        "probe" => probe_known(s(2)),
        "list" => {
            for p in all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vharness check <ID> [quick|thorough] | replay <file> | list");
            64
        }
    }
}
