//! C18's interpreter phase: generated tasks distributed over parallel Miri processes, plus the
//! probes for the known findings.
use crate::gen::{self, Gen, Spec};
use crate::model::{mix, Case};
use crate::props::ub::PARTS;
use crate::run::{Summary, Violation};
use serde_json::json;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PROCS: usize = 8;
/// No verdict (never a violation) when one interpreter needs longer than this for its batch.
const LIMIT: Duration = Duration::from_secs(600);

#[derive(Clone)]
pub struct Task {
    pub part: usize,
    pub flavour: u64,
    pub case: Case,
}
impl Task {
    fn arg(&self) -> String {
        format!("{}:{}:{}", PARTS[self.part].0, self.flavour, self.case.compact())
    }
    pub fn parse(s: &str) -> Option<Task> {
        let mut it = s.splitn(3, ':');
        let p = it.next()?;
        let part = PARTS.iter().position(|x| x.0 == p)?;
        Some(Task { part, flavour: it.next()?.parse().ok()?, case: Case::from_compact(it.next()?)? })
    }
}
pub fn manifest_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR"))
}
fn command(model: &str, args: &[String]) -> Command {
    let mut c = Command::new("cargo");
    let flags = match model {
        "stacked" => "-Zmiri-disable-isolation -Zmiri-ignore-leaks",
        _ => "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows",
    };
    c.current_dir(manifest_dir())
        .args(["+nightly", "miri", "run", "-q", "--offline", "--no-default-features", "--bin", "vmiri", "--target-dir", "target/miri", "--"])
        .args(args)
        .env("MIRIFLAGS", flags)
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR")
        .stdin(Stdio::null());
    c
}
pub enum Out {
    Clean { evals: u64, distinct: u64, mismatches: u64 },
    Ub { task: String, message: String },
    Unclear(String),
}
fn judge(ok: bool, out: &str, err: &str) -> Out {
    let last = out.lines().filter_map(|l| l.strip_prefix("BEGIN ")).last().unwrap_or("").to_string();
    if let Some(l) = err.lines().find(|l| l.starts_with("error: Undefined Behavior")) {
        let at: Vec<&str> = err.lines().filter(|l| l.contains("-->") || l.contains("tree_iterators_rs")).map(|l| l.trim()).take(4).collect();
        return Out::Ub { task: last, message: format!("Miri: {} ({})", l, at.join(" ")) };
    }
    let end = out.lines().find_map(|l| l.strip_prefix("END evals="));
    match (ok, end) {
        (true, Some(e)) => {
            let mut n = e.split(" distinct=").map(|x| x.parse().unwrap_or(0));
            let (evals, distinct) = (n.next().unwrap_or(0), n.next().unwrap_or(0));
            Out::Clean { evals, distinct, mismatches: out.lines().filter(|l| l.starts_with("MISMATCH")).count() as u64 }
        }
        _ => {
            let e: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).take(3).collect();
            Out::Unclear(format!("interpreter stopped without a report in {}: {}", last, e.join(" | ")))
        }
    }
}
pub fn run_batch(model: &str, args: &[String], dir: &Path, tag: &str, limit: Duration) -> Out {
    let (po, pe) = (dir.join(format!("miri-{}.out", tag)), dir.join(format!("miri-{}.err", tag)));
    let mut ch = match command(model, args).stdout(fs::File::create(&po).unwrap()).stderr(fs::File::create(&pe).unwrap()).spawn() {
        Ok(c) => c,
        Err(e) => return Out::Unclear(format!("cannot start cargo miri: {}", e)),
    };
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let (o, e) = (fs::read_to_string(&po).unwrap_or_default(), fs::read_to_string(&pe).unwrap_or_default());
            return judge(st.success(), &o, &e);
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Out::Unclear("timeout".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
/// A fixed list: every (operation group, node type) with `rounds` different generated inputs.
pub fn tasks(seed: u64, rounds: u64) -> Vec<Task> {
    let small: Vec<Case> = gen::exhaustive(&Spec { ex_t: 4, ex_b: 3, random: 0, max_nodes: 0, forest: true, big: &[] })
        .into_iter()
        .filter(|c| c.nodes() >= 2 && !c.forest.is_empty())
        .collect();
    let g = Gen::new(&Spec { ex_t: 0, ex_b: 0, random: 0, max_nodes: 7, forest: true, big: &[] }, mix(seed, 0x4d495249));
    let mut out = vec![];
    let mut j = 0u64;
    for r in 0..rounds {
        for (bin, flavours) in [(false, 6u64), (true, 2)] {
            for flavour in 0..flavours {
                // Serialisation (C16) uses no unsafe code and is slow to interpret: ASan only.
                for part in (0..PARTS.len()).filter(|p| PARTS[*p].0 != "C16") {
                    let h = mix(mix(seed, r), mix(flavour * 100 + part as u64, bin as u64));
                    let mut case;
                    if r % 2 == 0 {
                        let of: Vec<&Case> = small.iter().filter(|c| c.bin == bin && (PARTS[part].2 || c.forest.len() == 1)).collect();
                        // Prefer the larger of the small ones.
                        let n = of.len() as u64;
                        case = of[(n - 1 - (h % n).min((h >> 20) % n)) as usize].clone();
                        case.nums = (0..8).map(|i| mix(h, i) as u16).collect();
                    } else {
                        loop {
                            case = g.case(j);
                            j += 1;
                            if case.bin == bin && (2..=8).contains(&case.nodes()) && !case.forest.is_empty() {
                                break;
                            }
                        }
                    }
                    out.push(Task { part, flavour, case });
                }
            }
        }
    }
    out
}
/// Run the interpreter phase and fold it into `sum`.
pub fn phase(model: &str, seed: u64, rounds: u64, budget: Duration, dir: &Path, sum: &mut Summary) -> Result<serde_json::Value, String> {
    let start = Instant::now();
    // Build once, so that the parallel runs find everything up to date.
    match run_batch(model, &[], dir, "build", Duration::from_secs(600)) {
        Out::Clean { .. } => {}
        Out::Ub { message, .. } => return Err(message),
        Out::Unclear(m) => return Err(format!("building for Miri: {} {}", m, fs::read_to_string(dir.join("miri-build.err")).unwrap_or_default().lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join(" | "))),
    }
    let built = start.elapsed();
    let ts = tasks(seed, rounds);
    // Small batches from a shared queue keep all interpreters busy until the end.
    let batches: Vec<Vec<String>> = ts.chunks(6).map(|c| c.iter().map(|t| t.arg()).collect()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let left_out = std::sync::atomic::AtomicUsize::new(0);
    let outs: Vec<Out> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..PROCS)
            .map(|_| {
                s.spawn(|| {
                    let mut mine = vec![];
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let Some(b) = batches.get(i) else { return mine };
                        // On a slow or busy machine the tail of the (fixed) list is left out and reported as such.
                        if start.elapsed() - built > budget {
                            left_out.fetch_add(b.len(), std::sync::atomic::Ordering::SeqCst);
                            continue;
                        }
                        let out = run_batch(model, b, dir, &i.to_string(), LIMIT);
                        let stop = matches!(out, Out::Ub { .. });
                        mine.push(out);
                        if stop {
                            // Enough: the others finish the batch they are on.
                            next.store(batches.len(), std::sync::atomic::Ordering::SeqCst);
                        }
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let (mut evals, mut distinct, mut mism) = (0, 0, 0);
    let mut unclear = None;
    for o in outs {
        match o {
            Out::Clean { evals: e, distinct: d, mismatches } => {
                evals += e;
                distinct += d;
                mism += mismatches;
            }
            Out::Ub { task, message } => {
                if sum.violation.is_none() {
                    sum.violation = Some(confirm(model, task, message, dir));
                }
            }
            Out::Unclear(m) => unclear = Some(m),
        }
    }
    if sum.violation.is_none() {
        if let Some(m) = unclear {
            return Err(m);
        }
    }
    sum.evals += evals;
    sum.distinct += distinct;
    let left_out = left_out.into_inner();
    sum.cases += (ts.len() - left_out) as u64;
    Ok(json!({
        "model": model,
        "tasks": ts.len() - left_out,
        "tasks_left_out_for_time": left_out,
        "operations_interpreted": evals,
        "distinct_nontrivial": distinct,
        "answers_other_checks_judge_wrong": mism,
        "build_s": built.as_secs_f64().round(),
        "run_s": (start.elapsed() - built).as_secs_f64().round(),
        "sample_tasks": ts.iter().step_by(ts.len() / 6 + 1).map(|t| t.arg()).collect::<Vec<_>>(),
    }))
}
/// Repeat the reported task on its own and make it smaller.
fn confirm(model: &str, task: String, message: String, dir: &Path) -> Violation {
    let Some(t) = Task::parse(&task) else {
        return Violation { message, replay: json!({"miri": {"model": model, "task": task}}) };
    };
    let mut best = (task.clone(), message);
    let (_, _) = gen::shrink(&t.case, 24, Duration::from_secs(90), &mut |k| {
        let a = Task { part: t.part, flavour: t.flavour, case: k.clone() }.arg();
        match run_batch(model, &[a.clone()], dir, "shrink", Duration::from_secs(60)) {
            Out::Ub { message, .. } => {
                best = (a, message.clone());
                Some(message)
            }
            _ => None,
        }
    });
    Violation { message: best.1, replay: json!({"miri": {"model": model, "task": best.0}}) }
}
