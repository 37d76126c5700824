use crate::choices::{Choices, fnv, mix};
use crate::ctx::{Ctx, R, Violation};
use crate::env;
use crate::json::J;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type Scenario = fn(&mut Ctx) -> R;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub scenarios: Vec<(&'static str, u64, Scenario)>,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// a run whose choices are fixed sweeps (first `sweep` runs get idx as `sweep` position)
    pub quick_secs: u64,
    pub thorough_secs: u64,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
}

/// A stable class for a panic: file plus the message with digits removed.
pub fn panic_class(text: &str) -> String {
    let mut s: String = text.chars().filter(|c| !c.is_ascii_digit()).collect();
    s.truncate(s.char_indices().nth(140).map(|x| x.0).unwrap_or(s.len()));
    format!("panic:{s}")
}

/// Run code under test; a panic becomes a violation.
pub fn guard<T>(f: impl FnOnce() -> T) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let t = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Violation { class: panic_class(&t), detail: format!("panic at {t}") })
        }
    }
}

pub struct Outcome {
    pub ctx: Ctx,
    pub result: R,
}

const STACK: usize = 8 << 20;

pub fn run_once(prop: &Prop, choices: Choices, tracing: bool) -> Outcome {
    let scen = &prop.scenarios;
    let mut choices = choices;
    let hash_seed = choices.u64();
    let r = env::with_hash_seed(hash_seed, STACK, move || {
        let mut ctx = Ctx::new(choices, tracing);
        let total: u64 = scen.iter().map(|s| s.1).sum();
        let mut w = ctx.c.below(total);
        let mut chosen = &scen[0];
        for s in scen {
            if w < s.1 {
                chosen = s;
                break;
            }
            w -= s.1;
        }
        ctx.ev(|| format!("scenario {}", chosen.0));
        ctx.probe(&format!("scenario:{}", chosen.0));
        let f = chosen.2;
        let result = match guard(|| f(&mut ctx)) {
            Ok(r) => r,
            Err(v) => Err(v),
        };
        if let Err(v) = &result {
            let d = v.detail.clone();
            ctx.fold_bytes(d.as_bytes());
            ctx.ev(|| format!("VIOLATION {d}"));
        }
        Outcome { ctx, result }
    });
    match r {
        Ok(o) => o,
        Err(_) => Outcome {
            ctx: Ctx::new(Choices::replay(vec![]), false),
            result: Err(Violation { class: "harness".into(), detail: "run thread panicked".into() }),
        },
    }
}

unsafe extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

fn arm_watchdog(secs: i64) {
    let v = [0i64, 0, secs, 0];
    unsafe { setitimer(2, &v, std::ptr::null_mut()) };
}

pub fn limit_process() {
    let lim = [6u64 << 30, 6u64 << 30];
    unsafe { setrlimit(9, &lim) };
    let core = [0u64, 0];
    unsafe { setrlimit(4, &core) };
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed, fnv(prop.as_bytes())), idx)
}

const WATCHDOG_SECS: i64 = 60;

// ---------------------------------------------------------------- worker

pub fn worker(prop: &Prop, seed: u64, lane: u64, lanes: u64, secs: u64, dir: &Path, known: &[String], max_runs: u64) {
    limit_process();
    let cur = std::fs::OpenOptions::new()
        .create(true).truncate(false).write(true).open(dir.join(format!("cur-{lane}"))).unwrap();
    let start = Instant::now();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut steps = 0u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut samples = Vec::new();
    let mut rechecks = 0u64;
    let mut recheck_bad = 0u64;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut digests: Vec<J> = Vec::new();
    let mut idx = lane;
    let mut viol = None;
    while start.elapsed() < Duration::from_secs(secs) && runs < max_runs {
        cur.write_all_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        arm_watchdog(WATCHDOG_SECS);
        let tracing = idx < 3;
        let s = run_seed(seed, prop.id, idx);
        let o = run_once(prop, Choices::record(s), tracing);
        runs += 1;
        steps += o.ctx.steps;
        if o.ctx.nontrivial {
            nontrivial += 1;
        }
        for (k, v) in &o.ctx.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.ctx.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        if sigs.len() < 3_000_000 {
            sigs.extend(o.ctx.sigs.iter().copied());
        }
        if idx < 200 {
            digests.push(J::Arr(vec![J::u(idx), J::u(o.ctx.digest)]));
        }
        if tracing {
            let mut t: Vec<J> = o.ctx.trace.iter().take(60).map(|s| J::s(s.clone())).collect();
            if o.ctx.trace.len() > 60 {
                t.push(J::s(format!("... {} more events", o.ctx.trace.len() - 60)));
            }
            samples.push(J::obj(vec![("run", J::u(idx)), ("seed", J::s(format!("{s:#x}"))), ("trace", J::Arr(t))]));
        }
        if let Err(v) = &o.result {
            if known.contains(&v.class) {
                *known_hits.entry(v.class.clone()).or_insert(0) += 1;
            } else {
                viol = Some((idx, s, v.clone(), o.ctx.c.log.clone()));
                break;
            }
        } else if runs % 64 == 1 {
            // determinism recheck: the same seed again (other addresses, other neighbours)
            let o2 = run_once(prop, Choices::record(s), false);
            rechecks += 1;
            if o2.ctx.digest != o.ctx.digest || o2.result.is_err() {
                recheck_bad += 1;
                if prop.id == "C05" {
                    viol = Some((
                        idx, s,
                        Violation { class: "nondeterministic".into(), detail: "two executions of one seed differ".into() },
                        o.ctx.c.log.clone(),
                    ));
                    break;
                }
            }
        }
        idx += lanes;
    }
    arm_watchdog(0);
    let mut out = vec![
        ("runs", J::u(runs)),
        ("nontrivial", J::u(nontrivial)),
        ("steps", J::u(steps)),
        ("faults", J::map(&faults)),
        ("probes", J::map(&probes)),
        ("samples", J::Arr(samples)),
        ("rechecks", J::u(rechecks)),
        ("recheck_bad", J::u(recheck_bad)),
        ("known", J::map(&known_hits)),
        ("digests", J::Arr(digests)),
    ];
    if let Some((idx, s, v, log)) = viol {
        out.push(("violation", violation_json(prop.id, s, idx, &v, &log)));
    }
    std::fs::write(dir.join(format!("out-{lane}.json")), J::obj(out).to_text()).unwrap();
    let mut b = Vec::with_capacity(sigs.len() * 8);
    for s in sigs {
        b.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(dir.join(format!("sig-{lane}")), b).unwrap();
}

fn violation_json(prop: &str, seed: u64, idx: u64, v: &Violation, log: &[u64]) -> J {
    J::obj(vec![
        ("property", J::s(prop)),
        ("run", J::u(idx)),
        ("seed", J::s(format!("{seed:#x}"))),
        ("class", J::s(v.class.clone())),
        ("detail", J::s(v.detail.clone())),
        ("choices", J::Arr(log.iter().map(|x| J::u(*x)).collect())),
    ])
}

// ---------------------------------------------------------------- replay / minimise

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub detail: String,
    pub choices: Vec<u64>,
}

pub fn load_replay(p: &Path) -> Option<Replay> {
    let j = J::parse(&std::fs::read_to_string(p).ok()?)?;
    let seed = j.get("seed")?.str()?.trim_start_matches("0x").to_string();
    Some(Replay {
        property: j.get("property")?.str()?.into(),
        seed: u64::from_str_radix(&seed, 16).ok()?,
        run: j.get("run")?.int()?,
        class: j.get("class")?.str()?.into(),
        detail: j.get("detail")?.str()?.into(),
        choices: j.get("choices")?.arr().iter().filter_map(|x| x.int()).collect(),
    })
}

fn is_crash(class: &str) -> bool {
    class.starts_with("crash:") || class.starts_with("hang:")
}

/// Whether the choices give a violation of `class`; returns the choices actually used.
fn try_choices(prop: &Prop, class: &str, choices: &[u64], dir: &Path) -> Option<Vec<u64>> {
    if is_crash(class) {
        let f = dir.join("cand.json");
        std::fs::write(&f, violation_json(prop.id, 0, 0, &Violation { class: class.into(), detail: String::new() }, choices).to_text()).unwrap();
        let st = Command::new(std::env::current_exe().unwrap())
            .arg("exec").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
        if let Some(sig) = st.signal() {
            if crash_class(sig) == class {
                return Some(choices.to_vec());
            }
        }
        return None;
    }
    let o = run_once(prop, Choices::replay(choices.to_vec()), false);
    match &o.result {
        Err(v) if v.class == class => {
            let mut c = choices.to_vec();
            c.truncate(o.ctx.c.used().min(c.len()));
            while c.last() == Some(&0) {
                c.pop();
            }
            Some(c)
        }
        _ => None,
    }
}

fn crash_class(sig: i32) -> String {
    match sig {
        27 => "hang:no progress within the CPU limit".into(),
        6 => "crash:SIGABRT".into(),
        11 | 7 => "crash:SIGSEGV".into(),
        9 => "crash:SIGKILL".into(),
        s => format!("crash:signal {s}"),
    }
}

pub fn minimise(prop: &Prop, class: &str, start: Vec<u64>, secs: u64, dir: &Path, save: &Path) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(secs);
    let mut best = start;
    let mut tries = 0u64;
    let write = |c: &Vec<u64>| {
        let _ = std::fs::write(save, J::Arr(c.iter().map(|x| J::u(*x)).collect()).to_text());
    };
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        tries += 1;
        if let Some(c) = try_choices(prop, class, cand, dir) {
            // strictly better: shorter or lexicographically smaller sum
            let key = |v: &[u64]| (v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
            if key(&c) < key(best) {
                *best = c;
                write(best);
                return true;
            }
        }
        false
    };
    let b0 = best.clone();
    attempt(&b0, &mut best);
    let mut progress = true;
    while progress && t0.elapsed() < limit {
        progress = false;
        // truncate
        let mut n = best.len() / 2;
        while n > 0 && t0.elapsed() < limit {
            if best.len() > n {
                let cand = best[..best.len() - n].to_vec();
                if attempt(&cand, &mut best) {
                    progress = true;
                    continue;
                }
            }
            n /= 2;
        }
        // delete / zero blocks
        let mut n = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < limit {
                let e = (i + n).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[e..]);
                if attempt(&cand, &mut best) {
                    progress = true;
                    continue;
                }
                if best[i..e.min(best.len())].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..e] {
                        *x = 0;
                    }
                    if attempt(&cand, &mut best) {
                        progress = true;
                    }
                }
                i += n;
            }
            if n == 1 || t0.elapsed() >= limit {
                break;
            }
            n = (n / 2).max(1);
        }
        // lower values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < limit {
            let v = best[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if nv < v && i < best.len() && best[i] == v {
                    let mut cand = best.clone();
                    cand[i] = nv;
                    if attempt(&cand, &mut best) {
                        progress = true;
                    }
                }
            }
            i += 1;
        }
    }
    (best, tries)
}

/// `sim replay FILE`: exit 1 with the VIOLATION line if it reproduces.
pub fn replay(props: &[Prop], path: &Path) -> i32 {
    let Some(r) = load_replay(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let Some(prop) = props.iter().find(|p| p.id == r.property) else {
        eprintln!("unknown property {}", r.property);
        return 2;
    };
    if is_crash(&r.class) {
        let st = Command::new(std::env::current_exe().unwrap()).arg("exec").arg(path).status().unwrap();
        if let Some(sig) = st.signal() {
            println!("reproduced: {} (expected {})", crash_class(sig), r.class);
            println!("VIOLATION property={} replay={}", r.property, path.display());
            return 1;
        }
        println!("not reproduced");
        return 0;
    }
    let o = run_once(prop, Choices::replay(r.choices.clone()), true);
    for t in &o.ctx.trace {
        println!("  {t}");
    }
    match o.result {
        Err(v) => {
            println!("reproduced: class={} detail={}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", r.property, path.display());
            1
        }
        Ok(()) => {
            println!("not reproduced");
            0
        }
    }
}

/// Child of minimise/replay for crashes: just execute the choices.
pub fn exec(props: &[Prop], path: &Path) -> i32 {
    limit_process();
    let Some(r) = load_replay(path) else { return 2 };
    let Some(prop) = props.iter().find(|p| p.id == r.property) else { return 2 };
    arm_watchdog(WATCHDOG_SECS);
    let o = if r.choices.is_empty() && r.seed != 0 {
        run_once(prop, Choices::record(r.seed), false)
    } else {
        run_once(prop, Choices::replay(r.choices), false)
    };
    if o.result.is_err() { 1 } else { 0 }
}

/// Child: minimise a violation file.
pub fn minimise_child(props: &[Prop], path: &Path, secs: u64, save: &Path) -> i32 {
    limit_process();
    let Some(r) = load_replay(path) else { return 2 };
    let Some(prop) = props.iter().find(|p| p.id == r.property) else { return 2 };
    let dir = save.parent().unwrap().to_path_buf();
    let (best, _) = minimise(prop, &r.class, r.choices, secs, &dir, save);
    std::fs::write(save, J::Arr(best.iter().map(|x| J::u(*x)).collect()).to_text()).unwrap();
    0
}

// ---------------------------------------------------------------- check (parent)

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
    pub fixed: bool,
}

pub fn load_known(root: &Path) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(root.join("known_findings.json")) else { return vec![] };
    let Some(j) = J::parse(&s) else { return vec![] };
    j.get("findings").map(|f| f.arr().to_vec()).unwrap_or_default().iter().map(|e| Known {
        property: e.get("property").and_then(|x| x.str()).unwrap_or("").into(),
        class: e.get("class").and_then(|x| x.str()).unwrap_or("").into(),
        text: e.get("what").and_then(|x| x.str()).unwrap_or("").into(),
        fixed: e.get("status").and_then(|x| x.str()) == Some("fixed"),
    }).collect()
}

pub fn check(props: &[Prop], id: &str, tier: &str, seed: u64, root: &Path, secs: Option<u64>, lanes: u64, max_runs: u64) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    println!("property {id} tier {tier} VERIF_SEED={seed}");
    let secs = secs.unwrap_or(if tier == "thorough" { prop.thorough_secs } else { prop.quick_secs });
    let dir: PathBuf = std::env::temp_dir().join(format!("sim-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let known = load_known(root);
    let mut kids = Vec::new();
    for lane in 0..lanes {
        let c = Command::new(&exe)
            .args(["worker", id, &seed.to_string(), &lane.to_string(), &lanes.to_string(), &secs.to_string(), &max_runs.to_string()])
            .arg(&dir).arg(root)
            .stdin(Stdio::null())
            .spawn().unwrap();
        kids.push((lane, c));
    }
    let mut crash: Option<(u64, i32)> = None;
    let mut harness_error = None;
    for (lane, mut c) in kids {
        let st = c.wait().unwrap();
        if let Some(sig) = st.signal() {
            let b = std::fs::read(dir.join(format!("cur-{lane}"))).unwrap_or_default();
            let idx = b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            if idx > 0 && crash.map(|c| idx - 1 < c.0).unwrap_or(true) {
                crash = Some((idx - 1, sig));
            }
        } else if !st.success() {
            harness_error = Some(format!("worker {lane} ended with {st}"));
        }
    }
    let mut runs = 0;
    let mut nontrivial = 0;
    let mut steps = 0;
    let mut rechecks = 0;
    let mut recheck_bad = 0;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut viol: Option<Replay> = None;
    let mut sigs: Vec<u64> = Vec::new();
    let mut digests: BTreeMap<u64, u64> = BTreeMap::new();
    for lane in 0..lanes {
        let Ok(text) = std::fs::read_to_string(dir.join(format!("out-{lane}.json"))) else { continue };
        let Some(j) = J::parse(&text) else { continue };
        let n = |k: &str| j.get(k).and_then(|x| x.int()).unwrap_or(0);
        runs += n("runs");
        nontrivial += n("nontrivial");
        steps += n("steps");
        rechecks += n("rechecks");
        recheck_bad += n("recheck_bad");
        for (k, m) in [("faults", &mut faults), ("probes", &mut probes), ("known", &mut known_hits)] {
            if let Some(J::Obj(v)) = j.get(k) {
                for (a, b) in v {
                    *m.entry(a.clone()).or_insert(0) += b.int().unwrap_or(0);
                }
            }
        }
        samples.extend(j.get("samples").map(|s| s.arr().to_vec()).unwrap_or_default());
        for d in j.get("digests").map(|s| s.arr().to_vec()).unwrap_or_default() {
            digests.insert(d.arr()[0].int().unwrap(), d.arr()[1].int().unwrap());
        }
        if let Some(v) = j.get("violation") {
            let f = dir.join(format!("viol-{lane}.json"));
            std::fs::write(&f, v.to_text()).unwrap();
            let r = load_replay(&f).unwrap();
            if viol.as_ref().map(|o| r.run < o.run).unwrap_or(true) {
                viol = Some(r);
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("sig-{lane}"))) {
            sigs.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    sigs.sort_unstable();
    sigs.dedup();
    let mut explored_digest = 0u64;
    for (k, v) in &digests {
        explored_digest = mix(explored_digest, mix(*k, *v));
    }
    // Crashes are confirmed in a fresh process before they count.
    if let Some((idx, sig)) = crash {
        if viol.as_ref().map(|v| idx < v.run).unwrap_or(true) {
            let s = run_seed(seed, id, idx);
            let f = dir.join("crash.json");
            let v = Violation { class: crash_class(sig), detail: format!("worker died with signal {sig} in run {idx}") };
            std::fs::write(&f, violation_json(id, s, idx, &v, &[]).to_text()).unwrap();
            let st = Command::new(&exe).arg("exec").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
            if st.signal().is_some() {
                viol = load_replay(&f);
            } else {
                harness_error = Some(format!("worker died with signal {sig} in run {idx}, not reproducible"));
            }
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(v) = &viol {
        violations = 1;
        code = 1;
        println!("violation in run {} (seed {:#x}): class={} {}", v.run, v.seed, v.class, v.detail);
        let rdir = root.join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let rp = rdir.join(format!("{}-{:016x}.json", id, mix(v.seed, fnv(v.class.as_bytes()))));
        let f = dir.join("to-min.json");
        let vv = Violation { class: v.class.clone(), detail: v.detail.clone() };
        std::fs::write(&f, violation_json(id, v.seed, v.run, &vv, &v.choices).to_text()).unwrap();
        let mut best = v.choices.clone();
        if !v.choices.is_empty() && v.choices.len() < 200_000 {
            let save = dir.join("best.json");
            let _ = Command::new(&exe).arg("minimise").arg(&f).arg("30").arg(&save)
                .stdout(Stdio::null()).stderr(Stdio::null()).status();
            if let Some(j) = std::fs::read_to_string(&save).ok().and_then(|s| J::parse(&s)) {
                let b: Vec<u64> = j.arr().iter().filter_map(|x| x.int()).collect();
                if b.len() <= best.len() {
                    best = b;
                }
            }
        }
        let mut out = violation_json(id, v.seed, v.run, &vv, &best);
        if !is_crash(&v.class) {
            let o = run_once(prop, Choices::replay(best.clone()), true);
            match &o.result {
                Err(nv) if nv.class == v.class => {
                    out = violation_json(id, v.seed, v.run, nv, &best);
                    println!("minimised from {} to {} choices: {}", v.choices.len(), best.len(), nv.detail);
                    for t in o.ctx.trace.iter().take(40) {
                        println!("    {t}");
                    }
                }
                _ => {
                    // keep the original, complete choice sequence
                    out = violation_json(id, v.seed, v.run, &vv, &v.choices);
                }
            }
            if let J::Obj(items) = &mut out {
                items.push(("trace".into(), J::Arr(o.ctx.trace.iter().take(500).map(|s| J::s(s.clone())).collect())));
            }
        }
        std::fs::write(&rp, out.to_text()).unwrap();
        println!("VIOLATION property={} replay={}", id, rp.display());
    }
    for k in known.iter().filter(|k| k.property == id && !k.fixed) {
        println!("KNOWN-FINDING: property={} {} (met {} times in this run)", id, k.text, known_hits.get(&k.class).unwrap_or(&0));
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = (runs as f64 / (secs.max(1) as f64) * 3600.0) as u64;
    if samples.is_empty() {
        samples.push(J::s("no run completed"));
    }
    let cov = J::obj(vec![
        ("evaluations", J::u(runs)),
        ("distinct_nontrivial", J::u(sigs.len() as u64)),
        ("rule", J::s(prop.rule)),
        ("samples", J::Arr(samples)),
        ("runs_with_at_least_one_nontrivial_step", J::u(nontrivial)),
        ("seeds_per_hour", J::u(per_hour)),
        ("simulated_time", J::s("the code under test reads no clock; simulated progress is counted in steps (I/O calls, queries, building calls, scheduler decisions)")),
        ("simulated_steps", J::u(steps)),
        ("faults_fired", J::map(&faults)),
        ("probes_hit", J::map(&probes)),
        ("determinism_rechecks", J::u(rechecks)),
        ("determinism_mismatches", J::u(recheck_bad)),
        ("first_runs_digest", J::s(format!("{explored_digest:016x}"))),
        ("components_real", J::Arr(prop.real.iter().map(|s| J::s(*s)).collect())),
        ("components_stub", J::Arr(prop.stub.iter().map(|s| J::s(*s)).collect())),
        ("known_findings_met", J::map(&known_hits)),
    ]);
    let ev = J::obj(vec![
        ("property", J::s(id)),
        ("tier", J::s(tier)),
        ("seed", J::u(seed)),
        ("level", J::s(prop.level)),
        ("coverage", cov),
        ("wall_s", J::Num(wall)),
        ("violations", J::u(violations)),
        ("assumptions", J::Arr(prop.assumptions.iter().map(|s| J::s(*s)).collect())),
    ]);
    std::fs::create_dir_all(root.join("evidence")).unwrap();
    std::fs::write(root.join("evidence").join(format!("{id}.json")), ev.to_text()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    println!("{id}: {runs} runs, {} distinct, {steps} steps, {wall:.1}s, faults {:?}, mismatches {recheck_bad}", sigs.len(), faults);
    if std::env::var("SIM_VERBOSE").is_ok() {
        println!("probes {probes:#?} digest {explored_digest:016x}");
    }
    if code == 0 {
        if let Some(e) = harness_error {
            eprintln!("harness error: {e}");
            return 2;
        }
    }
    code
}
