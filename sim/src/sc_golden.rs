//! C19: files made by standard toolchains are reported as recorded, wherever they are stored and however they are read.
//!
//! The oracle is the committed record of observations (data/golden/obs.z), which was compared with what the tools of
//! the producing toolchains say about the same files (tools/crosscheck.py).
use crate::choices::fnv;
use crate::corpus::{CORPUS, GOLDEN, SYNTH};
use crate::ctx::{Ctx, R, violation};
use crate::ensure;
use crate::observe::Obs;
use crate::sc_read::{compare, observe};
use crate::simio::{SimRef, SimSource, SourceCfg, Src, World};
use crate::view::{VQ, View};
use object::read::ReadCache;
use std::collections::HashMap;
use std::io::{Read as _, Write as _};
use std::sync::OnceLock;

type Record = Vec<(String, Vec<(String, String)>)>;

fn parse(text: &str) -> HashMap<&str, Record> {
    let mut all: HashMap<&str, Record> = HashMap::new();
    let mut file = "";
    for l in text.lines() {
        match l.split_once(' ') {
            Some(("F", n)) => {
                file = n;
                all.entry(n).or_default();
            }
            Some(("Q", q)) => all.get_mut(file).unwrap().push((q.to_string(), Vec::new())),
            Some((_, kv)) => {
                let (k, v) = kv.split_once('\t').unwrap();
                all.get_mut(file).unwrap().last_mut().unwrap().1.push((k.to_string(), v.to_string()));
            }
            None => {}
        }
    }
    all
}

fn golden() -> &'static HashMap<&'static str, Record> {
    static G: OnceLock<HashMap<&'static str, Record>> = OnceLock::new();
    G.get_or_init(|| {
        let Some((_, z)) = GOLDEN.iter().find(|g| g.0 == "obs.z") else { return HashMap::new() };
        let mut s = String::new();
        flate2::read::ZlibDecoder::new(*z).read_to_string(&mut s).expect("harness: golden record");
        parse(Box::leak(s.into_boxed_str()))
    })
}

/// Write the record of the current tree: for development, when the corpus or the observations change.
pub fn make(out: &str, text: &str) {
    let mut s = String::new();
    for (name, data) in CORPUS.iter().chain(SYNTH) {
        s.push_str(&format!("F {name}\n"));
        let Ok(v) = View::open(*data, &[]) else {
            s.push_str("Q closed\n");
            continue;
        };
        for q in v.plan() {
            s.push_str(&format!("Q {q:?}\n"));
            let mut o = Obs::new(data.len());
            v.query(q, &mut o);
            for (k, v) in o.out {
                let (k, v) = (k.replace(['\n', '\t'], "\u{1}"), v.replace(['\n', '\t'], "\u{1}"));
                s.push_str(&format!("- {k}\t{v}\n"));
            }
        }
    }
    println!("{} bytes of observations", s.len());
    if !text.is_empty() {
        std::fs::write(text, &s).unwrap();
    }
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::best());
    e.write_all(s.as_bytes()).unwrap();
    std::fs::write(out, e.finish().unwrap()).unwrap();
}

fn reading(ctx: &mut Ctx) -> R {
    let g = golden();
    let (name, data) = if ctx.c.chance(1, 3) {
        SYNTH[ctx.c.idx(SYNTH.len())]
    } else {
        let (n, d) = CORPUS[ctx.c.idx(CORPUS.len())];
        // big files are slow: take them less often
        if d.len() > 20_000 && ctx.c.chance(1, 2) { CORPUS[ctx.c.idx(CORPUS.len())] } else { (n, d) }
    };
    let record = &g[name];
    let queries: Vec<usize> = (0..1 + ctx.c.below(16)).map(|_| ctx.c.idx(record.len())).collect();
    ctx.ev(|| format!("input {name}"));
    let len = data.len();
    let opens = record[0].0 != "closed";
    let check = |ctx: &mut Ctx, r: SimRef<'_>| -> R {
        let v = match View::open(r, &[]) {
            Ok(v) => v,
            Err(e) => {
                ensure!(!opens || r.w.limited.get(), "not-as-recorded", "{name}: does not open: {e}");
                return Ok(());
            }
        };
        ensure!(opens, "not-as-recorded", "{name}: opens");
        let plan = v.plan();
        if !r.w.limited.get() {
            let names: Vec<String> = plan.iter().map(|q| format!("{q:?}")).collect();
            if let Some(d) = (0..names.len().max(record.len())).find(|i| names.get(*i) != record.get(*i).map(|r| &r.0)) {
                return violation("not-as-recorded", format!("{name}: has {:?}, the record {:?}", names.get(d), record.get(d).map(|r| &r.0)));
            }
        }
        for i in &queries {
            let Some(q) = plan.get(*i) else { continue };
            if format!("{q:?}") != record[*i].0 {
                continue;
            }
            let mut got = observe(&v, *q, len)?;
            for (k, v) in &mut got.out {
                for s in [k, v] {
                    if s.contains(['\n', '\t']) {
                        *s = s.replace(['\n', '\t'], "\u{1}");
                    }
                }
            }
            ctx.steps += got.out.len() as u64;
            r.w.take_mismatch()?;
            r.w.check_held()?;
            ctx.sig(fnv(format!("{name}{q:?}{}", r.w.io_ops.get()).as_bytes()));
            let want = Obs { out: record[*i].1.clone(), ..Obs::new(len) };
            compare(name, *q, &got, &want, r.w.limited.get()).map_err(|v| crate::ctx::Violation { class: "not-as-recorded".into(), detail: v.detail.replace("stream", "now").replace("memory", "recorded") })?;
        }
        ctx.probe(v.kind());
        Ok(())
    };
    let way = ctx.c.below(4);
    let cfg = if way == 0 { SourceCfg::default() } else { SourceCfg::benign(ctx) };
    let mut outer = Vec::new();
    let pre = if way == 3 { ctx.c.size(200) as usize } else { 0 };
    if way == 3 {
        outer = ctx.c.bytes(pre);
        outer.extend_from_slice(data);
        let post = ctx.c.size(200) as usize;
        outer.extend_from_slice(&ctx.c.bytes(post));
        ctx.probe("range_of_a_larger_file");
    }
    let c: *mut Ctx = ctx;
    let w = World::new(ctx, if way == 3 { &outer } else { data }, cfg);
    let cache = ReadCache::new(SimSource::new(&w));
    let src = match way {
        0 => Src::Slice(data),
        3 => Src::Range(cache.range(pre as u64, len as u64), pre as u64, len as u64),
        _ => Src::Cache(&cache),
    };
    // Safety: the simulated files only use the context while they are read
    let r = check(unsafe { &mut *c }, SimRef { w: &w, src });
    w.take_mismatch()?;
    w.check_held()?;
    r
}

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    v.push(crate::runner::Prop {
        id: "C19",
        level: "exploration",
        rule: "distinct (file, query, stream schedule)",
        scenarios: vec![("reading", 1, reading as _)],
        real: crate::sc_read::READ_REAL,
        stub: crate::sc_read::READ_STUB,
        assumptions: &["the committed record of what each file says, made with this reader and compared with the toolchains' own tools"],
        quick_secs: 50,
        thorough_secs: 900,
    });
}
