//! Scenarios about describing relocatable objects and emitting them.
use crate::choices::fnv;
use crate::ctx::{Ctx, R, violation};
use crate::describe::{self, Builder, Done, GenOpts, Target, emit_problem};
use crate::ensure;
use crate::simio::{SimRef, SourceCfg, through_stream};
use crate::verify;
use object::read::File;

/// Emit and apply the rule: what the format can express is emitted, what it cannot is refused.
pub fn emit(ctx: &mut Ctx, b: &Builder) -> R<Option<Vec<u8>>> {
    let problem = emit_problem(&b.t, &b.m);
    match (b.obj.write(), problem) {
        (Ok(bytes), None) => {
            ctx.probe("emitted");
            ctx.fold_bytes(&bytes);
            Ok(Some(bytes))
        }
        (Err(e), Some(_)) => {
            ctx.probe("emission_refused");
            ctx.ev(|| format!("emission refused: {e}"));
            Ok(None)
        }
        (Ok(_), Some(p)) => violation("inexpressible-accepted", format!("{}: emitted although {p}", b.t.name())),
        (Err(e), None) => violation("valid-description-refused", format!("{}: emission failed: {e}", b.t.name())),
    }
}

pub fn read_back<T>(ctx: &mut Ctx, bytes: &[u8], f: impl for<'a> FnOnce(&File<'a, SimRef<'a>>) -> R<T>) -> R<T> {
    let cfg = SourceCfg::benign(ctx);
    through_stream(ctx, bytes, cfg, |r| match File::parse(r) {
        Ok(file) => f(&file),
        Err(e) => violation("unreadable", format!("emitted file does not parse: {e}")),
    })
}

fn shape(b: &Builder) -> u64 {
    let mut s = String::new();
    for x in &b.m.secs {
        s.push_str(&format!("{:?}{}{}", x.kind, x.size.min(3), x.align.min(32)));
    }
    for x in &b.m.syms {
        s.push_str(&format!("{:?}{:?}{:?}{}", x.kind, x.scope, x.place, x.weak));
    }
    s.push_str(&format!("{:?}", b.t));
    fnv(s.as_bytes())
}

fn c06_random(ctx: &mut Ctx) -> R {
    let t = Target::pick(&mut ctx.c);
    let o = GenOpts { max_ops: 60, relocs: true, invalid: if ctx.c.chance(1, 3) { 8 } else { 0 } };
    let (b, _) = describe::build(ctx, t, &o)?;
    let Some(bytes) = emit(ctx, &b)? else { return Ok(()) };
    ctx.sig(shape(&b));
    read_back(ctx, &bytes, |f| verify::sections(&b, f))
}

fn c07_random(ctx: &mut Ctx) -> R {
    let t = Target::pick(&mut ctx.c);
    let o = GenOpts { max_ops: 60, relocs: ctx.c.chance(1, 3), invalid: if ctx.c.chance(1, 3) { 8 } else { 0 } };
    let (b, _) = describe::build(ctx, t, &o)?;
    let Some(bytes) = emit(ctx, &b)? else { return Ok(()) };
    ctx.sig(shape(&b));
    read_back(ctx, &bytes, |f| verify::symbols(&b, f).map(|_| ()))
}

fn c08_random(ctx: &mut Ctx) -> R {
    let t = Target::pick(&mut ctx.c);
    let o = GenOpts { max_ops: 60, relocs: true, invalid: if ctx.c.chance(1, 3) { 4 } else { 0 } };
    let (b, ops) = describe::build(ctx, t, &o)?;
    for (op, d) in &ops {
        if let (describe::Op::Reloc { flags, .. }, d) = (op, d) {
            ctx.sig(fnv(format!("{t:?}{flags:?}{}", matches!(d, Done::Accepted)).as_bytes()));
            if let Done::Refused(e) = d
                && crate::relocs::must_accept(&t, op)
            {
                return violation("expressible-refused", format!("{}: {op:?}: {e}", t.name()));
            }
        }
    }
    let Some(bytes) = emit(ctx, &b)? else { return Ok(()) };
    let n = read_back(ctx, &bytes, |f| verify::relocations(&b, f))?;
    ctx.fold(n);
    Ok(())
}

pub const REAL: &[&str] = &["src/write (all formats)", "src/read (all readers used for reading back)", "src/read/read_cache.rs"];
pub const STUB: &[&str] = &["the stored file and its stream (simulated source under the real ReadCache)", "hash seeds (getrandom)"];

pub fn props(v: &mut Vec<crate::runner::Prop>) {
    let p = |id, rule, scenarios| crate::runner::Prop {
        id, level: "exploration", rule, scenarios, real: REAL, stub: STUB, assumptions: &[], quick_secs: 40, thorough_secs: 600,
    };
    v.push(p("C06", "distinct descriptions (target, kinds, sizes, alignments, symbols) emitted and read back", vec![("random", 400, c06_random as _), ("bulk", 1, crate::sc_bulk::sections as _), ("far-names", 1, crate::sc_bulk::far_names as _)]));
    v.push(p("C07", "distinct descriptions emitted and read back", vec![("random", 1600, c07_random as _), ("bulk", 4, crate::sc_bulk::sections as _), ("bulk-symbols", 1, crate::sc_bulk::symbols as _)]));
    v.push(p("C08", "distinct (target, relocation, outcome)", vec![("random", 1600, c08_random as _), ("bulk", 4, crate::sc_bulk::relocations as _), ("bulk-symbols", 1, crate::sc_bulk::symbols as _)]));
}
