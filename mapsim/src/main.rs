#![feature(alloc_error_hook)]
#![allow(clippy::all)]
mod ctl;
mod galloc;
mod htab;
mod oiter;
mod omap;
mod oset;
mod tomb;
mod views;

use omap::Mode;
use simcore::{Ctx, Prop, RunResult, Suite};

fn map_or_set(ctx: &mut Ctx, mode: Mode) -> RunResult {
    if ctx.draw(3) == 2 {
        omap::run::<oset::Set>(ctx, mode)
    } else {
        omap::run::<omap::Map>(ctx, mode)
    }
}

fn c01(ctx: &mut Ctx) -> RunResult {
    ctx.nontrivial();
    match ctx.draw(12) {
        10 => views::ordered_map(ctx),
        11 => views::composite_ordered(ctx, false),
        _ => omap::run::<omap::Map>(ctx, Mode::Plain),
    }
}
fn c02(ctx: &mut Ctx) -> RunResult {
    if ctx.draw(16) == 15 {
        return views::composite_ordered(ctx, true);
    }
    map_or_set(ctx, Mode::Raise)
}
fn c04(ctx: &mut Ctx) -> RunResult {
    map_or_set(ctx, Mode::Panic)
}
fn c06(ctx: &mut Ctx) -> RunResult {
    ctx.nontrivial();
    match ctx.draw(12) {
        11 => views::ordered_set(ctx),
        _ => omap::run::<oset::Set>(ctx, Mode::Plain),
    }
}
fn c07(ctx: &mut Ctx) -> RunResult {
    map_or_set(ctx, Mode::Refuse)
}

fn c08(ctx: &mut Ctx) -> RunResult {
    ctx.nontrivial();
    match ctx.draw(12) {
        10 => views::unordered(ctx),
        11 => views::composite_unordered(ctx, false),
        _ => htab::run_any(ctx, htab::Mode::Plain),
    }
}
fn c09(ctx: &mut Ctx) -> RunResult {
    htab::run_any(ctx, htab::Mode::Panic)
}
fn c10(ctx: &mut Ctx) -> RunResult {
    if ctx.draw(16) == 15 {
        return views::composite_unordered(ctx, true);
    }
    htab::run_any(ctx, htab::Mode::Raise)
}
fn c11(ctx: &mut Ctx) -> RunResult {
    ctx.nontrivial();
    htab::run_any(ctx, htab::Mode::Abandon)
}

const REAL: &[&str] = &["rubymap", "hashbrown", "ruby_traits (all from /repo, unmodified)"];
const STUB: &[&str] = &["keys and values with simulated callbacks", "hasher", "global allocator"];

static PROPS: &[Prop] = &[
    Prop { rule: "runs that executed at least one operation", measure: "distinct (operation, outcome, capacity, number of pairs before it)", real: REAL, stub: STUB, ..Prop::base("C01", c01) },
    Prop { rule: "runs in which at least one callback raised", measure: "distinct (operation, kind of callback that raised, capacity, number of pairs)", real: REAL, stub: STUB, ..Prop::base("C02", c02) },
    Prop { rule: "runs with a deferred deletion", measure: "distinct (operation, slots, deleted slots, nested traversals)", real: REAL, stub: STUB, ..Prop::base("C03", tomb::run) },
    Prop { rule: "runs in which at least one callback panicked", measure: "distinct (operation, kind of callback that panicked, capacity, number of elements)", real: REAL, stub: STUB, ..Prop::base("C04", c04) },
    Prop { rule: "runs that played at least one traversal", measure: "distinct (traversal kind, ending, size, range start, number consumed)", real: REAL, stub: STUB, ..Prop::base("C05", oiter::run) },
    Prop { rule: "runs that executed at least one operation", measure: "distinct (operation, outcome, capacity, number of pairs before it)", real: REAL, stub: STUB, ..Prop::base("C06", c06) },
    Prop { rule: "runs in which at least one request was refused", measure: "distinct (operation, outcome, capacity, number of pairs)", real: REAL, stub: STUB, ..Prop::base("C07", c07) },
    Prop { rule: "runs that executed at least one operation", measure: "distinct (operation, outcome, capacity, items)", real: REAL, stub: STUB, ..Prop::base("C08", c08) },
    Prop { rule: "runs in which at least one callback panicked", measure: "distinct (operation, kind of callback that panicked, capacity, number of elements)", real: REAL, stub: STUB, ..Prop::base("C09", c09) },
    Prop { rule: "runs in which at least one callback raised", measure: "distinct (operation, kind of callback that raised, capacity, number of elements)", real: REAL, stub: STUB, ..Prop::base("C10", c10) },
    Prop { rule: "runs that played at least one traversal", measure: "distinct (operation, outcome, capacity, items)", real: REAL, stub: STUB, ..Prop::base("C11", c11) },
];

fn init() {
    ctl::install_oom_hook();
}

fn main() {
    simcore::main(&Suite { name: "mapsim", props: PROPS, init })
}
