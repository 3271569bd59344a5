//! Simulation of the collector and of Ruby hashes: the allocator, the
//! object cells and the hash code of the current tree are compiled into
//! two module trees next to a small stand-in for the rest of the
//! interpreter.
#![allow(unexpected_cfgs)]

pub mod sys;

include!(concat!(env!("OUT_DIR"), "/trees.rs"));

fn main() {
    let mut props = vec![];
    props.push(gc_prop());
    props.push(hash_prop());
    simcore::main(&simcore::Suite { name: "heapsim", props: props.leak(), init: || {} });
}

fn gc_prop() -> simcore::Prop {
    simcore::Prop {
        quick_runs: 100_000,
        quick_secs: 120.0,
        thorough_runs: 20_000_000,
        thorough_secs: 3000.0,
        isolate: true,
        batch: 20,
        rule: "after every collection each object reachable from the roots is intact, each unreachable one was destroyed once (a minor collection may keep what an old object reaches), and the counters equal the actual numbers",
        measure: "distinct traces of choices; states = live, old and page counts with the collection kind",
        real: &["alloc.rs, poll_flag.rs, object cells of value/rvalue.rs (header, union, marking, freeing, aging, barriers, copies), value/rvalue/hash.rs, rubymap, hashbrown"],
        stub: &["payload types other than hashes, executor, root set, system allocator and clock"],
        assumptions: &["one interpreter thread; stores follow the barrier protocol of their kind; page and threshold sizes scaled down in most runs"],
        ..simcore::Prop::base("C29", |c| if c.draw(4) == 3 { full::gc::run(c) } else { small::gc::run(c) })
    }
}

fn hash_prop() -> simcore::Prop {
    simcore::Prop {
        quick_runs: 400_000,
        quick_secs: 120.0,
        thorough_runs: 20_000_000,
        thorough_secs: 3000.0,
        isolate: true,
        batch: 20,
        rule: "after every step each hash has the contents, order and lookups of an insertion-ordered model; iterations visit what the model says; callbacks that raise leave the hash as it was",
        measure: "distinct traces of choices; states = size, form, iteration depth and identity flag of the hash worked on",
        real: &["value/rvalue/hash.rs, the native Hash methods of builtins/hash.rs, rubymap, hashbrown, alloc.rs, object cells"],
        stub: &["method dispatch, blocks, the Ruby-level each loop, other payload types"],
        assumptions: &["key callbacks do not change the hash they are called for; key hashes are consistent with eql?"],
        ..simcore::Prop::base("C30", |c| if c.draw(4) == 3 { full::rhash::run(c) } else { small::rhash::run(c) })
    }
}
