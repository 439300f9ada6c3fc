//! Dispatch: one explorer per invocation.
use crate::ctx::*;
use crate::hist::{self, Oracle};
use crate::plat;

fn before(params: &str) {
    let p = Params::parse(params);
    #[cfg(all(feature = "std", unix, not(miri)))]
    if p.get("oracle") == Some("alone") {
        crate::isol::start();
    }
    let _ = p;
}

pub fn run(params: &str) {
    before(params);
    let mut cx = Ctx::new(Params::parse(params));
    if cx.backends.is_empty() {
        plat::log("HWMC-ERROR no requested backend in this build");
        plat::exit(2);
    }
    let name = cx.p.get("x").expect("explorer name");
    match name {
        "lattice" => crate::lattice::explore(&mut cx),
        "bfs" => crate::bfs::explore(&mut cx),
        "stream" => hist::stream(&mut cx),
        "hops" => hist::hops(&mut cx),
        "default" => hist::default(&mut cx),
        "adapters" => hist::adapters(&mut cx),
        "observers" => hist::observers(&mut cx),
        "interleave" => hist::interleave(&mut cx),
        "totality" => hist::totality(&mut cx),
        "arb" => crate::arb::explore(&mut cx),
        "allcounts" => crate::arb::all_counts(&mut cx),
        #[cfg(feature = "std")]
        "huge" => crate::huge::explore(&mut cx),
        #[cfg(feature = "std")]
        "guard" => crate::guard::explore(&mut cx),
        #[cfg(feature = "std")]
        "micro" => crate::guard::explore_micro(&mut cx),
        #[cfg(feature = "std")]
        "checked" => crate::guard::explore_checked(&mut cx),
        #[cfg(all(feature = "std", target_os = "linux", target_arch = "x86_64", not(miri)))]
        "preempt" => crate::conc::preempt(&mut cx),
        #[cfg(all(feature = "std", target_os = "linux", target_arch = "x86_64", not(miri)))]
        "races" => crate::conc::races(&mut cx),
        "cross" => crate::cross::explore(&mut cx),
        "select" => crate::select::explore(&mut cx),
        "nothing" => {}
        _ => {
            plat::log("HWMC-ERROR unknown explorer");
            plat::exit(2);
        }
    }
    #[cfg(all(feature = "std", unix, not(miri)))]
    if crate::isol::asked() > 0 {
        cx.notes.push(alloc::format!("histories run alone: {}", crate::isol::asked()));
    }
    cx.report(name);
}

/// Run one history in the replay language.
pub fn script(params: &str, text: &str) {
    before(params);
    let mut cx = Ctx::new(Params::parse(params));
    let ops: alloc::vec::Vec<hist::Op> = text.lines().filter_map(hist::parse).collect();
    let o = Oracle::of(&cx, Oracle::Fresh);
    hist::exec(&mut cx, &ops, o);
    plat::log("HWMC-SCRIPT-OK");
}
