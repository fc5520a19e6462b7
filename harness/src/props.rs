//! The history properties: which calls are generated for each, which discrepancies count
//! against it, and which cases are non-trivial.
use crate::history::*;
use crate::pbt::*;

pub struct HistProp {
    pub id: &'static str,
    pub prof: fn() -> Profile,
    pub judge: Judge,
    pub nontrivial: NonTrivial,
}

const INV: &[&str] = &["invalidate", "purge", "dynstatemut"];
const QUIET: &[&str] = &[
    "get", "lookup", "new", "cloneh", "droph", "conv", "dynstate", "getdynstate", "ext", "drophold",
];

fn is(s: &str, l: &[&str]) -> bool {
    l.contains(&s)
}

macro_rules! prof {
    ($p:ident => $($b:tt)*) => {{
        fn f() -> Profile {
            #[allow(unused_mut)]
            let mut $p = base_profile();
            $($b)*
            $p
        }
        f
    }};
}

pub const HIST: &[HistProp] = &[
    HistProp {
        id: "C01",
        prof: prof!(p => p.w[W_GET] = 50; p.w[W_LOOKUP] = 5; p.w[W_CLEARALL] = 0;),
        judge: |d, _| {
            is(d.what, &["rebuild", "nobuild", "res.foreign", "res.mismatch", "res.value", "res.moved", "art.changed", "art.value", "art.foreign",
                "art.lost", "lookup.mismatch", "spurious.build", "handles.disagree"])
                || (is(d.what, &["panic", "early"]) && is(d.op, QUIET))
        },
        nontrivial: |s| s.nested_hits > 0 && s.builds >= 3,
    },
    HistProp {
        id: "C02",
        prof: prof!(p => p.w[W_INVALIDATE] = 14; p.w[W_DSM] = 10; p.w[W_PURGE] = 7; p.w[W_LOOKUPMUT] = 0; p.w[W_GETMUT] = 0; p.share = false;),
        judge: |d, _| {
            (is(d.what, &["leak", "panic", "state.stale", "known", "count"]) && is(d.op, INV))
                || is(d.what, &["art.stale", "dep.gone", "nobuild", "res.mismatch", "lookup.mismatch"])
        },
        nontrivial: |s| s.inv_dependents > 0,
    },
    HistProp {
        id: "C03",
        prof: prof!(p => p.w[W_INVALIDATE] = 14; p.w[W_DSM] = 10; p.w[W_PURGE] = 7; p.w[W_LOOKUPMUT] = 0; p.w[W_GETMUT] = 0; p.share = false;),
        judge: |d, _| is(d.what, &["art.lost", "state.lost", "early", "art.changed", "art.value", "state.changed", "known", "count", "res.moved"]) && is(d.op, INV),
        nontrivial: |s| s.inv_survivors > 0,
    },
    HistProp {
        id: "C04",
        prof: prof!(p => p.ext = false; p.pure = true; p.mutate = false; p.w[W_DSM] = 16; p.w[W_INVALIDATE] = 3;),
        judge: |d, _| is(d.what, &["coherence", "res.value", "art.value", "err.mismatch", "res.mismatch"]),
        nontrivial: |s| s.coherent > 0 && s.state_writes > 0 && s.inv_dependents > 0,
    },
    HistProp {
        id: "C05",
        prof: prof!(p => p.w[W_DYN] = 9; p.w[W_GETDYN] = 5; p.w[W_DSM] = 14; p.w[W_INVALIDATE] = 6; p.w[W_PURGE] = 6; p.w[W_CLEARALL] = 2; p.w[W_CLEARART] = 2;),
        judge: |d, _| {
            d.what.starts_with("state.")
                || d.what == "spurious.init"
                || (is(d.what, &["leak", "early"]) && d.detail.contains(": state "))
                || (d.what == "panic" && is(d.op, &["dynstate", "getdynstate", "dynstatemut"]))
                || (d.what == "art.stale" && d.op == "dynstatemut")
                || (is(d.what, &["art.lost", "known", "count"]) && is(d.op, &["dynstate", "getdynstate"]))
        },
        nontrivial: |s| s.state_writes > 0 && s.state_survived > 0,
    },
    HistProp {
        id: "C06",
        prof: prof!(p => p.w[W_EXT] = 10; p.w[W_GET] = 45; p.w[W_INVALIDATE] = 9;),
        judge: |d, h| {
            d.op == "get!err"
                || is(d.what, &["err.mismatch", "noretry"])
                || (h.had.contains("fail")
                    && is(d.what, &["art.stale", "art.lost", "dep.gone", "leak", "early", "panic", "nobuild", "gc.incomplete", "gc.noprogress",
                        "known", "count", "rebuild", "spurious.build", "res.mismatch"]))
        },
        nontrivial: |s| s.fails > 0 && s.builds > s.fails,
    },
    HistProp {
        id: "C07",
        prof: prof!(p => p.panic = true; p.w[W_EXT] = 9; p.w[W_GET] = 45;),
        judge: |_, h| h.had.contains("panic"),
        nontrivial: |s| s.panics > 0 && s.builds > s.panics,
    },
    HistProp {
        id: "C08",
        prof: prof!(p => p.w[W_CLEARART] = 9; p.w[W_CLEARALL] = 5;),
        judge: |d, h| is(d.op, &["clearart", "clearall"]) || h.had.contains("clear"),
        nontrivial: |s| s.clear_removed > 0,
    },
    HistProp {
        id: "C09",
        prof: prof!(p => p.w[W_GC] = 12; p.w[W_GCFIX] = 2; p.w[W_DROPH] = 12; p.w[W_NEW] = 20; p.w[W_PURGE] = 6;),
        judge: |d, h| h.had.contains("gc") && !is(d.what, &["gc.incomplete", "gc.noprogress", "leak"]),
        nontrivial: |s| s.gc_removed > 0 && s.gc_kept_live > 0,
    },
    HistProp {
        id: "C10",
        prof: prof!(p => p.w[W_GC] = 3; p.w[W_GCFIX] = 12; p.w[W_DROPH] = 14; p.w[W_NEW] = 20; p.share = false;),
        judge: |d, _| {
            is(d.what, &["gc.incomplete", "gc.noprogress"]) || (is(d.what, &["leak", "count", "known", "panic"]) && is(d.op, &["gc", "gcfix"]))
        },
        nontrivial: |s| s.gc_removed > 0,
    },
    HistProp {
        id: "C11",
        prof: prof!(p => p.w[W_PURGE] = 8; p.w[W_DYN] = 6; p.w[W_GC] = 6; p.w[W_CLEARALL] = 2; p.w[W_INVALIDATE] = 9;),
        judge: |d, _| is(d.what, &["known", "count", "other.known", "other.count"]),
        nontrivial: |s| s.builds >= 2 && s.purges + s.gc_removed + s.clears > 0,
    },
    HistProp {
        id: "C12",
        prof: prof!(p => p.deep = true; p.w[W_LOOKUP] = 14; p.w[W_GET] = 45; p.max_ops = 35;),
        judge: |d, _| {
            is(d.what, &["lookup.mismatch", "clash", "res.clone", "res.moved", "res.mismatch", "res.value", "res.foreign", "handles.disagree"])
                || (d.what == "panic" && is(d.op, &["lookup", "get"]))
                || (is(d.what, &["art.lost", "art.changed", "art.stale", "art.value", "nobuild", "noretry", "rebuild", "spurious.build",
                        "known", "count", "state.lost", "state.changed", "state.stale"])
                    && is(d.op, &["lookup", "get", "getmut", "lookupmut"]))
        },
        nontrivial: |s| s.hits > 0 && s.builds >= 2,
    },
    HistProp {
        id: "C13",
        prof: prof!(p => p.w[W_DROPH] = 10; p.w[W_DROPHOLD] = 4; p.w[W_DROPCACHE] = 2; p.w[W_PURGE] = 6;),
        judge: |d, _| is(d.what, &["leak", "early"]),
        nontrivial: |s| s.drops > 0 && s.builds >= 3,
    },
    HistProp {
        id: "C14",
        prof: prof!(p => p.w[W_CLONEH] = 8; p.w[W_CONV] = 16; p.w[W_DROPH] = 8; p.max_handles = 20;),
        judge: |d, h| {
            is(d.what, &["identity", "handles.disagree", "res.foreign", "art.foreign"])
                || (h.stats.convs > 0
                    && is(d.what, &["rebuild", "state.reinit", "nobuild", "res.mismatch", "lookup.mismatch", "state.mismatch"]))
                || (d.what == "panic" && is(d.op, &["conv", "cloneh", "new"]))
        },
        nontrivial: |s| s.convs > 0 && s.builds >= 2,
    },
    HistProp {
        id: "C15",
        prof: prof!(p => p.w[W_DROPH] = 16; p.w[W_NEW] = 28; p.w[W_PURGE] = 8; p.w[W_GC] = 6; p.w[W_CLEARALL] = 2; p.min_ops = 20; p.max_ops = 70; p.share = false;),
        judge: |d, _| {
            is(d.what, &["fresh.dirty", "res.foreign", "art.foreign", "identity"])
                || (is(d.what, &["state.mismatch", "art.lost", "known", "state.stale", "res.mismatch"]) && d.op == "new")
                || (d.what == "panic" && d.detail.contains("invalid type"))
        },
        nontrivial: |s| s.reused_addr > 0,
    },
    HistProp {
        id: "C16",
        prof: prof!(p => p.caches = 3; p.w[W_GET] = 45; p.foreign = true; p.share = false;),
        judge: |d, _| d.what.starts_with("other."),
        nontrivial: |s| s.two_caches > 0,
    },
    #[cfg(feature = "mut_box")]
    HistProp {
        id: "C17",
        prof: prof!(p => p.flavors = &[2, 3]; p.w[W_GETMUT] = 14; p.w[W_LOOKUPMUT] = 12; p.ext = false; p.pure = true; p.mutate = false;),
        judge: |d, h| {
            is(d.op, &["getmut", "lookupmut"])
                || (h.had.contains("mut") && (d.what.starts_with("art.") || d.what.starts_with("res.")
                    || is(d.what, &["coherence", "gc.incomplete", "gc.noprogress", "rebuild", "nobuild", "dep.gone", "known", "count", "panic"])))
        },
        nontrivial: |s| s.mut_dependents > 0,
    },
    HistProp {
        id: "C18",
        prof: prof!(p => p.panic = true; p.foreign = true; p.w[W_GC] = 6; p.w[W_PURGE] = 6; p.w[W_GETMUT] = 4; p.w[W_LOOKUPMUT] = 4; p.deep = true;),
        judge: |d, _| d.what == "panic",
        nontrivial: |s| s.builds >= 3 && s.inv_ops > 0,
    },
    #[cfg(feature = "diagnostics")]
    HistProp {
        id: "C19",
        prof: prof!(p => p.w[W_CLEARALL] = 3; p.w[W_CLEARART] = 3; p.doc = 100;),
        judge: |d, _| d.what.starts_with("doc."),
        nontrivial: |s| s.doc_events >= 5 && s.inv_ops > 0,
    },
    HistProp {
        id: "C28",
        prof: prof!(p => p.w[W_LOOKUP] = 8; p.w[W_DYN] = 6; p.w[W_GETDYN] = 5; p.panic = true;),
        judge: |d, _| is(d.what, &["spurious.build", "spurious.init", "rebuild", "state.reinit", "log.truncated"]),
        nontrivial: |s| s.builds >= 2 && s.inv_dependents > 0,
    },
];

pub fn find(id: &str) -> Option<&'static HistProp> {
    HIST.iter().find(|p| p.id == id)
}

fn hist_case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    if cfg.prop == "C14" && src.chance(1, 4) {
        return crate::ids::case(src, cfg);
    }
    if cfg.prop == "C16" && src.chance(1, 3) {
        return crate::nested::case(src, cfg);
    }
    if crate::scale::PROPS.contains(&cfg.prop.as_str()) && src.chance(1, 500) {
        return crate::scale::case(src, cfg);
    }
    if crate::shapes::PROPS.contains(&cfg.prop.as_str()) && src.chance(1, 25) {
        return crate::shapes::case(src, cfg);
    }
    let hp = find(&cfg.prop).expect("history property");
    let mut p = (hp.prof)();
    if !p.pure && !p.panic && src.chance(1, 4) {
        p.panic = true;
    }
    if cfg.prop == "C17" && src.chance(1, 2) {
        p.ext = true;
        p.pure = false;
        p.mutate = true;
    }
    if src.chance(1, if cfg.prop == "C12" || cfg.prop == "C18" { 400 } else { 100 }) {
        // now and then many builders
        p.max_handles = 150;
        p.min_ops = 150;
        p.max_ops = 300;
        p.w[W_NEW] *= 4;
    }
    if cfg.thorough {
        // now and then a much longer history
        if src.chance(1, 4) {
            p.max_ops *= 4;
            p.max_handles *= 2;
        }
    }
    p.blind = src.chance(1, 6);
    p.opaque = src.chance(1, 3);
    let fl = p.flavors[src.below(p.flavors.len())];
    p.pool = p.ext && !p.pure && src.chance(1 + (cfg.prop == "C09" || cfg.prop == "C10") as u64, 3);
    let doc = src.draw(4) as u8;
    p.doc = if p.doc == 100 { 0 } else { doc };
    if cfg.prop != "C16" && cfg.prop != "C15" {
        let base = src.rec.len();
        let mut out = run_history(src, cfg, p.clone(), fl, hp.judge, hp.nontrivial);
        // Would all have been well without the calls that must not have such an effect?
        let suspect = match cfg.prop.as_str() {
            "C03" => out.discs.iter().any(|(w, o)| {
                is(w, &["art.lost", "rebuild", "state.lost", "state.reinit", "early", "art.changed", "state.changed", "art.value", "res.moved"])
                    && (is(o, QUIET) || is(o, INV))
            }).then(|| ("inv", "without the invalidations before it there is no such loss")),
            "C12" => out.discs.iter().any(|(w, _)| !is(w, &["leak", "early"]) && !w.starts_with("doc."))
                .then(|| ("lookup", "without the lookups before it all is as expected")),
            "C14" => (out.convs && out.discs.iter().any(|(w, _)| !is(w, &["leak", "early"]) && !w.starts_with("doc.")))
                .then(|| ("conv", "without any conversion of the handles all is as expected")),
            _ => None,
        };
        if let (true, Some((what, why))) = (out.unjudged, suspect) {
            // (the looks the harness takes itself after each call are lookups, too; what only these
            // have shown is of no use then)
            let looks = what == "lookup"
                && !out.discs.iter().any(|(w, _)| w.starts_with("art.") || is(w, &["clash", "handles.disagree", "dep.gone", "known"])
                    || w.starts_with("state.") || w.starts_with("other."));
            for what in [what, "look"] {
                if what == "look" && !looks {
                    continue;
                }
                let mut less = cfg.clone();
                less.ablate = what;
                let mut s = Source::replay(src.rec[base..].to_vec());
                let o = run_history(&mut s, &less, p.clone(), fl, |_, _| true, hp.nontrivial);
                if o.fail.is_none() {
                    out.fail = Some(format!("{} at {}: {}", out.discs[0].0, out.discs[0].1, why));
                    break;
                }
            }
        }
        return out;
    }
    let base = src.rec.len();
    let mut out = run_history(src, cfg, p.clone(), fl, hp.judge, hp.nontrivial);
    if cfg.prop == "C15" {
        if out.unjudged {
            // Is all well when no address is ever used again?
            let mut fresh = cfg.clone();
            fresh.no_reuse = true;
            let mut s = Source::replay(src.rec[base..].to_vec());
            let o = run_history(&mut s, &fresh, p, fl, |_, _| true, hp.nontrivial);
            if o.fail.is_none() {
                out.fail = Some("without reuse of the addresses of dropped builders all is as expected, with it is not".into());
            }
        }
        return out;
    }
    if out.unjudged && out.last_cache.is_some() {
        // Does the cache behave alike when the other ones are left alone?
        let mut alone = cfg.clone();
        alone.only = out.last_cache;
        let mut s = Source::replay(src.rec[base..].to_vec());
        let o = run_history(&mut s, &alone, p, fl, |_, _| true, hp.nontrivial);
        if o.fail.is_none() {
            out.fail = Some(format!("cache {} alone behaves as expected, together with the others it does not", out.last_cache.unwrap()));
        }
    }
    out
}

/// Runs the same choices under several variants and compares what could be observed.
fn differential(
    src: &mut Source,
    cfg: &CaseCfg,
    what: &str,
    variants: &[(usize, u8)],
    prof: Profile,
    nontrivial: NonTrivial,
) -> CaseOut {
    let mut first: Option<CaseOut> = None;
    let mut ops = 0;
    let base = src.rec.len();
    for (n, (fl, doc)) in variants.iter().enumerate() {
        let mut p = prof.clone();
        p.doc = *doc;
        let o = if n == 0 {
            run_history(src, cfg, p, *fl, |_, _| false, nontrivial)
        } else {
            let mut s = Source::replay(src.rec[base..].to_vec());
            run_history(&mut s, cfg, p, *fl, |_, _| false, nontrivial)
        };
        ops += o.ops;
        match &mut first {
            None => first = Some(o),
            Some(f) => {
                if o.digest != f.digest || o.ops != f.ops {
                    f.fail = Some(format!(
                        "{}: the same calls show different behaviour under variant {:?} and {:?} (from call {})",
                        what,
                        variants[0],
                        variants[n],
                        first_diff(&f.digests, &o.digests)
                    ));
                    if cfg.want_trace {
                        f.trace.push_str("---- the other variant ----\n");
                        f.trace.push_str(&o.trace);
                    }
                    break;
                }
            }
        }
    }
    let mut f = first.unwrap();
    f.ops = ops;
    f
}

fn first_diff(a: &[u64], b: &[u64]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

fn parity_profile() -> Profile {
    let mut p = base_profile();
    p.w[W_GC] = 0;
    p.w[W_GCFIX] = 4;
    p.w[W_GETMUT] = 0;
    p.w[W_LOOKUPMUT] = 0;
    p.w[W_DROPHOLD] = 0;
    p.share = false;
    p.max_forms = 2;
    p
}

/// Diagnostics do not change behaviour. (Also run in builds without them: the driver compares
/// the digests of the builds.)
fn c20(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut p = parity_profile();
    p.panic = true;
    p.foreign = src.chance(1, 4);
    p.blind = src.chance(1, 6);
    p.opaque = src.chance(1, 3);
    p.deep = src.chance(1, 3);
    p.pool = src.chance(1, 3);
    let fl = src.below(5);
    let v: Vec<(usize, u8)> = (0..4).map(|d| (fl, d)).collect();
    differential(src, cfg, "doctor", &v, p, |s| s.builds >= 3 && s.inv_dependents > 0)
}

fn c29(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut p = parity_profile();
    p.panic = src.chance(1, 3);
    p.foreign = src.chance(1, 4);
    p.blind = src.chance(1, 6);
    p.opaque = src.chance(1, 3);
    p.pool = src.chance(1, 3);
    let doc = src.draw(4) as u8;
    let v: Vec<(usize, u8)> = (0..5).map(|f| (f, doc)).collect();
    differential(src, cfg, "can flavour", &v, p, |s| s.builds >= 3 && s.inv_dependents > 0)
}

/// Everything at once, for development.
fn all_case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut p = base_profile();
    p.deep = src.chance(1, 2);
    p.blind = src.chance(1, 6);
    p.opaque = src.chance(1, 3);
    p.panic = src.chance(1, 2);
    p.foreign = src.chance(1, 2);
    p.pure = src.chance(1, 2);
    if p.pure {
        p.ext = false;
        p.panic = false;
        p.mutate = false;
    }
    p.pool = !p.pure && src.chance(1, 2);
    let fl = p.flavors[src.below(p.flavors.len())];
    p.doc = src.draw(4) as u8;
    run_history(src, cfg, p, fl, |_, _| true, |s| s.builds > 0)
}

fn scale_case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut c = cfg.clone();
    c.prop = "ALL".into();
    crate::scale::case(src, &c)
}

fn shapes_case(src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let mut c = cfg.clone();
    c.prop = "ALL".into();
    crate::shapes::case(src, &c)
}

pub fn case_fn(p: &str) -> Option<CaseFn> {
    match p {
        "ALL" => Some(all_case),
        "SCALE" => Some(scale_case),
        "SHAPES" => Some(shapes_case),
        "NESTED" => Some(crate::nested::case),
        "C20" => Some(c20),
        "C29" => Some(c29),
        "C23" => Some(crate::canning::c23),
        "C24" => Some(crate::utils::c24),
        "C25" => Some(crate::utils::c25),
        "C31" => Some(crate::threads::c31),
        "C30" => Some(crate::utils::c30),
        "C26" => Some(crate::utils::c26),
        #[cfg(feature = "diagnostics")]
        "C21" => Some(crate::docs::c21),
        #[cfg(feature = "diagnostics")]
        "C32" => Some(crate::handles::c32),
        #[cfg(feature = "diagnostics")]
        "C22" => Some(crate::docs::c22),
        #[cfg(feature = "unsized")]
        "C27" => Some(crate::supers::c27),
        _ => find(p).map(|_| hist_case as CaseFn),
    }
}

pub fn all() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = HIST.iter().map(|p| p.id).collect();
    v.extend(["C20", "C23", "C24", "C25", "C26", "C29", "C30", "C31"]);
    #[cfg(feature = "diagnostics")]
    v.extend(["C21", "C22", "C32"]);
    #[cfg(feature = "unsized")]
    v.push("C27");
    v.sort();
    v
}
