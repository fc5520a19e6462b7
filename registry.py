"""What each check runs: (build, number of cases) per tier, and the rule its evidence states."""

# Rates on the reference sandbox: about 30 k history cases per second over 8 threads (release).
_H_QUICK = [("rel", 300_000), ("dev", 200_000), ("nightly", 120_000)]
_H_THOROUGH = [("rel", 5_000_000), ("dev", 3_000_000), ("nightly", 2_500_000)]

_GEN = ("A case is a random history of calls (get, lookup, get_dyn_state, dyn_state, dyn_state_mut, invalidate, "
        "purge, garbage_collection, clear_artifacts, clear_all, handle creation, cloning, conversion and dropping, "
        "changes of the outside world) on caches holding a random, growing dependency graph of builders "
        "(conditional, repeated, ignored and caught resolves, failing and panicking builds and state initialisers), now and then "
        "with more than a hundred builders, rarely on graphs of up to 70000 plain builders, in a share of the cases on builders of ten "
        "combinations of artifact, state and error types (zero-sized, over-aligned, large, owning, type-erased), over the can flavours Rc, Arc, Box "
        "and mutable Rc/Arc boxes; after every call the complete observable state is compared with the reference model. ")


def _h(rule, quick=_H_QUICK, thorough=_H_THOROUGH, **kw):
    return dict(quick=quick, thorough=thorough, rule=_GEN + "Non-trivial: " + rule, **kw)


_ALL = {
    "C01": _h("an artifact was reused inside another build and at least 3 builders were run."),
    "C02": _h("an invalidation met at least one cached dependent."),
    "C03": _h("an invalidation met at least one cached artifact that it must keep."),
    "C04": _h("a comparison with the from-scratch evaluation took place after a state was written and dependents were dropped."),
    "C05": _h("a state was written and a written state survived an event that may not touch it."),
    "C06": _h("at least one build failed and at least one succeeded."),
    "C07": _h("at least one build panicked and at least one succeeded."),
    "C08": _h("a clear_* call removed something."),
    "C09": _h("a collection removed something and had to keep something live."),
    "C10": _h("a collection removed something."),
    "C11": _h("2 or more builds, and a purge, a collection with effect or a clear."),
    "C12": _h("a cached artifact was read again and at least 2 builders were run."),
    "C13": _h("a tracked value was dropped and at least 3 builders were run."),
    "C14": _h("a conversion was applied and at least 2 builders were run."),
    "C15": _h("a new builder was allocated at the address of a dropped one. Where something goes wrong later, the history "
              "is run again without reuse of addresses."),
    "C16": _h("the same builder was used in two caches. Running builders also use other caches; where something goes "
              "wrong, the history is run again without the calls on the other caches. In a third of the cases all user code "
              "a cache calls makes calls to other caches, which are repeated on each cache alone and compared; non-trivial "
              "if it made at least two and two caches ran builders."),
    "C17": _h("an artifact with cached dependents was mutated in place."),
    "C18": _h("at least 3 builders were run and something was invalidated."),
    "C19": _h("at least 5 doctor events and an invalidation.", quick=[("dev", 250_000), ("nightly", 150_000)],
              thorough=[("dev", 4_000_000), ("nightly", 3_000_000)]),
    "C20": _h("at least 3 builders were run and an invalidation met dependents. Each case is executed under four "
              "doctors, and again in builds with and without the diagnostics feature; digests of all observations are compared.",
              quick=[("plain", 40_000), ("rel", 40_000), ("dev", 40_000), ("nightly", 40_000)],
              thorough=[("plain", 500_000), ("rel", 500_000), ("dev", 500_000), ("nightly", 500_000)], cross=True),
    "C28": _h("at least 2 builders were run and an invalidation met dependents."),
    "C29": _h("at least 3 builders were run and an invalidation met dependents. Each case is executed in all five can "
              "flavours and the observations are compared.",
              quick=[("rel", 50_000), ("dev", 40_000), ("nightly", 20_000)],
              thorough=[("rel", 800_000), ("dev", 500_000), ("nightly", 400_000)]),
}


def _g(gen, rule, quick, thorough, **kw):
    return dict(quick=quick, thorough=thorough, rule=gen + " Non-trivial: " + rule, **kw)


_ALL.update({
    "C21": _g("A case is a random small history of a real cache whose builders and artifacts have random texts and type names "
              "(quotes, backslashes, braces, control characters, Unicode), observed by a VisgraphDoc with random options wrapped in a "
              "recording doctor, finished in one of the ways there are; the output is parsed by an independent DOT reader and compared "
              "with the graph the recorded events describe, at the end and at random points before (completed by a closing brace).",
              "a resolution, a build of an artifact whose text has special characters, and an invalidation, purge or clear.",
              [("dev", 200_000), ("nightly", 120_000)], [("dev", 4_000_000), ("nightly", 2_500_000)]),
    "C22": _g("A case is a random small history of a real cache whose builders and artifacts have random texts and type names, observed "
              "by a TextualDoc with random options wrapped in a recording doctor; the output is compared record by record with what the "
              "recorded events and the options ask for, at the end and at random points before.",
              "a resolution, a build of an artifact whose text has special characters, and an invalidation, purge or clear.",
              [("dev", 200_000), ("nightly", 120_000)], [("dev", 4_000_000), ("nightly", 2_500_000)]),
    "C23": _g("A case is a random history of conversions among bins, cans, references and weak cans over values of ten types "
              "(zero-sized, over-aligned, structurally equal, counting their drops), over the cans Rc, Arc, Box and one a user wrote; "
              "addresses, values, liveness and drop counts of everything are compared with the model after every step.",
              "a right downcast, and a wrong one or an upgrade.",
              [("rel", 500_000), ("dev", 300_000), ("nightly", 300_000)],
              [("rel", 10_000_000), ("dev", 6_000_000), ("nightly", 6_000_000)]),
})
_U = ("A case is a random history of requests, lookups, state accesses, invalidations, purges, clears and collections in "
      "caches over a random stack of the ready-made builders (functional, configurable, constant, cloned, forwarding, feigning, "
      "redeeming) on instrumented builders that fail on demand, over Rc, Arc and Box, with handles dropped on the way; after every "
      "call every artifact, its identity, every state and the known builders are compared with a model.")
_UQ = [("rel", 500_000), ("dev", 300_000), ("nightly", 300_000)]
_UT = [("rel", 8_000_000), ("dev", 5_000_000), ("nightly", 5_000_000)]
_ALL.update({
    "C24": _g(_U, "a failure was redeemed, and later a success followed on a redeemed failure.", _UQ, _UT),
    "C25": _g(_U, "at least 2 builds of wrappers, and cached dependents were dropped.", _UQ, _UT),
    "C26": _g(_U, "at least 2 builds of state-dependent value builders and a state was written.", _UQ, _UT),
    "C30": _g(_U, "a builder of a simplified trait exists, cached dependents were dropped, and there were 3 or more builds.", _UQ, _UT),
    "C27": _g("A case is a random history over super builders (producing fresh builders, sharing or wrapping those of other super "
              "builders, failing on demand, as Blueprint or BlueprintUnsized) in super caches and over the produced builders in "
              "ordinary caches: requests, lookups, invalidations, state writes, purges, clears, collections, dropping of handles; "
              "identity, liveness, artifacts and states are compared with a model after every call.",
              "a produced builder was replaced while an older one was held, and produced builders were used at least twice.",
              [("nightly", 400_000)], [("nightly", 8_000_000)]),
})

_ALL["C31"] = _g(
    "A case is a random program of 2 or 3, rarely up to 8 threads, each with a cache of its own over shared Arc blueprints: requests, "
    "lookups, state accesses, invalidations, purges, clears, collections, cloning and dropping of handles and artifacts, "
    "creating builders on handles of others and passing handles and artifacts on, builders that take time, fail or panic, "
    "with the last handles dropped concurrently; every thread's results are compared with its own sequential model, and "
    "every builder, artifact and state must have been dropped exactly once at the end.",
    "at least two threads request two or more times, and handles are dropped and a collection is run by some thread.",
    [("rel", 60_000), ("dev", 40_000), ("nightly", 40_000)], [("rel", 1_500_000), ("dev", 800_000), ("nightly", 800_000)],
    technique="property-based testing of generated multi-threaded programs",
    note="Random programs on real threads: the schedules are those the operating system produces and are sampled, not "
         "enumerated. Trusts the sequential model of each thread.")

_ALL["C32"] = _g(
    "A case is a random small history on a cache whose doctor keeps the handles of all events; doctor and user clone, compare, "
    "drop and take apart handles, and make more; identity, texts, equality, hashes, values and liveness of what the handles "
    "carry are compared with a model.",
    "two handles of the same builder or artifact existed, handles were dropped, and there were two or more builds.",
    [("dev", 200_000), ("nightly", 120_000)], [("dev", 4_000_000), ("nightly", 2_500_000)],
    note="Random exploration of bounded histories of up to a few builders; every failure is shrunk to a replayable history. "
         "Single-threaded.")

PROPS = {k: {a: b for a, b in v.items() if a != "rule"} for k, v in _ALL.items()}
RULES = {k: v["rule"] for k, v in _ALL.items()}

_HIST_NOTE = ("Random exploration of bounded histories against a reference model through the public API; every failure is "
              "shrunk to a replayable history. Trusts the model (DESIGN.md) and the harness' instrumented types; "
              "single-threaded; mostly graphs of up to a dozen builders and histories of some dozens of calls, in one case of a hundred up to "
              "150 builders and 300 calls.")
TECHNIQUE, LEVEL_NOTE = {}, {}
for _k in _ALL:
    TECHNIQUE[_k] = _ALL[_k].get("technique", "stateful model-based property testing with shrinking")
    LEVEL_NOTE[_k] = _ALL[_k].get("note", _HIST_NOTE)
for _k in ("C21", "C22"):
    TECHNIQUE[_k] = "property-based testing: generated event sequences read back and compared with a reference rendering"
    LEVEL_NOTE[_k] = ("Random exploration of bounded event sequences; the output is judged by an independent parser. Trusts that parser "
                      "and the reading of the documentation given in DESIGN.md.")
LEVEL_NOTE["C23"] = ("Random exploration of bounded conversion histories of ten value types and four cans; every failure is shrunk to a "
                     "replayable history. Single-threaded.")
for _k in ("C24", "C25", "C26", "C27", "C30"):
    LEVEL_NOTE[_k] = ("Random exploration of bounded histories over small stacks of builders against a reference model through the public "
                      "API; every failure is shrunk to a replayable history. Single-threaded.")
for _k in ("C20", "C29"):
    TECHNIQUE[_k] = "differential property testing of generated call histories"
