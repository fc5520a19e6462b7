#!/usr/bin/env python3
"""Runs the checks of this framework.

  check.py run C01 [--tier quick|thorough]   decide one property (what MANIFEST.json calls)
  check.py replay FILE                       run a recorded violation again
  check.py setup                             build everything once
  check.py all                               every property, one after the other

Exit status: 0 the property held on everything generated, 1 it is broken (one line
"VIOLATION property=<id> replay=<path>" for it), 2 the check itself could not decide.
"""
import json, os, re, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
THREADS = max(2, min(8, os.cpu_count() or 2))

# Every build of the harness has a build of /repo's working tree with these features in it.
CONFIGS = {
    "plain":   dict(tool=[], args=["--release"], feats="", dir="plain", out="release"),
    "rel":     dict(tool=[], args=["--release"], feats="mut_box", dir="rel", out="release"),
    "dev":     dict(tool=[], args=[], feats="diagnostics,mut_box", dir="dev", out="debug"),
    "nightly": dict(tool=["+nightly"], args=[], feats="diagnostics,mut_box,unsized,tynm,doc_cfg",
                    dir="nightly", out="debug"),
}

from registry import PROPS, RULES  # noqa: E402


def env():
    e = dict(os.environ)
    e["RUSTFLAGS"] = "-Awarnings"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def binary(cfg):
    c = CONFIGS[cfg]
    return os.path.join(HARNESS, "target", c["dir"], c["out"], "vh")


def build(cfgs):
    """Builds the given configurations side by side; returns an error text or None."""
    procs = []
    for name in cfgs:
        c = CONFIGS[name]
        cmd = ["cargo"] + c["tool"] + ["build", "--offline", "--locked", "--quiet"] + c["args"]
        if c["feats"]:
            cmd += ["--features", c["feats"]]
        cmd += ["--target-dir", os.path.join(HARNESS, "target", c["dir"])]
        log = os.path.join(HARNESS, "target", c["dir"] + ".log")
        os.makedirs(os.path.dirname(log), exist_ok=True)
        f = open(log, "w")
        procs.append((name, log, f, subprocess.Popen(cmd, cwd=HARNESS, env=env(), stdout=f, stderr=f)))
    err = None
    for name, log, f, p in procs:
        rc = p.wait()
        f.close()
        if rc != 0 and err is None:
            with open(log) as g:
                err = "build %s failed:\n%s" % (name, g.read()[-4000:])
    return err


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) signature=(.+?) :: (.+)$", line)
            if m:
                out.append(m.groups())
    return out


class Undecided(Exception):
    pass


def run_cases(prop, cfg, frm, cases, seed, thorough, extra, work):
    tag = "%s-%s-%s" % (prop, cfg, frm)
    out = os.path.join(work, tag + ".json")
    status = os.path.join(work, tag + ".status")
    keys = os.path.join(work, tag + ".keys")
    cmd = [binary(cfg), "run", "--prop", prop, "--seed", str(seed), "--from", str(frm), "--cases", str(cases),
           "--threads", str(THREADS), "--out", out, "--status", status, "--keys", keys] + extra
    if thorough:
        cmd.append("--thorough")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    text = p.stdout.decode(errors="replace")
    if p.returncode in (0, 1) and os.path.exists(out):
        r = json.load(open(out))
        with open(keys, "rb") as f:
            b = f.read()
        r["keys"] = struct.unpack("<%dQ" % (len(b) // 8), b)
        return r
    dead = dict(evaluations=0, discarded=0, ops=0, nontrivial=0, distinct_nontrivial=0, labels={},
                samples=[], digests=[], keys=())
    m = re.search(r"VH-HANG case=(\d+)", text)
    if m:
        # A case takes milliseconds: one that does not end in a minute, twice, does not end.
        c = [binary(cfg), "case", "--prop", prop, "--seed", str(seed), "--index", m.group(1), "--tries", "1"]
        if thorough:
            c.append("--thorough")
        try:
            subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), timeout=60)
        except subprocess.TimeoutExpired:
            dead["failure"] = dict(case=int(m.group(1)), msg="the call did not end within a minute (a hang)", choices=None,
                                   trace="(case %s of seed %s)" % (m.group(1), seed), shrink_evaluations=0)
            return dead
        raise Undecided("a case did not end within a minute, but does when run alone: %s (%s, %s)" % (
            text.strip()[-200:], prop, cfg))
    # The process died: find the case that kills it.
    for t in range(THREADS):
        sp = "%s.%d" % (status, t)
        if not os.path.exists(sp):
            continue
        try:
            idx = int(open(sp).read().split()[0])
        except (ValueError, IndexError):
            continue
        c = [binary(cfg), "case", "--prop", prop, "--seed", str(seed), "--index", str(idx), "--tries", "3"]
        if thorough:
            c.append("--thorough")
        try:
            q = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if q.returncode < 0 or q.returncode >= 128:
            dead["failure"] = dict(case=idx, msg="the process died (status %d)" % q.returncode, choices=None,
                                   trace=q.stdout.decode(errors="replace")[-3000:], shrink_evaluations=0)
            return dead
    raise Undecided("%s on %s ended with status %d: %s" % (prop, cfg, p.returncode, text[-2000:]))


def write_replay(prop, cfg, seed, thorough, f):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, cfg))
    json.dump(dict(property=prop, build=cfg, features=CONFIGS[cfg]["feats"], seed=seed, thorough=thorough,
                   case=f["case"], what=f["msg"], choices=f["choices"], history=f["trace"].split("\n"),
                   shrink_evaluations=f["shrink_evaluations"]),
              open(path, "w"), indent=1)
    return path


def decide(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    thorough = tier == "thorough"
    plan = spec["thorough" if thorough else "quick"]
    err = build(sorted({c for c, *_ in plan}))
    if err:
        print(err)
        return 2
    work = os.path.join(HARNESS, "target", "work")
    os.makedirs(work, exist_ok=True)
    findings = known_findings()
    tot = dict(evaluations=0, ops=0, discarded=0, nontrivial=0)
    labels, samples, per_build, keys = {}, [], {}, set()
    digests = {}
    violation = None
    shown = set()
    frm = 0
    for cfg, cases in plan:
        same = spec.get("cross")  # the same cases in every build, to compare the behaviour
        r = run_cases(prop, cfg, 0 if same else frm, cases, seed, thorough, ["--digests"] if same else [], work)
        frm += cases
        for k in tot:
            tot[k] += r[k]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += ["[%s] %s" % (cfg, s) for s in r["samples"][:2]]
        keys.update(r["keys"])
        per_build[cfg] = dict(features=CONFIGS[cfg]["feats"] or "(none)", evaluations=r["evaluations"],
                              distinct_nontrivial=r["distinct_nontrivial"],
                              debug_assertions=CONFIGS[cfg]["out"] == "debug")
        f = r["failure"]
        if f:
            hit = [k for k in findings if k[0] == prop and re.search(k[1], f["msg"])]
            if hit:
                # Only ever listed, specific findings; there are none that hide the rest of a run
                # (a listed one ends this build's run, which is then reported as incomplete).
                if hit[0] not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
                    shown.add(hit[0])
                continue
            violation = (write_replay(prop, cfg, seed, thorough, f), f)
            break
        if same:
            digests[cfg] = dict((i, d) for i, d in r["digests"])
    if violation is None and spec.get("cross"):
        names = list(digests)
        base = digests[names[0]]
        compared = 0
        for n in names[1:]:
            diff = [i for i in base if i in digests[n] and base[i] != digests[n][i]]
            compared += len([i for i in base if i in digests[n]])
            if diff:
                f = dict(case=min(diff), choices=None, shrink_evaluations=0,
                         msg="the same calls behave differently in the builds %s and %s (%d of %d cases)" % (
                             names[0], n, len(diff), len(base)),
                         trace=case_text(prop, names[0], seed, min(diff)) + "\n---- " + n + " ----\n"
                         + case_text(prop, n, seed, min(diff)))
                violation = (write_replay(prop, n, seed, thorough, f), f)
                break
        per_build["compared_between_builds"] = compared
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["evaluations"], distinct_nontrivial=len(keys), rule=RULES[prop],
            samples=samples[:6], operations=tot["ops"], discarded=tot["discarded"], classes=labels,
            builds=per_build,
        ),
        assumptions=[
            "the documented semantics as written in properties.jsonl and DESIGN.md is the oracle",
            "cases are drawn at random from a bounded generator: this explores, it does not prove",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d calls, %.1f s" % (
        prop, tier, tot["evaluations"], len(keys), tot["ops"], time.time() - t0))
    if violation:
        path, f = violation
        print(f["msg"])
        print(f["trace"][-6000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def case_text(prop, cfg, seed, idx):
    p = subprocess.run([binary(cfg), "case", "--prop", prop, "--seed", str(seed), "--index", str(idx), "--tries", "1"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    return p.stdout.decode(errors="replace")


def replay(path):
    r = json.load(open(path))
    err = build([r["build"]])
    if err:
        print(err)
        return 2
    cmd = [binary(r["build"]), "case", "--prop", r["property"], "--seed", str(r["seed"])]
    if r["choices"] is None:
        cmd += ["--index", str(r["case"])]
    else:
        cmd += ["--choices", ",".join(map(str, r["choices"]))]
    if r["thorough"]:
        cmd.append("--thorough")
    try:
        p = subprocess.run(cmd, env=env(), timeout=120)
    except subprocess.TimeoutExpired:
        print("still does not end")
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    if p.returncode == 0:
        print("does not fail any more" if r["choices"] is not None or "died" in r["what"] or "hang" in r["what"]
              else "compare the digests of the builds: " + r["what"])
        return 0
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    try:
        if a[:1] == ["run"]:
            return decide(a[1], tier, seed)
        if a[:1] == ["replay"]:
            return replay(a[1])
        if a[:1] == ["setup"]:
            err = build(list(CONFIGS))
            print(err or "built")
            return 2 if err else 0
        if a[:1] == ["all"]:
            worst = 0
            for p in sorted(PROPS):
                worst = max(worst, decide(p, tier, seed))
            return worst
    except Undecided as e:
        print("UNDECIDED: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
