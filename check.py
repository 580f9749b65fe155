#!/usr/bin/env python3
"""Decide one property of /repo by bounded symbolic execution (Kani -> CBMC -> SAT).

    check.py P01              decide P01 (tier from VERIF_TIER, default quick)
    check.py replay FILE      re-run a recorded counterexample against the real code

Every run compiles /repo's current tree and the proof harnesses of /verif/harness to goto
programs, lets the solver decide every assertion, replays what it answers against a native
build of the same tree, and rewrites evidence/<property>.json.

Exit 0: every harness of the property that was decided holds.  On a changed tree a few may hit
the time limit or the loop bounds: they are printed as UNDECIDED, listed in the evidence, and
more than a quarter of them is no answer.  Exit 1 with a VIOLATION line: a counterexample that
reproduces natively.  Exit 2: no answer (build failure, too much undecided, vacuous harness,
counterexample that does not reproduce).
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
T0 = time.time()

LIMITS = {
    # total seconds for the solver stage, per harness, and witnesses replayed
    # (`total` is for one arithmetic profile; nothing starts after `deadline`)
    "quick": dict(total=600, harness=300, witnesses=3, retry=120, deadline=850),
    "thorough": dict(total=6000, harness=1500, witnesses=8, retry=600, deadline=20000),
}


def log(*a):
    print(*a, flush=True)


def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN")) and k not in ("CARGO_HOME",):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **extra)
    return e


def run(cmd, timeout, cwd=HARNESS, limit_as=None, **kw):
    """Run a command in its own process group; on timeout kill the whole group. -> (rc, out)"""
    def pre():
        os.setsid()
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, preexec_fn=pre, **kw)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


class NoAnswer(Exception):
    pass


class Native:
    """The same tree and harnesses as an ordinary program, in the profiles users build with."""

    def __init__(self, work):
        self.work = os.path.join(work, "native")
        self.error = None
        self.thread = threading.Thread(target=self.build)
        self.thread.start()

    def build(self):
        for flags in ([], ["--release"]):
            rc, out = run(["cargo", "build", "--offline", "--bin", "replay",
                           "--target-dir", self.work] + flags, 400, env=env())
            if rc != 0:
                self.error = out[-4000:]
                return

    def ready(self):
        self.thread.join()
        if self.error:
            raise NoAnswer("the native replay program does not build:\n" + self.error)

    def replay(self, harness, values, seconds=30):
        """-> {profile: 'pass' | 'fail' | 'hang' | 'assume' | 'mismatch'}, output"""
        self.ready()
        res, text = {}, []
        for profile, d in (("dev", "debug"), ("release", "release")):
            rc, out = run([os.path.join(self.work, d, "replay"), "run", harness, ",".join(values)],
                          seconds, limit_as=12 << 30, env=env(RUST_BACKTRACE="0"))
            res[profile] = {None: "hang", 0: "pass", 1: "fail", 3: "assume", 4: "mismatch",
                            5: "mismatch"}.get(rc, "fail")
            text.append(f"[{profile}: {res[profile]}, exit {rc}] {out.strip()[:1500]}")
        return res, "\n".join(text)

    def find(self, harness, seconds):
        """Values with which a harness fails that the solver says can fail, without asking it for them: a trace of
        a hundred thousand steps takes longer to print than to decide."""
        self.ready()
        rc, out = run([os.path.join(self.work, "debug", "replay"), "find", harness, str(seconds)], seconds + 10,
                      limit_as=12 << 30, env=env(RUST_BACKTRACE="0"))
        m = re.search(r"^FOUND (\S*)$", out, re.M)
        return m and [v for v in m.group(1).split(",") if v]

    def miri(self, harness, values, seconds):
        rc, out = run(["cargo", "+nightly", "miri", "run", "--offline", "--bin", "replay",
                       "--target-dir", self.work + "-miri", "--", "run", harness, ",".join(values)],
                      seconds, env=env(MIRIFLAGS="-Zmiri-disable-isolation"))
        return rc == 1 and ("Undefined Behavior" in out or "panicked at" in out), out[-3000:]

    def unwinds(self):
        """{harness: loop bound}"""
        self.ready()
        rc, out = run([os.path.join(self.work, "debug", "replay"), "list"], 60, env=env())
        return {l.split()[0]: int(l.split()[1]) for l in out.splitlines() if l.strip()}


class Kani:
    def __init__(self, work, release=False, split_arrays=False):
        self.work = os.path.join(work, "kani-release" if release else "kani")
        self.tmp = work
        self.split_arrays = split_arrays
        self.release = release
        self.env = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false",
                    "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"} if release else {}

    def cmd(self, *extra, slot=""):
        # Arrays of up to 600 elements are split into their elements: constant indices stay cheap.
        return ["cargo", "kani", "--lib", "--target-dir", self.work + slot, "-Z", "unstable-options",
                "-Z", "stubbing", *extra] + \
            (["--cbmc-args", "--max-field-sensitivity-array-size", "600"] if self.split_arrays else [])

    def decide(self, filters, total, per_harness, exact=False, unwind=None):
        """-> (results document or None, console output)"""
        js = os.path.join(self.tmp, os.path.basename(self.work) + "-results.json")
        if os.path.exists(js):
            os.remove(js)
        args = ["--exact"] if exact else []
        for f in filters:
            args += ["--harness", f]
        if unwind:
            args += ["--unwind", str(unwind)]
        rc, out = run(self.cmd(*args, "-j", "8", "--output-format", "terse", "--export-json", js,
                               "--harness-timeout", f"{per_harness}s"), total, env=env(**self.env))
        if os.path.exists(js):
            return json.load(open(js)), out
        if rc is None and "Checking harness" in out:
            log(f"the solver stage did not end within {total:.0f} s")
            return None, out
        raise NoAnswer("cargo kani failed:\n" + out[-6000:])

    def playback(self, harness, timeout, unwind=None, slot=""):
        """Re-decide one harness and read the solver's concrete values.
        -> [(kind, values)], output"""
        extra = ["--unwind", str(unwind)] if unwind else []
        rc, out = run(self.cmd("--harness", harness, "--exact", "-Z", "concrete-playback",
                               "--concrete-playback=print", *extra, slot=slot), timeout, env=env(**self.env))
        tests = []
        for block in out.split("Concrete playback unit test for")[1:]:
            m = re.search(r"Check for `(\w+)`", block)
            body = block.split("concrete_vals", 1)
            if len(body) < 2:
                continue
            body = body[1].split("concrete_playback_run", 1)[0]
            vals = [bytes(int(x) for x in v.split(",") if x.strip()).hex()
                    for v in re.findall(r"^\s*vec!\[([\d,\s]*)\],?\s*$", body, re.M)]
            tests.append((m.group(1) if m else "?", vals))
        return rc, tests, out


def functions_encoded(kani, results):
    """Names of the functions in the goto programs the solver got."""
    repo, other = set(), set()
    files = [re.sub(r"\.symtab\.out$", ".out", m["goto_file"])
             for m in results.get("harness_metadata", []) if m.get("goto_file")]

    def one(f):
        rc, out = run(["goto-instrument", "--list-goto-functions", f], 60, cwd="/", env=env())
        return out
    with ThreadPoolExecutor(8) as ex:
        for out in ex.map(one, [f for f in files if os.path.exists(f)]):
            for line in out.splitlines():
                m = re.match(r"(.*?) /\* (\S+?)(, body not available)? \*/$", line)
                if m and not m.group(3) and not m.group(1).startswith("__"):
                    own = re.match(r"([pt]\d\d|model|nd|keys)::", m.group(1)) or \
                        re.search(r" as ([pt]\d\d|model|nd|keys)::|^<keys::K<|\{closure", m.group(1))
                    (repo if "ordinal_map::" in m.group(1) and not own else other).add(m.group(1))
    return sorted(repo), len(other)


def failing(result):
    return [c for c in result["checks"] if c["status"] in ("Failure", "FAILURE")]


def is_unwinding(c):
    return "unwinding assertion" in c["description"] or c.get("category") == "unwind"


def optional(r):
    """Harnesses that decide more when the code makes it possible, and are left out otherwise."""
    return "::opt::" in r["harness_id"]


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                out.append(dict(re.findall(r'(\w+)=("[^"]*"|\S+)', line)))
    return [{k: v.strip('"') for k, v in d.items()} for d in out]


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in LIMITS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    lim = LIMITS[tier]
    num = prop[1:].lower()
    filters = [f"p{num}::"]
    if tier == "thorough" and os.path.exists(os.path.join(HARNESS, "src", f"t{num}.rs")):
        filters.append(f"t{num}::")
    os.makedirs(EVIDENCE, exist_ok=True)
    scratch = os.path.join(VERIF, "work")
    os.makedirs(scratch, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{prop}-", dir=scratch)
    try:
        return decide(prop, tier, seed, lim, filters, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def salvage(out, filters):
    """What the console of an unfinished solver stage says: the harnesses it decided."""
    running, results = {}, []
    thread = None
    for line in out.splitlines():
        m = re.match(r"Thread (\d+): ?(?:Checking harness (\S+?)\.\.\.)?", line)
        if m:
            thread = m.group(1)
            if m.group(2):
                running[thread] = {"harness_id": m.group(2), "status": "Undecided", "duration_ms": 0, "checks": []}
        elif thread in running:
            r = running[thread]
            m = re.match(r"Failed Checks: (.*)", line)
            if m:
                r["checks"].append({"description": m.group(1), "status": "Failure"})
            elif " cover properties satisfied" in line and line.strip() == "** 1 of 1 cover properties satisfied":
                r["checks"].append({"description": "harness end reached", "status": "Satisfied", "category": "cover"})
            m = re.match(r"VERIFICATION:- (\w+)", line)
            if m:
                r["status"] = "Success" if m.group(1) == "SUCCESSFUL" else "Failure"
                results.append(running.pop(thread))
    return results + list(running.values())


def stage(kani, filters, lim, exact=False):
    """Decide the harnesses, with larger loop bounds where a loop bound was too small."""
    t = time.time()
    data, out = kani.decide(filters, lim["total"], lim["harness"], exact=exact)
    results = data["verification_results"]["results"] if data else salvage(out, filters)
    results = [r for r in results if any(r["harness_id"].startswith(f) for f in filters)]
    log(f"{len(results)} harnesses ran in {time.time() - t:.0f} s")
    if not results:
        raise NoAnswer("no harness was decided")
    short = [r for r in results if failing(r) and all(is_unwinding(c) for c in failing(r))
             and not optional(r)]
    unwinds = kani.unwinds() if short else {}
    for grow in (lambda u: u + 2, lambda u: 2 * u + 4, lambda u: max(2 * u + 20, 70)):
        if not short:
            break
        for u in sorted({unwinds.get(r["harness_id"], 8) for r in short}):
            ids = [r["harness_id"] for r in short if unwinds.get(r["harness_id"], 8) == u]
            left = lim["total"] - (time.time() - t)
            if left < 30:
                break
            log(f"loop bound {u} is too small for {len(ids)} harnesses, trying {grow(u)}")
            d, o = kani.decide(ids, left, lim["retry"], exact=True, unwind=grow(u))
            for r in (d["verification_results"]["results"] if d else salvage(o, ids)):
                if r["status"] != "Undecided" and r["checks"] and (r["status"] == "Success" or failing(r)):
                    results = [x for x in results if x["harness_id"] != r["harness_id"]] + [r]
                    r["unwind"] = grow(u)
        short = [r for r in results if failing(r) and all(is_unwinding(c) for c in failing(r))
                 and not optional(r)]
    return data, results


def decide(prop, tier, seed, lim, filters, work):
    native, kani = Native(work), Kani(work, split_arrays=prop in SPLIT_ARRAYS)
    try:
        kani.unwinds = native.unwinds
        data, results = stage(kani, filters, lim)
        stages = [(kani, data, results)]
        if (tier == "thorough" or prop in RELEASE_QUICK) and not any(failing(r) and not optional(r) for r in results):
            k = Kani(work, release=True, split_arrays=prop in SPLIT_ARRAYS)
            k.unwinds = kani.unwinds
            left = lim["deadline"] - 50 - (time.time() - T0)
            ids = [r["harness_id"] for r in results if tier == "thorough" or not SIZES.search(r["harness_id"])]
            stages.append((k, *stage(k, ids, dict(lim, total=min(lim["total"], left)), exact=True)))
    except NoAnswer:
        native.thread.join()
        raise
    funcs, others = functions_encoded(kani, data) if data else ([], 0)
    stats = [c.get("cbmc_stats") or {} for _, d, _ in stages if d for c in d.get("cbmc", [])]
    results = [dict(r, kani=k) for k, _, rs in stages for r in rs]
    skipped = [r for r in results if optional(r) and
               (r["status"] != "Success" and all(is_unwinding(c) for c in failing(r)))]
    results = [r for r in results if r not in skipped]
    log(f"{prop}: {len(results)} harness runs decided in {time.time() - T0:.0f} s")

    held, bad, undecided, vacuous = [], [], [], []
    for r in results:
        covers = [c for c in r["checks"] if c.get("category") == "cover"]
        if failing(r):
            bad.append(r)
        elif r["status"] != "Success" or not r["checks"]:
            undecided.append(r)
        elif not any(c["description"] == "harness end reached" for c in covers) or \
                any(c["status"].lower() != "satisfied" for c in covers):
            vacuous.append(r)
        else:
            held.append(r)

    # Counterexamples: recover the values, replay natively, report only what reproduces.
    violations, known, unexplained = [], [], []
    bad.sort(key=lambda r: (all(is_unwinding(c) for c in failing(r)), r["duration_ms"]))
    while bad and len(violations) < 3 and not (violations and time.time() - T0 > 300):
        batch, bad = bad[:3], bad[3:]
        if time.time() - T0 > lim["total"] + 120:
            for r in batch:
                if all(is_unwinding(c) for c in failing(r)):
                    undecided.append(dict(r, status="longer than the loop bound"))
                else:
                    unexplained.append((r, "not examined: out of time"))
            continue
        with ThreadPoolExecutor(3) as ex:
            answers = list(ex.map(lambda ir: confirm(ir[1], ir[1]["kani"], native, lim, f"-{ir[0]}"),
                                  enumerate(batch)))
        for r, v in zip(batch, answers):
            if v.get("reproduced"):
                k = [f for f in known_findings() if f.get("property") == prop
                     and f.get("harness") == r["harness_id"] and f.get("check") in v["checks"]
                     and len(v["checks"]) == 1]
                (known if k else violations).append((r, v))
            elif all(is_unwinding(c) for c in failing(r)):
                # It ends natively: longer than the loop bounds reach, not decided.
                undecided.append(dict(r, status="longer than the loop bound"))
            else:
                unexplained.append((r, v["why"]))

    # Reachability witnesses: the solver's values for a run that reaches the end of a harness
    # must drive the native build along that run as well.
    validated, samples = 0, []
    if not violations:
        pool = sorted(held, key=lambda r: r["duration_ms"])
        pool = pool[: max(lim["witnesses"] + 1, len(pool) // (6 if tier == "quick" else 1))]
        pool = [r for r in pool if tier != "quick" or r["duration_ms"] <= 6000] or pool[:1]
        step = max(1, len(pool) // lim["witnesses"])
        picks = [pool[(seed + i * step) % len(pool)] for i in range(min(lim["witnesses"], len(pool)))] if pool else []
        picks = list({p["harness_id"]: p for p in picks}.values())

        def witness(ir):
            i, r = ir
            left = lim["deadline"] - (time.time() - T0)
            if left < 60:
                return None
            _, tests, _ = r["kani"].playback(r["harness_id"], min(200, left), r.get("unwind"), f"-{i}")
            for kind, vals in tests:
                if kind == "cover":
                    return vals, *native.replay(r["harness_id"], vals)
            return None
        with ThreadPoolExecutor(4) as ex:
            for r, w in zip(picks, ex.map(witness, enumerate(picks))):
                if w is None:
                    continue
                samples.append({"harness": r["harness_id"], "witness_values_le_hex": w[0], "native": w[1]})
                if all(x == "pass" for x in w[1].values()):
                    validated += 1
                else:
                    unexplained.append((r, "a passing symbolic run does not pass natively:\n" + w[2]))

    tot = lambda k: sum(s.get(k) or 0 for s in stats)
    nchecks = sum(len(r["checks"]) for r in results)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot("size_program_expression")),
            "transitions": int(tot("vccs_generated")),
            "traces_validated_against_impl": validated,
            "samples": samples + [
                {"harness": r["harness_id"], "verdict": "held", "checks": len(r["checks"]),
                 "seconds": r["duration_ms"] / 1000} for r in held[:5]],
            "explanation": "bounded symbolic execution: `states` counts the symbolic program steps "
                           "(SSA assignments) CBMC built from the compiled harnesses and /repo code, "
                           "`transitions` the verification conditions generated from them; every one "
                           "was discharged by the SAT solver for all inputs within the bounds",
            "harness_runs": len(results), "harness_runs_held": len(held),
            "harness_names": sorted({r["harness_id"] for r in results}),
            "harness_seconds": {r["harness_id"]: round(r["duration_ms"] / 1000, 1) for r in
                                sorted(results, key=lambda r: -r["duration_ms"])},
            "arithmetic": ["overflow checks and debug assertions on (dev profile)"] +
                          ["wrapping arithmetic, debug assertions off (release profile)"] * (len(stages) - 1),
            "undecided_harnesses": {r["harness_id"]: r["status"] for r in undecided},
            "beyond_the_bounds": sorted({r["harness_id"] for r in skipped}),
            "checks_discharged": sum(1 for r in held for c in r["checks"]),
            "checks_total": nchecks,
            "solver_queries_after_simplification": int(tot("vccs_remaining")),
            "symbolic_execution_s": round(tot("runtime_symex_s"), 2),
            "solver_s": round(tot("runtime_decision_procedure_s"), 2),
            "functions_encoded_from_repo": funcs,
            "functions_encoded_other": others,
            "unwinding_assertions": "every loop's bound is checked (unwinding assertions on)",
            "bounds": BOUNDS.get(prop, "see DESIGN.md"),
            "tools": {k: (data or {"tools": {}})["tools"].get(k) for k in ("kani", "rustc", "cbmc")},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(violations),
    }
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for r, v in known:
        log(f"KNOWN-FINDING: property={prop} {r['harness_id']}: {'; '.join(v['checks'])}")
    for r, v in violations:
        rp = os.path.join(EVIDENCE, "replay")
        os.makedirs(rp, exist_ok=True)
        rp = os.path.join(rp, f"{prop}-{r['harness_id'].replace('::', '-')}.json")
        json.dump({"property": prop, "harness": r["harness_id"], "values_le_hex": v["values"],
                   "failed_checks": v["checks"], "native": v["native"], "output": v["text"],
                   "replay": f"python3 {VERIF}/check.py replay {rp}"}, open(rp, "w"), indent=1)
        log(f"  {r['harness_id']}: {'; '.join(v['checks'])}\n  {v['text'][:800]}")
        log(f"VIOLATION property={prop} replay={rp}")
    for r in undecided:
        log(f"UNDECIDED {r['harness_id']}: {r['status']} after {r['duration_ms'] / 1000:.0f} s")
    for r in vacuous:
        log(f"VACUOUS {r['harness_id']}: its end is unreachable")
    for r, why in unexplained:
        log(f"UNCONFIRMED {r['harness_id']}: {[c['description'] for c in failing(r)][:4]}: {why[:3000]}")
    log(f"{prop}: {len(held)}/{len(results)} harnesses hold, {nchecks} checks, "
        f"{len(undecided)} undecided, {len(violations)} violations, {time.time() - T0:.0f} s")
    if violations:
        return 1
    if vacuous or unexplained or not held or 4 * len(undecided) > len(results):
        return 2
    return 0


def confirm(r, kani, native, lim, slot):
    """Turn a failed harness into a counterexample that shows natively, or under the interpreter."""
    h = r["harness_id"]
    checks = sorted({c["description"].strip('"') for c in failing(r)})
    budget = max(lim["retry"], 3 * r["duration_ms"] / 1000 + 30)
    left = lambda: lim["deadline"] - (time.time() - T0)
    if r["duration_ms"] > 40000:
        values = native.find(h, 10)
        res, text = native.replay(h, values) if values is not None else ({}, "")
        if any(x in ("fail", "hang") for x in res.values()):
            return {"reproduced": True, "values": values, "native": res, "text": text, "checks": checks}
    rc, tests, out = kani.playback(h, max(5, min(budget, left())), r.get("unwind"), slot)
    tests = [vals for kind, vals in tests if kind != "cover"]
    if not tests and rc is not None and "VERIFICATION:- FAILED" in out:
        tests = [[]]  # no symbolic input at all: the harness fails on its own
    why = ""
    for vals in tests:
        res, text = native.replay(h, vals)
        if any(x in ("fail", "hang") for x in res.values()):
            return {"reproduced": True, "values": vals, "native": res, "text": text, "checks": checks}
        why += text + "\n"
    # Undefined behaviour and weak memory need not show in a native run: ask the interpreter.
    if not all(is_unwinding(c) for c in failing(r)):
        for vals in tests[:3]:
            failed, text = native.miri(h, vals, max(5, min(300, left())))
            if failed:
                return {"reproduced": True, "values": vals, "native": {"miri": "fail"},
                        "text": text, "checks": checks}
            why += "[miri] " + text[-600:] + "\n"
    return {"why": "the counterexample does not reproduce natively: " + (why or out[-1500:])}


def replay(path):
    d = json.load(open(path))
    scratch = os.path.join(VERIF, "work")
    os.makedirs(scratch, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=scratch)
    try:
        res, text = Native(work).replay(d["harness"], d["values_le_hex"])
        log(text)
        return 1 if any(x in ("fail", "hang") for x in res.values()) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


ASSUMPTIONS = [
    "one monomorphic instantiation per harness: the key types, sizes and value types named there",
    "target x86_64-unknown-linux-gnu (64-bit usize), Kani's MIR-to-goto translation, CBMC and its SAT "
    "solver are trusted; memory allocation does not fail",
    "debug assertions and overflow checks are on in the symbolic build, and off in a second one where "
    "`arithmetic` says so; counterexamples and witnesses are replayed in the dev and the release profile",
]
SPLIT_ARRAYS = {"P09", "P10", "P11", "P12", "P20"}
# Properties whose quick tier also decides the release-profile semantics (thorough: all).
# ... leaving out the instances that are about size.
SIZES = re.compile(r"^p13::.*_(wide|large)$|^p03::array_(33|63)_")
RELEASE_QUICK = {"P01", "P02", "P03", "P04", "P05", "P07", "P13", "P14"}
BOUNDS = json.load(open(os.path.join(VERIF, "bounds.json"))) if os.path.exists(os.path.join(VERIF, "bounds.json")) else {}

if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            # Nothing to build ahead: every check compiles /repo's tree. Say so if a tool is missing.
            for tool in ("cargo", "cargo-kani", "goto-instrument", "python3-vt"):
                if not shutil.which(tool):
                    raise NoAnswer("missing tool: " + tool)
            sys.exit(0)
        unwinding = [os.path.join(VERIF, "unwind", "run.py")]
        if sys.argv[1] in ("P21", "P23"):
            os.execvp("python3-vt", ["python3-vt"] + unwinding + sys.argv[1:2])
        if sys.argv[1] == "replay" and json.load(open(sys.argv[2]))["property"] in ("P21", "P23"):
            os.execvp("python3-vt", ["python3-vt"] + unwinding + sys.argv[1:])
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except NoAnswer as e:
        log("NO-ANSWER: " + str(e))
        sys.exit(2)
