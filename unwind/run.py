"""Symbolic execution of the compiled IR (irexec.py) of the harnesses in src/ together with /repo's code:
P21 (h_*, lib.rs), what a panic in the caller's code leaves behind, and P23 (g_*, wild.rs), what a key type
that lies about its numbering can do.

run.py P21|P23         decide, write evidence/Pnn.json
run.py replay FILE     run a reported violation again
"""
import json
import multiprocessing
import os
import re
import shutil
import sys
import tempfile
import threading
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
import check  # noqa: E402
import irexec  # noqa: E402
import z3  # noqa: E402

PROP, PREFIX = "P21", "h_"
T0 = time.time()
LIMITS = {"quick": (560, 800, 2), "thorough": (5000, 8000, 6)}  # executor, everything, witnesses per harness
# As users build: with the checks of the dev profile, and without.
PROFILES = {"dev": {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "true"}, "release": {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}}
MODS = {}


def harness_names(prefix):
    text = "".join(open(os.path.join(HERE, "src", f)).read() for f in ("lib.rs", "wild.rs"))
    return sorted(set(re.findall(rf"\b{prefix}[a-z0-9_]+", text)))


def build_ir(work, features, profile):
    target = f"{work}/ir-{profile}"
    rc, out = check.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--target-dir", target, "--features", features,
                         "--", "--emit=llvm-ir", "-C", "panic=unwind"], 400, cwd=HERE,
                        env=check.env(RUSTFLAGS="-Zshare-generics=no", **PROFILES[profile]))
    for d, _, fs in os.walk(target):
        for f in fs:
            if f.startswith("om_unwind") and f.endswith(".ll") and rc == 0:
                return open(os.path.join(d, f)).read()
    raise check.NoAnswer("the harnesses do not compile:\n" + out[-3000:])


class Native:
    """The same harnesses with real panics."""

    def __init__(self, work, features, profile):
        self.work, self.features, self.bin, self.out = work, ",".join(f for f in (features, "native") if f), None, ""
        self.profile = profile
        self.names = os.path.join(work, f"names-{profile}.rs")
        with open(self.names, "w") as f:
            f.write("match name {\n" + "".join(f'"{n}" => om_unwind::{n}(),\n' for n in harness_names("[gh]_")) +
                    '_ => panic!("no such harness"),\n}\n')
        self.thread = threading.Thread(target=self.build)
        self.thread.start()

    def build(self):
        rc, self.out = check.run(["cargo", "+nightly", "build", "--offline", "--bin", "replay", "--features", self.features,
                                  "--target-dir", f"{self.work}/native-{self.profile}"], 400, cwd=HERE,
                                 env=check.env(OM_NAMES=self.names, **PROFILES[self.profile]))
        if rc == 0:
            self.bin = f"{self.work}/native-{self.profile}/debug/replay"

    def run(self, h, at, values):
        self.thread.join()
        if not self.bin:
            raise check.NoAnswer("the replay binary does not build:\n" + self.out[-2000:])
        rc, out = check.run([self.bin, h, str(at), ",".join(map(str, values))], 20, cwd=self.work)
        if h.startswith("g_") and "panic in a destructor during cleanup" in out:
            return "pass", out  # this is not unsafe
        return ("pass" if rc == 0 else "hang" if rc is None else "assumption" if rc == 4 else "fail"), out

    def miri(self, h, at, values):
        rc, out = check.run(["cargo", "+nightly", "miri", "run", "--offline", "--bin", "replay", "--features", self.features,
                             "--target-dir", self.work + "/miri", "--", h, str(at), ",".join(map(str, values))], 200, cwd=HERE,
                            env=check.env(OM_NAMES=self.names, MIRIFLAGS="-Zmiri-disable-isolation", **PROFILES[self.profile]))
        return rc is not None and rc != 0 and ("Undefined Behavior" in out or "VIOLATED" in out or "memory leaked" in out), out


def concrete(e, s):
    """Inputs that drive the real code along this path."""
    m = e.sat(s.pc)
    at = m.eval(e.P, model_completion=True).as_long() if s.panicked else (1 << 64) - 1
    return at, [m.eval(x, model_completion=True).as_long() for x in s.nd]


def one(args):
    h, profile, deadline, witnesses, seed = args
    t = time.time()
    mod = MODS[profile]
    e = irexec.Executor(mod, deadline=deadline)
    r = {"harness": h, "profile": profile, "error": None, "failures": [], "witnesses": [], "paths": 0, "panicked": 0, "calm": 0, "aborted": 0, "steps": 0}
    try:
        seen = Counter()
        ok = {True: [], False: []}
        for kind, msg, s in e.run("@" + h):
            r["paths"] += 1
            r["steps"] += s.steps
            if kind == "ok":
                r["panicked" if s.panicked else "calm"] += 1
                ok[s.panicked].append(s)
            elif kind == "aborted":
                r["aborted"] += 1
            else:
                seen[msg] += 1
                if seen[msg] <= 2:
                    at, values = concrete(e, s)
                    r["failures"].append({"what": msg, "panic_at": at, "values": values})
                if sum(seen.values()) > 200:
                    break
        for panicked, l in ok.items():
            for i in range(min(witnesses, len(l))):
                s = l[(seed * 7 + i * max(1, len(l) // witnesses)) % len(l)]
                at, values = concrete(e, s)
                r["witnesses"].append({"panicked": panicked, "panic_at": at, "values": values})
    except irexec.Unsupported as x:
        r["error"] = str(x)
    except RecursionError:
        r["error"] = "expression too deep"
    except z3.Z3Exception as x:
        r["error"] = "z3: " + str(x)[:200]
    r.update(queries=e.queries, solver_s=e.solver_time, seconds=time.time() - t, functions=sorted(mod.repo_functions(e.blocks)))
    return r


def main():
    global PROP, PREFIX
    if sys.argv[1:] == ["P23"]:
        PROP, PREFIX = "P23", "g_"
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in LIMITS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget, deadline, witnesses = LIMITS[tier]
    os.makedirs(check.EVIDENCE, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=PROP + "-", dir=os.path.join(VERIF, "work"))
    try:
        deep = "deep" if tier == "thorough" else ""
        native = {p: Native(work, deep, p) for p in profiles(tier)}
        try:
            with ThreadPoolExecutor(2) as ex:
                texts = dict(zip(native, ex.map(lambda p: build_ir(work, deep, p), native)))
            for p, text in texts.items():
                MODS[p] = irexec.Module(text)
            return decide(native, tier, seed, budget, deadline, witnesses)
        finally:
            for n in native.values():
                n.thread.join()
    finally:
        shutil.rmtree(work, ignore_errors=True)


def profiles(tier):
    # A panic of the caller's leaves the same behind in either profile; what a bad number does may hang on a debug assertion.
    return ["dev"] if PROP == "P21" and tier == "quick" else list(PROFILES)


def decide(native, tier, seed, budget, deadline, witnesses):
    log = check.log
    names = harness_names(PREFIX)
    for mod in MODS.values():
        if {n[1:] for n in mod.functions if n.startswith("@" + PREFIX)} != set(names):
            raise check.NoAnswer("the compiled harnesses are not those of the source")
    # The longest first.
    order = sorted(names, key=lambda n: (not n.endswith(("two", "collect", "clone_from")), n))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        results = pool.map(one, [(h, p, T0 + budget, witnesses, seed) for h in order for p in native], chunksize=1)
    log(f"{PROP}: {len(results)} harness runs executed in {time.time() - T0:.0f} s")
    results.sort(key=lambda r: (r["harness"], r["profile"]))
    held, undecided, vacuous, violations, known, unexplained = [], [], [], [], [], []
    for r in results:
        if r["failures"]:
            why = ""
            for f in r["failures"]:
                if time.time() - T0 > deadline or len(violations) >= 6:
                    why += "not examined\n"
                    break
                verdict, out = native[r["profile"]].run(r["harness"], f["panic_at"], f["values"])
                if verdict not in ("fail", "hang") and time.time() - T0 < deadline:
                    bad, out2 = native[r["profile"]].miri(r["harness"], f["panic_at"], f["values"])
                    verdict, out = ("fail", out2) if bad else (verdict, out + out2[-800:])
                if verdict in ("fail", "hang"):
                    k = [x for x in check.known_findings() if x.get("property") == PROP and x.get("harness") == r["harness"]
                         and x.get("check") == f["what"]]
                    (known if k else violations).append((r, f, verdict, out))
                    if not k:
                        break
                else:
                    why += f"{f['what']}: {verdict} {out}\n"
            if why and not any(v[0] is r for v in violations) and len(violations) < 6:
                unexplained.append((r["harness"], why))
        elif r["error"]:
            undecided.append(r)
        elif not r["calm"] or PROP == "P21" and not r["panicked"]:
            vacuous.append(r)
        else:
            held.append(r)
    validated, samples = 0, []
    if not violations:
        for r in held:
            for w in r["witnesses"]:
                if time.time() - T0 > deadline:
                    break
                verdict, out = native[r["profile"]].run(r["harness"], w["panic_at"], w["values"])
                samples.append(dict(w, harness=r["harness"], profile=r["profile"], native=out.strip()))
                if verdict == "pass" and f"panicked={int(w['panicked'])}" in out:
                    validated += 1
                else:
                    unexplained.append((r["harness"], f"a passing symbolic path does not pass natively: {w} {out}"))
    tot = lambda k: sum(r[k] for r in results)
    evidence = {
        "property": PROP, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("steps"), "transitions": tot("paths"), "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "explanation": "symbolic execution of the LLVM IR rustc emits for the harnesses and /repo's code, unwinding edges "
                           "included: `states` counts instructions executed, `transitions` the paths that end; which branches, "
                           "addresses and panic points exist is decided by z3 for every input and panic point at once",
            "harness_runs": len(results), "harness_runs_held": len(held),
            "harness_names": names, "paths_after_a_panic": tot("panicked"), "paths_without": tot("calm"), "paths_that_abort": tot("aborted"),
            "undecided_harnesses": {f"{r['harness']} [{r['profile']}]": r["error"] for r in undecided},
            "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
            "slowest_harnesses_s": {f"{r['harness']} [{r['profile']}]": round(r["seconds"], 1) for r in sorted(results, key=lambda r: -r["seconds"])[:6]},
            "functions_encoded_from_repo": sorted({f for r in results for f in r["functions"]}),
            "bounds": check.BOUNDS.get(PROP, "see DESIGN.md"),
            "tools": {"z3": z3.get_version_string(), "rustc": "nightly"},
        },
        "assumptions": [
            "rustc's IR (opt-level 1, with and without overflow checks and debug assertions) and z3 are trusted, as is irexec.py's semantics of it, which replays check",
            "at most one panic of a callback per run (P21); memory allocation does not fail; x86_64 layout",
        ],
        "wall_s": round(time.time() - T0, 1), "violations": len(violations),
    }
    with open(os.path.join(check.EVIDENCE, PROP + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for r, f, _, _ in known:
        log(f"KNOWN-FINDING: property={PROP} {r['harness']}: {f['what']}")
    for r, f, verdict, out in violations:
        rp = os.path.join(check.EVIDENCE, "replay")
        os.makedirs(rp, exist_ok=True)
        rp = os.path.join(rp, f"{PROP}-{r['harness']}-{r['profile']}.json")
        json.dump({"property": PROP, "harness": r["harness"], "panic_at_call": f["panic_at"], "inputs": f["values"],
                   "failed_check": f["what"], "native": verdict, "output": out, "profile": r["profile"], "deep": tier == "thorough",
                   "replay": f"python3 {VERIF}/check.py replay {rp}"}, open(rp, "w"), indent=1)
        log(f"  {r['harness']} [{r['profile']}]: {f['what']} (panic at call {f['panic_at']} of a callback, inputs {f['values']})\n  {out[:800]}")
        log(f"VIOLATION property={PROP} replay={rp}")
    for r in undecided:
        log(f"UNDECIDED {r['harness']} [{r['profile']}]: {r['error']}")
    for r in vacuous:
        log(f"VACUOUS {r['harness']}: {r['panicked']} paths with a panic, {r['calm']} without")
    for h, why in unexplained:
        log(f"UNCONFIRMED {h}: {why[:2000]}")
    log(f"{PROP}: {len(held)}/{len(results)} harness runs hold, {tot('paths')} paths, {tot('queries')} queries, "
        f"{len(undecided)} undecided, {len(violations)} violations, {time.time() - T0:.0f} s")
    if violations:
        return 1
    if vacuous or unexplained or not held or 4 * len(undecided) > len(results):
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="replay-", dir=VERIF)
    try:
        n = Native(work, "deep" if d.get("deep") else "", d.get("profile", "dev"))
        verdict, out = n.run(d["harness"], d["panic_at_call"], d["inputs"])
        if verdict == "pass":
            bad, out = n.miri(d["harness"], d["panic_at_call"], d["inputs"])
            verdict = "fail" if bad else verdict
        check.log(out)
        return 1 if verdict in ("fail", "hang") else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1:2] == ["replay"] else main())
    except check.NoAnswer as e:
        check.log("NO-ANSWER: " + str(e))
        sys.exit(2)
