#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo by solver: compiles the property's Kani harnesses (harness/ or harness_c/) against
/repo's working tree, lets CBMC decide every assertion for all values within the harness's bounds, replays every
counterexample against a native build of the same code, and writes evidence/PROPERTY.json.

exit 0  every assertion holds (unsatisfiable negation), with every reachability witness satisfied
exit 1  a counterexample reproduced natively; prints VIOLATION property=.. replay=..
exit 2  no answer (timeout, failed build, vacuous harness, counterexample that does not reproduce)
"""
import json, os, re, shutil, signal, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props

BUDGET = {"quick": 840.0, "thorough": 4 * 3600.0}
HARNESS_TIMEOUT = {"quick": 700, "thorough": 3 * 3600}
# lets CBMC track the 81 squares of a board one by one
CBMC_ARGS = ["--cbmc-args", "--max-field-sensitivity-array-size", "100"]
T0 = time.time()


def log(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


def env_kani(mode):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "RUSTC", "CARGO_BUILD", "CARGO_ENCODED"))}
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if mode == "nodebug":
        e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    return e


def env_native():
    e = env_kani("debug")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    return e


def run(cmd, cwd, env, out, timeout):
    """Runs cmd in a process group of its own; returns its exit code, or None on timeout."""
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=max(1.0, timeout))
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def remaining(tier):
    return BUDGET[tier] - (time.time() - T0)


class Job:
    """One cargo-kani run: a crate, a set of harnesses, a build mode, extra arguments."""

    def __init__(self, crate, mode, harnesses, jobs, work, tag, extra=(), features=None):
        self.crate, self.mode, self.harnesses, self.jobs = crate, mode, harnesses, jobs
        self.dir = os.path.join(work, tag)
        os.makedirs(self.dir, exist_ok=True)
        self.extra, self.tag = list(extra), tag
        self.features = features
        self.results, self.error = {}, None

    def base(self, wide=False):
        c = ["cargo", "kani", "--target-dir", os.path.join(self.dir, "target"), "--lib", "-Z", "unstable-options", "--no-assertion-reach-checks"]
        feats = [self.features] if self.features else []
        if self.features is not None:
            c += ["--no-default-features"]
        if wide:
            feats.append("wide")
        if feats:
            c += ["--features", ",".join(feats)]
        return c

    def run(self, tier, harnesses=None, unwind=None, tag="r", wide=False):
        hs = harnesses or self.harnesses
        js, out = os.path.join(self.dir, tag + ".json"), os.path.join(self.dir, tag + ".log")
        cmd = self.base(wide) + ["-j", str(self.jobs), "--output-format=terse", "--export-json", js,
                             "--harness-timeout", "%ds" % int(min(HARNESS_TIMEOUT[tier], max(10, remaining(tier) - 60))), "--exact"] + self.extra
        for h in hs:
            cmd += ["--harness", h["path"]]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        cmd += CBMC_ARGS
        rc = run(cmd, os.path.join(VERIF, self.crate), env_kani(self.mode), out, remaining(tier) - 20)
        if rc is None:
            raise NoAnswer("time is up in %s" % self.tag)
        if not os.path.exists(js):
            raise NoAnswer("cargo kani gave no result (%s, exit %s):\n%s" % (self.tag, rc, open(out).read()[-3000:]))
        d = json.load(open(js))
        cbmc = {c["harness_id"]: c.get("cbmc_stats", {}) for c in d.get("cbmc", [])}
        got = {}
        for r in d["verification_results"]["results"]:
            got[r["harness_id"]] = dict(r, stats=cbmc.get(r["harness_id"], {}))
        for h in hs:
            if h["path"] not in got:
                raise NoAnswer("harness %s was not decided (%s):\n%s" % (h["path"], self.tag, open(out).read()[-2000:]))
            self.results[h["path"]] = got[h["path"]]

    def playback(self, h, tier, unwind=None, wide=False):
        """Concrete values of the counterexamples of one harness: [(check, [value bytes])]."""
        out = os.path.join(self.dir, "playback-%s.log" % h["name"])
        cmd = self.base(wide) + self.extra + ["--exact", "--harness", h["path"], "-Z", "concrete-playback", "--concrete-playback=print"]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        cmd += CBMC_ARGS
        rc = run(cmd, os.path.join(VERIF, self.crate), env_kani(self.mode), out, remaining(tier) - 60)
        if rc is None:
            raise NoAnswer("time is up while making the counterexample of %s" % h["path"])
        res = []
        for block in re.findall(r"```\n(.*?)```", open(out).read(), re.S):
            m = re.search(r"/// Check for `([^`]*)`: (.*)", block)
            kind, what = (m.group(1), m.group(2)) if m else ("?", "?")
            if kind == "cover":
                continue
            v = re.search(r"vec!\[(.*)\];\s*kani::concrete_playback_run", block, re.S)
            if not v:
                continue
            body = re.sub(r"//[^\n]*", "", v.group(1))
            res.append((what.strip().strip('"'), [[int(x) for x in q.split(",") if x.strip()] for q in re.findall(r"vec!\[([^\]]*)\]", body)]))
        return res


def is_unwind(c):
    return "unwind" in c.get("category", "") or "unwinding assertion" in c["description"]


def is_cover(c):
    return c.get("category") == "cover" or c["status"] in ("Satisfied", "Unsatisfiable")


def bad(r):
    """(real failures, unwinding failures, vacuous covers, undetermined)"""
    real, unw, vac, und = [], [], [], []
    for c in r["checks"]:
        st = c["status"]
        if is_cover(c):
            if st != "Satisfied":
                vac.append(c)
        elif st == "Failure":
            (unw if is_unwind(c) else real).append(c)
        elif st not in ("Success", "Unreachable"):
            und.append(c)
    return real, unw, vac, und


REPLAYS = {
    # name: (environment additions, cargo arguments to run the replay program)
    "dev": ["cargo", "run", "-q", "--bin", "replay", "--"],
    "release": ["cargo", "run", "-q", "--release", "--bin", "replay", "--"],
    "miri": ["cargo", "+nightly", "miri", "run", "-q", "--bin", "replay", "--"],
}


def replay_one(crate, target, name, harness, path, out, timeout, features=None):
    e = env_native()
    if name == "miri":
        e.pop("RUSTUP_TOOLCHAIN", None)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    e["CARGO_TARGET_DIR"] = os.path.join(target, name)
    cmd = list(REPLAYS[name])
    if features is not None:
        i = cmd.index("--bin")
        cmd[i:i] = ["--no-default-features"] + (["--features", features] if features else [])
    rc = run(cmd + [harness, path], os.path.join(VERIF, crate), e, out, timeout)
    text = open(out, errors="replace").read()
    if rc is None:
        return "timeout", text
    if rc in (3, 4):
        return "unfit", text
    if rc == 0:
        return "holds", text
    if "error: could not compile" in text or "error[E" in text:
        return "build", text
    return "fails", text


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.load(VERIF)[prop]
    hs = [h for h in spec["harnesses"] if tier == "thorough" or h["tier"] == "quick"]
    work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(VERIF, ".work", "replays")
    os.makedirs(replays, exist_ok=True)
    rc, ev = 2, {}
    try:
        rc, ev = decide(prop, tier, spec, hs, work, replays)
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        ev = {"coverage": {"explanation": "no answer: %s" % str(e)[:2000]}, "violations": 0}
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = dict({"property": prop, "tier": tier, "seed": seed, "level": props.LEVEL}, **ev)
    ev["wall_s"] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: exit %d after %.1f s" % (prop, tier, rc, time.time() - T0))
    sys.exit(rc)


def decide(prop, tier, spec, hs, work, replays):
    crates = {}
    for h in hs:
        for m in h["modes"]:
            crates.setdefault((h["crate"], m, h["features"]), []).append(h)
    jobs, total = [], sum(len(v) for v in crates.values())
    for (crate, mode, feat), v in sorted(crates.items(), key=str):
        j = max(1, round(8 * len(v) / total))
        jobs.append(Job(crate, mode, v, j, work, "%s-%s%s" % (crate, mode, "" if feat is None else "-" + (feat or "none")), extra=spec["extra"], features=feat))

    def go(j):
        try:
            j.run(tier)
        except NoAnswer as e:
            j.error = e
        except Exception as e:
            j.error = NoAnswer(repr(e))
    ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]

    side = props.side_checks(prop, VERIF, work, tier)  # non-Kani solver steps of this property (SMT sums)

    problems, candidates, escalated = [str(j.error) for j in jobs if j.error], [], 0
    for j in jobs:
        unwinds = {}
        # a sink that takes writes of any length, where the code writes more at once than the short one takes
        again = [h for h in j.harnesses if h["path"] in j.results and any(c["description"].startswith("WIDE:") for c in bad(j.results[h["path"]])[0])]
        wide = {h["path"] for h in again}
        if again and not j.error:
            log("widening the sinks of %s" % ", ".join(h["name"] for h in again))
            escalated += len(again)
            try:
                j.run(tier, again, tag="wide", wide=True)
            except NoAnswer as e:
                problems.append(str(e))
        for attempt in (0, 1):
            again = []
            for h in j.harnesses:
                r = j.results.get(h["path"])
                if r is None:
                    continue
                real, unw, vac, und = bad(r)
                if real or not unw:
                    continue
                again.append(h)
            if not again or j.error:
                break
            n = [400, 1500][attempt]
            log("raising the unwinding bound of %s to %d" % (", ".join(h["name"] for h in again), n))
            escalated += len(again)
            try:
                for w in (False, True):
                    hs2 = [h for h in again if (h["path"] in wide) == w]
                    if hs2:
                        j.run(tier, hs2, unwind=n, tag="u%d%s" % (n, "w" if w else ""), wide=w)
                for h in again:
                    unwinds[h["path"]] = n
            except NoAnswer as e:
                problems.append(str(e))
                break
        for h in j.harnesses:
            r = j.results.get(h["path"])
            if r is None:
                continue
            real, unw, vac, und = bad(r)
            if real:
                candidates.append((j, h, real, unwinds.get(h["path"]), h["path"] in wide))
            elif unw:
                problems.append("%s: unwinding bound too small at %s" % (h["path"], unw[0]["location"]))
            elif r["status"] != "Success" or und:
                problems.append("%s (%s): %s" % (h["path"], j.tag, "undetermined checks" if und else r["status"]))
            elif vac:
                problems.append("%s (%s): vacuous, unreachable witness: %s" % (h["path"], j.tag, "; ".join(c["description"] for c in vac)))
            elif not any(is_cover(c) for c in r["checks"]):
                problems.append("%s: no reachability witness" % h["path"])

    confirmed, tried = [], 0
    known = props.known_findings(VERIF, prop)
    done_h = set()
    for j, h, real, unw, wd in candidates:
        if (h["path"], h["features"]) in done_h:
            continue
        log("counterexample: %s (%s): %s" % (h["path"], j.tag, "; ".join(sorted({c["description"] for c in real}))[:500]))
        try:
            blocks = j.playback(h, tier, unw, wd)
        except NoAnswer as e:
            problems.append(str(e))
            continue
        if not blocks:
            problems.append("%s: no concrete values for the counterexample" % h["path"])
        for n, (what, vals) in enumerate(blocks):
            tried += 1
            path = os.path.join(replays, "%s-%s-%d.txt" % (prop, h["name"], n))
            with open(path, "w") as f:
                f.write("property=%s\ncrate=%s\nharness=%s\nfeatures=%s\ncheck=%s\n" % (prop, h["crate"], h["name"], "default" if h["features"] is None else h["features"], what))
                for v in vals:
                    f.write(" ".join("%02x" % b for b in v) + "\n")
            verdict = None
            for how in ("dev", "release", "miri"):
                if how == "miri" and n > 2:
                    continue
                res, text = replay_one(h["crate"], os.path.join(work, "native"), how, h["name"], path, os.path.join(work, "replay.log"), min(600 if tier == "thorough" else 200, remaining(tier) - 10), h["features"])
                log("  replay of %s [%s] in %s: %s" % (h["name"], what, how, res))
                if res == "fails":
                    verdict = how
                    with open(path, "a") as f:
                        f.write("".join("# %s\n" % l for l in (["reproduced by the %s replay" % how] + text.splitlines()[-20:])))
                    break
            if verdict:
                k = [x for x in known if x["harness"] == h["name"] and x["check"] == what]
                confirmed.append((h, what, path, verdict, bool(k)))
                break
        else:
            if blocks:
                problems.append("%s: the counterexample does not reproduce natively" % h["path"])
        if any(x[0] is h for x in confirmed):
            done_h.add((h["path"], h["features"]))
        if confirmed and not all(x[4] for x in confirmed):
            break  # one new violation decides the check

    for s in side["violations"]:
        confirmed.append((None, s["what"], s["replay"], s["how"], False))
    problems += side["problems"]

    ev = evidence(prop, tier, spec, hs, jobs, side, confirmed, problems, tried, escalated)
    new = [x for x in confirmed if not x[4]]
    for x in confirmed:
        if x[4]:
            log("KNOWN-FINDING: property=%s %s" % (prop, x[1]))
    if new:
        for h, what, path, verdict, _ in new:
            log("violated: %s: %s (reproduced: %s)" % (h["path"] if h else "side check", what, verdict))
        log("VIOLATION property=%s replay=%s" % (prop, new[0][2]))
        return 1, ev
    if problems:
        for p in problems:
            log("NO ANSWER: %s" % p)
        return 2, ev
    return 0, ev


def evidence(prop, tier, spec, hs, jobs, side, confirmed, problems, tried, escalated):
    funcs, queries, vccs, vleft, symex, solver, checks, ok, covers, sat = set(), 0, 0, 0, 0.0, 0.0, 0, 0, 0, 0
    samples, per = [], []
    for j in jobs:
        for h in j.harnesses:
            r = j.results.get(h["path"])
            if not r:
                continue
            queries += 1
            st = r["stats"] or {}
            vccs += st.get("vccs_generated") or 0
            vleft += st.get("vccs_remaining") or 0
            symex += st.get("runtime_symex_s") or 0
            solver += st.get("runtime_decision_procedure_s") or st.get("runtime_solver_s") or 0
            nc = 0
            for c in r["checks"]:
                if is_cover(c):
                    covers += 1
                    sat += c["status"] == "Satisfied"
                    continue
                nc += 1
                checks += 1
                ok += c["status"] in ("Success", "Unreachable")
                if "/repo/" in (c.get("location") or {}).get("file", ""):
                    funcs.add(c["function"])
                elif "harness" in c.get("function", "") and len(samples) < 12 and c.get("category") == "assertion" and j is jobs[0] and "attempt" not in c["description"]:
                    samples.append("%s: %s -> %s" % (h["name"], c["description"], c["status"]))
            per.append({"harness": h["name"], "build": j.tag, "unwind": h["unwind"], "checks": nc, "status": r["status"], "seconds": round(r["duration_ms"] / 1000.0, 2),
                        "program_steps": st.get("size_program_expression"), "vccs": st.get("vccs_generated")})
    cov = {
        "explanation": "Bounded symbolic checking of the real code with Kani/CBMC: each harness runs functions of /repo on symbolic values; the solver showed, per harness, that no value "
                       "within the bounds fails any assertion (the property's own and the built-in ones for panics, overflow, bounds, pointers) and that every loop ends within the unwinding bound; "
                       "each reachability witness had to be satisfiable. " + spec["explanation"],
        "obligations": checks, "discharged": ok, "solver_queries": queries + side["queries"], "vccs_generated": vccs, "vccs_sent_to_solver": vleft,
        "symbolic_execution_s": round(symex, 2), "solver_s": round(solver + side["solver_s"], 2), "reachability_witnesses": covers, "witnesses_satisfied": sat,
        "functions_encoded": sorted(funcs), "bounds": spec["bounds"], "outside_the_claim": spec["outside"],
        "harness_runs": per, "unwinding_bounds_raised": escalated, "counterexamples_replayed": tried, "samples": samples + side["samples"],
    }
    if problems:
        cov["problems"] = [p[:1000] for p in problems]
    return {"coverage": cov, "assumptions": spec["assumptions"], "violations": len([x for x in confirmed if not x[4]])}


if __name__ == "__main__":
    main()
