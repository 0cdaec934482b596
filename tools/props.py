"""What each check covers: its harnesses (read from the harness sources), bounds, assumptions and side checks."""
import os, re, subprocess, time
import texts

LEVEL = "other"
CRATES = ("harness", "harness_c")
HDR = re.compile(r"^\s*\[(C\d\d) (quick|thorough) (\d+)((?: \w+)*)\]\s*fn (\w+)\(\)", re.M)

# tokens after the unwinding bound in a harness header:
#   debug / nodebug   run only in that build mode (default: both)
#   alloc             build shogi_core with the feature `alloc` only


def load(verif):
    specs = {}
    for crate in CRATES:
        src = os.path.join(verif, crate, "src")
        if not os.path.isdir(src):
            continue
        for f in sorted(os.listdir(src)):
            if not f.startswith("h_"):
                continue
            for m in HDR.finditer(open(os.path.join(src, f)).read()):
                opts = m.group(4).split()
                modes = [x for x in ("debug", "nodebug") if x in opts] or ["debug", "nodebug"]
                specs.setdefault(m.group(1), []).append({
                    "crate": crate, "tier": m.group(2), "unwind": int(m.group(3)), "name": m.group(5), "path": "%s::%s" % (f[:-3], m.group(5)),
                    "modes": modes, "features": None})
    out = {}
    for p, hs in specs.items():
        t = texts.TEXT.get(p, {})
        out[p] = {"harnesses": hs, "extra": t.get("extra", []), "explanation": t.get("explanation", ""), "bounds": t.get("bounds", []),
                  "outside": t.get("outside", []), "technique": t.get("technique", TECHNIQUE), "assumptions": ASSUMPTIONS + t.get("assumptions", [])}
    return out


ASSUMPTIONS = [
    "Kani's compiler translates MIR faithfully, and CBMC and its SAT solver (CaDiCaL) are right.",
    "Values of the public types are made from their documented representation (the C interface); a change of that representation would be reported as a change of behaviour.",
]

TECHNIQUE = "bounded symbolic execution of the compiled Rust (Kani/CBMC, SAT), counterexamples replayed natively"


def known_findings(verif, prop):
    """Lines `finding: property=<id> harness=<name> check=<text>` of known_findings.txt; `fixed:` lines suppress nothing."""
    res = []
    path = os.path.join(verif, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) harness=(\S+) check=(.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append({"harness": m.group(2), "check": m.group(3)})
    return res


def side_checks(prop, verif, work, tier):
    r = {"violations": [], "problems": [], "queries": 0, "solver_s": 0.0, "samples": []}
    if prop == "C22":
        # The lengths decided by the c22_len harnesses, put together: no position of at most the standard set needs more than 138 bytes and the NUL.
        t0 = time.time()
        out = subprocess.run(["z3", "-in", "-T:120"], input=sfen_length_smt(), capture_output=True, text=True).stdout.split()
        r["queries"], r["solver_s"] = len(out), round(time.time() - t0, 3)
        if out != ["sat", "unsat"]:
            r["problems"].append("z3 on the length of the text: %s" % out)
        r["samples"].append("z3: text and NUL of a standard set, > 139 bytes -> %s; >= 130 bytes (witness) -> %s" % (out[-1:], out[:1]))
    return r


def sfen_length_smt():
    kinds = {"P": 18, "L": 4, "N": 4, "S": 4, "G": 4, "B": 2, "R": 2}
    l, hand, prom = ["(set-logic QF_LIA)"], [], []
    for k, n in kinds.items():
        for v in ("b", "w", "p"):
            l.append("(declare-const %s%s Int)(assert (>= %s%s 0))" % (v, k, v, k))
        if k == "G":
            l.append("(assert (= pG 0))")
        # held by either player, or promoted on the board: together at most the set
        l.append("(assert (<= (+ b%s w%s p%s) %d))" % (k, k, k, n))
        prom.append("p" + k)
        for v in ("b", "w"):
            hand.append("(ite (= {0} 0) 0 (ite (= {0} 1) 1 (ite (< {0} 10) 2 (ite (< {0} 100) 3 4))))".format(v + k))
    l.append("(define-fun hands () Int (+ %s))" % " ".join(hand))
    l.append("(define-fun board () Int (+ 81 8 %s))" % " ".join(prom))
    # board, then 10 bytes with '-' for the hands (9 without it), then the hands, then the NUL
    l.append("(define-fun total () Int (+ board 9 (ite (= hands 0) 1 hands) 1))")
    l += ["(push)(assert (>= total 130))(check-sat)(pop)", "(push)(assert (> total 139))(check-sat)(pop)"]
    return "\n".join(l)
