#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
 "C01": ("generated problems with closed-form solutions", "sampled problems, tolerances and options; error bound is a calibrated multiple of the tolerance"),
 "C02": ("generated stiff problems with closed-form solutions", "sampled problems; error bound is a calibrated multiple of the tolerance"),
 "C03": ("generated runs, every step against an independent Dormand-Prince step", "every step of sampled runs"),
 "C04": ("generated runs, every step against an independently solved Radau IIA step", "every step of sampled runs; nonlinear steps judged by share"),
 "C05": ("generated runs with recorded times and right-hand side call times", "sampled problems and options"),
 "C06": ("fuzzing with misbehaving right-hand sides", "fifteen families of right-hand sides, call budget as termination oracle"),
 "C07": ("generated options, step-size limits checked on every step", "sampled problems and options"),
 "C08": ("model-based: generated call sequences against a single-step run", "sampled call sequences"),
 "C09": ("generated runs, counters against an independent call count at every prefix", "sampled runs; factorizations and rejections bounded where they cannot be told from the calls"),
 "C10": ("metamorphic: time reversal", "sampled problems and options"),
 "C11": ("metamorphic: scaling, negation, permutation, copies, shifts", "sampled problems, options and transformations"),
 "C12": ("metamorphic: passive options", "sampled problems and option subsets"),
 "C13": ("generated callback programs, steps against reference methods", "sampled programs of state and parameter changes"),
 "C14": ("differential: approximated against exact Jacobian", "sampled smooth problems"),
 "C15": ("generated functions with exact derivatives", "sampled functions and points"),
 "C16": ("generated matrices, residual oracle", "sampled matrices of sizes 1..14"),
 "C17": ("generated structured matrices, residual and similarity oracles", "sampled matrices of sizes 1..12, all bandwidths"),
 "C18": ("generated runs, interpolant against reference polynomials", "sampled runs and points"),
 "C19": ("generated runs, error estimates and step counts", "sampled problems; calibrated thresholds"),
 "C20": ("generated conservative systems, invariant oracle", "sampled systems"),
 "C21": ("generated builder call sequences against a map model", "sampled sequences"),
 "C23": ("model-based: reference control law with interval uncertainty", "sampled problems and controller settings"),
 "C24": ("model-based: reference control law with interval uncertainty", "sampled linear problems and controller settings"),
 "C25": ("generated linear problems, counting oracle", "sampled linear problems"),
 "C26": ("generated callback programs, steps against reference methods", "sampled programs of setting changes"),
 "C27": ("model-based: lockstep with a model of the iteration, interval uncertainty", "sampled problems and settings"),
 "C28": ("generated problems with eigenvalues that make chosen matrices singular", "sampled problems, steps and numbers of singular matrices"),
 "C29": ("generated equilibria, exact oracle", "sampled problems, states and settings"),
 "C30": ("generated polynomial solutions, oracle to rounding", "sampled polynomials, linear systems and settings"),
 "C31": ("metamorphic, bitwise: nearer and farther end", "sampled problems, settings and pairs of ends"),
 "C32": ("generated problems with closed-form solutions, undefined away from them", "sampled problems, settings and margins"),
 "C22": ("metamorphic: same problem at two stiffness levels", "sampled problems; calibrated thresholds"),
}
READY = os.environ.get("READY", " ".join(ids)).split()
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if "cyphus_verif" in l]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "--cfg cyphus_verif", "enable": "RUSTFLAGS=\"--cfg cyphus_verif\" (check.sh sets it for C15-C18 only)", "source_commits": hooks},
 "checks": [{"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh " + i,
             "technique": NOTE[i][0], "level": "exploration", "level_note": NOTE[i][1],
             "evidence_file": "evidence/%s.json" % i} for i in ids if i in READY],
 "not_applicable": [],
 "notes": "check.sh <id> <replay file> reruns a saved case. DESIGN.md describes generators, oracles and tolerances.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
