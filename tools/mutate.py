#!/usr/bin/env python3
"""Mutation trials (development aid): mutate.py <worker dir> <worker> <workers> [seed] [filter]

Makes small changes to a scratch copy of /repo, one at a time, and reports which
checks notice each.  Works in the given directory only; appends to <dir>/log.jsonl.
"""
import json, os, random, re, subprocess, sys

FILES = """dorm_prince/dp5/algorithm.rs dorm_prince/dp5/error.rs dorm_prince/dp5/prepare.rs
dorm_prince/dp5/stages.rs dorm_prince/dp5/dense.rs dorm_prince/dp5/constants.rs
linalg/dec.rs linalg/sol.rs ode/integrator.rs ode/jacobian.rs ode/solution.rs ode/options.rs
radau/algorithm.rs radau/constants.rs radau/continuous_output.rs radau/dec.rs
radau/error_estimate.rs radau/linear_solve.rs radau/newton.rs radau/step_size_control.rs""".split()

RULES = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.abs\(\)", ""), (r"\.sqrt\(\)", ""),
    (r" \+= ", " -= "), (r" -= ", " += "), (r"\+= 1;", "+= 2;"), (r" \*= ", " /= "),
    (r"= -", "= "), (r"= !", "= "), (r"if !", "if "), (r"integrator\.tdir \* ", ""),
    (r"\bt\b", "tprev"), (r"\bunew\b", "u"), (r"\bdtnew\b", "integrator.dt"),
    (r"\bintegrator\.dt\b", "integrator.dtprev"), (r"kp1\.\.", "k.."), (r"\bk\b", "kp1"),
    (r"\bz1\b", "z2"), (r"\bz2\b", "z3"), (r"\bz3\b", "z1"), (r"\bf1\b", "f2"), (r"\bf2\b", "f3"),
    (r"\bai\b", "ar"), (r"\bar\b", "ai"), (r"\bti\b", "tr"), (r"\btr\b", "ti"), (r"\bm\b", "k"),
    (r"\bk([2-5])\b", lambda m: "k%d" % (int(m.group(1)) + 1)),
    (r"\b(\d+)\.(\d+)\b", lambda m: "%s.%s%d" % (m.group(1), m.group(2)[:-1], (int(m.group(2)[-1]) + 1) % 10)),
    (r"\b(\d+)\.0\b", lambda m: "%d.0" % (int(m.group(1)) + 1)),
    (r"\b0\.\.", "1.."), (r"\bn - 1\b", "n - 2"), (r"\.\.n\b", "..n - 1"),
    (r"\bu0\b", "scal"), (r"\babstol\b", "reltol"), (r"\breltol\b", "abstol"),
    (r"\bfacl\b", "facr"), (r"\bfacr\b", "facl"), (r"\bquot1\b", "quot2"), (r"\bdunew\b", "du"),
    (r"f64::EPSILON", "1e-9"), (r"powf\(0\.25\)", "powf(0.2)"),
]


def mutants(root):
    out = []
    for f in FILES:
        lines = open(os.path.join(root, "src", f)).read().split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                break
            code = l.split("//")[0]
            if not code.strip() or code.strip().startswith(("use ", "pub use", "#[", "type ", "pub fn", "fn ", "impl", "pub(crate) fn", "pub(super) fn")):
                continue
            for pat, rep in RULES:
                for m in re.finditer(pat, code):
                    r = rep(m) if callable(rep) else rep
                    new = code[: m.start()] + r + code[m.end():]
                    if new != code:
                        out.append((f, i, new))
            if re.match(r"^\s+\S.*;$", code) and not code.strip().startswith(("let ", "return", "}", ")")):
                # only whole statements
                prev = next((x.split("//")[0].strip() for x in reversed(lines[:i]) if x.split("//")[0].strip()), "")
                if prev.endswith((";", "{", "}")):
                    out.append((f, i, ""))
    seen, uniq = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            uniq.append(x)
    return uniq


def main():
    root, w, nw = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    filt = sys.argv[5] if len(sys.argv) > 5 else ""
    d = os.path.join(root, "w%d" % w)
    os.makedirs(d, exist_ok=True)
    repo = d + "/repo"
    if not os.path.isdir(repo):
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    subprocess.check_call("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD", shell=True, cwd=repo)
    for c in ("engine", "api", "hooked"):
        subprocess.check_call(["rsync", "-a", "--delete", "/verif/%s/" % c, "%s/verif/%s/" % (d, c), "--mkpath"])
        subprocess.check_call(["sed", "-i", 's#path = "/repo"#path = "%s"#' % repo, "%s/verif/%s/Cargo.toml" % (d, c)])
    subprocess.call("rm -rf %s/verif/regress; cp -a /verif/regress /verif/known_findings.txt %s/verif/" % (d, d), shell=True, stderr=subprocess.DEVNULL)
    if filt.startswith("!"):
        ms = [m for m in mutants(repo) if filt[1:] not in m[0]]
    else:
        ms = [m for m in mutants(repo) if filt in m[0]]
    random.Random(seed).shuffle(ms)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    # the checks that notice most come first
    best = "C27 C23 C26 C05 C18 C08 C21 C06 C09 C13".split()
    rank = lambda x: (best.index(x) if x in best else 99, x)
    ids = {"api": [], "hooked": []}
    for c in ids:
        ids[c] = sorted(set(re.findall(r'"(C\d\d)" =>', open("/verif/%s/src/main.rs" % c).read())), key=rank)
    # FIRST=1: do not look for further checks once one has noticed
    first = os.environ.get("FIRST") == "1"
    log = open(os.path.join(root, "log.jsonl"), "a")
    done = set()
    for l in open(os.path.join(root, "log.jsonl")):
        x = json.loads(l)
        done.add((x["file"], x["line"] - 1, x["new"]))

    def run(cmd, to, **kw):
        try:
            return subprocess.run(cmd, timeout=to, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw).returncode
        except subprocess.TimeoutExpired:
            return -1

    for k, (f, i, new) in enumerate(ms):
        if k % nw != w or (f, i, new) in done:
            continue
        p = os.path.join(repo, "src", f)
        src = open(p).read()
        lines = src.split("\n")
        old, lines[i] = lines[i], new
        open(p, "w").write("\n".join(lines))
        res = {"file": f, "line": i + 1, "old": old.strip(), "new": new}
        try:
            e = dict(env, CARGO_TARGET_DIR=d + "/t-test")
            if run(["cargo", "build", "--offline", "-q"], 200, cwd=repo, env=e) != 0:
                continue
            r = run(["cargo", "test", "--offline", "-q", "--lib"], 60, cwd=repo, env=e)
            if r != 0:
                res["tests"] = r
            else:
                res["tests"] = 0
                caught = []
                for c, flags in (("api", ""), ("hooked", "--cfg cyphus_verif")):
                    if (f.startswith("linalg") and c == "api") or (first and caught):
                        continue
                    e = dict(env, CARGO_TARGET_DIR=d + "/t-" + c, RUSTFLAGS=flags)
                    if run(["cargo", "build", "--release", "--offline", "-q", "--manifest-path", d + "/verif/%s/Cargo.toml" % c], 400, env=e) != 0:
                        caught.append("build")
                        continue
                    for x in ids[c]:
                        r = run([d + "/t-%s/release/%s" % (c, c), x], 200, env=dict(env, VERIF_DIR=d + "/verif", VERIF_SEED="1", VERIF_MULT=os.environ.get("VERIF_MULT", "0.15"), VERIF_NOSHRINK="1"))
                        if r != 0:
                            caught.append(x if r == 1 else "%s:%d" % (x, r))
                            if first:
                                break
                res["caught"] = caught
            log.write(json.dumps(res) + "\n")
            log.flush()
        finally:
            open(p, "w").write(src)


main()
