#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]      decide one property
   run.py --setup                               build everything

Builds the harnesses of the property from /repo's working tree, explores them, confirms what fails by
replaying it, and writes evidence/<property>.json. Exit 0: it held on everything explored. Exit 1 and a
line "VIOLATION property=<id> replay=<path>": it is broken. Exit 2: no answer (does not build, ...)."""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = os.path.join(REPO, "include")

# name: (kind, properties). `conc` runs under the controlled scheduler, `seq` is one thread with ASan and UBSan.
HARNESSES = {
    "heap": ("seq", ["H01", "H02", "H03", "H04"]),
    "pipeline": ("conc", ["P01", "P02", "P03", "P04", "P05", "P06", "P07"]),
    "interval": ("conc", ["T01", "T02", "T03"]),
    "values_conc": ("conc", ["V03"]),
    "observer_conc": ("conc", ["O05"]),
    "lru_conc": ("conc", ["L04"]),
    "containers": ("seq", ["H05"]),
    "lru": ("seq", ["L01", "L02", "L03", "L05"]),
    "mediator": ("seq", ["M01", "M02", "M03"]),
    "observer": ("seq", ["O01", "O02", "O03", "O04"]),
    "observer_static": ("seq", ["O06"]),
    "values": ("seq", ["V01", "V02"]),
    "argv": ("seq", ["G01", "G02"]),
    "bytes": ("seq", ["D01", "D02"]),
    "packet": ("seq", ["K01", "K02", "K03"]),
    "pimpl": ("seq", ["F01", "F02"]),
}
FLAGS = {
    "conc": (["clang++"], ["-std=c++20", "-O1", "-g", "-fsanitize=thread", "-Wno-pass-failed"],
             ["-no-pie"], ["-ldl", "-pthread"]),
    "seq": (["g++"], ["-std=c++20", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                      "-D_GLIBCXX_ASSERTIONS"],
            ["-fsanitize=address,undefined"], ["-pthread"]),
}
ENGINE = {
    "conc": [("conc", ["clang++", "-std=c++20", "-O2", "-g"]), ("explore", ["clang++", "-std=c++20", "-O2", "-g"])],
    "seq": [("explore", ["g++", "-std=c++20", "-O2", "-g"])],
}
BUDGET = {"quick": 300.0, "thorough": 780.0}     # seconds of exploration


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as s:
                h.update(s.read())
    return h.hexdigest()[:16]


def start(cmd, out):
    """Starts the compiler, unless the output is there; its result appears in one step."""
    if os.path.exists(out):
        return None
    tmp = f"{out}.{os.getpid()}.tmp"
    p = subprocess.Popen(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p, tmp, out, cmd


def finish(jobs):
    for j in jobs:
        if not j:
            continue
        p, tmp, out, cmd = j
        text, _ = p.communicate()
        if p.returncode:
            raise NoAnswer("cannot build " + os.path.basename(out) + ":\n" + text[-6000:])
        os.replace(tmp, out)


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mc = os.path.join(VERIF, "mc")
        engine_h, repo_h = tree_hash(mc), tree_hash(INC, os.path.join(VERIF, "stub"))
        jobs, bins, links = [], {}, []
        for kind in sorted({HARNESSES[n][0] for n in names}):
            for src, cc in ENGINE[kind]:
                o = os.path.join(BUILD, f"{src}.{kind}.{engine_h}.o")
                jobs.append(start(cc + ["-I" + mc, "-c", os.path.join(mc, src + ".cpp")], o))
        for n in names:
            kind = HARNESSES[n][0]
            cc, cflags, lflags, libs = FLAGS[kind]
            src = os.path.join(VERIF, "harness", n + ".cpp")
            key = hashlib.sha256((engine_h + repo_h + tree_hash(os.path.join(VERIF, "harness")) + repr(FLAGS[kind])).encode()).hexdigest()[:16]
            o, b = os.path.join(BUILD, f"{n}.{key}.o"), os.path.join(BUILD, f"{n}.{key}")
            bins[n] = b
            if os.path.exists(b):
                continue
            for old in os.listdir(BUILD):
                if re.fullmatch(re.escape(n) + r"\.[0-9a-f]{16}(\.o)?", old):
                    os.unlink(os.path.join(BUILD, old))
            jobs.append(start(cc + cflags + ["-I" + mc, "-I" + INC, "-I" + os.path.join(VERIF, "stub"), "-c", src], o))
            links.append((cc + lflags + [o] + [os.path.join(BUILD, f"{s}.{kind}.{engine_h}.o") for s, _ in ENGINE[kind]] + libs, b, o))
        finish(jobs)
        finish([start(cmd, b) for cmd, b, _ in links])
        for _, _, o in links:
            os.unlink(o)
        return bins


def environment():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    e["LC_ALL"] = "C"
    return e


class Explorer:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.dir = os.path.join(BUILD, "run", f"{prop}.{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)

    def run(self, binary, args, budget, tag):
        """One run of the explorer: (exit code, its report, replay file)."""
        out = os.path.join(self.dir, "out.json")
        rep = os.path.join(self.replays, f"{self.prop}-{tag}.replay")
        for f in (out, rep):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [binary, "--out", out, "--replay-out", rep, "--log", self.dir, "--tier", self.tier,
               "--table-bits", "26" if self.tier == "thorough" else "24",
               "--deadline", f"{budget:.0f}", "--hang", "40"] + args
        try:
            r = sh(cmd, env=environment(), timeout=budget + 120)
            code, text = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            raise NoAnswer("the explorer itself does not end")
        try:
            with open(out) as f:
                report = json.load(f)
        except (OSError, ValueError) as e:
            raise NoAnswer(f"no report from {os.path.basename(binary)} (exit {code}): {e}\n{text[-2000:]}")
        return code, report, rep

    def confirm(self, binary, rep):
        """Replays a violation in a fresh process; its text, or None."""
        try:
            r = sh([binary, "--replay", rep, "--log", self.dir, "--tier", self.tier], env=environment(), timeout=60)
        except subprocess.TimeoutExpired:
            return "the execution does not end"
        if r.returncode == 0 or r.returncode == 3:
            return None
        with open(rep + ".txt", "w") as f:
            f.write(r.stdout)
        m = re.search(r"REPLAY-VIOLATION: (.*)", r.stdout)
        if m:
            return m.group(1)
        m = re.search(r"(ERROR: .*|.*runtime error.*|.*Assertion.*|terminate called.*)", r.stdout)
        return m.group(1) if m else f"exit code {r.returncode}"

    def explore(self, binary, args, budget, tag):
        """Like run(); a violation is reported only if it can be reproduced."""
        code, report, rep = self.run(binary, args, budget, tag)
        if code == 1:
            again = self.confirm(binary, rep)
            if again is None:
                # What depends on earlier executions of the same process does not show in a fresh one:
                # then the exploration has to fail again.
                code2, report2, _ = self.run(binary, args, budget, tag)
                if code2 != 1:
                    code, report = code2, report2
        if code == 3:
            code, report, rep = self.run(binary, args, budget, tag)
            if code == 3:
                raise NoAnswer("internal error of the explorer: " + report.get("violation", ""))
        if code not in (0, 1):
            raise NoAnswer(f"{os.path.basename(binary)} ended with exit code {code}")
        return code, report, rep


def known_findings(prop):
    """Lines "known: property=<id> config=<configuration> match=<regular expression> :: <what fails>"."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) config=(\S+) match=(.*?) :: (.*)", line)
            if m and m.group(1) == prop:
                out.append({"config": m.group(2), "match": m.group(3), "what": m.group(4).strip()})
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    names = [n for n, (_, ps) in HARNESSES.items() if prop in ps]
    if not names:
        raise NoAnswer("no such property")
    bins = build(names)
    built = time.time() - t0
    budget = BUDGET[tier]
    x = Explorer(prop, tier)
    done, violation, reached = [], None, {}
    for i, n in enumerate(names):
        left = budget - (time.time() - t0 - built)
        share = max(10.0, left / (len(names) - i)) if tier == "thorough" else max(10.0, left)
        end = time.time() + share
        code, report, rep = x.explore(bins[n], ["--prefix", prop + "-"], share, n)
        for c in report["configs"]:
            c["harness"] = n
            done.append(c)
        if code == 1:
            violation = (n, report, rep)
            break
        if not report["configs"]:
            raise NoAnswer(f"{n} has no configuration for {prop}")
        if tier == "thorough" and HARNESSES[n][0] == "conc":
            # One deviation more at a time, for every configuration that its bound still limits.
            todo = [c for c in report["configs"] if c.get("complete") and c.get("cut_by_bound")]
            while todo and not violation and end - time.time() > 5:
                todo.sort(key=lambda c: c["wall_s"])
                c = todo.pop(0)
                slice_ = max(5.0, (end - time.time()) / max(1, (len(todo) + 1) // 2))
                code, report, rep = x.explore(bins[n], ["--config", c["name"], "--bound", str(c["bound"] + 1)], slice_, n)
                d = report["configs"][0] if report["configs"] else None
                if code == 1:
                    violation = (n, report, rep)
                    done.append({**d, "harness": n})
                    break
                if d and d.get("complete"):
                    d["harness"] = n
                    done[:] = [e for e in done if e["name"] != d["name"]] + [d]
                    if d.get("cut_by_bound"):
                        todo.append(d)
        if violation:
            break

    known = known_findings(prop)
    lines, status = [], 0
    if violation:
        n, report, rep = violation
        text = report["violation"]
        status = 1
        lines.append(f"{prop}: {text}")
        lines.append(f"VIOLATION property={prop} replay={rep}")
    for k in known:
        n = names[0]
        code, report, rep = x.explore(bins[n], ["--config", k["config"]], 60, "known")
        if code == 1 and re.search(k["match"], report["violation"]):
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif code == 1:
            status = 1
            lines.append(f"{prop}: {report['violation']}")
            lines.append(f"VIOLATION property={prop} replay={rep}")

    total = lambda key: sum(int(c.get(key) or 0) for c in done)
    samples = [f"{c['name']}:\n{s}" for c in done for s in c.get("samples", [])[:1] if s][:6]
    kinds = {HARNESSES[n][0] for n in names}
    complete = all(c.get("complete") for c in done) and not violation
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total("states"),
            "transitions": total("transitions"),
            "traces_validated_against_impl": total("executions"),
            "samples": samples,
            "exhaustive": complete and not any(c.get("cut_by_bound") for c in done),
            "complete_within_bounds": complete,
            "distinct_outcomes": total("outcomes"),
            "pruned_executions": total("pruned"),
            "rule": "every execution runs the implementation itself: there is no model to validate. A state is the "
                    + ("complete state of all threads (their positions, the memory and the synchronization objects they share), "
                       if "conc" in kinds else "observable and stored state between two operations, ")
                    + "a transition one " + ("scheduled step" if "conc" in kinds else "operation")
                    + "; outcomes are the different results of executions. Configurations with `closure` have no bound on the "
                    + "length of the sequences of operations: every state that can be reached was reached, and every operation "
                    + "tried in it; a state is the whole memory of the objects under test.",
            "configurations": [{k: c.get(k) for k in ("name", "what", "harness", "closure", "bound", "executions", "transitions", "states", "outcomes",
                                                       "pruned", "max_choices", "cut_by_bound", "complete", "table_full", "wall_s")}
                               for c in done],
        },
        "assumptions": assumptions(kinds),
        "wall_s": round(time.time() - t0, 2), "build_s": round(built, 2),
        "violations": 1 if status else 0,
    }
    if violation:
        evidence["coverage"]["violation"] = violation[1]["violation"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    shutil.rmtree(x.dir, ignore_errors=True)
    print(f"{prop}: {len(done)} configurations, {total('executions')} executions, {total('transitions')} transitions, "
          f"{total('states')} states, {total('outcomes')} outcomes, "
          f"{'complete within the bounds' if complete else 'not complete'}, {time.time() - t0:.1f} s")
    for line in lines:
        print(line)
    return status


def assumptions(kinds):
    a = ["Nothing is claimed beyond the listed configurations and bounds (`bound`: deviations per execution; "
         "cut_by_bound 0 means that it does not limit anything)."]
    if "conc" in kinds:
        a.append("Sequentially consistent interleavings of all synchronizing operations; accesses that are not ordered by "
                 "them are reported as data races, so weaker orders add nothing to a race-free program except for relaxed atomics.")
        a.append("Time is virtual: it advances when every thread waits, or as a deviation.")
    if "seq" in kinds:
        a.append("g++ with AddressSanitizer, UBSan and the assertions of libstdc++, on this machine (64 bits, little endian).")
    return a


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    p.add_argument("--setup", action="store_true")
    a = p.parse_args()
    try:
        if a.setup:
            build(list(HARNESSES))
            return 0
        return check(a.property, a.tier)
    except NoAnswer as e:
        print(f"NO ANSWER: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
