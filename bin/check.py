#!/usr/bin/env python3
"""Decides one property of tools.proto by bounded symbolic execution of the real code.

check.py <property id>

1. cargo kani --only-codegen compiles the harness crate and, through its path dependency, the
   current source of /repo to CBMC goto programs (one per harness).
2. each goto program is linked, instrumented and handed to CBMC: every assertion, overflow, bound,
   pointer and unwinding check becomes one SAT query over all values of the symbolic inputs.
3. every reachability witness must be satisfiable (vacuity guard).
4. a failed query is turned into the bytes of the symbolic inputs, which are replayed natively
   (dev and release profile) against the real code; only what reproduces is a VIOLATION.
"""
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from config import PROPS, CRATES  # noqa: E402

KANI = glob.glob(os.path.expanduser("~/.kani/kani-*"))
KANI = sorted(KANI)[-1] if KANI else "/root/.kani/kani-0.68.0"
CBMC_FLAGS = ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --nan-check "
              "--no-self-loops-to-assumptions --no-pointer-primitive-check --object-bits 16").split()
JOBS = min(8, os.cpu_count() or 8)
MEM_GB = 12
START = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "840"))

ENV = dict(os.environ)
ENV["CARGO_NET_OFFLINE"] = "true"
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
NATIVE = dict(ENV)
NATIVE["RUSTUP_TOOLCHAIN"] = "stable"
NATIVE["RUSTFLAGS"] = "--cfg bp3d_verif"


def left():
    return BUDGET - (time.time() - START)


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


STOP = threading.Event()
RUNNING = set()


def label(r):
    return r.get("label", r["name"])


def stop():
    """A violation has been reproduced: the other queries are not needed any more."""
    STOP.set()
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_GB << 30, MEM_GB << 30))


def run(cmd, timeout=None, env=None, cwd=None, limit=False):
    """Runs a command in its own process group, killed as a whole on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or ENV, cwd=cwd, text=True,
                         errors="replace", start_new_session=True, preexec_fn=limits if limit else None)
    RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out
    finally:
        RUNNING.discard(p)


# ---------------------------------------------------------------- codegen

def codegen(crate, features, target):
    base = os.path.join(target, "kani")
    for pat in ("build/" + crate, "build/bp3d-proto*", "build/bp3d_proto*", "incremental"):
        for d in glob.glob(os.path.join(base, "*", "debug", pat)):
            shutil.rmtree(d, ignore_errors=True)
    t = time.time()
    rc, out = run(["cargo", "kani", "--only-codegen", "--target-dir", target, "--features", features, "-Z", "unstable-options",
                   "-Z", "stubbing", "-Z", "c-ffi", "--no-assertion-reach-checks"], timeout=max(left(), 1), cwd=os.path.join(HERE, "harness", crate))
    if rc != 0:
        m = re.search(r"SCHEMA-VIOLATION: ([^\n]*)", out)
        if m:
            return None, m.group(1)
        print(out[-6000:])
        die("the harness crate does not build (exit %s)" % rc)
    hs = []
    for f in glob.glob(os.path.join(base, "*", "debug", "build", crate, "*", "out", "*.kani-metadata.json")):
        for h in json.load(open(f))["proof_harnesses"]:
            hs.append({"name": h["pretty_name"], "mangled": h["mangled_name"], "goto": h["goto_file"],
                       "unwind": h["attributes"]["unwind_value"] or 1, "stubs": [s["original"] + " -> " + s["replacement"] for s in h["attributes"]["stubs"]]})
    uniq = {h["name"]: h for h in hs}
    return sorted(uniq.values(), key=lambda h: h["name"]), time.time() - t


# ---------------------------------------------------------------- one harness

LIB = None


PREPARED = {}
PREPARE_LOCK = threading.Lock()


def prepare(h, work):
    """Once per harness, whatever its number of shapes."""
    with PREPARE_LOCK:
        e = PREPARED.setdefault(h["name"], {"lock": threading.Lock()})
    with e["lock"]:
        if "r" not in e:
            e["r"] = link(h, work)
        return e["r"]


def shape_object(work, k):
    """The shape is a constant of the program: see harness/common/sym.rs."""
    o = os.path.join(work, "shape%d.o" % k)
    with PREPARE_LOCK:
        if not os.path.exists(o):
            c = os.path.join(work, "shape%d.c" % k)
            open(c, "w").write("#include <stddef.h>\nsize_t bp3d_shape(void) { return %d; }\n" % k)
            rc, out = run([KANI + "/bin/goto-cc", "-c", c, "-o", o])
            if rc != 0:
                die("goto-cc: " + out)
    return o


def link(h, work):
    """Links and instruments a goto program exactly as kani-driver does."""
    o = os.path.join(work, h["name"].replace(":", "_") + ".goto")
    b = KANI + "/bin/"
    steps = [
        [b + "goto-cc", h["goto"], LIB, "--function", h["mangled"], "-o", o],
        [b + "goto-instrument", "--add-library", "--no-malloc-may-fail", o, o],
        [b + "goto-instrument", "--generate-function-body-options", "assert-false-assume-false", "--generate-function-body", "(?!bp3d_shape).*",
         "--drop-unused-functions", o, o],
        [b + "goto-instrument", "--ensure-one-backedge-per-target", o, o],
    ]
    for s in steps:
        rc, out = run(s, timeout=120)
        if rc != 0:
            return None, " ".join(s) + "\n" + out[-2000:]
    return o, None


PROP_RE = re.compile(r"^\[(.+?)\] (?=line |file |\[?KANI|)(.*?): (SUCCESS|FAILURE|UNKNOWN|ERROR|UNDETERMINED)$", re.S | re.M)


def cbmc(h, goto, unwind, timeout, solver):
    t = time.time()
    rc, out = run([KANI + "/bin/cbmc"] + CBMC_FLAGS + ["--unwind", str(unwind)] + solver + ["--slice-formula"] + goto + ["--verbosity", "8"],
                  timeout=timeout, limit=True)
    r = {"wall": time.time() - t, "unwind": unwind, "rc": rc}
    if rc is None:
        r["error"] = "timeout after %.0f s" % timeout
        return r
    if rc not in (0, 10):
        r["error"] = "cbmc exit %s: %s" % (rc, out[-600:])
        return r
    k = out.find("** Results:")
    if k < 0:
        r["error"] = "no results: " + out[-600:]
        return r
    head, res = out[:k], out[k:]
    r["symex"] = sum(map(float, re.findall(r"Runtime Symex: ([\d.e+-]+)s", head)))
    r["solver"] = sum(map(float, re.findall(r"Runtime decision procedure: ([\d.e+-]+)s", head)))
    v = re.findall(r"Generated (\d+) VCC\(s\), (\d+) remaining", head)
    r["vccs"], r["vccs_left"] = (int(v[-1][0]), int(v[-1][1])) if v else (0, 0)
    s = re.findall(r"size of program expression: (\d+) steps", head)
    r["steps"] = int(s[-1]) if s else 0
    vs = re.findall(r"(\d+) variables, (\d+) clauses", head)
    r["vars"] = max((int(a) for a, _ in vs), default=0)
    r["clauses"] = max((int(b) for _, b in vs), default=0)
    r["functions"] = sorted(set(re.findall(r"^/repo/(\S+ function .+)$", res, re.M)) |
                            set(re.findall(r"^(?:\S*/out/\S+) function (.+)$", res, re.M)))
    checks, covers, failed = 0, [], []
    for m in PROP_RE.finditer(res):
        name, desc, st = m.group(1), m.group(2), m.group(3)
        cls = name.rsplit(".", 2)[-2] if name.count(".") >= 2 else ""
        if cls == "cover":
            covers.append((name, desc, st == "FAILURE"))
            continue
        if cls == "reachability_check":
            continue
        if "panics" in h["name"] and cls == "assertion" and "MUST-PANIC" not in desc:
            continue
        checks += 1
        if st != "SUCCESS":
            failed.append((name, cls, re.sub(r"\[KANI_CHECK_ID_\S+\] ", "", desc), st))
    # A number which is a second name for a shape.
    r["skipped"] = any(c[2] for c in covers if "shape skipped" in c[1])
    hit = sum(c[2] for c in covers)
    covers = [c for c in covers if "shape skipped" not in c[1]]
    n = re.search(r"\*\* (\d+) of (\d+) failed", res)
    if n and "panics" not in h["name"] and int(n.group(1)) != len(failed) + hit:
        # The reachability checks of third party code are not counted above.
        extra = int(n.group(1)) - len(failed) - hit
        if extra < 0 or extra > len(re.findall(r"reachability_check", res)):
            r["error"] = "could not read the results of cbmc (%s)" % n.group(0)
            return r
    r["checks"], r["covers"], r["failed"] = checks, covers, failed
    return r


def decide(h, work, cap, solver):
    if STOP.is_set():
        return dict(h, error="stopped", wall=0)
    goto, err = prepare(h, work)
    if err:
        return dict(h, error=err, wall=0)
    goto = [goto] + ([shape_object(work, h["shape"])] if "shape" in h else [])
    unwind = h["unwind"]
    r = None
    for attempt in range(3):
        budget = min(cap, left() - 20)
        if budget < 5:
            r = {"error": "out of time", "wall": 0}
            break
        r = cbmc(h, goto, unwind, budget, solver)
        if "error" in r or not r["failed"]:
            break
        if all(c == "unwind" or c == "recursion" for _, c, _, _ in r["failed"]):
            # The bound does not cover the loop: not a verdict. Enlarge it.
            unwind = unwind * 2 + 2
            continue
        break
    r["goto"] = goto
    return {**h, **r}


# ---------------------------------------------------------------- counterexamples

def inputs(node):
    """The bytes of a nondeterministic value, as consumed by common/sym.rs."""
    if "elements" in node:
        out = b""
        for e in sorted(node["elements"], key=lambda e: e["index"]):
            out += inputs(e["value"])
        return out
    if "members" in node:
        return b"".join(inputs(m["value"]) for m in node["members"])
    bits = node["binary"]
    return int(bits, 2).to_bytes((len(bits) + 7) // 8, "little")


def counterexample(r, prop, solver, timeout):
    rc, out = run([KANI + "/bin/cbmc"] + CBMC_FLAGS + ["--unwind", str(r["unwind"])] + solver +
                  r["goto"] + ["--verbosity", "4", "--property", prop, "--json-ui"], timeout=timeout, limit=True)
    if rc is None:
        return None
    try:
        msgs = json.loads(out)
    except ValueError:
        return None
    for m in msgs:
        for p in m.get("result", []) if isinstance(m, dict) else []:
            if "trace" in p:
                data = bytes([r["shape"]]) if "shape" in r else b""
                for s in p["trace"]:
                    if s.get("stepType") != "assignment":
                        continue
                    if not s.get("sourceLocation", {}).get("function", "").startswith("kani::any_raw_"):
                        continue
                    lhs = s.get("lhs", "")
                    if lhs.startswith("goto_symex$$return_value") and "[" not in lhs and "." not in lhs.split("$$")[-1]:
                        v = inputs(s["value"])
                        if len(v) != 16:  # the answer of a stub (sym.rs, any_stub_bool)
                            data += v
                return data
    return None


def build_replay(crate, features, target):
    bins = []
    for prof, flag in (("debug", []), ("release", ["--release"])):
        rc, out = run(["cargo", "build", "--offline", "--bin", "replay", "--features", features, "--target-dir", target + "-native"] + flag,
                      env=NATIVE, cwd=os.path.join(HERE, "harness", crate), timeout=max(left(), 30))
        if rc != 0:
            print(out[-3000:])
            die("the replay binary does not build")
        bins.append((prof, os.path.join(target + "-native", prof, "replay")))
    return bins


def replay(bins, name, path):
    """Returns the profiles in which the input violates the property."""
    hit, log = [], []
    for prof, b in bins:
        rc, out = run([b, name, path], timeout=20, env=NATIVE, limit=True)
        if rc is None:
            hit.append(prof)
            log.append("%s: does not terminate within 20 s" % prof)
        elif rc not in (0, 77, 78):
            hit.append(prof)
            log.append("%s: %s" % (prof, " / ".join(l.strip() for l in out.strip().splitlines() if "RUST_BACKTRACE" not in l)[-400:]))
        else:
            log.append("%s: exit %d" % (prof, rc))
    return hit, log


# ---------------------------------------------------------------- main

def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid and f["status"] == "open"]


def main():
    global LIB
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    global BUDGET
    if tier == "thorough" and "VERIF_BUDGET" not in os.environ:
        BUDGET = 4 * 3600
    cfg = PROPS[pid]
    cap = cfg.get("cap", 240) if tier == "quick" else cfg.get("cap_thorough", 3600)
    solver = ["--sat-solver", cfg.get("solver", "cadical")] if cfg.get("solver", "cadical") in ("cadical", "minisat2") else ["--external-sat-solver", KANI + "/bin/kissat"]
    only = os.environ.get("VERIF_ONLY")
    replays = os.path.join(HERE, "target", "replay", pid)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays)
    results, violations, errors, known = [], [], [], []
    stubs, codegen_s = set(), 0.0
    findings = {f["harness"]: f for f in known_findings(pid)}
    for crate, features in cfg["crates"]:
        if tier == "thorough":
            features += ",thorough"
        target = os.path.join(HERE, "target", crate + "-" + pid)
        hs, t = codegen(crate, features, target)
        if hs is None:
            path = os.path.join(replays, "schema-%s.txt" % crate)
            open(path, "w").write(t + "\n")
            violations.append((path, "schema", t))
            continue
        codegen_s += t
        pre = cfg.get("prefix")
        hs = [h for h in hs if (not pre or h["name"].split("::")[-1].startswith(pre)) and (not only or re.search(only, h["name"]))]
        if not hs:
            die("no harness in " + crate)
        work = os.path.join(target, "work")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        LIB = os.path.join(work, "kani_lib.o")
        rc, out = run([KANI + "/bin/goto-cc", "-c", KANI + "/library/kani/kani_lib.c", "-o", LIB])
        if rc != 0:
            die("goto-cc: " + out)
        bins = None
        print("%s: %d harnesses from %s (codegen %.0f s)" % (pid, len(hs), crate, t), flush=True)
        heavy = cfg.get("heavy", [])
        hs.sort(key=lambda h: next((i for i, p in enumerate(heavy) if re.search(p, h["name"])), len(heavy)))
        # The known findings fail by design: first the others, which may end the run.
        hs.sort(key=lambda h: h["name"].split("::")[-1] in findings)
        jobs, fallback = [], {}
        for h in hs:
            m = re.search(r"__(\d+)$", h["name"])
            for k in range(int(m.group(1))) if m else [None]:
                j = dict(h) if k is None else dict(h, shape=k, label="%s[%d]" % (h["name"], k))
                if "_full_" in h["name"]:
                    fallback[(h["name"], k)] = j
                else:
                    jobs.append(j)
        state, reached = {}, {}

        def reproduce(r):
            """Replays counterexamples natively: the first one which violates the property is returned."""
            if "bins" not in state:
                state["bins"] = build_replay(crate, features, target)
            short = label(r).split("::")[-1]
            order = sorted(r["failed"], key=lambda f: (f[1] in ("unwind", "recursion"), f[1] != "assertion"))
            for name, cls, desc, st in order[:4]:
                data = counterexample(r, name, solver, min(cap, max(left() - 10, 10)))
                if data is None:
                    continue
                path = os.path.join(replays, short + ".bin")
                open(path, "wb").write(data)
                hit, log = replay(state["bins"], r["name"], path)
                if hit:
                    open(path + ".txt", "w").write("harness: %s\nfailed check: %s: %s\nreplay: %s %s %s\n%s\n" % (
                        r["name"], name, desc, state["bins"][0][1], r["name"], path, "\n".join(log)))
                    return path, name, desc, data, log
                print("not reproduced %s: %s: %s: %s\n  input %s" % (label(r), name, desc, log, data.hex()), flush=True)
            return None

        with cf.ThreadPoolExecutor(cfg.get("jobs", JOBS)) as ex:
            pending = {ex.submit(decide, h, work, cap, solver) for h in jobs}
            while pending:
                ready, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for fut in ready:
                    if STOP.is_set():
                        continue
                    r = fut.result()
                    r["crate"] = crate
                    stubs.update(r["stubs"])
                    results.append(r)
                    fnd = findings.get(r["name"].split("::")[-1])
                    if "error" in r:
                        errors.append("%s: %s" % (label(r), r["error"]))
                        continue
                    if not r["failed"] and not r["skipped"]:
                        # Every query must reach a witness, every witness must be reached for some shape.
                        if not any(c[2] for c in r["covers"]):
                            errors.append("%s: no reachable witness" % label(r))
                        for c in r["covers"]:
                            k = (r["name"], c[0], c[1])
                            reached[k] = reached.get(k, False) or c[2]
                    if not r["failed"]:
                        if fnd:
                            print("NOTE: known finding %s no longer fails" % fnd["id"], flush=True)
                        continue
                    # Replay natively before reporting anything.
                    v = reproduce(r)
                    if v and fnd:
                        known.append((fnd, v[0]))
                    elif v:
                        violations.append((v[0], r["name"], v[2]))
                        print("FAILED %s: %s: %s\n  input %s\n  %s" % (label(r), v[1], v[2], v[3].hex(), "\n  ".join(v[4])), flush=True)
                        stop()
                    else:
                        alt = fallback.get((re.sub(r"::(c\d+)_", r"::\1_full_", r["name"]), r.get("shape")))
                        if alt:
                            print("NOTE: %s: deciding %s instead" % (label(r), label(alt)), flush=True)
                            r["failed"] = []
                            pending.add(ex.submit(decide, alt, work, cap, solver))
                        else:
                            errors.append("%s: counterexample not reproduced: %s" % (label(r), r["failed"][0]))
        if STOP.is_set():
            break
        errors += ["%s: unreachable witness %s" % (k[0], k[2]) for k, v in reached.items() if not v]
    ok = [r for r in results if "error" not in r]
    witnesses = {}
    for r in ok:
        for c in r["covers"]:
            k = (r["name"], c[0])
            witnesses[k] = witnesses.get(k, False) or c[2]
    bounds = {label(r): r["unwind"] for r in ok}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution (Kani/CBMC) of the code compiled from /repo on this run; each obligation is an "
                           "assertion, panic, overflow, memory or unwinding check decided by the SAT solver for all values of the "
                           "harness' symbolic inputs. " + cfg["what"],
            "harnesses": len({r["name"] for r in results}),
            "queries_by_shape": len([r for r in results if not r.get("skipped")]),
            "obligations": sum(r["checks"] for r in ok),
            "discharged": sum(r["checks"] - len(r["failed"]) for r in ok),
            "reachability_witnesses": len(witnesses),
            "reachability_witnesses_satisfied": sum(witnesses.values()),
            "vccs": sum(r["vccs"] for r in ok),
            "vccs_sent_to_solver": sum(r["vccs_left"] for r in ok),
            "ssa_steps": sum(r["steps"] for r in ok),
            "max_sat_variables": max((r["vars"] for r in ok), default=0),
            "max_sat_clauses": max((r["clauses"] for r in ok), default=0),
            "symbolic_execution_s": round(sum(r["symex"] for r in ok), 2),
            "solver_s": round(sum(r["solver"] for r in ok), 2),
            "codegen_s": round(codegen_s, 1),
            "bounds": cfg["bounds"],
            "unwind_bounds": {"min": min(bounds.values(), default=0), "max": max(bounds.values(), default=0)},
            "functions_encoded": sorted({f for r in ok for f in r["functions"]})[:400],
            "undecided": len(errors),
            "known_findings": [f["id"] for f, _ in known],
            "samples": [{"harness": label(r), "unwind": r["unwind"], "checks": r["checks"], "vccs": r["vccs"],
                         "solver_s": round(r["solver"], 3), "wall_s": round(r["wall"], 2)} for r in ok[:: max(1, len(ok) // 12)]],
            "checker_cmd": "cargo kani --only-codegen; cbmc " + " ".join(CBMC_FLAGS + solver),
        },
        "assumptions": ["Kani 0.68 / CBMC 6.11 encode Rust MIR faithfully", "64-bit little endian host"] +
                       ["stub: " + s for s in sorted(stubs)] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - START, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(HERE, "target", "times-%s.tsv" % pid), "w") as f:
        for r in sorted(results, key=lambda r: -r["wall"]):
            f.write("%s\t%.1f\t%.1f\t%s\n" % (label(r), r["wall"], r.get("solver", 0), r.get("error", "")))
    slow = sorted(ok, key=lambda r: -r["wall"])[:6]
    print("%s: %d harnesses, %d obligations, %d discharged, solver %.1f s, wall %.0f s; slowest %s" % (
        pid, len(results), ev["coverage"]["obligations"], ev["coverage"]["discharged"], ev["coverage"]["solver_s"], ev["wall_s"],
        ", ".join("%s %.0fs" % (label(r).split("::")[-1], r["wall"]) for r in slow)), flush=True)
    for f, path in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]), flush=True)
    for e in errors:
        print("ERROR:", e, flush=True)
    if violations:
        for path, name, desc in violations[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        sys.exit(1)
    if errors:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
