#!/usr/bin/env python3
"""Decides one property of the Rust implementation with Kani (CBMC) over /repo's current source.

check.py PROPERTY TIER     exit 0: held on everything explored; 1: VIOLATION; 2: could not be decided
check.py replay FILE       re-run a reported counterexample against the real code
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATES = ["wasmrs", "wasmrs-rx", "wasmrs-runtime"]
ENV = dict(os.environ)
ENV["PATH"] = os.path.join(os.environ.get("HOME", "/root"), ".cargo/bin") + ":/root/.cargo/bin:" + ENV.get("PATH", "")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV.pop("CARGO_TARGET_DIR", None)
SOCKET = ""  # the harnesses over the socket are compiled for the properties that use them only


def select(prop):
    global SOCKET
    if os.path.exists(os.path.join(HERE, "harness", "sock.rs")) and ("pub fn %s_" % prop.lower()) in open(os.path.join(HERE, "harness", "sock.rs")).read():
        SOCKET = " --cfg verif_sock"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def manifest(name, real):
    """Models of the crates that Kani cannot run; the native build of the real code keeps the crates themselves."""
    deps = [
        'futures = { version = "0.3", default-features = false, features = ["alloc"] }',
        'pin-project-lite = "0.2"',
        'dashmap = { path = "../stub/dashmap" }',
    ]
    if real:
        deps += [
            'bytes = "1"',
            'parking_lot = "0.12"',
            'tracing = { version = "0.1", features = ["release_max_level_off"] }',
            'tokio = { version = "1", features = ["sync", "rt"] }',
        ]
    else:
        deps += ['%s = { path = "../stub/%s" }' % (d, d) for d in ("bytes", "parking_lot", "tracing")]
        deps.append('tokio = { path = "../stub/tokio", features = ["sync", "rt"] }')
    if name != "wasmrs-runtime":
        deps.append('wasmrs-runtime = { path = "../wasmrs-runtime" }')
    if name == "wasmrs":
        deps += ['wasmrs-rx = { path = "../wasmrs-rx" }', 'wasmrs-codec = { path = "../stub/wasmrs-codec" }']
    return '[package]\nname = "%s"\nversion = "0.2.0"\nedition = "2021"\n[dependencies]\n%s\n' % (name, "\n".join(deps))


def prepare(top, real):
    """A workspace with the current source of the crates under test and the harnesses inside `wasmrs`."""
    shutil.copytree(os.path.join(HERE, "stubs"), os.path.join(top, "stub"))
    members = list(CRATES)
    for c in CRATES:
        src = os.path.join(REPO, "rust/crates", c, "src")
        shutil.copytree(src, os.path.join(top, c, "src"))
        write(os.path.join(top, c, "Cargo.toml"), manifest(c, real))
        write(os.path.join(top, c, "README.md"), "")
    shutil.copytree(os.path.join(HERE, "harness"), os.path.join(top, "wasmrs/src/verif"))
    lib = os.path.join(top, "wasmrs/src/lib.rs")
    text = open(lib).read()
    # after the inner attributes: before the first item
    m = re.search(r"^(#\[macro_use\]|(pub )?(mod|use|type|extern)\b)", text, re.M)
    text = text[: m.start()] + "pub mod verif;\n" + text[m.start():]
    write(lib, text)
    ws = "[workspace]\nmembers = [%s]\nresolver = \"2\"\nexclude = [\"stub\"]\n" % ", ".join('"%s"' % m for m in members + ["native"])
    if not real:
        ws += '[patch.crates-io]\nbytes = { path = "stub/bytes" }\n'
    write(os.path.join(top, "Cargo.toml"), ws)
    write(os.path.join(top, "native/Cargo.toml"), '[package]\nname = "native"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nwasmrs = { path = "../wasmrs" }\n')
    write(os.path.join(top, "native/src/main.rs"), open(os.path.join(HERE, "native/main.rs")).read())


def flags(tier, big=False, real=False):
    return "--cap-lints allow" + SOCKET + (" --cfg verif_real" if real else "") + (" --cfg verif_thorough" if tier == "thorough" else "") + (" --cfg verif_big" if big else "")


def build_native(top, tier, real):
    prepare(top, real)
    env = dict(ENV, RUSTFLAGS=flags(tier, False, real))
    p = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "native"], cwd=top, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    return os.path.join(top, "target/debug/native"), ""


def run_native(exe, args, limit):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


KANI = ["cargo", "kani", "-p", "wasmrs", "-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks", "--no-assertion-reach-checks"]


BIG = ["--cbmc-args", "--max-field-sensitivity-array-size", "512"]


def vtables(names):
    """The socket's tasks are trait objects: a call through one reaches only the implementations of its trait."""
    return ["-Z", "restrict-vtable"] if any("::sock::" in n for n in names) else []


def kani(top, names, tier, limit, big=False, extra=()):
    out = os.path.join(top, "out.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = KANI + ["-j", "8", "--harness-timeout", "%ds" % limit, "--export-json", out, "--output-format", "terse", "--exact"] + vtables(names) + list(extra)
    for n in names:
        cmd += ["--harness", n]
    if big:
        cmd += BIG
    p = subprocess.run(cmd, cwd=top, env=dict(ENV, RUSTFLAGS=flags(tier, big)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        return json.load(open(out)), p.stdout
    except (OSError, ValueError):
        return None, p.stdout


def playback(top, name, tier, limit, big=False, extra=()):
    """Concrete values for every nondeterministic choice, one list per failing check."""
    cmd = KANI + ["-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "%ds" % limit, "--exact", "--harness", name] + vtables([name]) + list(extra) + (BIG if big else [])
    p = subprocess.run(cmd, cwd=top, env=dict(ENV, RUSTFLAGS=flags(tier, big)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tests = []
    for block in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", p.stdout, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"^\s*vec!\[([0-9, ]*)\]", block, re.M)]
        if vals not in tests:
            tests.append(vals)
    return tests


def hexes(vals):
    return ",".join("".join("%02x" % b for b in v) for v in vals)


def harnesses(prop, tier):
    names = {}
    for f in sorted(os.listdir(os.path.join(HERE, "harness"))):
        text = open(os.path.join(HERE, "harness", f)).read()
        for m in re.finditer(r"^pub fn ((c\d+)([tb]?)_\w+)\(\)", text, re.M):
            if m.group(2).upper() == prop and (tier == "thorough" or m.group(3) != "t"):
                un = re.findall(r"unwind\((\d+)\)", text[: m.start()])
                names["verif::%s::%s" % (f[:-3], m.group(1))] = {"unwind": int(un[-1]) if un else None, "big": m.group(3) == "b"}
    return names


def decide(prop, tier, work):
    t0 = time.time()
    select(prop)
    names = harnesses(prop, tier)
    if not names:
        print("no harness for " + prop)
        return 2
    top = os.path.join(work, "kani")
    prepare(top, False)
    pool = cf.ThreadPoolExecutor(4)
    nat = pool.submit(build_native, os.path.join(work, "real"), tier, True)
    mod = pool.submit(build_native, os.path.join(work, "model"), tier, False)
    limit = 330 if tier == "quick" else 700
    bigtop, big = os.path.join(work, "big"), [n for n in names if names[n]["big"]]
    bigrun = None
    if big:
        prepare(bigtop, False)
        bigrun = pool.submit(kani, bigtop, big, tier, limit, True)
    res, log = kani(top, [n for n in names if n not in big], tier, limit)
    if res is None or not res.get("verification_results", {}).get("results"):
        sys.stderr.write("\n".join(re.findall(r"^error(?:.*\n)(?:.*\n){0,6}", log, re.M)[:5]) or log[-2000:])
        print("the crates do not build under Kani")
        return 2
    results = {r["harness_id"]: r for r in res["verification_results"]["results"]}
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in res.get("cbmc", [])}
    if bigrun:
        bres, _ = bigrun.result()
        if bres:
            results.update((r["harness_id"], r) for r in bres.get("verification_results", {}).get("results", []))
            stats.update((c["harness_id"], c.get("cbmc_stats") or {}) for c in bres.get("cbmc", []))
    exe, err = nat.result()
    mexe, _ = mod.result()
    if exe is None:
        sys.stderr.write(err[-3000:])
        print("the crates do not build")
        return 2

    code = 0
    report, undecided, violations = [], [], []
    functions = set()
    stem = lambda n: re.sub(r"_[a-h]$", "", re.sub(r"^(c\d+)[tb]_", r"\1_", n.split("::")[-1]))
    reached = {}
    for n, r in results.items():
        for c in r.get("checks") or []:
            if c.get("category") == "cover" and c["status"] == "Satisfied":
                reached.setdefault(stem(n), set()).add(c["description"])
    for n in sorted(names, key=lambda n: results.get(n, {}).get("duration_ms") or 1e9):
        r = results.get(n)
        short = n.split("::")[-1]
        entry = {"harness": short, "unwind_limit": names[n]["unwind"]}
        report.append(entry)
        if r is None or not r.get("checks"):
            entry["result"] = "not decided within %d s or the memory limit" % limit
            undecided.append(short)
            continue
        st = stats.get(n, {})
        entry.update(
            seconds=r["duration_ms"] / 1000.0,
            assertions=sum(1 for c in r["checks"] if c.get("category") != "cover"),
            reached=sorted({c["description"] for c in r["checks"] if c.get("category") == "cover" and c["status"] == "Satisfied"}),
            program_steps=st.get("size_program_expression", 0),
            verification_conditions=st.get("vccs_generated", 0),
            conditions_given_to_the_solver=st.get("vccs_remaining", 0),
            symbolic_execution_s=st.get("runtime_symex_s", 0),
            solver_s=st.get("runtime_decision_procedure_s", 0),
        )
        for c in r["checks"]:
            f = str(c.get("location", {}).get("file", ""))
            if f.startswith("wasmrs") and "/verif/" not in f:
                functions.add(c["function"])
        bad = [c for c in r["checks"] if c["status"] == "Failure"]
        covers = [c for c in r["checks"] if c.get("category") == "cover" and c["description"] not in reached.get(stem(n), ())]
        real = [c for c in bad if c.get("category") not in ("unwind", "unsupported_construct") and "unwinding" not in c["description"] and "::fits" not in c["function"] and "model capacity" not in c["description"]]
        if bad:
            extra = []
            if not real and any("unwind" in c["description"] or c.get("category") == "unwind" for c in bad):
                extra = ["--unwind", "50"]
            entry["result"] = "failed: " + "; ".join("%s at %s:%s" % (c["description"], c["location"].get("file"), c["location"].get("line")) for c in bad[:4])
            hit = None
            if violations:
                continue
            for vals in playback(bigtop if names[n]["big"] else top, n, tier, limit, names[n]["big"], extra):
                rc, out = run_native(exe, ["replay", short, hexes(vals)], 20)
                if rc == 1 or rc == "timeout" or (isinstance(rc, int) and rc not in (0,)):
                    hit = (vals, "does not return" if rc == "timeout" else out.strip() or "crash %s" % rc)
                    break
            if hit:
                violations.append((short, entry["result"], hit))
                entry["counterexample"] = hexes(hit[0])
            else:
                undecided.append(short)
                entry["result"] += " (not reproduced on the real code)"
        elif r["status"] != "Success":
            entry["result"] = "not decided: " + r["status"]
            undecided.append(short)
        elif covers:
            entry["result"] = "vacuous: never reaches " + ", ".join(sorted({c["description"] for c in covers}))
            undecided.append(short)
        else:
            entry["result"] = "holds for every value within the bounds"

    # The model of `bytes` against the real crate, and the harnesses against the real code.
    only = lambda out: [l[1:] for l in out.splitlines() if l.startswith("@")]
    validated, disagreements, samples = 0, [], []
    count = 300 if tier == "quick" else 3000
    rc1, real_out = run_native(exe, ["gen", os.environ.get("VERIF_SEED", "1"), str(count), prop.lower()], 120)
    rc2, model_out = run_native(mexe, ["gen", os.environ.get("VERIF_SEED", "1"), str(count), prop.lower()], 120) if mexe else (None, "")
    model = dict((" ".join(l.split(" ")[:2]), l) for l in only(model_out))
    for line in only(real_out):
        key = " ".join(line.split(" ")[:2])
        p = line.split(" ", 3)
        if p[2] == "panic":
            # a run of the real code that fails the same assertions
            if not violations:
                vals, what = (p[3].split(" ", 1) + [""])[:2]
                violations.append((p[0], "fails on a generated input: " + what, ([list(bytes.fromhex(v)) for v in vals.split(",")], what)))
            continue
        if p[2] == "assumed":
            continue
        if "MODEL-CAPACITY" in model.get(key, ""):
            continue
        if model.get(key) == line:
            validated += 1
            if p[2] == "ok" and len(samples) < 6 and not any(s["harness"] == p[0] for s in samples):
                samples.append({"harness": p[0], "generated_input": int(p[1]), "outcome": " ".join(p[2:])})
        elif not violations:
            disagreements.append("model: %s / real: %s" % (model.get(key), line))
    for d in disagreements[:5]:
        print("DISAGREEMENT " + d)
    for e in report:
        print("%-22s %s" % (e["harness"], e["result"]))
        if len(samples) < 12 and e.get("reached"):
            samples.append({"harness": e["harness"], "reached_under_the_solver": e["reached"], "verification_conditions": e["verification_conditions"]})

    replay = None
    if violations:
        short, what, (vals, out) = violations[0]
        replay = os.path.join(VERIF, "evidence", "replay", "%s-%s.json" % (prop, short))
        write(replay, json.dumps({"property": prop, "harness": short, "tier": tier, "engine": "kani", "failed": what, "values": vals, "native_outcome": out}, indent=1) + "\n")
        code = 1
    elif len(undecided) == len(names):
        code = 2
    elif disagreements:
        code = 2
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "wall_s": round(time.time() - t0, 3),
        "violations": [{"harness": v[0], "what": v[1], "native": v[2][1]} for v in violations],
        "assumptions": [
            "Kani's translation of Rust MIR and CBMC's bit-precise semantics stand for the compiler",
            "bounds are the sizes written in each harness; loops are unwound up to the limit listed and CBMC shows that no loop goes beyond it",
            "the bytes crate is modelled (rust/stubs/bytes); the model is compared with the real crate on generated inputs in every run",
        ] + ([
            "tokio, parking_lot, dashmap and tracing are single-threaded models (rust/stubs); what the harnesses see is compared with tokio and parking_lot themselves on generated inputs in every run",
            "wakers do nothing and tasks run one after the other: races between threads are outside",
        ] if SOCKET else []) + [
            "format! results and String::from_utf8 (outside c43_error_text) are replaced: message texts are not part of the claims",
        ],
        "coverage": {
            "states": sum(e.get("program_steps", 0) for e in report),
            "transitions": sum(e.get("verification_conditions", 0) for e in report),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "harnesses": report,
            "undecided": undecided,
            "queries_discharged": sum(e.get("conditions_given_to_the_solver", 0) for e in report),
            "solver_s": round(sum(e.get("solver_s", 0) or 0 for e in report), 3),
            "symbolic_execution_s": round(sum(e.get("symbolic_execution_s", 0) or 0 for e in report), 3),
            "functions_encoded": sorted(functions),
            "functions_encoded_count": len(functions),
            "engine_native_disagreements": len(disagreements),
            "states_and_transitions": "states: steps of the symbolic program (SSA assignments) after unwinding; transitions: verification conditions generated from it",
        },
    }
    write(os.path.join(VERIF, "evidence", prop + ".json"), json.dumps(evidence, indent=1, sort_keys=True) + "\n")
    if undecided:
        print("UNDECIDED " + ", ".join(undecided))
    if replay:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        print("%s: %d of %d harnesses decided, no violation (%.0f s)" % (prop, len(names) - len(undecided), len(names), time.time() - t0))
    return code


def main():
    work = tempfile.mkdtemp(prefix="kani.")
    try:
        if sys.argv[1] == "replay":
            v = json.load(open(sys.argv[2]))
            select(v["property"])
            exe, err = build_native(os.path.join(work, "real"), v["tier"], True)
            if exe is None:
                sys.stderr.write(err[-3000:])
                return 2
            rc, out = run_native(exe, ["replay", v["harness"], hexes(v["values"])], 20)
            print("does not return" if rc == "timeout" else out.strip())
            if rc == 0:
                print("not reproduced")
                return 0
            print("VIOLATION property=%s replay=%s" % (v["property"], sys.argv[2]))
            return 1
        return decide(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick", work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
