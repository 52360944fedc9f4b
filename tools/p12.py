#!/usr/bin/env python3
"""p12.py quick|thorough: the check of P12.

Builds the workload of ubchk twice against /repo's working tree, with AddressSanitizer and for Miri, runs both
and merges what they observed into one evidence file. Only reports of the sanitizer, of the interpreter or of the
debug assertions of the standard library about undefined behaviour are violations."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = sys.argv[1] if len(sys.argv) > 1 else "quick"
SEED = os.environ.get("VERIF_SEED", "1")
EV = HERE + "/evidence"
START = time.time()
# seconds after which nothing new is started, the whole check has to end within 900 s in the quick tier
LIMIT = 820 if TIER == "quick" else 3300
MIRI_BUDGET = 200 if TIER == "quick" else 2000
ASAN_CASES = "60000" if TIER == "quick" else "2000000"
CRATE = HERE + "/ubchk"
# Tree Borrows is the more permissive model of aliasing, most of the run uses it; the others use Stacked Borrows
MODELS = ["tree"] * 6 + ["stacked"] * 2
if TIER != "quick":
    MODELS = ["tree"] * 5 + ["stacked"] * 3

env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "MIRIFLAGS", "MON_TRACE", "MON_PROGRESS", "MON_LIVE"):
    env.pop(k, None)


def left():
    return LIMIT - (time.time() - START)


def flags(model):
    return "-Zmiri-disable-isolation" + (" -Zmiri-tree-borrows" if model == "tree" else "")


def miri_cmd(*args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--manifest-path", CRATE + "/Cargo.toml", "--", "P12", "--inline", "--seed", SEED, *args]


def miri_env(model):
    return dict(env, MIRIFLAGS=flags(model), CARGO_TARGET_DIR=HERE + "/target/miri")


def start(cmd, e, log):
    f = open(log, "wb")
    return subprocess.Popen(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def wait(p, seconds):
    try:
        return p.wait(max(1, seconds))
    except subprocess.TimeoutExpired:
        stop(p)
        return None


# ------------------------------------------------------------------ build
tgt = "x86_64-unknown-linux-gnu"
asan = start(["cargo", "+nightly", "build", "--offline", "--locked", "--manifest-path", CRATE + "/Cargo.toml", "--target", tgt],
             dict(env, RUSTFLAGS="-Zsanitizer=address", CARGO_TARGET_DIR=HERE + "/target/asan"), EV + "/P12.build-asan.log")
miri = start(miri_cmd("--cases", "0"), miri_env("tree"), EV + "/P12.build-miri.log")
for p, name in ((asan, "asan"), (miri, "miri")):
    if wait(p, left()) != 0:
        stop(asan), stop(miri)
        for l in open(f"{EV}/P12.build-{name}.log", errors="replace"):
            if re.match(r"error| *-->", l):
                print(l.rstrip()[:200])
        print(f"the harness of P12 does not build against /repo (see {EV}/P12.build-{name}.log)")
        sys.exit(3)
built = time.time() - START

# ------------------------------------------------------------------ AddressSanitizer
BIN = f"{HERE}/target/asan/{tgt}/debug/ubchk"
fragment = EV + "/P12.asan.json"
aenv = dict(env, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:symbolize=1", MON_MEM_GB="0")
cmdline = f"ASAN_OPTIONS={aenv['ASAN_OPTIONS']} MON_MEM_GB=0 {BIN} P12"
r = subprocess.run([BIN, "P12", "--tier", TIER, "--seed", SEED, "--budget", "120" if TIER == "quick" else "900", "--cases", ASAN_CASES, "--sanitizer-only",
                    "--out", fragment, "--replay-dir", EV + "/replay", "--known", HERE + "/known-findings.txt", "--cmd", cmdline], env=aenv, stdout=subprocess.PIPE, text=True, errors="replace")
sys.stdout.write(r.stdout)
bad = r.returncode == 1
asan_ok = r.returncode in (0, 1)
ev = json.load(open(fragment)) if os.path.exists(fragment) else None
asan_s = time.time() - START - built

# ------------------------------------------------------------------ Miri
budget = int(max(20, min(MIRI_BUDGET, left() - 120)))
runs = []
for k, m in enumerate(MODELS):
    log = f"{EV}/P12.miri{k}.log"
    args = ["--worker", f"{k}/{len(MODELS)}", "--cases", "100000000", "--budget", str(budget)]
    runs.append((k, m, log, args, start(miri_cmd(*args), dict(miri_env(m), MON_PROGRESS="1"), log)))
inconclusive, events, models = [], {}, {}
cases = 0
reports = {}
end = time.time() + budget + 90
for k, m, log, args, p in runs:
    rc = wait(p, end - time.time())
    out = open(log, errors="replace").read()
    seen = re.findall(r"^case (\d+)$", out, re.M)
    done = re.search(r"^INLINE\t(\d+)", out, re.M)
    n = int(done.group(1)) if done else max(0, len(seen) - 1)
    cases += n
    models[m] = models.get(m, 0) + n
    for e, c in re.findall(r"^E\t([^\t\n]+)\t(\d+)$", out, re.M):
        events[e] = events.get(e, 0) + int(c)
    at = seen[-1] if seen else "?"
    ub = re.search(r"^error: Undefined Behavior: (.*)$", out, re.M) or re.search(r"^(ERROR: undefined behaviour caught.*)$", out, re.M)
    if ub:
        sig = re.sub(r"<\d+>|alloc\d+|0x[0-9a-f]+|\d+", "N", ub.group(1))[:120]
        reports.setdefault(sig, []).append((k, m, at, out, ub.group(1)))
    elif done is None:
        why = "did not end in time" if rc is None else f"ended with {rc}"
        uns = re.search(r"^error: (.*)$", out, re.M)
        inconclusive.append(f"the {m} borrows interpreter {k} {why} at case {at}" + (f": {uns.group(1)[:160]}" if uns else ""))
known = {}
try:
    for l in open(HERE + "/known-findings.txt"):
        if l.startswith("finding: property=P12\t"):
            f = l.rstrip("\n").split("\t")
            known[f[1]] = f[2] if len(f) > 2 else ""
except OSError:
    pass
fresh = []
for sig, l in sorted(reports.items()):
    k, m, at, out, what = l[0]
    if "miri:" + sig in known:
        continue
    fresh.append(sig)
    path = f"{EV}/replay/P12-miri-{hashlib.sha256(sig.encode()).hexdigest()[:16]}.txt"
    i = out.find("error: Undefined Behavior")
    with open(path, "w") as f:
        f.write(f"property: P12\nsignature: miri:{sig}\nreplay: MIRIFLAGS='{flags(m)}' CARGO_TARGET_DIR={HERE}/target/miri MON_TRACE=1 {' '.join(miri_cmd('--case', at))}\n\n{what}\n\n{out[max(0, i):][:20000]}\n")
    where = re.search(r"^ *--> (.*)$", out[max(0, i):], re.M)
    print(f"Miri ({m} borrows), case {at}: Undefined Behavior: {what[:300]}" + (f" at {where.group(1)}" if where else ""))
    print(f"VIOLATION property=P12 replay={path}")
    bad = True
for i in inconclusive:
    print("INCONCLUSIVE:", i)

# ------------------------------------------------------------------ evidence
wall = time.time() - START
if ev:
    c = ev["coverage"]
    c["asan_evaluations"] = c["evaluations"]
    c["miri_evaluations"] = cases
    c["miri_evaluations_by_model"] = models
    c["evaluations"] += cases
    c["events_observed_by_miri"] = dict(sorted(events.items()))
    c["inconclusive"] = c.get("inconclusive", []) + inconclusive
    c["seconds"] = {"build": round(built, 1), "asan": round(asan_s, 1), "miri": round(wall - built - asan_s, 1)}
    ev["violations"] = ev.get("violations", 0) + len(fresh)
    ev["wall_s"] = round(wall, 3)
    json.dump(ev, open(EV + "/P12.json", "w"), indent=1)
    os.remove(fragment)
print(f"P12: {cases} executions under Miri {models}, built in {built:.0f} s, AddressSanitizer {asan_s:.0f} s, whole check {wall:.0f} s")
if bad:
    sys.exit(1)
need = [e for e in ("hostile_reads", "hostile_writes", "hostile_views", "hostile_iter_mut", "hostile_conversion") if not events.get(e)]
if not asan_ok or cases < 20 or need:
    print(f"NO VERDICT: the run observed too little (Miri {cases} executions, missing {need})")
    sys.exit(3)
sys.exit(0)
