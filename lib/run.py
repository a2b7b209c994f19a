"""Builds the harness from /repo's working tree and runs scenarios through it."""
import fcntl, glob, json, os, resource, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")


LOCKS = []


def build(profile="dev"):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
    env.pop("RUSTFLAGS", None)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(f"{TARGET}/.vp-lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)                  # until this process ends: one check at a time uses the build
    LOCKS.append(lock)
    sub = "debug" if profile == "dev" else profile
    for d in glob.glob(f"{TARGET}/{sub}/.fingerprint/nodejs-resolver-*") + glob.glob(f"{TARGET}/{sub}/.fingerprint/vp-harness-*"):
        shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", profile, "--manifest-path", f"{VERIF}/harness/Cargo.toml"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout)
        raise SystemExit(2)
    return f"{TARGET}/{sub}/vp-harness"


LIMIT = 6 << 30


def run_chunk(binary, scenarios, work, tag):
    """Runs scenarios in one process; a crash or hang of the process becomes the outcome of the call it was in."""
    inp, out = f"{work}/{tag}.in", f"{work}/{tag}.out"
    with open(inp, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s, ensure_ascii=False) + "\n")
    open(out, "w").close()
    skip = stops = 0
    while skip < len(scenarios) and stops < 3:
        scratch = f"{work}/vp-scratch-{tag}-{skip}"
        p = subprocess.run([binary, "run", inp, out, scratch, str(skip)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT)))
        shutil.rmtree(scratch, ignore_errors=True)
        with open(out) as f:
            done = sum(1 for _ in f)
        if p.returncode == 0:
            break
        mark = open(f"{out}.mark").read().split("\n")
        if not mark[0].strip():
            raise SystemExit(f"harness failed outside a call: {p.stderr}")
        i, k = map(int, mark[0].split())
        assert i == done, (i, done, p.returncode, p.stderr)
        kind = "hang" if p.returncode == 99 else "crash"
        if kind == "crash" and "harness/src" in p.stderr:
            raise SystemExit(f"harness failed: {p.stderr}")
        n = len(scenarios[i]["ev"])
        with open(out, "a") as f:
            f.write(json.dumps({"id": scenarios[i]["id"], "out": [{"k": "unk"}] * k + [{"k": kind, "m": ""}] + [{"k": "unk"}] * (n - k - 1)}) + "\n")
        skip = i + 1
        stops += 1
    with open(out) as f:
        results = [json.loads(l) for l in f]
    assert len(results) == len(scenarios) or stops
    return results + [None] * (len(scenarios) - len(results))        # not run after three crashes or hangs


def scratch(prefix):
    """A new directory in memory if possible."""
    shm = "/dev/shm"
    return tempfile.mkdtemp(prefix=prefix, dir=shm if os.path.isdir(shm) and os.access(shm, os.W_OK) else None)


def run(binary, scenarios, jobs=8, work=None):
    from concurrent.futures import ThreadPoolExecutor
    own = work is None
    work = work or scratch("vp-run-")
    try:
        n = max(1, (len(scenarios) + jobs - 1) // jobs)
        chunks = [scenarios[i:i + n] for i in range(0, len(scenarios), n)]
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda t: run_chunk(binary, t[1], work, str(t[0])), enumerate(chunks)))
        return [r for c in res for r in c]
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)
