"""Plumbing shared by all checks: build the harness, run TLC, replay scenarios, validate traces."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


def log(msg):
    print(f"[{time.strftime('%H:%M:%S')}] {msg}", file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def cargo_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    for kv in out.decode().split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUST_BACKTRACE"] = "0"
    env.pop("RUSTFLAGS", None)
    return env


def build():
    """Rebuild the harness against /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    p = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--quiet"],
        cwd=HARNESS, env=cargo_env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stderr[-6000:])
    log(f"harness built in {time.time() - t:.1f}s")
    return os.path.join(BUILD, "target", "debug", "conform")


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.error = "Error:" in out
        self.ok = rc == 0 and not self.error

    def tail(self, n=40):
        lines = [l for l in self.out.splitlines() if not re.match(r"(Parsing|Semantic|Linting|Computed|\"SCEN)", l)]
        return "\n".join(lines[-n:])


def tlc(work, module, cfg=None, env=None, workers=8, args=(), timeout=600, heap="6g"):
    meta = os.path.join(work, f"meta-{module}-{os.getpid()}-{time.monotonic_ns()}")
    os.makedirs(meta)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module} after {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.stdout + p.stderr, p.returncode)


def design(work, module, cfg, expect_error=None, timeout=600, env=None):
    """Exhaustive model checking of the specification's own properties."""
    t = time.time()
    r = tlc(work, module, cfg, timeout=timeout, env=env)
    if expect_error:
        if f"Invariant {expect_error} is violated" not in r.out:
            raise ToolError(f"{cfg}: expected {expect_error} to be violated\n" + r.tail())
    elif not r.ok:
        raise ToolError(f"model checking {module}/{cfg} failed:\n" + r.tail())
    log(f"TLC {cfg}: {r.generated} states generated, {r.distinct} distinct ({time.time() - t:.1f}s)")
    return r


def scenarios_of(r):
    out = []
    for l in r.out.splitlines():
        if l.startswith('"SCEN '):
            out.append(json.loads(json.loads(l)[5:]))
    return out


def simulate(work, module, num, depth, seed, env=None, procs=8, timeout=600, cfg=None):
    """Random behaviours of a generator specification, `num` in total."""
    share = [num // procs + (1 if i < num % procs else 0) for i in range(procs)]
    def one(i):
        if share[i] == 0:
            return []
        r = tlc(work, module, cfg, env=env, workers=1, heap="1500m", timeout=timeout,
                args=["-simulate", f"num={share[i]}", "-depth", str(depth), "-seed", str(seed * 1000 + i)])
        s = scenarios_of(r)
        if not s or "Error:" in r.out:
            raise ToolError(f"generation with {module} failed:\n" + r.tail())
        return s
    with cf.ThreadPoolExecutor(procs) as ex:
        return [s for part in ex.map(one, range(procs)) for s in part]


def enumerate_(work, module, cfg=None, env=None, timeout=600, workers=8):
    """Scenarios printed by an exhaustive run (the run also checks its invariants)."""
    r = tlc(work, module, cfg, env=env, timeout=timeout, workers=workers)
    if not r.ok:
        raise ToolError(f"enumeration with {module}/{cfg} failed:\n" + r.tail())
    # order of discovery depends on worker scheduling: make ids reproducible
    uniq = {json.dumps(x, sort_keys=True): x for x in scenarios_of(r)}
    return [uniq[k] for k in sorted(uniq)], r


# ---------------------------------------------------------------- replay
def replay(work, exe, engine, scens, seed, procs=8, hang=120, pristine=False):
    """Run scenarios on the real code. Returns (traces, crashes)."""
    for i, s in enumerate(scens):
        s.setdefault("id", i)
    chunks = [scens[i::procs] for i in range(procs)]
    crashes = []

    def one(ci):
        todo = chunks[ci]
        traces = []
        rnd = 0
        while todo:
            sp = os.path.join(work, f"scen-{engine}-{ci}-{rnd}.ndjson")
            tp = os.path.join(work, f"trace-{engine}-{ci}-{rnd}.ndjson")
            with open(sp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            env = dict(os.environ, RUST_BACKTRACE="0")
            if pristine:
                env["CONFORM_PRISTINE"] = "1"
            p = subprocess.Popen([exe, engine, sp, tp, str(seed)], stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, env=env)
            last, since, why = -1, time.time(), None
            while True:
                try:
                    p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    size = os.path.getsize(tp) if os.path.exists(tp) else 0
                    if size != last:
                        last, since = size, time.time()
                    elif time.time() - since > hang:
                        why = "hang"
                        p.kill()
                        p.wait()
                        break
            err = p.stderr.read().decode(errors="replace")
            done = []
            if os.path.exists(tp):
                with open(tp) as f:
                    for line in f:
                        if line.endswith("\n"):
                            done.append(json.loads(line))
                os.unlink(tp)
            os.unlink(sp)
            traces += done
            if p.returncode == 0 and not why:
                if len(done) != len(todo):
                    raise ToolError("harness lost traces")
                return traces
            if p.returncode in (3, 2):
                raise ToolError("harness error: " + err[-2000:])
            if len(done) >= len(todo):
                raise ToolError("harness failed after its last scenario: " + err[-2000:])
            crashes.append({"scenario": todo[len(done)], "how": why or f"exit status {p.returncode}", "stderr": err[-500:]})
            if len(crashes) > 40:
                return traces
            todo = todo[len(done) + 1:]
            rnd += 1
        return traces

    t = time.time()
    with cf.ThreadPoolExecutor(procs) as ex:
        traces = [x for part in ex.map(one, range(procs)) for x in part]
    traces.sort(key=lambda x: x["id"])
    log(f"replayed {len(traces)} {engine} scenarios on the code in {time.time() - t:.1f}s, {len(crashes)} crashes")
    return traces, crashes


# ---------------------------------------------------------------- validation
MISM = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>')


def validate(work, module, traces, cfg=None, timeout=800, chunk=6000):
    """TLC checks every trace; returns (mismatches, states, transitions)."""
    mism, states, trans = [], 0, 0
    t = time.time()
    for k in range(0, len(traces), chunk):
        part = traces[k:k + chunk]
        path = os.path.join(work, f"validate-{module}-{k}.ndjson")
        with open(path, "w") as f:
            for tr in part:
                f.write(json.dumps(tr) + "\n")
        r = tlc(work, module, cfg, env={"TRACES": path}, timeout=timeout)
        want = sum(len(tr["ev"]) + 1 for tr in part)
        if not r.ok or r.distinct != want:
            keep = os.path.join(BUILD, f"failed-{module}.ndjson")
            shutil.copy(path, keep)
            raise ToolError(f"{module}: TLC reached {r.distinct} of {want} trace states ({keep})\n" + r.tail())
        os.unlink(path)
        states += r.distinct
        trans += r.generated - len(part)
        for m in MISM.finditer(re.sub(r"\s+", " ", r.out)):
            props = re.findall(r'"([^"]+)"', m.group(3))
            mism.append((int(m.group(1)), int(m.group(2)), props))
    mism.sort()
    log(f"TLC validated {len(traces)} traces of {module}: {states} states, {len(mism)} mismatches ({time.time() - t:.1f}s)")
    return mism, states, trans
