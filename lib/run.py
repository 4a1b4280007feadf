"""Builds the harness, replays scenarios against the real code, validates the traces with TLC."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO_DIR", "/repo")
TARGET = os.path.join(V, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def src_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml"]
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true",
               RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
    env.pop("CARGO_INCREMENTAL", None)
    env["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + env["PATH"]
    mark = os.path.join(TARGET, "multipart.sha256")
    h = src_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    man = os.path.join(V, "harness", "Cargo.toml")
    if old and old != h:  # never trust time stamps alone
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", man, "-p", "multipart"], env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(mark):
            os.remove(mark)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", man], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        say(p.stdout[-4000:])
        raise ToolError("the harness does not build")
    open(mark, "w").write(h)
    return os.path.join(TARGET, "debug", "harness")


def java(module, cfg=None, env=None, workers=1, args=(), cwd=None, timeout=800, heap="3g", meta=None):
    """Runs TLC; returns its output."""
    own = meta is None
    meta = meta or tempfile.mkdtemp(prefix="tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers)]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=cwd or os.path.join(V, "spec"), env=dict(os.environ, **(env or {})),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        if own:
            shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    return (int(m[-1][0]), int(m[-1][1]), int(m[-1][2])) if m else None


def unprivileged(work):
    """The code under test runs as an unprivileged user who owns nothing but the scratch directories."""
    if os.geteuid() != 0:
        return {}
    who = dict(user=65534, group=65534, extra_groups=[])
    try:
        if subprocess.run(["/bin/sh", "-c", 'test "$(id -u)" = 65534 && test -x "$0"', work], **who).returncode == 0:
            return who
    except (OSError, subprocess.SubprocessError):
        pass
    return {}


def give(path):
    if os.geteuid() == 0:
        os.chown(path, 65534, 65534)


def replay_shard(exe, scen, work, k, res, who):
    """Runs the harness over its shard, going on after a scenario that killed it."""
    try:
        scr = os.path.join(work, "scr%d" % k)
        os.makedirs(scr, exist_ok=True)
        traces = os.path.join(work, "t%d.ndjson" % k)
        open(traces, "w").close()
        if who:
            give(scr)
            give(traces)
        todo = list(scen)
        rounds = 0
        hangs = 0
        while todo:
            rounds += 1
            f = os.path.join(work, "s%d.ndjson" % k)
            with open(f, "w") as o:
                for s in todo:
                    o.write(json.dumps(s) + "\n")
            with open(f + ".out", "w") as so:
                p = subprocess.Popen([exe, f, traces], cwd=scr, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.STDOUT,
                                     env=dict(os.environ, SCRATCH=scr, TMPDIR=scr), **who)
                try:
                    rc = p.wait(timeout=600)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = -9
            lines = open(traces).read().split("\n")
            if lines and lines[-1]:
                lines.pop()  # an unfinished line
                open(traces, "w").write("\n".join(lines) + "\n")
            done = len([l for l in lines if l])
            if rc == 0:
                if done != len(scen):
                    raise ToolError("harness lost scenarios: %d of %d" % (done, len(scen)))
                break
            hangs += rc in (75, -9)
            if rc != 75:  # it died in a scenario
                s = scen[done]
                t = {"id": s["id"], "kind": s["kind"], "ev": [{"op": "abort", "rc": rc, "faults": [], "post": 0}]}
                t.update(s.get("spec", {}))
                for key in ("body", "bnd"):
                    if key in s:
                        v = s[key]
                        t[key] = list(v.encode()) if isinstance(v, str) else v
                with open(traces, "a") as o:
                    o.write(json.dumps(t) + "\n")
                done += 1
            todo = scen[done:]
            if rounds > 40 or hangs > 2:  # enough of them
                res[k] = scen[:done]
                return
        res[k] = scen
    except Exception as e:  # noqa
        res[k] = e


def replay(exe, scen, work):
    """-> {id: trace line}"""
    n = min(NPROC, max(1, len(scen) // 4))
    shards = [scen[i::n] for i in range(n)]
    res = [None] * n
    os.chmod(work, 0o755)
    mine = os.path.join(work, "harness")
    shutil.copy(exe, mine)
    os.chmod(mine, 0o755)
    who = unprivileged(work)
    ths = [threading.Thread(target=replay_shard, args=(mine, shards[i], work, i, res, who)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    out = []
    for i in range(n):
        if isinstance(res[i], Exception):
            raise res[i]
        for l in open(os.path.join(work, "t%d.ndjson" % i)):
            if l.strip():
                out.append(l)
        shutil.rmtree(os.path.join(work, "scr%d" % i), ignore_errors=True)
    return out


def validate_shard(lines, work, k, module, res):
    try:
        f = os.path.join(work, "v%d.ndjson" % k)
        with open(f, "w") as o:
            o.writelines(lines)
        rc, out = java(module + ".tla", module + ".cfg", env={"TRACES": f}, workers=2)
        res[k] = (rc, out)
    except Exception as e:  # noqa
        res[k] = e


def parse_verdicts(out):
    acc, rej = set(), {}
    for m in re.finditer(r'<<"ACCEPT", "([^"]*)">>', out):
        acc.add(m.group(1))
    for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+)', out):
        rej[m.group(1)] = int(m.group(2))
    return acc, rej


def validate(lines, work, module="Trace", nshard=4):
    """-> (accepted ids, {rejected id: event index}, states, transitions)"""
    n = max(1, min(nshard, len(lines) // 10 + 1))
    order = sorted(lines, key=len, reverse=True)
    shards = [order[i::n] for i in range(n)]
    res = [None] * n
    ths = [threading.Thread(target=validate_shard, args=(shards[i], work, i, module, res)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    acc, rej, st, tr = set(), {}, 0, 0
    for i in range(n):
        if isinstance(res[i], Exception):
            raise res[i]
        rc, out = res[i]
        a, j = parse_verdicts(out)
        ids = set(json.loads(l)["id"] for l in shards[i])
        if rc != 0 or (a | set(j)) != ids:
            open(os.path.join(work, "tlc-error-%d.txt" % i), "w").write(out)
            say(out[-3000:])
            raise ToolError("TLC failed on the traces (rc %s, %d verdicts for %d traces)" % (rc, len(a | set(j)), len(ids)))
        s = stats(out)
        st += s[1]
        tr += s[0] - len(ids)
        acc |= a
        rej.update(j)
    return acc, rej, st, tr
