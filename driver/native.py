"""Runs the model-based replayer against the code of /repo: concrete histories and inputs."""
import os, re, subprocess, time
from kani import HERE, run, kill

CRATE = os.path.join(HERE, "native")
TARGET = os.path.join(HERE, "target", "native")
BIN = os.path.join(TARGET, "release", "shard-replay")


def build(timeout=300):
    code, out = run(["cargo", "build", "--release", "--offline", "--target-dir", TARGET], CRATE, timeout)
    return code == 0, out


def start(prop, ms, seeds, soft=False):
    env = dict(os.environ)
    if soft:
        env["SOFT"] = "1"
    ps = []
    for s in seeds:
        p = subprocess.Popen([BIN, prop, str(ms), str(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             text=True, errors="replace", start_new_session=True, env=env)
        ps.append((s, p))
    return ps


def collect(prop, ps, ms):
    """Sums up the runs; `fail` is a dict describing a failing input, if one was found."""
    end = time.time() + ms / 1000.0 + 150
    tot = dict(histories=0, operations=0, other_failures=0, parts={}, undecided=[], fail=None)
    for seed, p in ps:
        try:
            out, _ = p.communicate(timeout=max(1, end - time.time()))
            code = p.returncode
        except subprocess.TimeoutExpired:
            kill(p)
            out, _ = p.communicate()
            code = None
        last = out.strip().splitlines()
        m = re.search(r"^OK histories=(\d+) operations=(\d+) other_failures=(\d+) parts=(.*)$", out, re.M)
        if code == 0 and m:
            tot["histories"] += int(m[1])
            tot["operations"] += int(m[2])
            tot["other_failures"] += int(m[3])
            for x in m[4].split(","):
                if x:
                    n, c = x.rsplit(":", 1)
                    tot["parts"][n] = tot["parts"].get(n, 0) + int(c)
        elif code == 3:
            m = re.search(r"^FAIL (history (\d+)|(\S+)) (\S+) :: (.*)$", out, re.M | re.S)
            f = dict(where=m[1], tags=m[4], message=m[5].strip()) if m else dict(where="?", tags=prop, message=out[-500:])
            f["seed"] = seed
            f["arg"] = (m[2] or m[3]) if m else None
            tot["fail"] = tot["fail"] or f
        else:
            f = crash(prop, seed, last, code)
            if f is None:
                tot["undecided"].append("seed %s: exit code %s, last output %r" % (seed, code, last[-1:]))
            else:
                tot["fail"] = tot["fail"] or f
    return tot


def crash(prop, seed, lines, code):
    """Narrows a crash (or endless loop) down to one history, run alone, and the operation it happened in."""
    at = [l for l in lines if l.startswith(("AT ", "START "))]
    if not at:
        return None
    kind, arg = at[-1].split(" ", 1)
    if kind == "START":
        cands = [arg] if arg != "history" else []
    else:
        cands = [str(int(arg) + i) for i in range(64)]
    deadline = time.time() + 60
    for c in cands:
        p = subprocess.Popen([BIN, prop, "1", str(seed), "--trace", c], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=20 if kind == "AT" else 60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            kill(p)
            out, err = p.communicate()
            rc = None
        if rc not in (0, 3):
            tags = re.findall(r"^TAGS (\S+)$", err, re.M)
            tags = (tags[-1].split(",") if tags else [prop]) + ["C13", "C03"]
            how = "killed by signal %d" % -rc if rc is not None and rc < 0 else "no end" if rc is None else "exit code %d" % rc
            if prop in tags:
                return dict(where="history " + c if kind == "AT" else c, arg=c, seed=seed, tags=",".join(tags),
                            message="the process is %s" % how)
            return None
        if time.time() > deadline:
            return None
    return None


def trace(prop, fail):
    """The operations leading to a failure."""
    if not fail.get("arg"):
        return ""
    code, out = run([BIN, prop, "1", str(fail["seed"]), "--trace", fail["arg"]], CRATE, 120)
    lines = out.splitlines()
    return "\n".join(lines[-400:])
