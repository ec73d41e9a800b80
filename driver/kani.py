"""Runs Kani harnesses (contract obligations) and reads their results."""
import os, re, subprocess, time, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(HERE, "kani")
TARGET = os.path.join(HERE, "target", "kani")
FLAGS = ["--target-dir", TARGET, "-Z", "stubbing", "-Z", "unstable-options",
         "--no-assertion-reach-checks", "--output-format", "terse"]


def run(cmd, cwd, timeout):
    """Runs a command in its own session; returns (code or None on timeout, output)."""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
        return None, out or ""


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def command(harnesses, jobs, harness_timeout):
    c = ["cargo", "kani"] + FLAGS + ["-j", str(jobs), "--harness-timeout", "%ds" % harness_timeout, "--exact"]
    for h in harnesses:
        c += ["--harness", h]
    return c


def verify(harnesses, jobs=8, harness_timeout=240, timeout=800):
    """{harness: {status: proved|failed|undecided, checks, failed, time, reason, failures}}, log"""
    code, out = run(command(harnesses, jobs, harness_timeout), CRATE, timeout)
    res = parse(out)
    for h in harnesses:
        if h not in res:
            why = "not finished in time" if code is None else "no result (exit code %s)" % code
            m = re.search(r"^error.*$", out, re.M)
            if m and not res:
                why = "does not build: " + m.group(0)
            res[h] = dict(status="undecided", checks=0, failed=0, time=0.0, reason=why, failures=[])
    return {h: res[h] for h in harnesses}, out


UNSUPPORTED = re.compile(r"unwinding assertion|not currently supported|unsupported|is not supported|"
                         r"reached unreachable construct|missing function|undefined function|recursion unwinding", re.I)


def parse(out):
    res, current, thread, block = {}, {}, None, {}
    # A block of result lines follows "Thread N: " on a line of its own (or "Checking harness" if sequential).
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            current[m[1]] = m[2]
            if m[1] is None:
                thread, block = None, []
            continue
        m = re.match(r"Thread (\d+): *$", line)
        if m:
            thread, block = m[1], []
            continue
        if isinstance(block, list):
            block.append(line)
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        t = None
        if m:
            t = float(m[1])
        elif re.search(r"CBMC (timed out|failed)|out of memory", line, re.I) and isinstance(block, list):
            t = 0.0
        if t is not None and thread in current and isinstance(block, list):
            res[current[thread]] = result(block, t)
            if m:
                block = {}
    return res


def result(block, t):
    text = "\n".join(block)
    m = re.search(r"\*\* (\d+) of (\d+) failed", text)
    failed, checks = (int(m[1]), int(m[2])) if m else (0, 0)
    fails = []
    for i, l in enumerate(block):
        m = re.match(r"Failed Checks: (.*)", l)
        if m:
            w = block[i + 1].strip() if i + 1 < len(block) and "File:" in block[i + 1] else ""
            fails.append((m[1], w))
    r = dict(checks=checks, failed=failed, time=t, failures=[], reason="")
    real = [f for f in fails if not UNSUPPORTED.search(f[0])]
    if "VERIFICATION:- SUCCESSFUL" in text:
        r["status"] = "proved"
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text)
        if m and m[1] != m[2]:
            r.update(status="undecided", reason="a precondition is not satisfiable: %s of %s cover properties" % (m[1], m[2]))
    elif real:
        r.update(status="failed", failures=["%s %s" % f for f in real])
    else:
        r["status"] = "undecided"
        if fails:
            r["reason"] = "; ".join(sorted({f[0] for f in fails}))[:300]
        elif "timed out" in text:
            r["reason"] = "solver time limit"
        elif re.search("out of memory", text, re.I):
            r["reason"] = "memory limit"
        else:
            r["reason"] = "no verdict"
    return r


def excerpt(log, harnesses):
    """The result blocks of the given harnesses."""
    out, thread, current, keep = [], None, {}, False
    for line in log.splitlines():
        m = re.match(r"Thread (\d+): Checking harness (\S+?)\.\.\.", line)
        if m:
            current[m[1]] = m[2]
            continue
        m = re.match(r"Thread (\d+): *$", line)
        if m:
            keep = current.get(m[1]) in harnesses
            if keep:
                out.append("harness " + current[m[1]])
        if keep:
            out.append(line)
    return "\n".join(out)[:20000]
