"""Building, running and validating."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = os.cpu_count() or 4


class Inconclusive(Exception):
    pass


_tmp = None


def tmp():
    global _tmp
    if not _tmp:
        _tmp = tempfile.mkdtemp(prefix="verif-")
    return _tmp


def cleanup():
    if _tmp and os.path.isdir(_tmp) and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_tmp, ignore_errors=True)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(*targets):
    out = os.path.join(tmp(), "build")
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(
        ["make", "-s", "-j%d" % NCPU, "-f",
         os.path.join(VERIF, "harness/Makefile"), "OUT=" + out,
         "REPO=" + REPO] + [os.path.join(out, t) for t in targets],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log(r.stdout[-4000:])
        raise Inconclusive("the harness does not build")
    return [os.path.join(out, t) for t in targets]


# ---------------------------------------------------------------- harness

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:"
           "exitcode=99:allocator_may_return_null=0",
           UBSAN_OPTIONS="print_stacktrace=1")


def feed(p, data, timeout):
    """Run to the end, or until nothing came out for timeout seconds.
    -> stdout, stderr, hung"""
    out = {p.stdout: [], p.stderr: []}
    last = [time.time()]

    def read(f):
        while True:
            b = os.read(f.fileno(), 1 << 16)
            if not b:
                break
            last[0] = time.time()
            out[f].append(b)

    def write():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass
    th = [threading.Thread(target=read, args=(f,), daemon=True) for f in out]
    th.append(threading.Thread(target=write, daemon=True))
    for t in th:
        t.start()
    hung = False
    while True:
        try:
            p.wait(.05 if time.time() - last[0] < timeout - 1 else 1)
            break
        except subprocess.TimeoutExpired:
            if time.time() - last[0] > timeout:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    for t in th:
        t.join(10)
    return b"".join(out[p.stdout]), b"".join(out[p.stderr]), hung


def run_harness(binary, scripts, timeout=40, env=None):
    """scripts: [(id, header flags, [lines])] -> {id: json line or None},
    {id: reason} for those that crashed; timeout: for a single script"""
    good, bad = {}, {}
    todo = list(scripts)
    hangs = 0
    while todo:
        text = "".join("T %s %s\n%s\nE\n" % (i, fl, "\n".join(ls))
                       for i, fl, ls in todo)
        p = subprocess.Popen([binary], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env or ENV, start_new_session=True)
        so, se, hung = feed(p, text.encode(), timeout)
        hangs += hung
        se = se.decode("latin-1")
        lines = so.decode("latin-1").split("\n")
        done = 0
        for ln in lines[:-1]:
            if done >= len(todo):
                break
            try:
                json.loads(ln)
            except ValueError:
                break
            good[todo[done][0]] = ln
            done += 1
        if p.returncode == 0 and not hung:
            if done != len(todo):
                raise Inconclusive("harness output is incomplete")
            break
        if p.returncode == 4:
            raise Inconclusive("bad script: " + se[-300:])
        if done >= len(todo):
            # a leak, found at the end: find out where
            if len(todo) == 1:
                good.pop(todo[0][0], None)
                bad[todo[0][0]] = reason(se, p.returncode)
                break
            m = len(todo) // 2
            for part in (todo[:m], todo[m:]):
                g, b = run_harness(binary, part, timeout, env)
                good.update(g)
                for k in b:
                    good.pop(k, None)
                bad.update(b)
            break
        bad[todo[done][0]] = "timeout" if hung else reason(se, p.returncode)
        todo = todo[done + 1:]
        if len(bad) > 20 or hangs > 1:
            break
    return good, bad


def reason(se, rc):
    m = re.search(r"(ERROR: \w+: [^\n]*|runtime error: [^\n]*|"
                  r"ERROR: LeakSanitizer[^\n]*|"
                  r"WARNING: MemorySanitizer: [^\n]*)", se)
    f = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", se)
    t = m.group(1) if m else "exit code %s: %s" % (rc, se[-200:])
    t = re.sub(r"0x[0-9a-f]+", "0x..", t)
    fr = [a for a, b in f if REPO in b][:3]
    return t + (" in " + " < ".join(fr) if fr else "")


def harness_parallel(binary, scripts, timeout=40, env=None):
    n = max(1, min(NCPU, len(scripts) // 8 + 1))
    parts = [scripts[i::n] for i in range(n)]
    good, bad = {}, {}
    with cf.ThreadPoolExecutor(n) as ex:
        for g, b in ex.map(lambda p: run_harness(binary, p, timeout, env),
                           parts):
            good.update(g)
            bad.update(b)
    return good, bad


# -------------------------------------------------------------------- TLC

def tlc(module, cfg=None, env=None, workers=None, timeout=600, extra=(),
        heap="6g"):
    """-> (exit code, output, stats)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmp())
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + meta, "-cp", CP,
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers",
           str(workers or NCPU), "-config", (cfg or module) + ".cfg",
           *extra, module + ".tla"]
    of = os.path.join(meta, "out")
    t0 = time.time()
    with open(of, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=f,
                             env=dict(os.environ, **(env or {})),
                             start_new_session=True)
        seen = 0
        failed = None
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            if time.time() - t0 > timeout:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                failed = "timeout"
                break
            # errors while evaluating can take very long to be explained
            with open(of, errors="replace") as g:
                g.seek(seen)
                c = g.read()
            if "Error: TLC threw an unexpected" in c or \
               "Error: Evaluating" in c:
                time.sleep(2)
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                failed = "error"
                break
            seen = max(0, os.path.getsize(of) - 200)
    with open(of, errors="replace") as g:
        out = g.read()
    st = {}
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) "
                   r"distinct states found", out)
    if m:
        st["states"] = int(m[-1][1].replace(",", ""))
        st["transitions"] = int(m[-1][0].replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        st["depth"] = int(m.group(1))
    st["seconds"] = round(time.time() - t0, 1)
    shutil.rmtree(meta, ignore_errors=True)
    rc = p.returncode if failed is None else failed
    return rc, out, st


def tla_unquote(s):
    return json.loads(s)


CHUNK = 50 << 20        # of recorded traces, so that they fit into memory


def validate(lines, module="Trace", env=None, timeout=800):
    """check recorded traces -> ({id: mismatch}, stats)"""
    mm, st, part, size = {}, {}, [], 0
    for ln in lines + [None]:
        if part and (ln is None or size + len(ln) > CHUNK):
            m, s = validate1(part, module, env, timeout)
            mm.update(m)
            for k, v in s.items():
                st[k] = max(st.get(k, 0), v) if k == "depth" else \
                    st.get(k, 0) + v
            part, size = [], 0
        if ln is not None:
            part.append(ln)
            size += len(ln)
    return mm, st


def validate1(lines, module, env, timeout):
    fn = os.path.join(tmp(), "traces-%d.json" % time.time_ns())
    with open(fn, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = {"TRACE_FILE": fn}
    e.update(env or {})
    rc, out, st = tlc(module, env=e, timeout=timeout)
    os.unlink(fn)
    mm = {}
    for ln in out.split("\n"):
        if ln.startswith('"MISMATCH '):
            d = json.loads(json.loads(ln)[9:])
            mm[d["id"]] = d
    if rc != 0:
        i = out.find("Error:")
        raise Inconclusive("TLC: %s: %s" % (rc, out[i:i + 3000]))
    return mm, st
