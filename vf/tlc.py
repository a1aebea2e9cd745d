"""Running TLC on the specification."""
import os, re, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
from .build import VERIF

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(VERIF, "spec")


class TlcError(Exception):
    """TLC could not decide (an error of the check, not a verdict)."""


class Result:
    def __init__(self, ok, out, states, distinct, msg):
        self.ok, self.out, self.states, self.distinct, self.msg = ok, out, states, distinct, msg


def _classpath():
    d = os.path.dirname(JAR)
    cps = [JAR]
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != os.path.basename(JAR):
            cps.append(os.path.join(d, f))
    return ":".join(cps)


def run(module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g", deadlock=False, stack="64m",
        generate=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>. Verdict ok / violated; raises TlcError otherwise."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss" + stack,
               "-cp", _classpath(), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", os.path.join(SPEC, cfg)]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired as t:
            raise TlcError("TLC timed out after %ss on %s" % (timeout, module))
        out = r.stdout + r.stderr
        states = distinct = 0
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            states, distinct = [int(x.replace(",", "")) for x in m[-1]]
        else:
            m = re.findall(r"(\d[\d,]*) states (?:generated|checked)", out)
            if m:
                states = distinct = int(m[-1].replace(",", ""))
        if r.returncode == 0:
            return Result(True, out, states, distinct, "")
        # 10: assumption violated, 12: safety, 13: liveness, 11: deadlock; POSTCONDITION is 10-ish/1xx by version
        violated = r.returncode in (10, 11, 12, 13, 14) or "POSTCONDITION" in out.upper() and "is violated" in out \
            or "Invariant" in out and "is violated" in out or "violated" in out and r.returncode < 75
        if violated and "TLC encountered" not in out and "Parsing or semantic analysis failed" not in out:
            return Result(False, out, states, distinct, out[-3000:])
        raise TlcError("TLC failed (rc %d) on %s/%s:\n%s" % (r.returncode, module, cfg, out[-6000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


MISMATCH = re.compile(r'"REJECTED"')


def check_trace(module, events, cfg=None, timeout=600, heap="3g", shards=1, env=None):
    """Validates events (a list of JSON values) against trace module; events must be independent lines unless
    shards == 1, or a list of lists (one per shard).  Returns (ok, info list, states)."""
    cfg = cfg or module + ".cfg"
    groups = events if shards is None else [events[i::shards] for i in range(shards)]
    groups = [g for g in groups if g]

    def one(g):
        fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for ev in g:
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        try:
            e = {"TRACE": path}
            e.update(env or {})
            r = run(module, cfg, env=e, timeout=timeout, heap=heap)
            rej = None
            if not r.ok:
                m = re.search(r"REJECTED at (\d+)", r.out)
                if not m:
                    raise TlcError("trace check failed without a rejection:\n" + r.out[-6000:])
                rej = int(m.group(1))
            return r, rej, g
        finally:
            os.unlink(path)

    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, groups))
    bad = [(rej, g, r.out) for r, rej, g in res if rej is not None]
    return not bad, bad, sum(r.distinct for r, _, _ in res)
