"""Verdicts, evidence, known findings."""
import json, os, sys, time, random, shutil, tempfile, subprocess, traceback
from .build import VERIF, REPO

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
REPLAYS = os.path.join(VERIF, "replays")


class Stop(Exception):
    """Enough violations: stop the check."""


def rng(*salt):
    return random.Random("%d|%s" % (SEED, "|".join(map(str, salt))))


class Check:
    def __init__(self, pid, level):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=3):
        self.cov.setdefault("samples", [])
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d.get("property") == self.pid and d.get("status") == "known":
                        out.append(d)
        return out

    def violation(self, what, replay_obj):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": SEED, "tier": TIER, "replay": replay_obj}, f,
                      indent=1, default=str)
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  " + what[:1500])
        sys.stdout.flush()
        if len(self.violations) >= 3:
            raise Stop()

    def finish(self):
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov or {"explanation": "none"}, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def run_driver(exe, lines, timeout=300, env=None, cwd=None, preload=None):
    """Feeds JSON lines to a driver and returns (rc, parsed output lines, stderr)."""
    e = dict(os.environ)
    if env:
        e.update(env)
    if preload:
        e["LD_PRELOAD"] = preload
    data = "".join(json.dumps(l, separators=(",", ":")) + "\n" for l in lines)
    try:
        r = subprocess.run([exe], input=data.encode(), capture_output=True, timeout=timeout, env=e, cwd=cwd)
        rc, so, se = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as t:
        rc, so, se = "timeout", t.stdout or b"", t.stderr or b""
    out = []
    for l in so.decode("utf-8", "replace").split("\n"):
        if l.startswith("{") or l.startswith("["):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return rc, out, se.decode("utf-8", "replace")


def par_map(fn, items, workers=8):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


def drive(check, exe, cmds, timeout=300, what="behaviour", env=None, preload=None, cwd=None):
    """Runs one behaviour; a crash or a hang of the implementation is itself a violation.
    Returns the outputs (one per command), or None after reporting."""
    rc, out, err = run_driver(exe, cmds, timeout, env=env, preload=preload, cwd=cwd)
    if rc != 0 or len([o for o in out if "i" in o]) != len(cmds):
        n = len([o for o in out if "i" in o])
        how = "did not terminate" if rc in ("timeout", -14) else "ended with %s" % rc
        check.violation("%s: the implementation %s at command %d: %s\n%s" % (
            what, how, n, json.dumps(cmds[n])[:600] if n < len(cmds) else "(exit)", err[-600:]), {"cmds": cmds})
        return None
    return out


def shrink_event(module, ev, field, env=None):
    return ev


def rm(path):
    """Removes a scratch path (only under the temporary directory)."""
    p = os.path.abspath(path)
    assert p.startswith(tempfile.gettempdir() + "/vf-"), p
    shutil.rmtree(p, ignore_errors=True)


class DriverDied(Exception):
    pass


class Driver:
    """An interactive session with a driver: call() returns the answer of one command."""

    def __init__(self, exe, env=None, preload=None, cwd=None):
        e = dict(os.environ)
        e.update(env or {})
        if preload:
            e["LD_PRELOAD"] = preload
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=cwd)
        self.log, self.extra, self.buf = [], [], b""

    def _line(self, timeout):
        import select
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise DriverDied("did not answer within %ss" % timeout)
            if select.select([self.p.stdout], [], [], left)[0]:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    self.p.wait()
                    self.err.seek(0)
                    raise DriverDied("ended with %s: %s" % (self.p.returncode,
                                                            self.err.read()[-500:].decode("utf-8", "replace")))
                self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def call(self, cmd, timeout=120):
        self.log.append(cmd)
        try:
            self.p.stdin.write((json.dumps(cmd, separators=(",", ":")) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            pass
        self.extra = []
        while True:
            l = self._line(timeout)
            if not l.startswith(b"{"):
                continue
            o = json.loads(l)
            if "i" in o:
                return o
            self.extra.append(o)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(60)
        except (OSError, subprocess.TimeoutExpired):
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.close()
