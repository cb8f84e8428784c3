"""Processes, TLC, evidence and verdicts."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import build as builder

ROOT = builder.ROOT
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "build")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


class Infra(Exception):
    """the machinery itself failed"""


class Died(Exception):
    """the program under test ended"""
    def __init__(self, code, err):
        Exception.__init__(self, "exit %s" % code)
        self.code, self.err = code, err


def log(*a):
    print(*a, flush=True)


class Proc:
    """A harness program: one JSON request per line, one JSON reply per line."""
    def __init__(self, name, cwd=None):
        self.err = tempfile.TemporaryFile(mode="w+b")
        self.p = subprocess.Popen([os.path.join(OUT, "bin", name)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=ENV, cwd=cwd)

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req, ensure_ascii=True, separators=(",", ":")).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b""
        if not line.endswith(b"\n"):
            self.p.stdin.close()
            code = self.p.wait(timeout=60)
            self.err.seek(0)
            raise Died(code, self.err.read().decode("utf-8", "replace"))
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=60)
        except Exception:
            self.p.kill()
        self.p.stdout.close()
        self.err.close()


def ensure_built(names):
    for attempt in range(2):
        rc, out = builder.build(names)
        if rc == 0:
            return
    sys.stdout.write(out[-8000:])
    raise Infra("the harness does not build from /repo")


# ------------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or "Finished in" in out and rc == 0


def tlc_cmd(spec, cfg, meta, workers=1, heap="3g", extra=()):
    return ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
            "-config", cfg, *extra, spec]


def start_tlc(spec, cfg, env=None, workers=1, heap="3g", extra=(), stdout=None):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    out = stdout or tempfile.TemporaryFile(mode="w+b")
    p = subprocess.Popen(tlc_cmd(spec, cfg, meta, workers, heap, extra), cwd=SPEC, env=dict(os.environ, **(env or {})),
                         stdout=out, stderr=subprocess.STDOUT)
    p.outfile, p.meta = out, meta
    return p


def finish_tlc(p, timeout=3000):
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Infra("TLC did not finish")
    p.outfile.seek(0)
    out = p.outfile.read().decode("utf-8", "replace")
    p.outfile.close()
    shutil.rmtree(p.meta, ignore_errors=True)
    return TlcResult(p.returncode, out)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(OUT, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=OUT)
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


def replay_file(prop, data):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    for n in range(1, 10000):
        f = os.path.join(d, "%s-%d.json" % (prop, n))
        if not os.path.exists(f):
            break
    with open(f, "w") as h:
        json.dump(data, h, indent=1)
    return f


def write_evidence(prop, level, coverage, wall, violations, assumptions=()):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": coverage,
         "wall_s": round(wall, 1), "violations": violations}
    if assumptions:
        e["assumptions"] = list(assumptions)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as h:
        json.dump(e, h, indent=1)
        h.write("\n")


def known_findings(prop):
    """identifiers of the recorded, unrepaired findings of a property"""
    out = []
    f = os.path.join(ROOT, "known-findings.json")
    if os.path.exists(f):
        for e in json.load(open(f))["findings"]:
            if e["property"] == prop and e["status"] == "open":
                out.append(e)
    return out
