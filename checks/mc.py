"""Exhaustive models: TLC enumerates every transition of a small model, and each is replayed on the real library."""
import json
import multiprocessing
import os
import re

import infra
from domain import DOMAINS
from infra import Died, Infra, Proc, Violation
import histories

def cfg_text(prop, consts, temporal, invs):
    out = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    for k, v in consts.items():
        out.append("CONSTANT %s = %s" % (k, v))
    return "\n".join(out + ["INVARIANT " + i for i in invs] + ["PROPERTY " + p for p in temporal]) + "\n"


def strings(x, out):
    if isinstance(x, str):
        out.add(x)
    elif isinstance(x, dict):
        for v in x.values():
            strings(v, out)
    elif isinstance(x, list):
        for v in x:
            strings(v, out)


def replay_one(dom, step, names):
    p = Proc(dom.prog)
    try:
        dom.setup(p, names)
        p.ask(dom.load(step))
        return p.ask(step["o"]), None
    except Died as d:
        return None, d
    finally:
        p.close()


def replay(args):
    """replays the steps in lines[k::n] of the file; returns (count, failure)"""
    path, k, n, names, domain = args
    dom = DOMAINS[domain]
    count = 0
    p = None
    try:
        with open(path) as f:
            for i, line in enumerate(f):
                if i % n != k:
                    continue
                step = json.loads(line)
                if p is None:
                    p = Proc(dom.prog)
                    dom.setup(p, names)
                try:
                    p.ask(dom.load(step))
                    got = p.ask(step["o"])
                except Died as d:
                    p.close()
                    p = None
                    got, again = replay_one(dom, step, names)
                    if again:
                        return count, dict(step=step, died="exit %s: %s" % (again.code, histories.stderr_summary(again.err)))
                    if not dom.same(step, got):
                        return count, dict(step=step, got=got)
                    raise Infra("the harness died once and not again: " + histories.stderr_summary(d.err))
                count += 1
                if not dom.same(step, got):
                    return count, dict(step=step, got=got)
    finally:
        if p:
            p.close()
    return count, None


def judge(args):
    """performs the histories in lines[k::n] of the file; the specification checks what was recorded; returns (count, failure)"""
    path, k, n, names, domain = args
    dom = DOMAINS[domain]
    tr = path + ".%d" % k
    count, lines, starts = 0, 0, []
    p = Proc(dom.prog)
    dom.setup(p, names)
    try:
        with open(path) as f, open(tr, "w") as out:
            for i, line in enumerate(f):
                if i % n != k:
                    continue
                ops = json.loads(line)["ops"]
                starts.append((lines + 1, ops))
                try:
                    st = p.ask({"op": "reset"})
                    st["res"] = {"leak": 0}
                    recs = [dict(o={"op": "reset"}, **st)] + [dict(o=o, **p.ask(o)) for o in ops]
                except Died as d:
                    p.close()
                    recs, again = histories.run_ops(dom, [{"op": "reset"}] + ops, names)
                    if again:
                        return count, dict(ops=ops, died="exit %s: %s" % (again.code, histories.stderr_summary(again.err)))
                    raise Infra("the harness died once and not again: " + histories.stderr_summary(d.err))
                for r in recs:
                    out.write(json.dumps(r) + "\n")
                lines += len(recs)
                count += 1
        if count == 0:
            return 0, None
        # every history performed again and again leaves nothing behind
        every = [o for _, ops in starts[::max(1, len(starts) // 20)] for o in [{"op": "reset"}] + ops]
        if histories.leaks(dom, every, names) > 0:
            return count, dict(ops=every, leaks=True)
    finally:
        p.close()
    _, bad = histories.check_trace(dom, tr)
    if bad:
        ops = [s for s in starts if s[0] <= bad[0]][-1][1]
        with open(tr) as f:
            for i, l in enumerate(f):
                if i == bad[0] - 1:
                    got = json.loads(l)
        return count, dict(ops=ops, got=got)
    os.unlink(tr)
    return count, None


STEP = '"STEP '


def run(prop, module=None, domain="elem", workers=6):
    """checks the model MC_<prop> and replays its transitions; returns coverage"""
    name = module or "MC_" + prop
    spec = os.path.join(infra.SPEC, name + ".tla")
    if not os.path.exists(spec):
        return None
    text = open(spec).read()
    m = re.search(r"\\\*\s*CONFIG\s*(.*)", text)
    conf = json.loads(m.group(1)) if m else {}
    tier = conf.get("thorough" if infra.THOROUGH else "quick", {})
    dom = DOMAINS[domain]
    c = dict(dom.consts, Deep="TRUE" if infra.THOROUGH else "FALSE")
    c.update(tier)
    cfg = os.path.join(infra.scratch(), name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text(prop, c, conf.get("properties", []), conf.get("invariants", [])))
    out = open(os.path.join(infra.scratch(), name + ".out"), "w+b")
    t = infra.start_tlc(name + ".tla", cfg, workers=workers, heap="8g", stdout=out, extra=("-maxSetSize", "5000000"))
    steps = os.path.join(infra.scratch(), name + ".steps")
    try:
        t.wait(timeout=int(os.environ.get("MC_TIMEOUT", 3000 if infra.THOROUGH else 800)))
    except Exception:
        t.kill()
        raise Infra("TLC did not finish")
    out.seek(0)
    names = set()
    count = 0
    rest = []
    kinds = {}
    sample = None
    with open(steps, "w") as f:
        for line in out:
            if line.startswith(b'"STEP '):
                s = line.decode().rstrip("\n")
                s = json.loads('"' + s[len(STEP):-1] + '"')
                f.write(s + "\n")
                count += 1
                if count % 50 == 1:
                    d = json.loads(s)
                    for x in dom.watch(d):
                        strings(x, names)
                    sample = sample or d.get("o") or d["ops"]
            else:
                rest.append(line.decode())
    out.close()
    r = infra.TlcResult(t.returncode, "".join(rest))
    if t.returncode != 0 or not r.ok:
        raise Infra("the model %s is not right:\n%s" % (name, "".join(rest)[-3000:]))
    names = dom.names(names)
    n = 7
    with multiprocessing.Pool(n) as pool:
        res = pool.map(judge if getattr(dom, "judged", False) else replay, [(steps, k, n, names, domain) for k in range(n)], 1)
    for cnt, bad in res:
        if bad:
            if "ops" in bad:
                what = ("the program ended (%s)" % bad["died"] if "died" in bad else "memory is left behind" if "leaks" in bad
                        else "%s does not behave as specified" % json.dumps(bad["got"]["o"])[:200])
                raise Violation(what + " in " + json.dumps(bad["ops"])[:300], infra.replay_file(prop, dict(kind="history", domain=domain, property=prop, names=names, **bad)))
            st = bad["step"]
            what = "transition %s does not behave as specified" % json.dumps(st["o"])[:300]
            if "died" in bad:
                what = "the program ended (%s) in %s" % (bad["died"], json.dumps(st["o"])[:300])
            raise Violation(what, infra.replay_file(prop, dict(kind="step", domain=domain, property=prop, names=names, **bad)))
    os.unlink(steps)
    if count == 0:
        raise Infra("the model has no transition")
    return dict(states=r.states, transitions=count, traces_validated_against_impl=sum(c for c, _ in res), exhaustive=True, samples=[sample],
                model=name)


def join(*covs):
    covs = [c for c in covs if c]
    out = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    for c in covs:
        for k in ("states", "transitions", "traces_validated_against_impl"):
            out[k] += c[k]
        out["samples"] += c["samples"]
        for k, v in c.items():
            if k in ("steps", "operations", "model"):
                out[k] = v
    out["exhaustive"] = False
    return out
