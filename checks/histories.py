"""Random histories recorded from the real code and checked against the specification by TLC."""
import json
import multiprocessing
import os
import re
import time

import infra
from domain import DOMAINS
from infra import Died, Infra, Proc, Violation

def stderr_summary(err):
    for l in err.splitlines():
        if "ERROR:" in l or "runtime error" in l or "HARNESS-TIMEOUT" in l or "terminate called" in l or "what():" in l:
            return l.strip()[:300]
    return err.strip()[-300:]


def run_ops(dom, ops, names):
    """ops in a fresh process; returns (records, Died or None)"""
    p = Proc(dom.prog)
    recs = []
    try:
        dom.setup(p, names)
        for o in ops:
            r = p.ask(o)
            recs.append(dict(o=o, **r))
        return recs, None
    except Died as d:
        return recs, d
    finally:
        p.close()


def leaks(dom, ops, names):
    """does every repetition of the history leave memory behind?"""
    p = Proc(dom.prog)
    try:
        dom.setup(p, names)
        lives = []
        for _ in range(4):
            for o in ops + [{"op": "reset"}]:
                p.ask(o)
            lives.append(p.ask({"op": "live"})["live"])
        return min(lives[2] - lives[1], lives[3] - lives[2])
    finally:
        p.close()


def check_trace(dom, path):
    """TLC's verdict on one recorded trace: None or (line, expected)"""
    for attempt in range(2):
        t = infra.start_tlc(dom.trace, dom.cfg, env={"TRACE": path}, heap="3g")
        r = infra.finish_tlc(t)
        m = re.search(r'"MISMATCH (\d+)"', r.out)
        if m:
            e = re.search(r'"EXPECTED (.*)"\s*$', r.out, re.M)
            return r, (int(m.group(1)), json.loads('"' + e.group(1) + '"') if e else "")
        if r.rc == 0 and r.ok:
            return r, None
        last = r.out
    raise Infra("TLC gave no verdict:\n" + last[-3000:])


def shard(args):
    prop, domain, prof, seed, scenarios, length, deadline = args
    dom = DOMAINS[domain]
    ops, names = dom.driver(prof, seed)
    p = Proc(dom.prog)
    dom.setup(p, names)
    tr = os.path.join(infra.scratch(), "trace-%d-%d.ndjson" % (os.getpid(), seed))
    starts = []
    lines = 0
    kinds = {}
    live = None
    sample = None
    drove = 0
    try:
        with open(tr, "w") as f:
            for sc in range(scenarios):
                if time.time() > deadline and sc:
                    break
                hist = []
                starts.append((lines + 1, hist))
                st = p.ask({"op": "reset"})
                now = p.ask({"op": "live"})["live"]
                st["res"] = {"leak": 0}
                if live is not None and now > live and starts[:-1]:
                    n = leaks(dom, starts[-2][1], names)
                    st["res"] = {"leak": max(n, 0)}
                live = now
                f.write(json.dumps(dict(o={"op": "reset"}, **st)) + "\n")
                lines += 1
                for _ in range(length):
                    o = ops.draw(st)
                    hist.append(o)
                    st = p.ask(o)
                    kinds[o["op"]] = kinds.get(o["op"], 0) + 1
                    f.write(json.dumps(dict(o=o, **st)) + "\n")
                    lines += 1
                drove += 1
                if sc == 0:
                    sample = hist[:12]
    except Died as d:
        hist = starts[-1][1]
        recs, again = run_ops(dom, [{"op": "reset"}] + hist, names)
        how = hist
        if not again:
            how = [o for _, h in starts for o in [{"op": "reset"}] + h]
            recs, again = run_ops(dom, how, names)
        if not again:
            raise Infra("the harness died once and not again: " + stderr_summary(d.err))
        return dict(violation="the program ended (%s): %s" % (again.code, stderr_summary(again.err)),
                    replay=dict(kind="history", domain=domain, property=prop, names=names, ops=how, stderr=again.err[-4000:]))
    finally:
        p.close()
    tlc, bad = check_trace(dom, tr)
    res = dict(violation=None, states=tlc.states, transitions=tlc.transitions, steps=lines, traces=drove, kinds=kinds, sample=sample)
    if bad:
        n, expected = bad
        with open(tr) as f:
            for i, l in enumerate(f):
                if i == n - 1:
                    got = json.loads(l)
        first, hist = [s for s in starts if s[0] <= n][-1]
        if got["o"]["op"] == "reset":
            hist = ([s for s in starts if s[0] < n] or [starts[0]])[-1][1]
            what = "the history leaks memory or does not reset"
        else:
            hist = hist[:n - first]
            what = "operation %s does not behave as specified" % json.dumps(got["o"])[:200]
        res["violation"] = what
        res["replay"] = dict(kind="history", domain=domain, property=prop, names=names, ops=hist, got=got, expected=expected)
    if not res["violation"]:
        os.unlink(tr)
    return res


def run(prop, prof, domain="elem"):
    """returns the coverage of the traces; raises Violation"""
    n = prof.get("shards", 7)
    quick, thorough = prof.get("quick", (60, 40)), prof.get("thorough", (600, 60))
    sc, ln = thorough if infra.THOROUGH else quick
    deadline = time.time() + (600 if infra.THOROUGH else 25)
    infra.scratch()
    jobs = [(prop, domain, prof, infra.SEED * 1000 + i, sc, ln, deadline) for i in range(n)]
    with multiprocessing.Pool(n) as pool:
        out = pool.map(shard, jobs, 1)
    for o in out:
        if o["violation"]:
            raise Violation(o["violation"], infra.replay_file(prop, o["replay"]))
    kinds = {}
    for o in out:
        for k, v in o["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    return dict(states=sum(o["states"] for o in out), transitions=sum(o["transitions"] for o in out),
                traces_validated_against_impl=sum(o["traces"] for o in out), steps=sum(o["steps"] for o in out),
                operations=kinds, samples=[out[0]["sample"]])
