#!/usr/bin/env python3
"""python3 checks/run.py ID: decides one property for /repo's working tree (VERIF_TIER, VERIF_SEED)."""
import json
import sys
import time
import traceback

import infra
from infra import Infra, Violation, log


def elem(prop):
    import histories
    import mc
    import profiles
    infra.ensure_built(["elem"])
    cov = mc.run(prop)
    tr = histories.run(prop, profiles.P[prop])
    return mc.join(cov, tr)


def tools(prop):
    import histories
    import mc
    import profiles
    infra.ensure_built(["misc"])
    cov = mc.run(prop, domain="tools")
    tr = histories.run(prop, profiles.T[prop], domain="tools") if prop in profiles.T else None
    return mc.join(cov, tr)


def values(prop):
    import histories
    import mc
    import profiles
    infra.ensure_built(["value"])
    cov = mc.run(prop, domain="values")
    tr = histories.run(prop, profiles.V[prop], domain="values") if prop in profiles.V else None
    return mc.join(cov, tr)


def blue(prop):
    import histories
    import mc
    import profiles
    infra.ensure_built(["blue"])
    cov = mc.run(prop, domain="blue")
    tr = histories.run(prop, profiles.B[prop], domain="blue") if prop in profiles.B else None
    return mc.join(cov, tr)


def calls(prop):
    import histories
    import mc
    import profiles
    infra.ensure_built(["blue"])
    cov = mc.run(prop, domain="calls")
    tr = histories.run(prop, profiles.C[prop], domain="calls")
    return mc.join(cov, tr)


def grammar(prop):
    import histories
    import mc
    import profiles
    infra.ensure_built(["blue"])
    cov = mc.run(prop, domain="grammar")
    tr = histories.run(prop, profiles.G[prop], domain="grammar")
    return mc.join(cov, tr)


CHECKS = {"E%02d" % i: elem for i in range(1, 22)}
CHECKS.update({i: tools for i in "S01 S02 S03 S04 U01 M01 M02 R01 R02 O01 X01".split()})
CHECKS.update({i: blue for i in "P01 P02 P03 P04 P05 P06 P07 P09 P14".split()})
CHECKS.update({i: calls for i in ("P11", "P12")})
CHECKS.update({i: grammar for i in ("P08", "P10", "P13")})
CHECKS.update({"J%02d" % i: values for i in range(1, 7)})


def main(prop):
    t0 = time.time()
    for attempt in range(3):
        try:
            cov = CHECKS[prop](prop)
            for k in infra.known_findings(prop):
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            infra.write_evidence(prop, "model_checking", cov, time.time() - t0, 0)
            log("%s: held on everything explored: %d states, %d transitions, %d traces (%.1fs)"
                % (prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
            return 0
        except Violation as v:
            infra.write_evidence(prop, "model_checking",
                                 dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[v.what[:400]]), time.time() - t0, 1)
            log(v.what)
            log("VIOLATION property=%s replay=%s" % (prop, v.replay))
            return 1
        except Infra as e:
            log("attempt %d: %s" % (attempt + 1, e))
        except Exception:
            traceback.print_exc()
        finally:
            infra.cleanup()
            infra._scratch = None
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
