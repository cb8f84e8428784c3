"""The two (and more) pairs of a specification and a harness program: how each is driven."""
import random

import bluegen
import callgen
import gen
import gramgen
import toolgen
import valgen

BASE = ["boolean", "number", "string", "array", "object", "enum", "null"]


class Elem:
    """spec/Machine.tla and harness/elem.cc"""
    prog = "elem"
    trace, cfg = "Trace.tla", "Trace.cfg"
    consts = dict(NSlots=2, MaxNodes=8)

    @staticmethod
    def names(strings):
        return sorted(set(BASE) | strings)

    @staticmethod
    def setup(p, names):
        p.ask({"op": "universe", "names": names})

    @staticmethod
    def load(step):
        return {"op": "load", "slots": step["slots"], "reg": step["reg"]}

    @staticmethod
    def watch(step):
        return [step["reg"], step["o"]]

    @staticmethod
    def same(step, got):
        r = step["r"]
        n = len(r["slots"])
        if got["slots"][:n] != r["slots"] or any(s["t"] != "nil" for s in got["slots"][n:]):
            return False
        if {p["k"]: p["el"] for p in got["reg"]} != {p["k"]: p["el"] for p in r["reg"]}:
            return False
        return got["res"] == (r["res"] if r["res"] != [] else {})

    @staticmethod
    def driver(prof, seed):
        """(draws operations, names)"""
        r = random.Random(seed)
        g = prof["gen"](r) if isinstance(prof["gen"], type) else gen.Gen(r)
        ops = gen.Ops(r, g, prof["weights"])
        for k, v in prof.get("ops", {}).items():
            setattr(ops, k, v)
        names = set(g.names) | set(BASE) | set(gen.RESERVED) | set(g.strings) | {"", "Z", "A", "B", "C"}
        return ops, sorted(names)


def empty(x):
    """TLC writes an empty record like an empty sequence"""
    return [] if x == {} else x


class Tools:
    """spec/Tools.tla and harness/misc.cc"""
    prog = "misc"
    trace, cfg = "ToolsTrace.tla", "ToolsTrace.cfg"
    consts = {}

    @staticmethod
    def names(strings):
        return []

    @staticmethod
    def setup(p, names):
        pass

    @staticmethod
    def load(step):
        return {"op": "load", "st": step["st"]}

    @staticmethod
    def watch(step):
        return []

    @staticmethod
    def same(step, got):
        return got["st"] == step["r"]["st"] and empty(got["res"]) == step["r"]["res"]

    @staticmethod
    def driver(prof, seed):
        return toolgen.Ops(random.Random(seed), prof["weights"]), []


class Values:
    """spec/Values.tla and harness/value.cc"""
    prog = "value"
    trace, cfg = "ValuesTrace.tla", "ValuesTrace.cfg"
    consts = {}

    @staticmethod
    def names(strings):
        return []

    @staticmethod
    def setup(p, names):
        pass

    @staticmethod
    def load(step):
        return {"op": "load", "vals": step["vals"]}

    @staticmethod
    def watch(step):
        return []

    @staticmethod
    def same(step, got):
        return got["vals"] == step["r"]["vals"] and empty(got["res"]) == step["r"]["res"]

    @staticmethod
    def driver(prof, seed):
        return valgen.Ops(random.Random(seed), prof["weights"]), []


class Blue:
    """spec/Blue.tla and harness/blue.cc"""
    prog = "blue"
    trace, cfg = "BlueTrace.tla", "BlueTrace.cfg"
    consts = {}

    @staticmethod
    def names(strings):
        return []

    @staticmethod
    def setup(p, names):
        pass

    @staticmethod
    def load(step):
        return {"op": "load"}

    @staticmethod
    def watch(step):
        return []

    @staticmethod
    def same(step, got):
        g, r = got["res"], step["r"]
        if "notes" not in r:
            return empty(g) == r
        order = lambda ns: sorted(ns, key=lambda n: sorted(n.items(), key=str).__str__())
        return all(g[k] == r[k] for k in ("rc", "cats", "ast")) and order(g["notes"]) == order(r["notes"])

    @staticmethod
    def driver(prof, seed):
        return bluegen.Ops(random.Random(seed), prof["weights"]), []


class Calls:
    """spec/Calls.tla and harness/blue.cc"""
    prog = "blue"
    trace, cfg = "CallsTrace.tla", "CallsTrace.cfg"
    consts = {}
    judged = True

    @staticmethod
    def names(strings):
        return []

    @staticmethod
    def setup(p, names):
        pass

    @staticmethod
    def watch(step):
        return []

    @staticmethod
    def driver(prof, seed):
        return (callgen.Reads if prof.get("reads") else callgen.Ops)(random.Random(seed), prof["weights"]), []


class Grammar:
    """spec/Grammar.tla and harness/grammar.h"""
    prog = "blue"
    trace, cfg = "GrammarTrace.tla", "GrammarTrace.cfg"
    consts = {}

    @staticmethod
    def names(strings):
        return []

    @staticmethod
    def setup(p, names):
        pass

    @staticmethod
    def load(step):
        return {"op": "load"}

    @staticmethod
    def watch(step):
        return []

    @staticmethod
    def same(step, got):
        return empty(got["res"]) == empty(step["r"])

    @staticmethod
    def driver(prof, seed):
        return gramgen.Ops(random.Random(seed), prof["weights"]), []


DOMAINS = dict(grammar=Grammar, calls=Calls, blue=Blue, elem=Elem, tools=Tools, values=Values)
