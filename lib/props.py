"""The properties this framework decides: id -> function(outcome, tier, seed)."""
import opcheck

PROPS = {}


def prop(pid):
    def f(g):
        PROPS[pid] = g
        return g
    return f


def ops(pid, *names):
    PROPS[pid] = lambda out, tier, seed: opcheck.check(out, names, tier, seed)


ops("P01", "Identity", "Add", "Scale", "Constant", "Power", "LessThan", "EqualTo", "GreaterThan", "TimeShift")
ops("P02", "Count", "CumulativeSum", "Difference")
ops("P03", "MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector", "RelativeStrengthIndex")
ops("P04", "AutoRegressive")
ops("P05", "Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream", "Linear")
ops("P06", "Join")
ops("P07", "Demultiplexer")
ops("P08", "Variable")
ops("P09", "ConstantResampler")
ops("P10", "CosineResampler", "HermiteResampler")
ops("P11", "Input")
ops("P12", "Output")
ops("P13", "Function")


EVERY = ("Identity", "Add", "Scale", "Constant", "Power", "LessThan", "EqualTo", "GreaterThan", "TimeShift", "Count",
         "CumulativeSum", "Difference", "MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector",
         "RelativeStrengthIndex", "AutoRegressive", "Plus", "Minus", "Multiplication", "Division", "And", "Or",
         "GreaterThanStream", "LessThanStream", "Linear", "Join", "Demultiplexer", "Variable", "ConstantResampler",
         "CosineResampler", "HermiteResampler", "Input", "Output", "Function")


@prop("P14")
def snapshots(out, tier, seed):
    opcheck.check(out, EVERY, tier, seed, kind="snapshot")


def module(pid, mod, fn="check", *a):
    def run(out, tier, seed):
        import importlib
        f = getattr(importlib.import_module(mod), fn)
        (f(*a) if a else f)(out, tier, seed)
    PROPS[pid] = run


module("P15", "netcheck", "check_networks")
module("P16", "ports")
module("P17", "netcheck", "check_programs")
module("P18", "netcheck", "check_saved")
module("P19", "netcheck", "check_kind", "pipelines")
module("P20", "comps")
module("P21", "netcheck", "check_registry")
module("P22", "jsons")
module("P23", "defs")
module("P24", "binds")
module("P25", "effects")
