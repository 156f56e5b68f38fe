"""Registry of contracts (shared by both interpreters; no solver imports)."""
import importlib

REG = {}

MODULES = ["vectors", "paths", "derived", "patches", "solids", "swept", "meshing",
           "components", "vehicle", "massprops", "sensitivity", "wings", "fins", "shapes", "quality", "purity"]


class Contract:
    def __init__(self, id, fn, props, targets, mode, opts):
        self.id = id
        self.fn = fn
        self.props = props
        self.targets = targets
        self.mode = mode      # "proof" or "bounded"
        self.opts = opts
        self.doc = (fn.__doc__ or "").strip()


def contract(id, props, targets, mode="proof", **opts):
    """Declare a contract.

    props    properties the contract serves
    targets  functions whose bodies it verifies ("module:qualname")
    mode     "proof"   - obligations for all inputs, discharged by a solver
             "bounded" - executed on generated inputs only (never a proof)
    """

    def deco(fn):
        assert id not in REG, id
        REG[id] = Contract(id, fn, props, targets, mode, opts)
        return fn

    return deco


def load_all():
    for m in MODULES:
        try:
            importlib.import_module("hvc.contracts." + m)
        except ModuleNotFoundError as e:
            if e.name != "hvc.contracts." + m:
                raise
    return REG
