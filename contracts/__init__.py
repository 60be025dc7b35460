"""Contracts of the functions of /repo, one module per part of the system."""
import importlib
from pyvc.contract import Contract, Registry
from pyvc.source import Program

MODULES = ["basic", "binary", "persist", "client", "sampling", "ctors", "kmeans", "spectral", "text", "hierarchical", "arrays", "affinity", "dbscan"]

_CL = ["clustering.kmeans:KMeansConstrainedClustering.cluster", "clustering.hierarchical:HierarchicalConstrainedClustering.cluster", "clustering.spectral:SpectralConstrainedClustering.cluster",
       "clustering.affinity_propagation:AffinityPropagationConstrainedClustering.cluster", "clustering.dbscan:DBScanConstrainedClustering.cluster", "clustering.mpckmeans:MPCKMeansConstrainedClustering.cluster"]
_TX = ["utils.preprocessing:preprocess", "utils.vectorization:vectorize"]
# functions a property depends on besides those that carry it in their contract: without a contract they are bounded stand-ins
REQUIRED = {"C13": _CL[1:2], "C14": _CL, "C16": _CL[3:4], "C17": _CL + _TX, "C18": _CL, "C19": _CL, "C21": _TX, "C22": _CL[2:3], "C23": _CL[1:2], "C24": _CL[4:5], "C25": _CL}


def missing(reg, pid):
    """functions of the property that are not under contract for it"""
    have = {c.qual for c in reg.all if pid in c.props}
    return [q for q in REQUIRED.get(pid, []) if q not in have]


def load(src=None):
    prog = Program(src) if src else Program()
    reg = Registry(prog)
    for m in MODULES:
        mod = importlib.import_module("contracts." + m)
        if hasattr(mod, "install"):
            mod.install(prog, reg)
        for c in list(vars(mod).values()):
            if isinstance(c, type) and issubclass(c, Contract) and c.qual and c.__module__ == mod.__name__:
                reg.add(c())
    return prog, reg
