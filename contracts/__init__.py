"""Sidecar contracts.  Every module defines PROOFS: property -> contracts, LEMMAS: property -> lemma functions."""
import importlib
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def modules():
    return sorted(f[:-3] for f in os.listdir(HERE) if f.endswith(".py") and not f.startswith("_"))


def for_property(prop):
    """[(kind, module, name)]"""
    out = []
    for m in modules():
        mod = importlib.import_module("contracts." + m)
        for fn in getattr(mod, "LEMMAS", {}).get(prop, []):
            out.append(("lemma", m, fn.__name__))
        for con in getattr(mod, "PROOFS", {}).get(prop, []):
            out.append(("contract", m, con.__name__))
    return out
