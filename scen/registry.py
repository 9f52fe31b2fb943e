"""Scenarios by property."""

# functions that are not for users of the library but whose contracts are checked by name; code without them
# is judged by the other scenarios
INTERNAL = {"recompute_commitment", "internal_commit", "check_responses_consistency", "_find_residual_challenge", "update_randomizers",
            "get_randomizers", "full_validate", "validate_secrets_reoccurence", "prepare_simulate_proof", "simulate_proof"}

ALL = []


def absent(e):
    """A scenario uses an internal function that the library does not have, or not with these parameters: the
    contract has no subject.  Returns its name."""
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    if not tb or "/scen/" not in tb[-1].filename:
        return None
    if isinstance(e, AttributeError) and getattr(e, "name", None) in INTERNAL:
        return e.name
    if isinstance(e, TypeError) and "argument" in str(e):
        return next((n for n in sorted(INTERNAL) if n + "()" in str(e)), None)
    return None


class Scenario:
    def __init__(self, fn, props, cases, con_cases, seeds, sym, bodies, unbound=False):
        self.fn, self.name, self.props = fn, fn.__name__, props
        self.cases, self.con_cases, self.seeds, self.sym = cases, con_cases, seeds, sym
        self.bodies = bodies
        self.unbound = unbound


def scenario(*props, cases=({},), con=(), seeds=3, sym=True, bodies=False, unbound=False):
    """cases run in the verifier and concretely, con only concretely (seeds runs each).

    unbound: lists of any length (loops are verified by invariants)."""
    if unbound:
        seeds = max(seeds, 8)

    def deco(fn):
        ALL.append(Scenario(fn, props, list(cases), list(con), seeds, sym, bodies, unbound))
        return fn
    return deco


def load():
    if not ALL:
        import importlib
        import os
        import pkgutil
        here = os.path.dirname(os.path.abspath(__file__))
        for m in sorted(x.name for x in pkgutil.iter_modules([here])):
            if m.startswith("p_"):
                importlib.import_module("scen." + m)
    return ALL
