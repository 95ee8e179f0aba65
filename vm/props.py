"""Registry of the properties' workloads and oracles."""


class Prop:
    def __init__(self, pid, gen, run, rule, min_checks=1, warmup=None):
        self.pid, self.gen, self.run, self.rule = pid, gen, run, rule
        self.min_checks, self.warmup = min_checks, warmup


REGISTRY = {}


def prop(pid, rule, min_checks=2, warmup=None):
    """decorates a class with static methods gen(rng, tier) and run(case, obs)"""

    def deco(cls):
        assert pid not in REGISTRY
        REGISTRY[pid] = Prop(pid, cls.gen, cls.run, rule, min_checks, warmup)
        return cls

    return deco


import importlib
import os

for _m in ("p_irreps", "p_cg", "p_reps", "p_infer", "p_rtp", "p_util", "p_misc", "p_history", "p_ext", "p_more", "p_round", "p_finite"):
    if os.path.exists(os.path.join(os.path.dirname(__file__), _m + ".py")):
        importlib.import_module("." + _m, __package__)
