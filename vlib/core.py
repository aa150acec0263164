"""Glue between cases, the reference model and the library."""
import numpy as np
from vlib import ref, gen
from vlib.build import make_group, make_rep, make_abstract, dense
from vlib.harness import Violation, Discard, Out, require, require_close, err, aerr, rng_of

__all__ = ["np", "ref", "gen", "make_group", "make_rep", "make_abstract", "dense", "Violation", "Discard", "Out",
           "require", "require_close", "err", "aerr", "rng_of", "setup", "labels", "cond"]


class Ctx:
    pass


def setup(case, abstract=False):
    """groups/ref groups/rep of a case {"group": spec | "groups": [spec..], "rep": ast}"""
    c = Ctx()
    specs = case["groups"] if "groups" in case else [case["group"]]
    c.specs = specs
    c.refs = [gen.refg(s) for s in specs]
    c.Gs = [make_group(s) for s in specs]
    c.ds = [g.d for g in c.refs]
    c.ast = case["rep"]
    c.n = ref.size(ref.desugar(c.ast), c.ds)
    if abstract:
        c.R = make_abstract(c.ast)(c.Gs[0])
    else:
        c.R = make_rep(c.ast, c.Gs)
    if isinstance(c.R, int):
        raise Discard()
    c.cplx = any(g.cplx for g in c.refs)
    return c


def labels(case):
    specs = case["groups"] if "groups" in case else [case["group"]]
    out = ["fam:" + gen.families(s) for s in specs] + ["grp:" + s[0] for s in specs]
    if "rep" in case:
        out += ["op:" + h for h in sorted(gen.heads(case["rep"]))]
    return out


def cond(M):
    return float(np.linalg.cond(M))
