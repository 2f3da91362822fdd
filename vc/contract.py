"""Contract registry.

A contract is a Python function ``contract(cx)``.  It draws the inputs of a
call from ``cx``, calls the real code, and states pre- and postconditions.
It is evaluated twice: symbolically by the verifier (``vc.symbolic``: inputs
are unbounded symbolic values, every ``ensure`` becomes a proof obligation),
and at run time against the compiled code (``vc.concrete``).
"""
from __future__ import annotations

import dataclasses as dc
import typing as ty

REG: ty.List["Contract"] = []


@dc.dataclass
class Contract:
    prop: str
    name: str
    fns: ty.Tuple[str, ...]
    body: ty.Callable
    mode: str = "both"          # both | concrete
    weight: float = 1.0         # share of the run-time budget
    why: str = ""               # why a contract is run-time only
    lengths: ty.Optional[ty.Tuple[int, ...]] = None
    bound: str = ""             # stated bound of the symbolic contract
    timeout: float = 180.0
    props: ty.Tuple[str, ...] = ()
    # of an internal function: a failure is noted, not a violation, since
    # the public contracts decide the property
    private: bool = False
    uses: ty.Tuple[str, ...] = ()    # summaries its callers may rely on

    @property
    def key(self):
        return f"{self.prop}.{self.name}"


@dc.dataclass
class Summary:
    path: str                   # dotted path of the function
    nparams: int
    proved_by: str              # key of the contract
    result: ty.Callable         # result(cx, *args)


SUMMARIES: ty.Dict[str, Summary] = {}


def summary(path, nparams, proved_by=None):
    """The result a contract gives for a call of the function."""
    def deco(f):
        SUMMARIES[path] = Summary(path, nparams, proved_by or "", f)
        return f
    return deco


def contract(prop, name=None, fns=(), **kw):
    def deco(f):
        props = (prop,) if isinstance(prop, str) else tuple(prop)
        f_fns = (fns,) if isinstance(fns, str) else tuple(fns)
        REG.append(Contract(props[0], name or f.__name__, f_fns, f,
                            props=props, **kw))
        return f
    return deco
