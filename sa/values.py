"""Abstract values and the abstract store."""
from __future__ import annotations

import itertools
from dataclasses import dataclass, field
from typing import Any

from . import terms as tm
from .terms import T

_ids = [0]


def new_id():
    _ids[0] += 1
    return _ids[0]


@dataclass(frozen=True)
class SNum:
    """Number known only symbolically: Python number (ns None) or NumPy scalar (ns 'np')."""
    t: T
    dt: str = "float"      # int float bool  (python)  or numpy dtype class
    ns: Any = None


@dataclass(frozen=True)
class SStr:
    what: str = ""


@dataclass(frozen=True)
class Unknown:
    reason: str = ""


@dataclass(frozen=True)
class Phi:
    c: T
    a: Any
    b: Any


@dataclass(frozen=True)
class Content:
    dims: tuple
    vars: tuple
    body: T
    dt: str
    ns: str
    mask: Any = None        # condition over vars: boolean-filtered array (1-d, in order)
    vary: Any = None        # unused


@dataclass(frozen=True)
class Arr:
    """Array reference: a root object in the heap seen through a view."""
    root: int
    dims: tuple
    vv: tuple = None        # view variables (one per view axis)
    ix: tuple = None        # base index terms over vv (one per base axis); None = identity

    def __hash__(self):
        return hash((self.root, self.dims, self.ix))


@dataclass(frozen=True)
class Ref:
    """Reference to a mutable object in st.objs (list, dict, set, gen, inst, rng, ...)."""
    kind: str
    id: int


@dataclass(frozen=True)
class SymSeq:
    """Sequence of symbolic length: element template depends on var."""
    var: T
    dim: T
    value: Any
    heap: Any = field(default=None, compare=False, hash=False)


@dataclass(frozen=True)
class FiltSeq:
    """The elements of a symbolic sequence for which a condition holds."""
    var: T
    dim: T
    value: Any
    cond: T


@dataclass(frozen=True)
class FiltList:
    """The values of (condition, value) pairs whose condition holds."""
    items: tuple


class FuncVal:
    __slots__ = ("node", "frame", "module", "defaults", "kwdefaults", "name", "id", "is_gen", "cls", "deco", "qual")

    def __init__(self, node, frame, module, defaults, kwdefaults, name, is_gen, qual):
        self.node, self.frame, self.module = node, frame, module
        self.defaults, self.kwdefaults, self.name, self.is_gen = defaults, kwdefaults, name, is_gen
        self.id = new_id()
        self.cls = None
        self.deco = ()
        self.qual = qual

    def __repr__(self):
        return f"<function {self.qual}>"


class ClassVal:
    __slots__ = ("name", "bases", "attrs", "kind", "fields", "id", "members", "frozen", "qual")

    def __init__(self, name, bases, attrs, kind):
        self.name, self.bases, self.attrs, self.kind = name, bases, attrs, kind
        self.fields = []
        self.id = new_id()
        self.members = {}
        self.frozen = False

    def __repr__(self):
        return f"<class {self.name}>"

    def mro_get(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.mro_get(name)
                if r is not None:
                    return r
        return None

    def is_sub(self, other):
        return self is other or any(isinstance(b, ClassVal) and b.is_sub(other) for b in self.bases)


@dataclass(frozen=True)
class EnumVal:
    cls: Any
    name: str
    value: Any = field(compare=False, hash=False, default=None)

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


@dataclass(frozen=True)
class Bound:
    """Bound method of an abstract or external object."""
    obj: Any
    fn: Any       # FuncVal or method name


@dataclass(frozen=True)
class PropVal:
    fget: Any


@dataclass(frozen=True)
class ClsMethod:
    fn: Any


@dataclass(frozen=True)
class StatMethod:
    fn: Any


@dataclass(frozen=True)
class Ext:
    """External (non-dcor) module, function or class, by dotted path."""
    path: str

    def __repr__(self):
        return f"<{self.path}>"


@dataclass(frozen=True)
class ModVal:
    name: str
    frame: int


@dataclass(frozen=True)
class Compiled:
    """Function compiled by numba (njit / guvectorize / jit)."""
    fn: Any
    sig: Any
    kind: str
    opts: tuple = ()


@dataclass(frozen=True)
class NType:
    """numba type."""
    dt: str
    ndim: int
    layout: str = "C"
    readonly: bool = False


@dataclass(frozen=True)
class NSig:
    ret: Any
    args: tuple


@dataclass(frozen=True)
class NTuple:
    items: tuple


@dataclass(frozen=True)
class Partial:
    fn: Any
    args: tuple
    kw: tuple
    kind: str = "partial"


@dataclass(frozen=True)
class DType:
    dt: str


@dataclass(frozen=True)
class Exc:
    name: str
    args: tuple = ()
    site: Any = field(default=None, compare=False, hash=False)


@dataclass(frozen=True)
class Opaque:
    """Opaque callable/object given by the caller (e.g. a user averaging function)."""
    name: str
    kind: str = "callable"


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class State:
    __slots__ = ("frames", "heap", "objs", "pc", "names")

    def __init__(self):
        self.names = None       # first unused numbers of variables and sites after an analysed call
        self.frames, self.heap, self.objs, self.pc = {}, {}, {}, ()

    def copy(self):
        s = State()
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.objs = dict(self.objs)
        s.pc = self.pc
        s.names = self.names
        return s

    def assign(self, other):
        self.frames, self.heap, self.objs, self.pc = other.frames, other.heap, other.objs, other.pc

    def get(self, fid, name):
        return self.frames[fid].get(name, MISSING)

    def put(self, fid, name, val):
        d = dict(self.frames[fid])
        d[name] = val
        self.frames[fid] = d

    def assume(self, c):
        c = tm.asbool(c)
        if c.op == "c":
            return
        if c.op == "and":
            for x in c.a:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()
