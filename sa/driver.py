"""Analysis sessions: load the tree once, then analyse entry points on abstract inputs."""
from __future__ import annotations

import os
import sys

from . import terms as tm
from .interp import Interp, Abort, Budget, Inst
from .values import *
from .values import _ids as IDS

sys.setrecursionlimit(30000)


class Outcome:
    """Result of analysing one call."""

    def __init__(self, value, st, raised, effects, returned, base_pc):
        self.value, self.st, self.raised, self.effects = value, st, raised, effects
        self.returned, self.base_pc = returned, base_pc
        self.crash = None

    def eff(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]


NAMES = 10 ** 7


class Session:
    def __init__(self, repo="/repo", package="dcor", overlay=None, spec=None):
        self.I = Interp(repo, package, overlay)
        self.mod = self.I.load_module(package)
        self.spec_mod = None
        if spec:
            with open(spec) as f:
                src = f.read()
            self.spec_mod = self.I.load_source("spec", src, os.path.basename(spec))
        self.I.finish_import()
        self.import_effects = list(self.I.effects)
        self.base = self.I.st.copy()
        self.arrays = {}

    # ------------------------------------------------------------ inputs
    def state(self):
        return self.base.copy()

    def size(self, name, lo=4, hi=float("inf")):
        s = tm.sym(name)
        self.I.bounds[name] = (lo, hi)
        tm.INTSYM.add(name)
        return s

    def scalar(self, name, dt="float", lo=float("-inf"), hi=float("inf")):
        s = tm.sym(name, True)
        self.I.bounds[name] = (lo, hi)
        tm.SIGNED.add(name)
        return SNum(s, dt)

    def array(self, st, name, dims, dt="f8", ns="np", kind="input", order="C", readonly=False, elem=None):
        dims = tuple(d if isinstance(d, tm.T) else tm.const(d) for d in dims)
        vs = tuple(tm.fresh("i") for _ in dims)
        for v, d in zip(vs, dims):
            self.I.bounds[v.a[0]] = (0, max(0, self.I.term_bounds(d)[1] - 1))
        body = tm.elem(name, *vs) if elem is None else elem(*vs)
        r = new_id()
        st.heap[r] = Content(dims, vs, body, dt, ns)
        self.I.roots[r] = {"kind": kind, "name": name, "loc": ("input", name, 0), "order": order,
                           "readonly": readonly}
        return Arr(r, dims)

    def rng(self, st, name="caller", cls="RandomState"):
        return self.I.new_obj(st, "rng", ("rng", ("caller", name, cls), 0, ()))

    # ------------------------------------------------------------ names
    def lookup(self, dotted, st=None):
        st = st or self.base
        mod, _, rest = dotted.partition(":")
        mv = self.I.modules.get(mod)
        if mv is None:
            mv = self.I.load_module(mod, st)
            if mv is None:
                return MISSING
        v = mv
        for part in rest.split("."):
            v = self.I.lib.getattr_or(v, part, st)
            if v is MISSING:
                return MISSING
        return v

    def enum(self, cls, name):
        c = self.lookup(f"dcor:{cls}")
        return c.members.get(name, MISSING) if isinstance(c, ClassVal) else MISSING

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st, budget=300000):
        I = self.I
        if isinstance(f, str):
            f = self.lookup(f, st)
            if f is MISSING:
                return None
        n0 = len(I.effects)
        I.collectors = [[]]
        I.phase = "call"
        I.budget = budget
        I.locstack = []
        I.depth = I.compiled = I.worker = I.mute = 0
        base_pc = st.pc
        # every call on a new store numbers its variables alike, so equal computations give equal terms
        kept = tm._fresh[0], I.site_n, I.loop_n, IDS[0]
        tm._fresh[0], I.site_n, I.loop_n, IDS[0] = st.names or (NAMES,) * 4
        if st.names is None:
            for k in [k for k in I.bounds if k.rpartition("~")[2].isdigit() and "~" in k and
                      int(k.rpartition("~")[2]) > NAMES]:
                del I.bounds[k]
        I.watermark_call = new_id()
        value, returned, crash = None, True, None
        try:
            value = I.call(f, list(args), dict(kw), st)
        except Abort:
            returned = False
        except Budget as e:
            crash = f"budget: {e}"
        except RecursionError:
            crash = "recursion"
        except Exception as e:      # analysis failure, never a verdict
            import traceback
            crash = f"{type(e).__name__}: {e} @ {I.locstack[-1] if I.locstack else ''}"
            self.last_tb = traceback.format_exc()
        st.names = tm._fresh[0], I.site_n, I.loop_n, IDS[0]
        tm._fresh[0], I.site_n, I.loop_n, IDS[0] = kept
        raised = list(I.collectors[0]) if I.collectors else []
        effects = I.effects[n0:]
        del I.effects[n0:]
        o = Outcome(value, st, raised, effects, returned and crash is None, base_pc)
        o.crash = crash
        return o
