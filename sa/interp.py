"""Interprocedural abstract interpreter for the Python subset used by dcor.

Works on the syntax trees of /repo/dcor only.  Nothing of dcor is imported or
executed.  Every branch whose condition is not decided by the analysis context
is analysed on both sides and joined into gated values (`ite`), loops over
symbolic ranges are summarised, and every array is a symbolic index function.
"""
from __future__ import annotations

import ast
import math
import os
import sys

from . import terms as tm
from .terms import T
from .values import *

sys.setrecursionlimit(20000)


class Abort(Exception):
    """The current path has no normal continuation (it raised)."""


class Budget(Exception):
    pass


class Effect:
    __slots__ = ("kind", "info", "loc", "pc", "phase", "compiled", "worker", "stack")

    def __init__(self, kind, info, loc, pc, phase, compiled, worker, stack):
        self.kind, self.info, self.loc, self.pc = kind, info, loc, pc
        self.phase, self.compiled, self.worker, self.stack = phase, compiled, worker, stack

    def __repr__(self):
        return f"{self.kind} {self.info} at {self.where()}"

    def where(self):
        f, q, l = self.loc
        return f"{f}:{l} in {q}"


class Res:
    __slots__ = ("normal", "rets", "brks", "conts")

    def __init__(self, normal=None):
        self.normal = normal
        self.rets, self.brks, self.conts = [], [], []


EXC_PARENTS = {}


def _exc_init():
    import builtins
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            EXC_PARENTS[n] = [c.__name__ for c in o.__mro__ if issubclass(c, BaseException)]
    EXC_PARENTS["UFuncTypeError"] = ["UFuncTypeError", "TypeError", "Exception", "BaseException"]
    EXC_PARENTS["AxisError"] = ["AxisError", "ValueError", "IndexError", "Exception", "BaseException"]
    EXC_PARENTS["LinAlgError"] = ["LinAlgError", "ValueError", "Exception", "BaseException"]


_exc_init()


def assigned_names(body):
    """Names bound in a function body (not in nested scopes)."""
    names, globs, nonl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    tgt(w.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return names - globs - nonl, globs, nonl


def match_chain(s, name):
    """match statement as a chain of conditionals on the subject."""
    L = lambda n: ast.fix_missing_locations(ast.copy_location(n, s))
    load = lambda e: e

    def test(p, subj):
        """(conditions, captures)"""
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(subj, [ast.Eq()], [p.value])], []
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])], []
        if isinstance(p, ast.MatchAs):
            c, k = test(p.pattern, subj) if p.pattern is not None else ([], [])
            return c, k + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            alts = [test(q, subj) for q in p.patterns]
            if any(k for _, k in alts):
                raise Budget("match pattern not modelled")
            return [ast.BoolOp(ast.Or(), [conj(c) for c, _ in alts])], []
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            cs = [ast.Call(ast.Name("isinstance", ast.Load()), [subj, ast.Tuple(
                [ast.Name("tuple", ast.Load()), ast.Name("list", ast.Load())], ast.Load())], []),
                ast.Compare(ast.Call(ast.Name("len", ast.Load()), [subj], []), [ast.Eq()],
                            [ast.Constant(len(p.patterns))])]
            ks = []
            for i, q in enumerate(p.patterns):
                c, k = test(q, ast.Subscript(subj, ast.Constant(i), ast.Load()))
                cs, ks = cs + c, ks + k
            return cs, ks
        if isinstance(p, ast.MatchClass) and not p.patterns:
            cs, ks = [ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])], []
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                c, k = test(q, ast.Attribute(subj, a, ast.Load()))
                cs, ks = cs + c, ks + k
            return cs, ks
        raise Budget("match pattern not modelled")

    def conj(cs):
        return ast.Constant(True) if not cs else cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)

    out = []
    for case in reversed(s.cases):
        cs, ks = test(case.pattern, ast.Name(name, ast.Load()))
        body = case.body
        if case.guard is not None:
            cs = cs + [ast.Tuple([ast.NamedExpr(ast.Name(n, ast.Store()), v)], ast.Load()) for n, v in ks] + [case.guard]
        else:
            body = [ast.Assign([ast.Name(n, ast.Store())], v) for n, v in ks] + body
        out = [L(ast.If(conj(cs), body, out))]
    return out


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef,
                          ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Interp:
    def __init__(self, repo="/repo", package="dcor", overlay=None):
        self.repo, self.package = repo, package
        self.overlay = overlay or {}
        self.scaled = overlay is not None
        self.exact = None               # "Decimal": elements of object arrays are decimal numbers
        self.st = State()
        self.modules = {}
        self.trees = {}
        self.effects = []
        self.mute = 0
        self.collectors = [[]]
        self.locstack = []
        self.phase = "import"
        self.compiled = 0
        self.worker = 0
        self.bounds = {}
        self.nonzero = set()
        self.watermark = 0
        self.roots = {}            # root id -> meta dict
        self.contracts = {}        # qualname -> callable(interp, st, args, kw)
        self.depth = 0
        self.budget = 400000
        self.functions_seen = set()
        self.calls = 0
        self.fn_locals = {}
        self.input_objs = {}
        self.opaque_conds = {}
        self.site_n = 0
        from .lib import Lib
        self.lib = Lib(self)

    # ------------------------------------------------------------ utilities
    def loc(self):
        return tuple(self.locstack[-1]) if self.locstack else ("?", "?", 0)

    def effect(self, kind, st, **info):
        if self.mute:
            return
        self.effects.append(Effect(kind, info, self.loc(), st.pc if st else (), self.phase,
                                   self.compiled, self.worker,
                                   tuple(f"{a}:{c}({b})" for a, b, c in self.locstack)))

    def raise_(self, st, name, *args):
        exc = name if isinstance(name, Exc) else Exc(name, args, self.loc())
        self.collectors[-1].append((st.copy(), exc))
        raise Abort()

    def may_raise(self, st, cond, name, *args):
        """Raise `name` when cond holds; continue under its negation."""
        d = self.decide(cond, st)
        if d is False:
            return
        if d is True:
            self.raise_(st, name, *args)
        s = st.copy()
        s.assume(cond)
        self.collectors[-1].append((s, Exc(name, args, self.loc())))
        st.assume(tm.not_(cond))

    def term_bounds(self, t):
        INF = float("inf")
        op, a = t.op, t.a
        if op == "c":
            v = t.a[0]
            if isinstance(v, str):
                v = float(v)
                if v != v:
                    return (-INF, INF)
            return (v, v)
        if op == "s":
            return self.bounds.get(a[0], (-INF, INF))
        if op == "v":
            b = self.bounds.get(a[0])
            return b if b else (0, INF)
        if op == "+":
            lo = hi = a[0]
            for c, p in a[1:]:
                l, h = self.term_bounds(p)
                if c > 0:
                    lo, hi = lo + c * l, hi + c * h
                else:
                    lo, hi = lo + c * h, hi + c * l
            return (lo, hi)
        if op == "*":
            lo = hi = 1
            for b, e in a:
                l, h = self.term_bounds(b)
                if e < 0:
                    if l > 0:
                        l, h = (0 if h == INF else 1 / h), 1 / l
                        e = -e
                    else:
                        return (0, INF) if tm.nonneg(t) else (-INF, INF)
                if l >= 0:
                    l, h = l ** e, (INF if h == INF else h ** e)
                elif e % 2 == 0:
                    l, h = 0, INF
                else:
                    return (-INF, INF)
                if lo < 0:
                    return (-INF, INF)
                lo = 0 if l == 0 or lo == 0 else lo * l
                hi = 0 if h == 0 or hi == 0 else hi * h
            return (lo, hi)
        if op == "fn" and a[0] in ("floor", "ceil", "trunc"):
            l, h = self.term_bounds(a[1])
            return (l - 1, h + 1)
        if op == "fn" and a[0] == "log2":
            import math
            l, h = self.term_bounds(a[1])
            return (math.log2(l) if l > 0 and l != INF else -INF, math.log2(h) if 0 < h < INF else INF)
        if op == "ite":
            l1, h1 = self.term_bounds(a[1])
            l2, h2 = self.term_bounds(a[2])
            return (min(l1, l2), max(h1, h2))
        if op in ("cmp", "not", "and"):
            return (0, 1)
        if tm.nonneg(t):
            return (0, INF)
        return (-INF, INF)

    def simp_cond(self, c):
        """Decide a condition from size bounds when possible."""
        c = tm.asbool(c)
        if c.op == "cmp":
            rel, d = c.a
            lo, hi = self.term_bounds(d)
            if rel == "<":
                if hi < 0:
                    return tm.ONE
                if lo >= 0:
                    return tm.ZERO
            elif rel == "<=":
                if hi <= 0:
                    return tm.ONE
                if lo > 0:
                    return tm.ZERO
            else:
                if lo > 0 or hi < 0:
                    return tm.ZERO
                if d in self.nonzero or tm.neg(d) in self.nonzero:
                    return tm.ZERO
        elif c.op == "not":
            x = self.simp_cond(c.a[0])
            return tm.not_(x)
        elif c.op == "and":
            return tm.and_(*[self.simp_cond(x) for x in c.a])
        return c

    def decide(self, c, st):
        c = self.simp_cond(c)
        if c.op == "c":
            return c.a[0] != 0
        pc = st.pc
        if c in pc:
            return True
        n = tm.not_(c)
        if n in pc:
            return False
        if c.op == "and":
            ds = [self.decide(x, st) for x in c.a]
            if all(d is True for d in ds):
                return True
            if any(d is False for d in ds):
                return False
        if c.op == "not":
            d = self.decide(c.a[0], st)
            return None if d is None else not d
        if c.op == "cmp":
            rel, d = c.a
            for p in pc:
                neg_ = p.op == "not"
                q = p.a[0] if neg_ else p
                if q.op != "cmp":
                    continue
                r2, d2 = q.a
                if d2 is d or d2 is tm.neg(d):
                    flip = d2 is not d
                    # fact about sign of d
                    s = {"==": {0}, "<": {-1}, "<=": {-1, 0}}[r2]
                    if neg_:
                        s = {-1, 0, 1} - s
                    if flip:
                        s = {-x for x in s}
                    want = {"==": {0}, "<": {-1}, "<=": {-1, 0}}[rel]
                    if s <= want:
                        return True
                    if not (s & want):
                        return False
        return None

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        rel = name.split(".")
        p = os.path.join(self.repo, *rel)
        for cand in (p + ".py", os.path.join(p, "__init__.py")):
            if cand in self.overlay or os.path.exists(cand):
                return cand
        return None

    def load_module(self, name, st=None):
        st = st or self.st
        if name in self.modules:
            return self.modules[name]
        path = self.module_file(name)
        if path is None:
            return None
        src = self.overlay.get(path)
        if src is None:
            with open(path) as f:
                src = f.read()
        tree = ast.parse(src, path)
        self.trees[path] = tree
        fid = new_id()
        st.frames[fid] = {"@parent": None, "@module": name, "__name__": name}
        mv = ModVal(name, fid)
        self.modules[name] = mv
        if name != self.package and "." in name:
            self.load_module(name.rsplit(".", 1)[0], st)
        rel = os.path.relpath(path, self.repo)
        self.locstack.append([rel, "<module>", 0])
        old = self.phase
        self.phase = "import"
        try:
            res = self.exec_block(tree.body, st, fid, mv)
            if res.normal is None:
                raise RuntimeError(f"module {name} does not load: {self.collectors[-1]}")
            if res.normal is not st:
                st.assign(res.normal)
        finally:
            self.phase = old
            self.locstack.pop()
        return mv

    def load_source(self, name, src, relname):
        """Load a reference (specification) module from text."""
        fid = new_id()
        st = self.st
        st.frames[fid] = {"@parent": None, "@module": name, "__name__": name}
        mv = ModVal(name, fid)
        self.modules[name] = mv
        self.locstack.append([relname, "<module>", 0])
        old, self.phase = self.phase, "import"
        res = self.exec_block(ast.parse(src).body, st, fid, mv)
        self.phase = old
        self.locstack.pop()
        if res.normal is None:
            raise RuntimeError("spec does not load")
        return mv

    def finish_import(self):
        self.phase = "call"
        self.watermark = new_id()
        self.collectors = [[]]

    # ------------------------------------------------------------ blocks
    def exec_block(self, stmts, st, fid, mod):
        res = Res()
        cur = st
        for s in stmts:
            self.budget -= 1
            if self.budget < 0:
                raise Budget("statement budget exceeded")
            try:
                r = self.exec_stmt(s, cur, fid, mod)
            except Abort:
                return res
            if r is None:
                continue
            res.rets += r.rets
            res.brks += r.brks
            res.conts += r.conts
            if r.normal is None:
                return res
            cur = r.normal
        res.normal = cur
        return res

    def setline(self, node):
        if self.locstack and hasattr(node, "lineno"):
            self.locstack[-1][2] = node.lineno

    def exec_stmt(self, s, st, fid, mod):
        self.setline(s)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Budget(f"statement {type(s).__name__} not modelled")
        return m(s, st, fid, mod)

    def x_Expr(self, s, st, fid, mod):
        self.ev(s.value, st, fid)

    def x_Pass(self, s, st, fid, mod):
        pass

    def x_Assign(self, s, st, fid, mod):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)

    def x_AnnAssign(self, s, st, fid, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)
        if isinstance(s.target, ast.Name) and "@class" in st.frames[fid]:
            st.put(fid, "@fields", st.frames[fid].get("@fields", ()) + (s.target.id,))

    def x_AugAssign(self, s, st, fid, mod):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, fid)
            rhs = self.ev(s.value, st, fid)
            v = self.inplace(op, cur, rhs, st)
            self.store_name(t.id, v, st, fid)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fid)
            idx = self.ev_index(t.slice, st, fid)
            cur = self.getitem(obj, idx, st)
            rhs = self.ev(s.value, st, fid)
            v = self.inplace(op, cur, rhs, st)
            self.setitem(obj, idx, v, st, aug=True)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st, fid)
            cur = self.getattr_(obj, t.attr, st)
            rhs = self.ev(s.value, st, fid)
            self.setattr_(obj, t.attr, self.inplace(op, cur, rhs, st), st)

    def x_Return(self, s, st, fid, mod):
        v = self.ev(s.value, st, fid) if s.value is not None else None
        r = Res()
        r.rets.append((st, v))
        return r

    def x_Raise(self, s, st, fid, mod):
        if s.exc is None:
            cur = st.frames[fid].get("@exc")
            self.raise_(st, cur if isinstance(cur, Exc) else Exc("RuntimeError", (), self.loc()))
        v = self.ev(s.exc, st, fid)
        if isinstance(v, Exc):
            self.raise_(st, Exc(v.name, v.args, self.loc()))
        if isinstance(v, Ext) and v.path.startswith("builtins."):
            self.raise_(st, v.path.split(".", 1)[1])
        if isinstance(v, ClassVal):
            self.raise_(st, v.name)
        if isinstance(v, Ref) and v.kind == "inst":
            self.raise_(st, st.objs[v.id][0].name)
        self.raise_(st, "Exception")

    def x_Assert(self, s, st, fid, mod):
        c = self.cond(self.ev(s.test, st, fid), st)
        self.effect("assert", st, cond=c)
        self.may_raise(st, tm.not_(c), "AssertionError")

    def x_Break(self, s, st, fid, mod):
        r = Res()
        r.brks.append(st)
        return r

    def x_Continue(self, s, st, fid, mod):
        r = Res()
        r.conts.append(st)
        return r

    def x_Global(self, s, st, fid, mod):
        st.put(fid, "@globals", tuple(st.frames[fid].get("@globals", ())) + tuple(s.names))

    def x_Nonlocal(self, s, st, fid, mod):
        st.put(fid, "@nonlocals", tuple(st.frames[fid].get("@nonlocals", ())) + tuple(s.names))

    def x_Delete(self, s, st, fid, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(st.frames[fid])
                d.pop(t.id, None)
                st.frames[fid] = d
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, st, fid)
                idx = self.ev_index(t.slice, st, fid)
                if isinstance(obj, Ref) and obj.kind == "dict":
                    d = dict(st.objs[obj.id])
                    d.pop(idx, None)
                    self.write_obj(st, obj, d)
                else:
                    self.write_obj(st, obj, None) if isinstance(obj, Ref) else None

    def x_Import(self, s, st, fid, mod):
        for a in s.names:
            if a.name.split(".")[0] == self.package:
                mv = self.load_module(a.name, st)
                if a.asname:
                    self.store_name(a.asname, mv, st, fid)
                else:
                    self.store_name(self.package, self.load_module(self.package, st), st, fid)
            else:
                if a.asname:
                    self.store_name(a.asname, Ext(self.lib.canon(a.name)), st, fid)
                else:
                    self.store_name(a.name.split(".")[0], Ext(self.lib.canon(a.name.split(".")[0])), st, fid)

    def x_ImportFrom(self, s, st, fid, mod):
        if s.level:
            base = mod.name.split(".")
            path = self.module_file(mod.name)
            if not (path and path.endswith("__init__.py")):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            full = ".".join(base + ([s.module] if s.module else []))
        else:
            full = s.module
        if full.split(".")[0] == self.package:
            mv = self.load_module(full, st)
            if mv is None:
                self.raise_(st, "ModuleNotFoundError")
            for a in s.names:
                if a.name == "*":
                    for k, v in list(st.frames[mv.frame].items()):
                        if not k.startswith(("@", "_")):
                            self.store_name(k, v, st, fid)
                    continue
                v = st.frames[mv.frame].get(a.name, MISSING)
                if v is MISSING:
                    sub = self.load_module(full + "." + a.name, st)
                    if sub is None:
                        self.raise_(st, "ImportError", f"{full}.{a.name}")
                    v = sub
                self.store_name(a.asname or a.name, v, st, fid)
        else:
            for a in s.names:
                if full == "__future__":
                    continue
                self.store_name(a.asname or a.name, self.lib.module_attr(full, a.name), st, fid)

    def x_FunctionDef(self, s, st, fid, mod):
        f = self.make_func(s, st, fid, mod)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fid)
            v = self.call(dv, [v], {}, st)
        self.store_name(s.name, v, st, fid)

    def make_func(self, s, st, fid, mod, name=None):
        a = s.args
        defaults = [self.ev(d, st, fid) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, st, fid)
        name = name or getattr(s, "name", "<lambda>")
        q = self.loc()[1]
        qual = name if q == "<module>" else f"{q}.{name}"
        is_gen = not isinstance(s, ast.Lambda) and has_yield(s)
        closure = fid
        if "@class" in st.frames[fid]:
            closure = st.frames[fid]["@parent"]
        f = FuncVal(s, closure, mod, defaults, kwd, name, is_gen, qual)
        st.objs[f.id] = {}
        self.functions_seen.add((self.loc()[0], qual))
        return f

    def x_ClassDef(self, s, st, fid, mod):
        bases = [self.ev(b, st, fid) for b in s.bases]
        cf = new_id()
        st.frames[cf] = {"@parent": fid, "@module": mod.name, "@class": s.name}
        self.locstack.append([self.loc()[0], s.name, s.lineno])
        res = self.exec_block(s.body, st, cf, mod)
        self.locstack.pop()
        if res.normal is None:
            raise Abort()
        if res.normal is not st:
            st.assign(res.normal)
        fr = st.frames[cf]
        kind = "plain"
        for b in bases:
            if isinstance(b, Ext) and b.path in ("enum.Enum", "enum.IntEnum", "enum.Flag"):
                kind = "enum"
            if isinstance(b, ClassVal) and b.kind == "enum":
                kind = "enum"
            if isinstance(b, Ext) and b.path.startswith("builtins.") and b.path[9:] in EXC_PARENTS:
                kind = "exc"
                EXC_PARENTS[s.name] = [s.name] + EXC_PARENTS[b.path[9:]]
            if isinstance(b, ClassVal) and b.kind == "exc":
                kind = "exc"
                EXC_PARENTS[s.name] = [s.name] + EXC_PARENTS[b.name]
            if isinstance(b, Ext) and b.path in ("typing.NamedTuple",):
                kind = "dataclass"
        attrs = {k: v for k, v in fr.items() if not k.startswith("@")}
        cv = ClassVal(s.name, bases, attrs, kind)
        cv.fields = list(fr.get("@fields", ()))
        for b in bases:
            if isinstance(b, ClassVal) and b.kind == "dataclass":
                cv.kind = "dataclass"
        st.objs[cv.id] = {}
        if kind == "enum":
            n = 0
            for k, v in list(attrs.items()):
                if k.startswith("_") or isinstance(v, (FuncVal, ClsMethod, StatMethod, PropVal)):
                    continue
                n += 1
                if isinstance(v, Ext) and v.path == "enum.auto()":
                    v = n
                ev = EnumVal(cv, k, v)
                # aliases
                for o in cv.members.values():
                    if type(o.value) is type(v) and isinstance(v, (int, str)) and o.value == v:
                        ev = o
                cv.members[k] = ev
                attrs[k] = ev
        v = cv
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, st, fid), [v], {}, st)
        self.store_name(s.name, v, st, fid)

    def x_If(self, s, st, fid, mod):
        c = self.cond(self.ev(s.test, st, fid), st)
        d = self.decide(c, st)
        if d is True:
            return self.exec_block(s.body, st, fid, mod)
        if d is False:
            return self.exec_block(s.orelse, st, fid, mod) if s.orelse else None
        self.effect("branch", st, cond=c)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(tm.not_(c))
        base = st.pc
        r1 = self.exec_block(s.body, s1, fid, mod)
        r2 = self.exec_block(s.orelse, s2, fid, mod)
        r = Res()
        r.rets = r1.rets + r2.rets
        r.brks = r1.brks + r2.brks
        r.conts = r1.conts + r2.conts
        if r1.normal is not None and r2.normal is not None:
            r.normal = self.join(base, r1.normal, r2.normal)
        else:
            r.normal = r1.normal or r2.normal
        return r

    def x_Match(self, s, st, fid, mod):
        name = f"@match{s.lineno}"
        self.store_name(name, self.ev(s.subject, st, fid), st, fid)
        new = self.rotated.get(s)
        if new is None:
            new = self.rotated[s] = match_chain(s, name)
        return self.exec_block(new, st, fid, mod)

    def x_With(self, s, st, fid, mod):
        for i in s.items:
            v = self.ev(i.context_expr, st, fid)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, fid)
        return self.exec_block(s.body, st, fid, mod)

    def x_Try(self, s, st, fid, mod):
        base = st.pc
        self.collectors.append([])
        try:
            r = self.exec_block(s.body, st, fid, mod)
        finally:
            raised = self.collectors.pop()
        normals = []
        out = Res()
        if r.normal is not None:
            if s.orelse:
                r2 = self.exec_block(s.orelse, r.normal, fid, mod)
                out.rets += r2.rets
                out.brks += r2.brks
                out.conts += r2.conts
                if r2.normal is not None:
                    normals.append(r2.normal)
            else:
                normals.append(r.normal)
        out.rets += r.rets
        out.brks += r.brks
        out.conts += r.conts
        for es, exc in raised:
            handled = False
            for h in s.handlers:
                m = self.exc_matches(exc, h, es, fid)
                if m is False:
                    continue
                if h.name:
                    es.put(fid, h.name, exc)
                es.put(fid, "@exc", exc)
                self.effect("handler", es, exc=exc)
                rh = self.exec_block(h.body, es, fid, mod)
                out.rets += rh.rets
                out.brks += rh.brks
                out.conts += rh.conts
                if rh.normal is not None:
                    normals.append(rh.normal)
                handled = True
                break
            if not handled:
                if s.finalbody:
                    rf = self.exec_block(s.finalbody, es.copy(), fid, mod)
                self.collectors[-1].append((es, exc))
        if s.finalbody:
            def fin(states_vals):
                o = []
                for x, v in states_vals:
                    rf = self.exec_block(s.finalbody, x, fid, mod)
                    if rf.normal is not None:
                        o.append((rf.normal, v))
                    out.rets.extend(rf.rets) if False else None
                return o
            out.rets = fin(out.rets)
            out.brks = [a for a, _ in fin([(b, None) for b in out.brks])]
            out.conts = [a for a, _ in fin([(b, None) for b in out.conts])]
            normals = [a for a, _ in fin([(b, None) for b in normals])]
        if normals:
            cur = normals[0]
            for n in normals[1:]:
                cur = self.join(base, cur, n)
            out.normal = cur
        return out

    def exc_matches(self, exc, h, st, fid):
        if h.type is None:
            return True
        v = self.ev(h.type, st, fid)
        vs = v if isinstance(v, tuple) else (v,)
        mro = EXC_PARENTS.get(exc.name, [exc.name, "Exception", "BaseException"])
        for x in vs:
            n = x.path.split(".")[-1] if isinstance(x, Ext) else getattr(x, "name", "?")
            if n in mro:
                return True
        return False

    def x_While(self, s, st, fid, mod):
        b = s.body[0]
        if isinstance(s.test, ast.Constant) and s.test.value and isinstance(b, ast.If) and not s.orelse and \
                len(b.body) == 1 and isinstance(b.body[0], ast.Break):
            # while True: if c: break; ...  =  while not c: ...
            s = self.rotated.setdefault(s, ast.copy_location(ast.While(
                ast.copy_location(ast.UnaryOp(ast.Not(), b.test), b.test),
                b.orelse + s.body[1:] or [ast.copy_location(ast.Pass(), b)], []), s))
        out = Res()
        cur = st
        start = st.copy()
        n = 0
        base = st.pc
        while True:
            try:
                c = self.cond(self.ev(s.test, cur, fid), cur)
            except Abort:
                return out
            d = self.decide(c, cur)
            if d is False:
                break
            if d is None or n > 400:
                # not a loop of known length: summarise it from its start
                st.assign(start)
                return self.mu_loop(s, st, fid, mod, Res())
            n += 1
            r = self.exec_block(s.body, cur, fid, mod)
            out.rets += r.rets
            out.brks += r.brks
            nxt = ([r.normal] if r.normal is not None else []) + r.conts
            if nxt and r.brks and isinstance(s.test, ast.Constant):
                # left by a break that depends on the data
                st.assign(start)
                return self.mu_loop(s, st, fid, mod, Res())
            if not nxt:
                cur = None
                break
            cur = nxt[0]
            for x in nxt[1:]:
                cur = self.join(base, cur, x)
        if cur is not None and s.orelse:
            r = self.exec_block(s.orelse, cur, fid, mod)
            out.rets += r.rets
            cur = r.normal
        ends = ([cur] if cur is not None else []) + out.brks
        out.brks = []
        if ends:
            x = ends[0]
            for y in ends[1:]:
                x = self.join(base, x, y)
            out.normal = x
        return out

    def mu_loop(self, s, st, fid, mod, out, seq=None):
        """Loop with data dependent control: its final state as a loop term."""
        class Early(Exception):
            pass
        v = seq.var if seq is not None else tm.fresh("it")
        if seq is not None:
            self.bounds.setdefault(v.a[0], (0, self.term_bounds(seq.dim)[1]))
        else:
            self.bounds.setdefault(v.a[0], (0, math.inf))
        why = f"loop at {self.loc()[0]}:{s.lineno}"
        self.loop_n += 1
        lid = self.loop_n
        flag = f"@brk{lid}"
        st0 = st.copy()
        saved = st.copy()
        st0.put(fid, flag, False)
        conds = []

        def run(x):
            if seq is not None:
                self.assign(s.target, self.template(seq, x), x, fid)
                c = tm.ONE
            else:
                c = self.cond(self.ev(s.test, x, fid), x)
            brk = num_term(x.frames[fid][flag])
            conds[:] = [tm.and_(tm.not_(brk), c) if brk is not None else c]
            x.assume(c)
            pc = x.pc
            r = self.exec_block(s.body, x, fid, mod)
            if r.rets:
                raise Early()
            ends = []
            for y in ([r.normal] if r.normal is not None else []) + r.conts:
                y.put(fid, flag, False)
                ends.append(y)
            for y in r.brks:
                y.put(fid, flag, True)
                ends.append(y)
            if not ends:
                raise Early()
            e = ends[0]
            for y in ends[1:]:
                e = self.join(pc, e, y)
            return e
        roots, objs, vars_, views = set(), set(), set(), {}
        try:
            for _ in range(8):
                sd = st0.copy()
                self.loop_pre(sd, st0, v, roots, objs, vars_, lid, views)
                before = sd.copy()
                self.mute += 1
                self.collectors.append([])
                try:
                    e = run(sd)
                finally:
                    self.mute -= 1
                    self.collectors.pop()
                grew = False
                for k, c in before.heap.items():
                    if k in st0.heap and k not in roots and e.heap.get(k) is not c and e.heap.get(k) != c:
                        roots.add(k)
                        grew = True
                for k, c in before.objs.items():
                    if k in st0.objs and k not in objs and e.objs.get(k) is not c and not same_obj(e.objs.get(k), c):
                        objs.add(k)
                        grew = True
                for f, d in before.frames.items():
                    ed = e.frames.get(f)
                    if ed is d or f not in st0.frames:
                        continue
                    for n, val in d.items():
                        if n not in st0.frames[f]:
                            continue
                        if (f, n) not in vars_ and not same_val(ed.get(n, MISSING), val):
                            vars_.add((f, n))
                            v0 = st0.frames[f][n]
                            views[f, n] = self.view_offsets(v0, ed.get(n, MISSING), st0) is not None
                            grew = True
                        elif views.get((f, n)) and self.view_offsets(st0.frames[f][n], ed.get(n, MISSING),
                                                                     st0) is None:
                            views[f, n] = False
                            grew = True
                if not grew:
                    break
            sr = st0.copy()
            self.loop_pre(sr, st0, v, roots, objs, vars_, lid, views)
            e = run(sr)
        except Early:
            if seq is not None:
                try:
                    self.assign(s.target, Unknown("loop variable"), saved, fid)
                except Abort:
                    return out
            st.assign(saved)
            return self.havoc_loop(s, st, fid, mod, out)
        except Abort:
            # every iteration raises
            c = conds[0] if conds else tm.ONE
            if seq is not None:
                c = tm.cmp("<", tm.ZERO, seq.dim)
            if self.decide(c, st) is not True:
                st.assume(tm.not_(c))
                out.normal = st
            return out
        cond = conds[0]
        items = {}
        for k in sorted(roots):
            c0, c1 = st0.heap[k], e.heap[k]
            if c1.dims != c0.dims or c0.mask is not None or c1.mask is not None:
                continue
            post = tm.subst(c1.body, {a.a[0]: b for a, b in zip(c1.vars, c0.vars)})
            items["r", k] = (c0.vars, c0.body, post, c0.dims)
        for (f, n) in sorted(vars_):
            v0, v1 = st0.frames[f][n], e.frames[f].get(n, MISSING)
            t0, t1 = num_term(v0), num_term(v1)
            if t0 is not None and t1 is not None:
                items["v", f, n] = ((), t0, t1, ())
            elif views.get((f, n)):
                for j, off in enumerate(self.view_offsets(v0, v1, st0)):
                    items["v", f, f"{n}/{j}"] = ((), tm.ZERO, off, ())
            elif isinstance(v0, Arr) and isinstance(v1, Arr):
                a0, a1 = self.read(v0, st0), self.read(v1, e)
                if a0.dims == a1.dims and a0.mask is None and a1.mask is None:
                    post = tm.subst(a1.body, {a.a[0]: b for a, b in zip(a1.vars, a0.vars)})
                    items["v", f, n] = (a0.vars, a0.body, post, a0.dims)
        order, rep, slots = self.mu_slots(items, {}, v, lid)
        c = None if tm.cval(cond) == 1 else self.replace_pre(cond, rep, v, lid)
        d = tm.mudef(v, c, slots)
        count = None if seq is None else seq.dim
        fin = st0.copy()
        for k, ct in e.heap.items():
            if k not in fin.heap:
                fin.heap[k] = Content(ct.dims, ct.vars, self.unk(why, *ct.vars), ct.dt, ct.ns, ct.mask)

        def final(key):
            return tm.mu(d, order[key], count, *items[key][0]) if key in items else None
        for k in roots:
            c0 = st0.heap[k]
            t = final(("r", k))
            fin.heap[k] = Content(c0.dims, c0.vars, self.unk(why, *c0.vars) if t is None else t,
                                  e.heap[k].dt, c0.ns, c0.mask)
        for o in objs:
            fin.objs[o] = Unknown(why)
        for (f, n) in vars_:
            v0, v1 = st0.frames[f][n], e.frames[f].get(n, MISSING)
            if views.get((f, n)):
                vv, ix = self.view_ix(v0, st0)
                nix = tuple(tm.add(t_, final(("v", f, f"{n}/{j}"))) for j, t_ in enumerate(ix))
                fin.put(f, n, Arr(v0.root, v0.dims, vv, nix))
                continue
            t = final(("v", f, n))
            if t is None:
                fin.put(f, n, Unknown(why))
            elif isinstance(v1, Arr):
                a0, a1 = self.read(v0, st0), self.read(v1, e)
                fin.put(f, n, self.new_arr(fin, a0.dims, a0.vars, t, a1.dt, a1.ns, quiet=True))
            else:
                (d0, n0), (d1, n1) = num_type(v0), num_type(v1)
                fin.put(f, n, SNum(t, d1 if d0 == d1 or d0 == "int" else d0, n1 or n0))
        names = set(assigned_names(s.body)[0])
        if seq is not None:
            names |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        for n in names:
            if n not in st0.frames[fid] and n in e.frames[fid]:
                fin.put(fid, n, Unknown(why + ": value of a loop temporary"))
        if s.orelse:
            brk = num_term(fin.frames[fid][flag])
            if self.decide(brk if brk is not None else tm.ZERO, fin) is False:
                r = self.exec_block(s.orelse, fin, fid, mod)
                out.rets += r.rets
                out.brks += r.brks
                out.conts += r.conts
                fin = r.normal
            else:
                self.effect("havoc", st, why=why + ": else clause")
                r = self.exec_block(s.orelse, fin.copy(), fid, mod)
                self.havoc(fin, fid, set(assigned_names(s.orelse)[0]), set(fin.heap), set(), why)
        if fin is not None:
            fr = dict(fin.frames[fid])
            fr.pop(flag, None)
            fin.frames[fid] = fr
            st.assign(fin)
            out.normal = st
        return out

    def view_offsets(self, v0, v1, st):
        """Offsets between two views of the same array (None when they differ otherwise)."""
        if not (isinstance(v0, Arr) and isinstance(v1, Arr) and v0.root == v1.root and v0.dims == v1.dims):
            return None
        (w0, i0), (w1, i1) = self.view_ix(v0, st), self.view_ix(v1, st)
        if len(w0) != len(w1) or len(i0) != len(i1):
            return None
        m = {b.a[0]: a for a, b in zip(w0, w1)}
        offs = []
        for a, b in zip(i0, i1):
            o = tm.sub(tm.subst(b, m), a)
            if o.fv & {w.a[0] for w in w0}:
                return None
            offs.append(o)
        return offs

    def havoc_loop(self, s, st, fid, mod, out):
        """Data dependent loop: forget everything it may change."""
        why = f"loop at {self.loc()[0]}:{s.lineno} not summarised"
        self.effect("havoc", st, why=why)
        names, _, _ = assigned_names(s.body + ([] if isinstance(s, ast.While) else []))
        changed_roots, changed_objs = set(), set()
        for _ in range(3):
            sd = st.copy()
            self.havoc(sd, fid, names, changed_roots, changed_objs, why)
            before = sd.copy()
            self.mute += 1
            self.collectors.append([])
            ends = []
            try:
                r = self.exec_block(s.body, sd, fid, mod)
                ends = ([r.normal] if r.normal is not None else []) + r.conts + r.brks
            except Abort:
                pass
            finally:
                self.mute -= 1
                self.collectors.pop()
            grew = False
            for e in ends:
                for k, v in before.heap.items():
                    if e.heap.get(k) is not v and k not in changed_roots and e.heap.get(k) != v:
                        changed_roots.add(k)
                        grew = True
                for k, v in before.objs.items():
                    if e.objs.get(k) is not v and k not in changed_objs and e.objs.get(k) != v:
                        changed_objs.add(k)
                        grew = True
            if not grew:
                break
        # one pass with effects on, from the forgetful state
        self.havoc(st, fid, names, changed_roots, changed_objs, why)
        sp = st.copy()
        try:
            r = self.exec_block(s.body, sp, fid, mod)
            out.rets += [(x, v) for x, v in r.rets]
        except Abort:
            pass
        out.normal = st
        self.havoc(st, fid, names, changed_roots, changed_objs, why)
        if out.rets:
            out.rets = [(x, Unknown(why)) for x, _ in out.rets]
        return out

    def havoc(self, st, fid, names, roots, objs, why):
        for n in names:
            v = st.frames[fid].get(n, MISSING)
            if isinstance(v, (int, float)) or isinstance(v, SNum):
                dt = v.dt if isinstance(v, SNum) else ("bool" if isinstance(v, bool) else
                                                      "int" if isinstance(v, int) else "float")
                st.put(fid, n, SNum(self.unk(why), dt, v.ns if isinstance(v, SNum) else None))
            elif isinstance(v, Arr):
                c = self.read(v, st)
                self.store_root_unknown(v, st, fid, n, why)
            else:
                st.put(fid, n, Unknown(why))
        for r in roots:
            if r not in st.heap:
                continue
            c = st.heap[r]
            st.heap[r] = Content(c.dims, c.vars, self.unk(why, *c.vars), c.dt, c.ns, c.mask)
        for o in objs:
            if o not in roots:
                st.objs[o] = Unknown(why)

    def store_root_unknown(self, v, st, fid, n, why):
        c = self.read(v, st)
        st.put(fid, n, self.new_arr(st, c.dims, c.vars, self.unk(why, *c.vars), c.dt, c.ns, quiet=True))

    def unk(self, why, *idx):
        self.site_n += 1
        return tm.opq(f"?{why}#{self.site_n}", *idx)

    def x_For(self, s, st, fid, mod):
        it = self.ev(s.iter, st, fid)
        if isinstance(it, Phi):
            it = self.resolve_phi_iter(it, st)
        seq = self.iterate(it, st)
        out = Res()
        base = st.pc
        if isinstance(seq, list):
            cur = st
            for v in seq:
                try:
                    self.assign(s.target, v, cur, fid)
                except Abort:
                    return out
                r = self.exec_block(s.body, cur, fid, mod)
                out.rets += r.rets
                out.brks += r.brks
                nxt = ([r.normal] if r.normal is not None else []) + r.conts
                if not nxt:
                    cur = None
                    break
                cur = nxt[0]
                for x in nxt[1:]:
                    cur = self.join(base, cur, x)
            if cur is not None and s.orelse:
                r = self.exec_block(s.orelse, cur, fid, mod)
                out.rets += r.rets
                cur = r.normal
            ends = ([cur] if cur is not None else []) + out.brks
            out.brks = []
            if ends:
                x = ends[0]
                for y in ends[1:]:
                    x = self.join(base, x, y)
                out.normal = x
            return out
        if isinstance(seq, SymSeq):
            names, _, _ = assigned_names(s.body)
            names = set(names) | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

            class Early(Exception):
                pass

            def run(x):
                self.assign(s.target, self.template(seq, x), x, fid)
                r = self.exec_block(s.body, x, fid, mod)
                if r.rets or r.brks:
                    raise Early()
                ends = ([r.normal] if r.normal is not None else []) + r.conts
                if not ends:
                    raise Abort()
                e = ends[0]
                for y in ends[1:]:
                    e = self.join(x.pc, e, y)
                return e, None
            try:
                self.sym_loop(st, seq.var, seq.dim, run, fid, names)
                out.normal = st
                return out
            except Early:
                return self.mu_loop(s, st, fid, mod, out, seq)
        try:
            self.assign(s.target, Unknown(f"iteration over {it!r}"), st, fid)
        except Abort:
            return out
        return self.havoc_loop(s, st, fid, mod, out)

    def resolve_phi_iter(self, p, st):
        d = self.decide(p.c, st)
        if d is not None:
            return p.a if d else p.b
        return Unknown("iteration over a conditional value")

    # ------------------------------------------------------------ loop summaries
    def template(self, seq, st):
        return seq.value

    def sym_loop(self, st, v, dim, run, fid=None, names=()):
        """Summarise `for v in range(dim): run(state)`; run returns (state, value)."""
        why = f"loop at {self.loc()[0]}:{self.loc()[2]}"
        vname = v.a[0]
        lo, hi = self.term_bounds(dim)
        self.bounds.setdefault(vname, (0, hi))
        roots, objs, vars_ = set(), set(), set()
        self.loop_n += 1
        lid = self.loop_n
        for _ in range(6):
            sd = st.copy()
            self.loop_pre(sd, st, v, roots, objs, vars_, lid)
            before = sd.copy()
            self.mute += 1
            self.collectors.append([])
            try:
                e, _val = run(sd)
            except Abort:
                e = None
            finally:
                self.mute -= 1
                self.collectors.pop()
            if e is None:
                break
            grew = False
            for k, c in before.heap.items():
                if k not in roots and e.heap.get(k) is not c and e.heap.get(k) != c:
                    roots.add(k)
                    grew = True
            for k, c in before.objs.items():
                if k not in objs and e.objs.get(k) is not c and not same_obj(e.objs.get(k), c):
                    objs.add(k)
                    grew = True
            for f, d in before.frames.items():
                ed = e.frames.get(f)
                if ed is d:
                    continue
                for n, val in d.items():
                    if (f, n) not in vars_ and not same_val(ed.get(n, MISSING), val):
                        vars_.add((f, n))
                        grew = True
            if not grew:
                break
        # loop targets and temporaries need no placeholder unless they are read first;
        # giving them one is harmless.
        sr = st.copy()
        pre = self.loop_pre(sr, st, v, roots, objs, vars_, lid)
        sr_pc = sr.pc
        try:
            e, val = run(sr)
        except Abort:
            # every iteration raises
            self.may_raise_loop(st, dim)
            return None
        items = {}
        for k in roots:
            c0, c1 = st.heap[k], e.heap[k]
            if c1.dims != c0.dims or c0.mask is not None or c1.mask is not None:
                items[("r", k)] = None
                continue
            post = tm.subst(c1.body, {a.a[0]: b for a, b in zip(c1.vars, c0.vars)})
            items[("r", k)] = (c0.vars, c0.body, post, c0.dims)
        for (f, n) in vars_:
            v0, v1 = st.frames[f].get(n, MISSING), e.frames[f].get(n, MISSING)
            t0, t1 = num_term(v0), num_term(v1)
            if t0 is not None and t1 is not None:
                items[("v", f, n)] = ((), t0, t1, ())
            elif isinstance(v0, Arr) and isinstance(v1, Arr):
                a0, a1 = self.read(v0, st), self.read(v1, e)
                if a0.dims == a1.dims and a0.mask is None and a1.mask is None:
                    post = tm.subst(a1.body, {a.a[0]: b for a, b in zip(a1.vars, a0.vars)})
                    items[("v", f, n)] = (a0.vars, a0.body, post, a0.dims)
                else:
                    items[("v", f, n)] = None
            else:
                items[("v", f, n)] = None
        closed = self.close_loop(items, v, dim, why, lid)

        def at(t, k):
            return tm.subst(self.replace_pre(t, closed, v, lid), {vname: k})
        # final state
        fin = e.copy()
        fin.pc = tuple(c for c in st.pc)
        final = {}
        for key, it in items.items():
            cf = closed.get(key)
            if it is None or cf is None:
                final[key] = None
            else:
                final[key] = (it[0], tm.subst(cf(it[0]), {vname: dim}))
        for k in roots:
            c0 = st.heap[k]
            fk = final[("r", k)]
            body = self.unk(why, *c0.vars) if fk is None else fk[1]
            fin.heap[k] = Content(c0.dims, c0.vars, body, e.heap[k].dt, c0.ns, c0.mask)
        # templates of fresh roots: resolve placeholders
        for k, c in list(fin.heap.items()):
            if k not in st.heap:
                fin.heap[k] = Content(tuple(self.replace_pre(d, closed, v, lid) for d in c.dims), c.vars,
                                      self.replace_pre(c.body, closed, v, lid), c.dt, c.ns,
                                      None if c.mask is None else self.replace_pre(c.mask, closed, v, lid))
        for o in objs:
            r0, r1 = st.objs[o], e.objs[o]
            fin.objs[o] = self.close_obj(r0, r1, pre["objs"].get(o), v, dim, closed, why, fin, lid)
        for (f, n) in vars_:
            fk = final.get(("v", f, n))
            v0, v1 = st.frames[f].get(n, MISSING), e.frames[f].get(n, MISSING)
            if n == "@yields" and v0 == () and isinstance(v1, tuple) and len(v1) == 2 and isinstance(v1[0], Marker):
                nv = SymSeq(v, dim, self.close_value(v1[1], closed, v, fin, lid))
            elif fk is None:
                nv = Unknown(why)
            elif isinstance(v1, Arr):
                a1 = self.read(v1, e)
                nv = self.new_arr(fin, a1.dims, fk[0], fk[1], a1.dt, a1.ns, quiet=True)
            else:
                dt, ns = num_type(v1)
                nv = SNum(fk[1], dt, ns)
                cv = tm.cval(fk[1])
                if cv is not None and isinstance(cv, int) and dt == "int":
                    nv = cv
            fin.put(f, n, nv)
        # names first assigned inside the loop
        for f, d in list(fin.frames.items()):
            if f in st.frames:
                for n, val_ in list(d.items()):
                    if n not in st.frames[f] and not n.startswith("@"):
                        t = num_term(val_)
                        if t is not None and isinstance(val_, SNum) and vname in t.fv:
                            fin.put(f, n, SNum(at(t, tm.sub(dim, tm.ONE)), val_.dt, val_.ns))
                        elif isinstance(val_, SNum):
                            fin.put(f, n, SNum(self.replace_pre(val_.t, closed, v, lid), val_.dt, val_.ns))
                        elif isinstance(val_, Arr):
                            if n in names:
                                fin.put(f, n, Unknown(why + ": value of a loop temporary"))
        st.assign(fin)
        return self.close_value(val, closed, v, st, lid)

    def may_raise_loop(self, st, dim):
        c = tm.cmp("<", tm.ZERO, dim)
        if self.decide(c, st) is True:
            raise Abort()

    def close_value(self, val, closed, v, st, lid):
        if isinstance(val, SNum):
            return SNum(self.replace_pre(val.t, closed, v, lid), val.dt, val.ns)
        if isinstance(val, tuple):
            return tuple(self.close_value(x, closed, v, st, lid) for x in val)
        return val

    loop_n = 0
    rotated = {}

    def loop_pre(self, s, st, v, roots, objs, vars_, lid, views=None):
        """Replace everything a loop changes by placeholders."""
        pre = {"objs": {}}
        for k in roots:
            c = st.heap[k]
            s.heap[k] = Content(c.dims, c.vars, tm.opq(f"@pre:{lid}:r{k}", v, *c.vars), c.dt, c.ns, c.mask)
        for (f, n) in vars_:
            val = st.frames[f].get(n, MISSING)
            if val is MISSING:
                continue
            t = num_term(val)
            if t is not None:
                dt, ns = num_type(val)
                s.put(f, n, SNum(tm.opq(f"@pre:{lid}:v{f}:{n}", v), dt, ns))
            elif isinstance(val, Arr) and views and views.get((f, n)):
                vv, ix = self.view_ix(val, st)
                ix = tuple(tm.add(t_, tm.opq(f"@pre:{lid}:v{f}:{n}/{j}", v)) for j, t_ in enumerate(ix))
                s.put(f, n, Arr(val.root, val.dims, vv, ix))
            elif isinstance(val, Arr):
                c = self.read(val, st)
                s.put(f, n, self.new_arr(s, c.dims, c.vars, tm.opq(f"@pre:{lid}:v{f}:{n}", v, *c.vars), c.dt, c.ns,
                                         quiet=True))
            elif n == "@yields" and isinstance(val, tuple):
                s.put(f, n, (Marker(f),))
            else:
                s.put(f, n, Unknown("loop-carried value"))
        for o in objs:
            r = st.objs[o]
            if isinstance(r, tuple) and r and r[0] == "rng":
                s.objs[o] = ("rng", r[1], r[2], (v,) + tuple(r[3]))
                pre["objs"][o] = s.objs[o]
            elif isinstance(r, list):
                s.objs[o] = [Marker(o)]
                pre["objs"][o] = s.objs[o]
            else:
                s.objs[o] = Unknown("loop-carried object")
        return pre

    @staticmethod
    def view_ix(a, st):
        if a.ix is not None:
            return a.vv, a.ix
        c = st.heap[a.root]
        return c.vars, c.vars

    def close_obj(self, r0, r1, pre, v, dim, closed, why, st, lid):
        if isinstance(r0, tuple) and r0 and r0[0] == "rng" and isinstance(r1, tuple):
            # draws per iteration are tagged by the loop variable; afterwards continue behind them
            return ("rng", r0[1], r0[2] + 1000, r0[3])
        if isinstance(r0, list) and isinstance(r1, list) and len(r1) == 2 and isinstance(r1[0], Marker) and not r0:
            return SymSeq(v, dim, self.close_value(r1[1], closed, v, st, lid))
        return Unknown(why)

    def replace_pre(self, t, closed, v, lid):
        """Replace placeholders by their closed forms (functions of v and indices)."""
        memo = {}
        pref = f"@pre:{lid}:"

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "opq" and isinstance(x.a[0], str) and x.a[0].startswith(pref):
                key = self.pre_key(x.a[0])
                args = [go(y) for y in x.a[1:]]
                cf = closed.get(key)
                if key not in closed:
                    r = tm._mk("opq", (x.a[0],) + tuple(args))
                elif cf is None:
                    r = tm.opq(f"?{x.a[0]}", *args)
                else:
                    base = cf(args[1:])
                    r = tm.subst(base, {v.a[0]: args[0]}) if args[0] is not v else base
            elif x.op in ("c", "s", "v"):
                r = x
            else:
                r = tm._rebuild(x, go)
            memo[x] = r
            return r
        return go(t)

    @staticmethod
    def pre_name(lid, key):
        return f"@pre:{lid}:r{key[1]}" if key[0] == "r" else f"@pre:{lid}:v{key[1]}:{key[2]}"

    @staticmethod
    def pre_key(name):
        body = name.split(":", 2)[2]
        if body[0] == "r":
            return ("r", int(body[1:]))
        f, n = body[1:].split(":", 1)
        return ("v", int(f), n)

    def pre_keys(self, t, lid):
        pref = f"@pre:{lid}:"
        return {self.pre_key(x.a[0]) for x in tm.walk(t)
                if x.op == "opq" and isinstance(x.a[0], str) and x.a[0].startswith(pref)}

    def close_loop(self, items, v, dim, why, lid):
        """items: key -> (vars, init, post, dims) with placeholders; returns key -> closed form at iteration v."""
        closed = {}
        pending = {k: it for k, it in items.items()}
        for k, it in list(pending.items()):
            if it is None:
                closed[k] = None
                del pending[k]
        while pending:
            progress = False
            for k, it in list(pending.items()):
                vars_, init, post, dims = it
                post = self.replace_pre(post, closed, v, lid)
                deps = self.pre_keys(post, lid) & (set(pending) | {k})
                if deps - {k}:
                    continue
                name = self.pre_name(lid, k)
                P = tm.opq(name, v, *vars_)
                cf = self.solve_rec(P, name, vars_, init, post, v, dim, why)
                if cf is None:
                    cf = self.joint_mu({k: it}, closed, v, lid)[k]
                closed[k] = cf
                del pending[k]
                progress = True
            if not progress:
                # mutually dependent: a minimal closed group of them becomes one loop term
                deps = {}
                for k, it in pending.items():
                    deps[k] = self.pre_keys(self.replace_pre(it[2], closed, v, lid), lid) & set(pending)
                best = None
                for k in pending:
                    seen, stack = set(), [k]
                    while stack:
                        y = stack.pop()
                        if y not in seen:
                            seen.add(y)
                            stack += deps[y]
                    if best is None or len(seen) < len(best):
                        best = seen
                grp = {k: it for k, it in pending.items() if k in best}
                for k, cf in self.joint_mu(grp, closed, v, lid).items():
                    closed[k] = cf
                    del pending[k]
        return closed

    def mu_slots(self, grp, closed, v, lid):
        order = {k: j for j, k in enumerate(grp)}
        as_state = {}
        for k, j in order.items():
            as_state[k] = (lambda j_: lambda args: tm.mustate("@", j_, *args))(j)
        rep = {**closed, **as_state}
        slots = [(vars_, dims, init, self.replace_pre(post, rep, v, lid))
                 for (vars_, init, post, dims) in grp.values()]
        return order, rep, slots

    def joint_mu(self, grp, closed, v, lid):
        order, _, slots = self.mu_slots(grp, closed, v, lid)
        d = tm.mudef(v, None, slots)
        return {k: (lambda j_: lambda args: tm.mu(d, j_, v, *args))(j) for k, j in order.items()}

    def solve_rec(self, P, name, vars_, init, post, v, dim, why):
        def has(t):
            return any(x.op == "opq" and x.a[0] == name for x in tm.walk(t))

        def delta(t):
            """t == P + d with d free of P -> d, else None"""
            if t is P:
                return tm.ZERO
            d = tm.sub(t, P)
            if not has(d):
                return d
            if t.op == "ite" and not has(t.a[0]):
                a, b = delta(t.a[1]), delta(t.a[2])
                if a is not None and b is not None:
                    return tm.ite(t.a[0], a, b)
            if t.op == "+":
                # coefficient-1 ite part
                c0, parts = t.a[0], t.a[1:]
                hp = [(c, p) for c, p in parts if has(p)]
                if len(hp) == 1 and hp[0][0] == 1:
                    d1 = delta(hp[0][1])
                    if d1 is not None:
                        return tm.add(tm.const(c0), d1, *[tm.scale(c, p) for c, p in parts if not has(p)])
            return None
        u = tm.fresh("u")

        def mk(body):
            # body: term over vars_ and v
            def cf(args):
                return tm.subst(body, {a.a[0]: b for a, b in zip(vars_, args)})
            return cf
        if not has(post):
            # overwritten completely in every iteration
            last = tm.subst(post, {v.a[0]: tm.sub(v, tm.ONE)})
            return mk(tm.ite(tm.cmp("<", tm.ZERO, v), last, init))
        d = delta(post)
        if d is not None:
            acc = tm.sum_(u, v, tm.subst(d, {v.a[0]: u}))
            return mk(tm.add(init, acc))
        # conditional overwrite:  ite(c, w, P)
        t, conds = post, []
        if t.op == "ite" and not has(t.a[0]):
            c, a, b = t.a
            if a is P or b is P:
                if a is P:
                    c, a, b = tm.not_(c), b, a
                w = a
                if has(w):
                    # each position is written in at most one iteration: its old value is the initial one
                    if self.injective(c, vars_, v):
                        w = tm._replace(w, {P: init})
                if not has(w):
                    body = tm.scatter(u, v, tm.subst(c, {v.a[0]: u}), tm.subst(w, {v.a[0]: u}), tm.ONE, init)
                    return mk(body)
        return None

    def injective(self, c, vars_, v):
        cs = c.a if c.op == "and" else (c,)
        for x in cs:
            if x.op == "cmp" and x.a[0] == "==":
                d = x.a[1]
                if d.op == "+":
                    parts = {p: co for co, p in d.a[1:]}
                    if v in parts and abs(parts[v]) == 1 and any(w in parts for w in vars_):
                        rest = [p for p in parts if p is not v and p not in vars_]
                        if not any(v.a[0] in p.fv for p in rest):
                            return True
                elif d is v:
                    return True
        return False

    # ------------------------------------------------------------ joins
    def join(self, base, s1, s2):
        n = 0
        while n < len(base) and n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        e1 = [c for c in s1.pc if c not in s2.pc]
        g = tm.and_(*e1) if e1 else tm.ONE
        e2 = [c for c in s2.pc if c not in s1.pc]
        if not e1 and e2:
            g = tm.not_(tm.and_(*e2))
        elif not e1 and not e2:
            g = tm.opq("?join")
        st = State()
        st.pc = tuple(c for c in s1.pc if c in s2.pc)
        if s1.heap is s2.heap:
            st.heap = s1.heap
        else:
            h = dict(s2.heap)
            for k, c1 in s1.heap.items():
                c2 = h.get(k)
                if c2 is None or c2 is c1 or c2 == c1:
                    h[k] = c1
                else:
                    h[k] = self.merge_content(g, c1, c2)
            st.heap = h
        o = dict(s2.objs)
        for k, r1 in s1.objs.items():
            if k not in o:
                o[k] = r1
            elif o[k] is not r1 and not same_obj(o[k], r1):
                o[k] = self.merge_obj(g, r1, o[k], st, s1, s2)
        st.objs = o
        f = dict(s2.frames)
        for k, d1 in s1.frames.items():
            d2 = f.get(k)
            if d2 is None or d2 is d1:
                f[k] = d1
                continue
            d = {}
            for n_ in set(d1) | set(d2):
                a, b = d1.get(n_, MISSING), d2.get(n_, MISSING)
                if a is MISSING or b is MISSING:
                    if n_.startswith("@"):
                        d[n_] = a if b is MISSING else b
                    elif a is MISSING:
                        d[n_] = Phi(g, MISSING, b)
                    else:
                        d[n_] = Phi(g, a, MISSING)
                elif same_val(a, b):
                    d[n_] = a
                else:
                    d[n_] = self.merge(g, a, b, st, s1, s2)
            f[k] = d
        st.frames = f
        return st

    def merge_content(self, g, c1, c2):
        if c1.dims == c2.dims and c1.mask is c2.mask is None:
            b2 = tm.subst(c2.body, {a.a[0]: b for a, b in zip(c2.vars, c1.vars)})
            return Content(c1.dims, c1.vars, tm.ite(g, c1.body, b2), c1.dt if c1.dt == c2.dt else
                           self.lib.promote(c1.dt, c2.dt), c1.ns)
        return Content(c1.dims, c1.vars, self.unk("join of different shapes", *c1.vars), c1.dt, c1.ns)

    def merge_obj(self, g, a, b, st, s1, s2):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [x if same_val(x, y) else self.merge(g, x, y, st, s1, s2) for x, y in zip(a, b)]
        if isinstance(a, dict) and isinstance(b, dict):
            d = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, MISSING), b.get(k, MISSING)
                d[k] = x if same_val(x, y) else self.merge(g, x, y, st, s1, s2) \
                    if x is not MISSING and y is not MISSING else Phi(g, x, y)
            return d
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            return Inst(a.cls, self.merge_obj(g, a.attrs, b.attrs, st, s1, s2))
        return Unknown("join of different objects")

    def merge(self, g, a, b, st, s1=None, s2=None):
        if same_val(a, b):
            return a
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        ta, tb = num_term(a), num_term(b)
        if ta is not None and tb is not None:
            (d1, n1), (d2, n2) = num_type(a), num_type(b)
            if d1 == d2 and n1 == n2:
                return SNum(tm.ite(g, ta, tb), d1, n1)
            if n1 == n2:
                return SNum(tm.ite(g, ta, tb), self.lib.promote(d1, d2), n1)
            return SNum(tm.ite(g, ta, tb), d1 if n1 else d2, n1 or n2)
        if isinstance(a, Arr) and isinstance(b, Arr) and s1 is not None:
            ca, cb = self.read(a, s1), self.read(b, s2)
            fresh_a = a.root not in s2.heap
            fresh_b = b.root not in s1.heap
            if fresh_a and fresh_b and ca.dims == cb.dims and ca.mask is None and cb.mask is None \
                    and ca.ns == cb.ns:
                body = tm.subst(cb.body, {x.a[0]: y for x, y in zip(cb.vars, ca.vars)})
                dt = ca.dt if ca.dt == cb.dt else self.lib.promote(ca.dt, cb.dt)
                return self.new_arr(st, ca.dims, ca.vars, tm.ite(g, ca.body, body), dt, ca.ns, quiet=True)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(g, x, y, st, s1, s2) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "inst" and s1 is not None \
                and a.id not in s2.objs and b.id not in s1.objs:
            ia, ib = s1.objs[a.id], s2.objs[b.id]
            if ia.cls is ib.cls:
                r = Ref("inst", new_id())
                st.objs[r.id] = Inst(ia.cls, self.merge_obj(g, ia.attrs, ib.attrs, st, s1, s2))
                return r
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list" and s1 is not None \
                and a.id not in s2.objs and b.id not in s1.objs:
            la, lb = s1.objs[a.id], s2.objs[b.id]
            if isinstance(la, list) and isinstance(lb, list) and len(la) == len(lb):
                r = Ref("list", new_id())
                st.objs[r.id] = self.merge_obj(g, la, lb, st, s1, s2)
                return r
        return Phi(g, a, b)

    def fork(self, st, c, f1, f2):
        """Evaluate f1 under c and f2 under not c; join the states, merge the values."""
        d = self.decide(c, st)
        if d is True:
            return f1(st)
        if d is False:
            return f2(st)
        base = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(tm.not_(c))
        ok1 = ok2 = True
        try:
            v1 = f1(s1)
        except Abort:
            ok1 = False
        try:
            v2 = f2(s2)
        except Abort:
            ok2 = False
        if not ok1 and not ok2:
            raise Abort()
        if not ok2:
            st.assign(s1)
            return v1
        if not ok1:
            st.assign(s2)
            return v2
        j = self.join(base, s1, s2)
        e1 = [x for x in s1.pc if x not in s2.pc]
        g = tm.and_(*e1) if e1 else c
        v = v1 if same_val(v1, v2) else self.merge(g, v1, v2, j, s1, s2)
        st.assign(j)
        return v

    def with_phi(self, st, vals, fn):
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                return self.fork(
                    st, v.c,
                    lambda s: self.with_phi(s, vals[:i] + [self.unmissing(v.a, s)] + vals[i + 1:], fn),
                    lambda s: self.with_phi(s, vals[:i] + [self.unmissing(v.b, s)] + vals[i + 1:], fn))
        return fn(st, vals)

    def unmissing(self, v, st):
        if v is MISSING:
            self.raise_(st, "UnboundLocalError")
        return v

    # ------------------------------------------------------------ arrays in the store
    def new_arr(self, st, dims, vars_, body, dt, ns, mask=None, quiet=False, site=None):
        r = new_id()
        dims = tuple(dims)
        if self.scaled:
            body = self.lib.wrap(body, dt)
        st.heap[r] = Content(dims, tuple(vars_), body, dt, ns, mask)
        self.roots[r] = {"loc": self.loc(), "kind": "fresh"}
        if not quiet:
            self.effect("alloc", st, dims=dims, dt=dt, mask=mask is not None)
        return Arr(r, dims)

    def read(self, a, st):
        """Content of an array value (through its view)."""
        c = st.heap[a.root]
        if a.ix is None:
            return c
        body = tm.subst(c.body, {v.a[0]: t for v, t in zip(c.vars, a.ix)})
        return Content(a.dims, a.vv, body, c.dt, c.ns, None)

    def write(self, a, st, fn, dt=None):
        """fn(idx terms over the view, old term) -> new term; writes through the view."""
        c = st.heap[a.root]
        meta = self.roots.get(a.root, {})
        if meta.get("kind") == "input":
            self.effect("write-input", st, name=meta.get("name"))
        elif meta.get("kind") == "out":
            self.effect("write-out", st, name=meta.get("name"))
        elif (a.root < self.watermark and self.phase == "call") or meta.get("kind") == "cached":
            self.effect("write-global", st, what=f"array allocated at {meta.get('loc')}")
        elif self.worker and meta.get("worker", 0) != self.worker and a.root < self.worker_mark:
            self.effect("write-shared", st, what=f"array allocated at {meta.get('loc')}")
        if a.ix is None:
            new = fn(c.vars, c.body)
        else:
            # invert the view
            conds, sol = [], {}
            ok = True
            for bv, t in zip(c.vars, a.ix):
                fvs = [v for v in a.vv if v.a[0] in t.fv]
                if not fvs:
                    conds.append(tm.cmp("==", bv, t))
                    continue
                if len(fvs) > 1:
                    ok = False
                    break
                w = fvs[0]
                if w in sol:
                    conds.append(tm.cmp("==", bv, tm.subst(t, {w.a[0]: sol[w]})))
                    continue
                if t is w:
                    sol[w] = bv
                elif t.op == "+":
                    co = dict((p, c_) for c_, p in t.a[1:]).get(w)
                    rest = tm.sub(t, tm.scale(co, w)) if co else None
                    if co is None or w.a[0] in rest.fv:
                        ok = False
                        break
                    diff = tm.sub(bv, rest)
                    if abs(co) == 1:
                        sol[w] = diff if co == 1 else tm.neg(diff)
                    else:
                        conds.append(tm.cmp("==", tm.fn("mod", diff, tm.const(abs(co))), tm.ZERO))
                        sol[w] = tm.fn("floordiv", diff, tm.const(co))
                else:
                    ok = False
                    break
            if not ok:
                # flattened view of a matrix (k//m, k%m)
                new = self.unk("write through a reshaped view", *c.vars)
                st.heap[a.root] = Content(c.dims, c.vars, new, c.dt, c.ns, c.mask)
                return
            idx = []
            for w, d in zip(a.vv, a.dims):
                if w in sol:
                    s_ = sol[w]
                    idx.append(s_)
                    if not (s_.op == "v" and any(s_ is bv and d is bd for bv, bd in zip(c.vars, c.dims))):
                        conds.append(self.simp_cond(tm.cmp("<=", tm.ZERO, s_)))
                        # s_ < d is implied when the slice runs to the end of the axis
                        lt = tm.cmp("<", s_, d)
                        for bv, bd in zip(c.vars, c.dims):
                            if bv.a[0] in s_.fv:
                                worst = tm.sub(tm.subst(s_, {bv.a[0]: tm.sub(bd, tm.ONE)}), d)
                                if self.term_bounds(worst)[1] < 0 and not (s_.op == "+" and dict(
                                        (p, c_) for c_, p in s_.a[1:]).get(bv, 1) < 0):
                                    lt = tm.ONE
                        conds.append(self.simp_cond(lt))
                else:
                    idx.append(tm.ZERO)   # size-1 view axis
            val = fn(tuple(idx), c.body)
            new = tm.ite(tm.and_(*conds), val, c.body)
        st.heap[a.root] = Content(c.dims, c.vars, new, dt or c.dt, c.ns, c.mask)

    worker_mark = 0

    # ------------------------------------------------------------ names
    def local_names(self, node):
        r = self.fn_locals.get(node)
        if r is None:
            body = node.body if isinstance(node.body, list) else []
            r = assigned_names(body)
            self.fn_locals[node] = r
        return r

    def store_name(self, name, v, st, fid):
        fr = st.frames[fid]
        if name in fr.get("@globals", ()):
            f = fid
            while st.frames[f]["@parent"] is not None:
                f = st.frames[f]["@parent"]
            if self.phase == "call" and f < self.watermark:
                self.effect("write-global", st, what=f"global variable {name}")
            st.put(f, name, v)
            return
        if name in fr.get("@nonlocals", ()):
            f = fr["@parent"]
            while f is not None and name not in st.frames[f]:
                f = st.frames[f]["@parent"]
            if f is not None:
                if self.phase == "call" and f < self.watermark:
                    self.effect("write-global", st, what=f"closure variable {name}")
                st.put(f, name, v)
                return
        if "@comp" in fr and name not in fr.get("@compvars", ()):
            # walrus inside a comprehension binds in the enclosing function
            return self.store_name(name, v, st, fr["@parent"])
        st.put(fid, name, v)

    def lookup(self, name, st, fid):
        f = fid
        first = True
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                v = fr[name]
                return v
            if first and name in fr.get("@locals", ()):
                self.raise_(st, "UnboundLocalError", name)
            if "@class" not in fr and "@comp" not in fr:
                first = False
            f = fr["@parent"]
        b = self.lib.builtin(name)
        if b is MISSING:
            self.raise_(st, "NameError", name)
        return b

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Phi):
                vals = self.with_phi(st, [v], lambda s, vs: self.unpack(vs[0], n, s, star))
            else:
                vals = self.unpack(v, n, st, star)
            if isinstance(vals, Phi):
                vals = tuple(Unknown("unpack") for _ in range(n))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fid)
            idx = self.ev_index(t.slice, st, fid)
            self.setitem(obj, idx, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, st, fid), t.attr, v, st)
        else:
            raise Budget(f"assignment target {type(t).__name__}")

    def unpack(self, v, n, st, star=()):
        if isinstance(v, Unknown):
            return tuple(Unknown(v.reason) for _ in range(n))
        if isinstance(v, Arr) and v.dims:
            d = tm.cval(v.dims[0])
            if d is None and not star:
                self.may_raise(st, tm.cmp("!=", v.dims[0], tm.const(n)), "ValueError", "unpack")
                return tuple(self.getitem(v, i, st) for i in range(n))
        seq = self.iterate(v, st)
        if not isinstance(seq, list):
            return tuple(Unknown("unpacking a symbolic sequence") for _ in range(n))
        if star:
            i = star[0]
            after = n - i - 1
            if len(seq) < n - 1:
                self.raise_(st, "ValueError", "not enough values to unpack")
            mid = self.new_list(st, seq[i:len(seq) - after])
            return tuple(seq[:i]) + (mid,) + tuple(seq[len(seq) - after:] if after else ())
        if len(seq) != n:
            self.raise_(st, "ValueError", "unpack")
        return tuple(seq)

    # ------------------------------------------------------------ objects
    def new_list(self, st, items):
        r = Ref("list", new_id())
        st.objs[r.id] = list(items)
        return r

    def new_obj(self, st, kind, rec):
        r = Ref(kind, new_id())
        st.objs[r.id] = rec
        return r

    def write_obj(self, st, ref, rec):
        i = ref.id if isinstance(ref, Ref) else ref
        if i in self.input_objs:
            self.effect("write-input", st, name=self.input_objs[i])
        elif i < self.watermark and self.phase == "call":
            self.effect("write-global", st, what=f"object {ref}")
        elif self.worker and i < self.worker_mark:
            self.effect("write-shared", st, what=f"object {ref}")
        st.objs[i] = rec

    def write_obj_rng(self, st, ref, rec):
        """Advance a random generator (the one mutation of a caller's object that is allowed)."""
        if ref.id < self.watermark and self.phase == "call" and ref.id not in self.input_objs:
            self.effect("write-global", st, what="module-level random generator")
        st.objs[ref.id] = rec

    def iterate(self, v, st):
        """Concrete list of elements, a SymSeq, or None when unknown."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymSeq):
            return self.rename_seq(v, st)
        if isinstance(v, Ref):
            rec = st.objs[v.id]
            if v.kind == "list":
                if isinstance(rec, list):
                    return list(rec)
                if isinstance(rec, SymSeq):
                    return self.rename_seq(rec, st)
                return None
            if v.kind == "set":
                return self.set_items(rec, st)
            if v.kind == "dict":
                return list(rec) if isinstance(rec, dict) else None
            if v.kind == "gen":
                if isinstance(rec, Unknown):
                    return None
                items, used = rec
                if used:
                    return []
                self.write_obj(st, v, (items, True))
                if isinstance(items, SymSeq):
                    return self.rename_seq(items, st)
                if isinstance(items, (FiltSeq, FiltList)):
                    return None
                return list(items)
            if v.kind == "inst":
                inst = rec
                m = inst.cls.mro_get("__iter__")
                if m is not None:
                    return self.iterate(self.call(Bound(v, m), [], {}, st), st)
                if inst.cls.kind == "dataclass":
                    self.raise_(st, "TypeError", "not iterable")
        if isinstance(v, Arr):
            if not v.dims:
                self.raise_(st, "TypeError", "iteration over a 0-d array")
            d = tm.cval(v.dims[0])
            if d is not None:
                return [self.getitem(v, i, st) for i in range(int(d))]
            i = tm.fresh("i")
            self.bounds[i.a[0]] = (0, self.term_bounds(v.dims[0])[1])
            return SymSeq(i, v.dims[0], self.getitem(v, SNum(i, "int"), st, inbounds=True))
        if isinstance(v, ClassVal) and v.kind == "enum":
            return list(v.members.values())
        if v is None or isinstance(v, (int, float)):
            self.raise_(st, "TypeError", "not iterable")
        return None

    def filtered(self, v, st):
        """The conditional sequence behind a list or generator."""
        if isinstance(v, Ref) and v.kind in ("list", "gen"):
            rec = st.objs[v.id]
            if v.kind == "gen" and isinstance(rec, tuple) and isinstance(rec[0], (FiltSeq, FiltList)):
                if rec[1]:
                    return None
                self.write_obj(st, v, (rec[0], True))
                rec = rec[0]
            if isinstance(rec, FiltList):
                return rec
            if isinstance(rec, FiltSeq):
                i = self.rename_seq(rec, st)
                return FiltSeq(i.var, i.dim, i.value, tm.subst(rec.cond, {rec.var.a[0]: i.var}))
        return None

    def set_items(self, rec, st):
        """Elements of a set, when they are known to be different."""
        if not isinstance(rec, (list, tuple)):
            return None
        for k, x in enumerate(rec):
            for y in rec[:k]:
                if isinstance(x, (SNum, Phi, Unknown)) or isinstance(y, (SNum, Phi, Unknown)):
                    tx, ty = num_term(x), num_term(y)
                    if tx is None or ty is None or self.decide(self.simp_cond(tm.cmp("==", tx, ty)), st) is not False:
                        return None
        return list(rec)

    def set_len(self, rec):
        """Number of different elements of a set of numbers."""
        ts = [num_term(x) for x in rec]
        if None in ts:
            return None
        return tm.add(*[tm.and_(*[tm.not_(tm.cmp("==", x, y)) for y in ts[:k]]) if k else tm.ONE
                        for k, x in enumerate(ts)])

    def new_set(self, st, items):
        out = []
        for x in items:
            if not any(same_val(x, y) for y in out):
                out.append(x)
        return self.new_obj(st, "set", out)

    def rename_seq(self, s, st):
        """Fresh loop variable for each traversal."""
        v = tm.fresh("i")
        self.bounds[v.a[0]] = self.bounds.get(s.var.a[0], (0, float("inf")))
        return SymSeq(v, s.dim, self.inst_value(s.value, s.var, v, st))

    def inst_value(self, val, var, t, st, inplace_ok=True):
        """Template value at var := t."""
        name = var.a[0]
        if isinstance(val, SNum):
            return SNum(tm.subst(val.t, {name: t}), val.dt, val.ns)
        if isinstance(val, Arr):
            c = st.heap[val.root]
            free = name in c.body.fv or any(name in d.fv for d in c.dims) or \
                (c.mask is not None and name in c.mask.fv)
            if free:
                r = new_id()
                st.heap[r] = Content(tuple(tm.subst(d, {name: t}) for d in c.dims), c.vars,
                                     tm.subst(c.body, {name: t}), c.dt, c.ns,
                                     None if c.mask is None else tm.subst(c.mask, {name: t}))
                self.roots[r] = dict(self.roots.get(val.root, {}))
                root = r
            else:
                root = val.root
            if val.ix is None:
                return Arr(root, tuple(tm.subst(d, {name: t}) for d in val.dims))
            return Arr(root, tuple(tm.subst(d, {name: t}) for d in val.dims), val.vv,
                       tuple(tm.subst(x, {name: t}) for x in val.ix))
        if isinstance(val, tuple):
            return tuple(self.inst_value(x, var, t, st) for x in val)
        if isinstance(val, Partial):
            return Partial(val.fn, tuple(self.inst_value(x, var, t, st) for x in val.args),
                           tuple((k, self.inst_value(x, var, t, st)) for k, x in val.kw), val.kind)
        if isinstance(val, Phi):
            return Phi(tm.subst(val.c, {name: t}), self.inst_value(val.a, var, t, st),
                       self.inst_value(val.b, var, t, st))
        if isinstance(val, SymSeq):
            return SymSeq(val.var, tm.subst(val.dim, {name: t}), self.inst_value(val.value, var, t, st))
        if isinstance(val, Ref) and val.kind == "inst":
            inst = st.objs[val.id]
            if isinstance(inst, Inst):
                na = {k: self.inst_value(x, var, t, st) for k, x in inst.attrs.items()}
                return self.new_obj(st, "inst", Inst(inst.cls, na))
        if isinstance(val, Ref) and val.kind == "list" and isinstance(st.objs[val.id], list):
            return self.new_list(st, [self.inst_value(x, var, t, st) for x in st.objs[val.id]])
        return val

    # ------------------------------------------------------------ conditions
    def cond(self, v, st):
        """Truth of a value as a condition term."""
        if isinstance(v, bool) or v is None:
            return tm.const(bool(v))
        if isinstance(v, (int, float)):
            return tm.const(v != 0)
        if isinstance(v, str):
            return tm.const(bool(v))
        if isinstance(v, SNum):
            return self.simp_cond(tm.truth(v.t))
        if isinstance(v, tuple):
            return tm.const(len(v) > 0)
        if isinstance(v, SymSeq):
            return self.simp_cond(tm.cmp("<", tm.ZERO, v.dim))
        if isinstance(v, Arr):
            c = self.read(v, st)
            if not c.dims and c.mask is None:
                return self.simp_cond(tm.truth(c.body))
            one = all(tm.cval(d) == 1 for d in c.dims)
            if one and c.mask is None:
                return self.simp_cond(tm.truth(tm.subst(c.body, {x.a[0]: tm.ZERO for x in c.vars})))
            self.raise_(st, "ValueError", "truth value of an array")
        if isinstance(v, Ref):
            rec = st.objs[v.id]
            if isinstance(rec, (list, dict, tuple)) and v.kind in ("list", "dict", "set"):
                return tm.const(len(rec) > 0)
            if isinstance(rec, SymSeq):
                return self.simp_cond(tm.cmp("<", tm.ZERO, rec.dim))
            if v.kind == "inst" and isinstance(rec, Inst):
                m = rec.cls.mro_get("__bool__")
                if m is not None:
                    return self.cond(self.call(Bound(v, m), [], {}, st), st)
                m = rec.cls.mro_get("__len__")
                if m is not None:
                    return self.cond(self.call(Bound(v, m), [], {}, st), st)
                return tm.ONE
            if isinstance(rec, Unknown):
                return self.unk("condition: " + rec.reason)
            return tm.ONE
        if isinstance(v, Phi):
            a, b = self.cond(v.a, st), self.cond(v.b, st)
            return tm.ite(v.c, a, b) if a is not b else a
        if isinstance(v, (Unknown, SStr)):
            return self.unk(f"condition: {getattr(v, 'reason', 'string')}")
        return tm.ONE

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fid):
        self.budget -= 1
        if self.budget < 0:
            raise Budget("expression budget exceeded")
        if isinstance(e, ast.Constant):
            return e.value
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Unknown(f"expression {type(e).__name__}")
        if self.locstack and hasattr(e, "lineno"):
            self.locstack[-1][2] = e.lineno
        return m(e, st, fid)

    def e_Name(self, e, st, fid):
        v = self.lookup(e.id, st, fid)
        if isinstance(v, Phi):
            d = self.decide(v.c, st)
            if d is not None:
                v = v.a if d else v.b
            elif v.a is MISSING or v.b is MISSING:
                self.may_raise(st, v.c if v.a is MISSING else tm.not_(v.c), "UnboundLocalError", e.id)
                v = v.b if v.a is MISSING else v.a
            if v is MISSING:
                self.raise_(st, "UnboundLocalError", e.id)
        return v

    def e_Tuple(self, e, st, fid):
        return tuple(self.ev_seq(e.elts, st, fid))

    def e_List(self, e, st, fid):
        return self.new_list(st, self.ev_seq(e.elts, st, fid))

    def e_Set(self, e, st, fid):
        return self.new_set(st, self.ev_seq(e.elts, st, fid))

    def ev_seq(self, elts, st, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fid)
                if isinstance(v, Phi):
                    v = self.resolve_phi_iter(v, st)
                seq = self.iterate(v, st)
                if not isinstance(seq, list):
                    out.append(Unknown("star of symbolic sequence"))
                else:
                    out.extend(seq)
            else:
                out.append(self.ev(x, st, fid))
        return out

    def e_Dict(self, e, st, fid):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, st, fid)
                if isinstance(o, Ref) and isinstance(st.objs[o.id], dict):
                    d.update(st.objs[o.id])
                continue
            kk = self.ev(k, st, fid)
            try:
                d[kk] = self.ev(v, st, fid)
            except TypeError:
                return Unknown("dict key")
        return self.new_obj(st, "dict", d)

    def e_JoinedStr(self, e, st, fid):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(str(x.value))
            else:
                self.mute += 1
                try:
                    v = self.ev(x.value, st, fid)
                finally:
                    self.mute -= 1
                if isinstance(v, (str, int, float)) and x.format_spec is None:
                    out.append(str(v))
                else:
                    return SStr("formatted")
        return "".join(out)

    def e_FormattedValue(self, e, st, fid):
        return SStr("formatted")

    def e_Attribute(self, e, st, fid):
        o = self.ev(e.value, st, fid)
        return self.with_phi(st, [o], lambda s, vs: self.getattr_(vs[0], e.attr, s))

    def e_Subscript(self, e, st, fid):
        o = self.ev(e.value, st, fid)
        i = self.ev_index(e.slice, st, fid)
        return self.with_phi(st, [o, i], lambda s, vs: self.getitem(vs[0], vs[1], s))

    def ev_index(self, e, st, fid):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_seq(e.elts, st, fid)) if any(isinstance(x, ast.Starred) for x in e.elts) else \
                tuple(self.ev_index(x, st, fid) for x in e.elts)
        return self.ev(e, st, fid)

    def e_Slice(self, e, st, fid):
        return Slice(*[None if x is None else self.ev(x, st, fid) for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, st, fid):
        return Unknown("star")

    def e_Lambda(self, e, st, fid):
        mod = self.modules.get(self.frame_module(st, fid))
        return self.make_func(e, st, fid, mod)

    def frame_module(self, st, fid):
        while fid is not None:
            m = st.frames[fid].get("@module")
            if m:
                return m
            fid = st.frames[fid]["@parent"]
        return None

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.store_name(e.target.id, v, st, fid)
        return v

    def e_IfExp(self, e, st, fid):
        c = self.cond(self.ev(e.test, st, fid), st)
        if self.decide(c, st) is None:
            self.effect("branch", st, cond=c)
        return self.fork(st, c, lambda s: self.ev(e.body, s, fid), lambda s: self.ev(e.orelse, s, fid))

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], s, fid)
            if i == len(e.values) - 1:
                return v
            c = self.cond(v, s)
            d = self.decide(c, s)
            if d is not None:
                if d == isand:
                    return go(i + 1, s)
                return v
            isbool = (isinstance(v, SNum) and v.dt in ("bool", "b1"))
            if isand:
                return self.fork(s, c, lambda x: go(i + 1, x), lambda x: False if isbool else v)
            return self.fork(s, c, lambda x: True if isbool else v, lambda x: go(i + 1, x))
        return go(0, st)

    def e_UnaryOp(self, e, st, fid):
        v = self.ev(e.operand, st, fid)
        op = type(e.op).__name__
        if op == "Not":
            c = tm.not_(self.cond(v, st))
            return self.mkbool(c, st)
        return self.with_phi(st, [v], lambda s, vs: self.lib.unary(op, vs[0], s))

    def mkbool(self, c, st):
        d = self.decide(c, st)
        if d is not None:
            return d
        return SNum(c, "bool")

    def e_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        self.setline(e)
        op = type(e.op).__name__
        return self.binop(op, a, b, st)

    def binop(self, op, a, b, st):
        return self.with_phi(st, [a, b], lambda s, vs: self.lib.binary(op, vs[0], vs[1], s))

    def inplace(self, op, cur, rhs, st):
        return self.with_phi(st, [cur, rhs], lambda s, vs: self.lib.inplace(op, vs[0], vs[1], s))

    def e_Compare(self, e, st, fid):
        left = self.ev(e.left, st, fid)

        def go(i, left, s):
            right = self.ev(e.comparators[i], s, fid)
            op = type(e.ops[i]).__name__
            r = self.with_phi(s, [left, right], lambda x, vs: self.lib.compare(op, vs[0], vs[1], x))
            if i == len(e.ops) - 1:
                return r
            c = self.cond(r, s)
            return self.fork(s, c, lambda x: go(i + 1, right, x), lambda x: False)
        return go(0, left, st)

    def e_Call(self, e, st, fid):
        f = self.ev(e.func, st, fid)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                if isinstance(v, Phi):
                    v = self.resolve_phi_iter(v, st)
                seq = self.iterate(v, st)
                if not isinstance(seq, list):
                    args.append(Unknown("star argument"))
                else:
                    args.extend(seq)
            else:
                args.append(self.ev(a, st, fid))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.objs[v.id], dict):
                    kw.update(st.objs[v.id])
                else:
                    kw["**"] = Unknown("double star argument")
            else:
                kw[k.arg] = v
        self.setline(e)
        if isinstance(f, Ext) and f.path == "builtins.super":
            return self.make_super(st, fid)
        if isinstance(f, Ext) and f.path in ("builtins.locals", "builtins.globals", "builtins.vars"):
            return Unknown("namespace dictionary")
        return self.call(f, args, kw, st)

    def make_super(self, st, fid):
        return Unknown("super()")

    def e_Yield(self, e, st, fid):
        v = self.ev(e.value, st, fid) if e.value is not None else None
        f = fid
        while "@yields" not in st.frames[f]:
            f = st.frames[f]["@parent"]
        self.put_yields(st, f, (v,))
        return None

    def put_yields(self, st, f, more):
        ys = st.frames[f]["@yields"]
        st.put(f, "@yields", ys + more if isinstance(ys, tuple) else Unknown("values of a generator"))

    def e_YieldFrom(self, e, st, fid):
        seq = self.iterate(self.ev(e.value, st, fid), st)
        f = fid
        while "@yields" not in st.frames[f]:
            f = st.frames[f]["@parent"]
        if isinstance(seq, list):
            self.put_yields(st, f, tuple(seq))
        elif isinstance(seq, SymSeq) and st.frames[f]["@yields"] == ():
            st.put(f, "@yields", seq)
        else:
            st.put(f, "@yields", Unknown("yield from"))
        return None

    def e_ListComp(self, e, st, fid):
        r = self.comp(e, [e.elt], st, fid)
        if isinstance(r, (SymSeq, FiltSeq, FiltList)):
            return self.new_obj(st, "list", r)
        if r is None:
            return Unknown("comprehension")
        return self.new_list(st, [x[0] for x in r])

    def e_SetComp(self, e, st, fid):
        r = self.comp(e, [e.elt], st, fid)
        if isinstance(r, list):
            return self.new_set(st, [x[0] for x in r])
        return Unknown("set comprehension")

    def e_GeneratorExp(self, e, st, fid):
        r = self.comp(e, [e.elt], st, fid)
        if r is None:
            return self.new_obj(st, "gen", Unknown("generator over unknown"))
        if isinstance(r, (SymSeq, FiltSeq, FiltList)):
            return self.new_obj(st, "gen", (r, False))
        return self.new_obj(st, "gen", (tuple(x[0] for x in r), False))

    def e_DictComp(self, e, st, fid):
        r = self.comp(e, [e.key, e.value], st, fid)
        if isinstance(r, list):
            try:
                return self.new_obj(st, "dict", {k: v for k, v in r})
            except TypeError:
                pass
        return Unknown("dict comprehension")

    def comp(self, e, elts, st, fid):
        cf = new_id()
        cv = set()
        for g in e.generators:
            cv |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        st.frames[cf] = {"@parent": fid, "@comp": True, "@compvars": tuple(cv)}
        out = []

        def go(i, s):
            """Returns True if fine, else None; appends to out."""
            if i == len(e.generators):
                out.append(tuple(self.ev(x, s, cf) for x in elts))
                return True
            g = e.generators[i]
            itv = self.ev(g.iter, s, cf if i else fid)
            if isinstance(itv, Phi):
                itv = self.resolve_phi_iter(itv, s)
            seq = self.iterate(itv, s)
            if isinstance(seq, list):
                for v in seq:
                    self.assign(g.target, v, s, cf)
                    ok = True
                    for cnd in g.ifs:
                        c = self.cond(self.ev(cnd, s, cf), s)
                        d = self.decide(c, s)
                        if d is None:
                            return None
                        if not d:
                            ok = False
                            break
                    if ok and go(i + 1, s) is None:
                        return None
                return True
            return seq if isinstance(seq, SymSeq) else None
        # symbolic single generator
        g0 = e.generators[0]
        first = self.ev(g0.iter, st, fid)
        if isinstance(first, Phi):
            first = self.resolve_phi_iter(first, st)
        seq = self.iterate(first, st)
        if isinstance(seq, SymSeq):
            if len(e.generators) > 1:
                return None
            if g0.ifs:
                if len(elts) > 1:
                    return None

                def run_if(x):
                    self.assign(g0.target, self.template(seq, x), x, cf)
                    c = tm.and_(*[self.cond(self.ev(y, x, cf), x) for y in g0.ifs])
                    yes, no = x.copy(), x.copy()
                    yes.assume(c)
                    no.assume(tm.not_(c))
                    val = self.ev(elts[0], yes, cf)
                    return self.join(x.pc, yes, no), (val, SNum(c, "bool"))
                val = self.sym_loop(st, seq.var, seq.dim, run_if, cf, cv)
                if val is None:
                    return None
                return FiltSeq(seq.var, seq.dim, val[0], val[1].t if isinstance(val[1], SNum) else tm.const(val[1]))

            def run(x):
                self.assign(g0.target, self.template(seq, x), x, cf)
                return x, tuple(self.ev(y, x, cf) for y in elts)
            val = self.sym_loop(st, seq.var, seq.dim, run, cf, cv)
            if val is None:
                return SymSeq(seq.var, seq.dim, Unknown("raises"))
            return SymSeq(seq.var, seq.dim, val[0] if len(elts) == 1 else val)
        if seq is None:
            return None

        if isinstance(seq, list) and g0.ifs and len(e.generators) == 1 and len(elts) == 1:
            pairs = []
            for v in seq:
                self.assign(g0.target, v, st, cf)
                c = tm.and_(*[self.cond(self.ev(x, st, cf), st) for x in g0.ifs])
                d = self.decide(c, st)
                if d is False:
                    continue
                if d is True:
                    pairs.append((tm.ONE, self.ev(elts[0], st, cf)))
                    continue
                yes, no = st.copy(), st.copy()
                yes.assume(c)
                no.assume(tm.not_(c))
                val = self.ev(elts[0], yes, cf)
                pairs.append((c, val))
                j = self.join(st.pc, yes, no)
                st.assign(j)
            if all(c is tm.ONE for c, _ in pairs):
                return [(v,) for _, v in pairs]
            return FiltList(tuple(pairs))

        def go0():
            for v in seq:
                self.assign(g0.target, v, st, cf)
                ok = True
                for cnd in g0.ifs:
                    d = self.decide(self.cond(self.ev(cnd, st, cf), st), st)
                    if d is None:
                        return None
                    if not d:
                        ok = False
                        break
                if ok:
                    r = go(1, st)
                    if r is not True:
                        return None
            return True
        if go0() is None:
            return None
        return out

    def e_Await(self, e, st, fid):
        return Unknown("await")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st):
        self.calls += 1
        if isinstance(f, Phi):
            return self.with_phi(st, [f], lambda s, vs: self.call(vs[0], args, kw, s))
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw, st)
        if isinstance(f, Bound):
            if isinstance(f.fn, FuncVal):
                return self.call_func(f.fn, [f.obj] + list(args), kw, st)
            return self.lib.call_method(f.obj, f.fn, args, kw, st)
        if isinstance(f, Partial) and f.kind == "partial":
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2, st)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, (ClsMethod, StatMethod)):
            return self.call(f.fn, args, kw, st)
        if isinstance(f, Ref) and f.kind == "inst":
            inst = st.objs[f.id]
            if isinstance(inst, Inst):
                m = inst.cls.mro_get("__call__")
                if m is not None:
                    return self.call(Bound(f, m), args, kw, st)
        if isinstance(f, Unknown):
            self.effect("unknown-call", st, what=f.reason, args=args)
            self.havoc_args(args, kw, st)
            return Unknown(f.reason)
        if f is None or isinstance(f, (int, float, str, tuple)):
            self.raise_(st, "TypeError", "not callable")
        return self.lib.call(f, args, kw, st)

    def havoc_args(self, args, kw, st):
        pass

    def instantiate(self, c, args, kw, st):
        if c.kind == "enum":
            v = args[0]
            for m in c.members.values():
                if m is v or (type(m.value) is type(v) and m.value == v):
                    return m
            self.raise_(st, "ValueError", "not a member")
        if c.kind == "exc":
            return Exc(c.name, tuple(args), self.loc())
        init = c.mro_get("__init__")
        r = Ref("inst", new_id())
        st.objs[r.id] = Inst(c, {})
        if init is not None:
            self.call(Bound(r, init), args, kw, st)
            return r
        if c.kind == "dataclass":
            fields = []

            def coll(k):
                for b in k.bases:
                    if isinstance(b, ClassVal):
                        coll(b)
                for f in k.fields:
                    if f not in fields:
                        fields.append(f)
            coll(c)
            attrs = {}
            if len(args) > len(fields):
                self.raise_(st, "TypeError", "too many arguments")
            for n, v in zip(fields, args):
                attrs[n] = v
            for n, v in kw.items():
                if n not in fields or n in attrs:
                    self.raise_(st, "TypeError", f"unexpected argument {n}")
                attrs[n] = v
            for n in fields:
                if n not in attrs:
                    d = c.mro_get(n)
                    if d is None:
                        self.raise_(st, "TypeError", f"missing argument {n}")
                    attrs[n] = d
            attrs = {n: attrs[n] for n in fields}
            st.objs[r.id] = Inst(c, attrs)
            post = c.mro_get("__post_init__")
            if post is not None:
                self.call(Bound(r, post), [], {}, st)
            return r
        if args or kw:
            self.raise_(st, "TypeError", "takes no arguments")
        return r

    def bind(self, f, args, kw, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        kw.pop("**", None)
        extra = args[len(pos):]
        for n, v in zip(pos, args):
            out[n] = v
        if extra and not a.vararg:
            self.raise_(st, "TypeError", f"{f.name}: too many positional arguments")
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        posonly = {x.arg for x in a.posonlyargs}
        for n, v in kw.items():
            if n in pos and n not in posonly:
                if n in out:
                    self.raise_(st, "TypeError", f"{f.name}: multiple values for {n}")
                out[n] = v
            elif n in kwonly:
                out[n] = v
            elif a.kwarg:
                rest[n] = v
            else:
                self.raise_(st, "TypeError", f"{f.name}: unexpected keyword {n}")
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_(st, "TypeError", f"{f.name}: missing argument {n}")
                out[n] = f.defaults[j]
        for n in kwonly:
            if n not in out:
                if n not in f.kwdefaults:
                    self.raise_(st, "TypeError", f"{f.name}: missing keyword {n}")
                out[n] = f.kwdefaults[n]
        if a.kwarg:
            out[a.kwarg.arg] = self.new_obj(st, "dict", rest)
        return out

    def call_func(self, f, args, kw, st):
        ck = (f.module.name if f.module else "?", f.name)
        con = self.contracts.get(ck)
        if con is not None:
            bound = self.bind(f, args, kw, st)
            r = con(self, st, bound, f)
            if r is not NotImplemented:
                return r
        if self.depth > 80:
            return Unknown("recursion too deep")
        bound = self.bind(f, args, kw, st)
        fid = new_id()
        fr = {"@parent": f.frame, "@module": f.module.name if f.module else None}
        names = self.local_names(f.node)[0] if not isinstance(f.node, ast.Lambda) else set()
        fr["@locals"] = frozenset(names)
        fr.update(bound)
        path = self.module_file(f.module.name) if f.module and self.module_file(f.module.name) else None
        rel = os.path.relpath(path, self.repo) if path else (f.module.name if f.module else "?")
        self.locstack.append([rel, f.qual, getattr(f.node, "lineno", 0)])
        self.depth += 1
        base = st.pc
        try:
            if isinstance(f.node, ast.Lambda):
                st.frames[fid] = fr
                return self.ev(f.node.body, st, fid)
            if f.is_gen:
                fr["@yields"] = ()
            st.frames[fid] = fr
            self.effect("enter", st, fn=f)
            s0 = st.copy()
            res = self.exec_block(f.node.body, s0, fid, f.module)
            outs = list(res.rets)
            if res.normal is not None:
                outs.append((res.normal, None))
            if not outs:
                raise Abort()
            if f.is_gen:
                outs = [(s, s.frames[fid]["@yields"]) for s, _ in outs]
            cs, cv = outs[0]
            for s2, v2 in outs[1:]:
                e1 = [c for c in cs.pc if c not in s2.pc]
                e2 = [c for c in s2.pc if c not in cs.pc]
                if e1:
                    g = tm.and_(*e1)
                elif e2:
                    g = tm.not_(tm.and_(*e2))
                else:
                    g = self.unk("join of returns")
                j = self.join(base, cs, s2)
                cv = cv if same_val(cv, v2) else self.merge(g, cv, v2, j, cs, s2)
                cs = j
            st.assign(cs)
            self.effect("leave", st, fn=f, value=cv)
            if f.is_gen:
                if not isinstance(cv, (tuple, SymSeq)) or isinstance(cv, tuple) and any(isinstance(x, Marker) for x in cv):
                    return self.new_obj(st, "gen", Unknown("generator"))
                return self.new_obj(st, "gen", (cv, False))
            return cv
        finally:
            self.depth -= 1
            self.locstack.pop()

    # ------------------------------------------------------------ attributes / items
    def getattr_(self, o, name, st):
        return self.lib.getattr(o, name, st)

    def setattr_(self, o, name, v, st):
        if isinstance(o, Phi):
            d = self.decide(o.c, st)
            if d is not None:
                return self.setattr_(o.a if d else o.b, name, v, st)
            for x, c in ((o.a, o.c), (o.b, tm.not_(o.c))):
                s = st.copy()
                s.assume(c)
                self.setattr_(x, name, v, s)
                base = st.pc
                st.assign(self.join(base, s, st)) if False else None
                st.objs = dict(s.objs)
            return
        if isinstance(o, Ref) and o.kind == "inst":
            inst = st.objs[o.id]
            if isinstance(inst, Inst):
                if inst.cls.frozen and self.loc()[1].split(".")[-1] not in ("__init__",):
                    self.raise_(st, "AttributeError", "frozen")
                d = dict(inst.attrs)
                d[name] = v
                self.write_obj(st, o, Inst(inst.cls, d))
            return
        if isinstance(o, (FuncVal, ClassVal)):
            d = dict(st.objs.get(o.id, {}))
            d[name] = v
            self.write_obj(st, o.id, d)
            if isinstance(o, ClassVal):
                o.attrs[name] = v
            return
        if isinstance(o, ModVal):
            if self.phase == "call":
                self.effect("write-global", st, what=f"module attribute {o.name}.{name}")
            st.put(o.frame, name, v)
            return
        if isinstance(o, Arr):
            if name == "shape":
                self.effect("unknown-call", st, what="in-place reshape", args=[o])
            return
        self.effect("write-global", st, what=f"attribute {name} of {o!r}")

    def getitem(self, o, i, st, inbounds=False):
        return self.lib.getitem(o, i, st, inbounds)

    def setitem(self, o, i, v, st, aug=False):
        if isinstance(o, Phi) or isinstance(i, Phi) or isinstance(v, Phi):
            def f(s, vs):
                self.lib.setitem(vs[0], vs[1], vs[2], s, aug)
                return None
            return self.with_phi(st, [o, i, v], f)
        return self.lib.setitem(o, i, v, st, aug)


class Inst:
    """Record of a class instance."""
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __eq__(self, o):
        return isinstance(o, Inst) and o.cls is self.cls and o.attrs == self.attrs

    def __hash__(self):
        return id(self)


@dataclass(frozen=True)
class Marker:
    id: int


def num_term(v):
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, (bool, int, float)):
        return tm.const(v)
    return None


def num_type(v):
    if isinstance(v, SNum):
        return v.dt, v.ns
    if isinstance(v, bool):
        return "bool", None
    if isinstance(v, int):
        return "int", None
    return "float", None


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, SNum, Arr, Ref, EnumVal, Ext, Exc, DType, Opaque, Unknown, Phi,
                      Bound, SStr, ModVal, Compiled, Partial)):
        try:
            return a == b
        except Exception:
            return False
    return False


def same_obj(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_val(x, y) or same_obj(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_val(a[k], b[k]) for k in a)
    if isinstance(a, Inst):
        return a.cls is b.cls and same_obj(a.attrs, b.attrs)
    if isinstance(a, (Unknown, SymSeq)):
        return a == b
    return False
