"""Running obligations and recording their verdicts."""
from __future__ import annotations

import ast
import os
import time

from . import terms as tm
from . import equiv as eq
from .driver import Session
from .interp import Inst
from .oblig import *
from .values import *

PROBE_SEC = 60      # time for points of the larger sizes

PROVED, TESTED, CHECKED, UNDECIDED, VIOLATED = "identical", "equal", "holds", "undecided", "violated"


def sub(o, v):
    class P:
        pass
    p = P()
    p.value, p.st = v, o.st
    return p


def site(e):
    s = getattr(e, "site", None) or getattr(e, "loc", None)
    return f"{s[0]}:{s[2]} {s[1]}" if s else None


class Missing(Exception):
    """An anchor of the public interface has vanished."""


class Ctx:
    def __init__(self, prop, tier="quick", seed=1, repo="/repo", budget=600, overlay=None):
        self.scaled = False     # whether scaled-down copies of the source are analysed too
        self.prop, self.tier, self.seed, self.repo = prop, tier, seed, repo
        self.t0 = self.last = time.time()
        self.S = Session(repo, overlay=overlay)
        self.I = self.S.I
        self.rows = []
        self.functions = set()
        self.calls = 0
        self.points_used = 0
        self.probe_sec = 0
        self.budget = budget
        self.thorough = tier == "thorough"

        self.shard = (0, 1)
        self.unit = 0
        self.groups = {}
        self.seen = {}

    # ------------------------------------------------------------ bookkeeping
    def skip(self, group=None):
        """Work sharing: every process walks over all configurations and keeps its own."""
        if group is not None:
            if group not in self.groups:
                self.groups[group] = len(self.groups)
            return self.groups[group] % self.shard[1] != self.shard[0]
        self.unit += 1
        return self.unit % self.shard[1] != self.shard[0]

    def row(self, rule, config, verdict, detail="", where=None, path=()):
        now = time.time()
        self.rows.append({"rule": rule, "config": config, "verdict": verdict, "detail": detail,
                          "where": where, "path": list(path), "sec": round(now - self.last, 2)})
        self.last = now
        return verdict

    def violations(self):
        return [r for r in self.rows if r["verdict"] == VIOLATED]

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ------------------------------------------------------------ analysing calls
    def fn(self, dotted):
        f = self.S.lookup(dotted)
        if f is MISSING:
            raise Missing(f"public name {dotted} not found")
        return f

    def call(self, f, args, kw, st):
        if isinstance(f, str):
            f = self.fn(f)
        o = self.S.call(f, args, kw, st)
        self.calls += 1
        o.path = []
        for e in o.effects:
            if e.kind == "enter":
                q = self.where(e.info.get("fn"))
                if q not in o.path:
                    o.path.append(q)
        self.functions.update(o.path)
        o.entry = self.where(f)
        return o

    def where(self, f):
        if isinstance(f, Compiled):
            return self.where(f.fn)
        if isinstance(f, FuncVal):
            m = f.module if isinstance(f.module, str) else getattr(f.module, "name", "?")
            return f"{m.replace('.', '/')}.py:{f.node.lineno} {f.name}"
        return str(f)

    # ------------------------------------------------------------ equality
    def compare(self, rule, config, o, spec, points, spec_st=None, neg=(), tol=1e-7, alt=None):
        """The outcome equals the specified value at every point (identity of terms or identity testing)."""
        where = getattr(o, "entry", None)
        path = getattr(o, "path", ())
        if o.crash:
            return self.row(rule, config, UNDECIDED, "analysis: " + o.crash, where, path)
        ob = Observer(o, self.S)
        try:
            ts = value_terms(o.value, o.st, self.I) if o.returned else []
            unk = sorted({u for t in ts for u in eq.unknowns(t)})
        except UnknownVal as e:
            ts, unk = [], [str(e)]
        ident = False
        if o.returned and not unk and not ob.raised and not isinstance(spec, Raised):
            sc = canon(spec, spec_st, self.I)
            ic = canon(o.value, o.st, self.I)
            ident = sc == ic or (alt is not None and canon(alt, spec_st, self.I) == ic)
        if ident:
            return self.row(rule, config, PROVED, "", where, path)
        pts = list(points)
        key = None
        if o.returned and not unk:
            key = (ic if not ob.raised else canon(o.value, o.st, self.I), canon(spec, spec_st, self.I),
                   tuple((tuple(g), exc.name) for g, exc in ob.raised), tuple(p.key() for p in pts),
                   tuple((t, canon(over, spec_st, self.I)) for t, over in neg), tol, ob.fuzzy) \
                if not isinstance(spec, Raised) else None
            if key in self.seen:
                return self.row(rule, config, *self.seen[key], where, path)
        v = self._compare(rule, config, o, spec, pts, spec_st, neg, tol, ob, ts, unk, where, path)
        if key is not None and v == TESTED:
            self.seen[key] = (v, self.rows[-1]["detail"])
        return v

    def _compare(self, rule, config, o, spec, pts, spec_st, neg, tol, ob, ts, unk, where, path):
        spec_ts = []
        if not isinstance(spec, Raised):
            spec_ts = value_terms(spec, spec_st, self.I)
        extra = []
        if pts:
            conds = [c for g, _ in ob.raised for c in g if isinstance(c, tm.T)]
            sizes, large = eq.size_probes(ts + spec_ts + conds, pts, self.I.bounds)
            for q, v in sizes[:6]:
                for p in pts[:3]:
                    if self.probe_sec < PROBE_SEC and p.remake:
                        extra.append(p.remake(dict(p.syms, **{q: v})))
                        extra[-1].probe = True
            for c in large[:4] if not self.scaled else ():
                for b in (True, False):
                    for p in pts[:3]:
                        extra.append(p.with_(forced={c: b}))
            for t, over in neg:
                for p in pts[:2]:
                    try:
                        E = p.evaluator()
                        f = E.fingerprint(E.ev(t, {}))
                        if f and abs(f - round(f)) < 1e-9 and f < 1000:
                            f = None        # would also match counts and positions
                    except tm.EvalError:
                        f = None
                    if f:
                        extra.append(p.with_(force_neg={f}, over=over, neg_any=isinstance(spec, SpecArr)))
        n = 0
        why = ""
        for p in self.timed(pts + extra):
            if self.left() < 0:
                why = "time budget"
                break
            try:
                E = p.evaluator()
                spec_p = spec if getattr(p, "over", None) is None else p.over
                if spec_p is not spec:
                    E = p.with_(force_neg=()).evaluator()
                want = spec_p if isinstance(spec_p, Raised) else ev_value(spec_p, spec_st, E, self.I)
            except (tm.EvalError, OverflowError) as e:
                why = f"specification: {e}"
                continue
            try:
                E2 = p.evaluator()
                got = ob.at(E2)
            except UnknownVal as e:
                why = str(e)
                continue
            except (tm.EvalError, OverflowError) as e:
                if str(e) == eq.OOB and not unk and not p.forced and not p.force_neg:
                    return self.row(rule, config, VIOLATED, f"{p.describe()}: reads outside an array", where, path)
                why = str(e)
                continue
            self.points_used += 1
            d = same(got, want, tol)
            if d and p.force_neg and not E2.forced_hits:
                why = "no such intermediate value"
                continue
            if d:
                d2 = self.confirm(ob, spec_p, spec_st, p) if not p.force_neg else d
                if d2 is None:
                    why = "ill-conditioned point"
                    continue
                if d2 is True:
                    n += 1
                    continue
                if unk and not isinstance(got, Raised):
                    why = "; ".join(unk)
                    continue
                return self.row(rule, config, VIOLATED, f"{p.describe()}: {d}", where, path)
            n += 1
        if unk:
            return self.row(rule, config, UNDECIDED, "; ".join(unk)[:300], where, path)
        if n == 0:
            return self.row(rule, config, UNDECIDED, why or "no point evaluated", where, path)
        return self.row(rule, config, TESTED, f"{n} points" + (f"; {why}" if why else ""), where, path)

    def timed(self, pts):
        """Points, leaving out larger ones when they have taken too long."""
        for p in pts:
            probe = getattr(p, "probe", False)
            if probe and self.probe_sec > PROBE_SEC:
                continue
            t0 = time.time()
            yield p
            if probe:
                self.probe_sec += time.time() - t0

    def compare_any(self, rule, config, o, specs, points, **kw):
        """The outcome equals one of several admissible values."""
        best = None
        mark = len(self.rows)
        points = list(points)
        for sp in specs:
            v = self.compare(rule, config, o, sp, points, **kw)
            row = self.rows.pop()
            if v != VIOLATED:
                best = row
                break
            best = best or row
        del self.rows[mark:]
        self.rows.append(best)
        return best["verdict"]

    def effects(self, rule, config, o, kinds, what, allow=lambda e: False, need_return=False,
                points=()):
        """No effect of the given kinds on any analysed path."""
        if o.crash:
            return self.row(rule, config, UNDECIDED, "analysis: " + o.crash, o.entry, o.path)
        bad = [e for e in o.effects if e.kind in kinds and not allow(e)]
        real = [e for e in bad if self.feasible(e, points)]
        if bad and not real:
            return self.row(rule, config, UNDECIDED, "no point reaches " + self.show(bad[0]), site(bad[0]), o.path)
        if bad:
            e = real[0]
            return self.row(rule, config, VIOLATED, what + ": " + self.show(e), site(e), o.path)
        if need_return and not o.returned:
            return self.row(rule, config, UNDECIDED, "every path raises", o.entry, o.path)
        lost = [e for e in o.effects if e.kind in ("unknown-call", "havoc")]
        if lost:
            return self.row(rule, config, UNDECIDED, self.show(lost[0]), site(lost[0]), o.path)
        return self.row(rule, config, CHECKED, f"{len(o.effects)} events", o.entry, o.path)

    def feasible(self, e, points):
        """Some point satisfies the path condition of an effect."""
        pc = [c for c in e.pc if known(c) and tm.cval(c) is None]
        if not pc or not points:
            return True
        small = [c for c in pc if not c.data and not c.fv]
        for p in points:
            if self.holds([c for c in pc if c.data or c.fv], p) and (
                    self.holds(small, p) or any(self.holds(small, p.with_(syms=sy)) for sy in self.other_sizes(small, p))):
                return True
        return False

    def holds(self, conds, p):
        E = p.evaluator()
        for c in conds:
            try:
                if E.ev(c, {}) == 0:
                    return False
            except (KeyError, tm.EvalError):
                continue
        return True

    def other_sizes(self, conds, p):
        """Assignments that change one size."""
        for q in sorted({x.a[0] for c in conds for x in tm.walk(c) if x.op == "s"}):
            if q in tm.INTSYM and isinstance(p.syms.get(q), int):
                lo, hi = self.I.bounds.get(q, (1, 0))
                for v in tuple(range(200)) + eq.LARGE:
                    if lo <= v <= hi:
                        yield dict(p.syms, **{q: v})

    def show(self, e):
        info = ", ".join(f"{k}={v}" for k, v in e.info.items() if k in ("name", "what", "fn", "op", "dt", "why", "src"))
        return f"{e.kind} {info} at {site(e)}"[:300]

    def confirm(self, ob, spec, spec_st, p):
        """Repeat a differing point with long rationals: the difference, True (none) or None (ill-conditioned)."""
        seen = []
        for bits in (160, 320):
            q = p.with_(bits=bits)
            try:
                want = spec if isinstance(spec, Raised) else ev_value(spec, spec_st, q.evaluator(), self.I)
                got = ob.at(q.evaluator())
            except (UnknownVal, tm.EvalError, OverflowError, ZeroDivisionError):
                return None
            if same(got, want, 1e-18) is None:
                return True
            seen.append((got, want))
        if same(seen[0][0], seen[1][0], 1e-12) or same(seen[0][1], seen[1][1], 1e-12):
            return None
        return same(seen[1][0], seen[1][1], 1e-18)

    # ------------------------------------------------------------ parts of results
    def field(self, o, name):
        v = o.value
        if isinstance(v, Ref) and isinstance(o.st.objs.get(v.id), Inst):
            return o.st.objs[v.id].attrs.get(name, MISSING)
        if isinstance(v, Phi):
            a, b = (self.field(sub(o, x), name) for x in (v.a, v.b))
            return Phi(v.c, a, b)
        return MISSING

    def iterate(self, o):
        try:
            it = self.I.iterate(o.value, o.st)
        except Exception:
            return None
        return tuple(it) if isinstance(it, (list, tuple)) else None

    def rooted(self, o):
        """Specification: clamped square root of every number in an outcome."""
        from . import spec

        def go(v):
            if isinstance(v, (SNum, int, float)):
                return spec.root(num_term(v))
            if isinstance(v, Arr):
                c = self.I.read(v, o.st)
                if not c.dims:
                    return spec.root(c.body)
                if c.mask is not None:
                    raise UnknownVal("filtered")
                return SpecArr(c.dims, lambda *ix: spec.root(tm.subst(c.body, {w.a[0]: t for w, t in zip(c.vars, ix)})))
            if isinstance(v, Phi):
                a, b = go(v.a), go(v.b)
                if isinstance(a, tm.T) and isinstance(b, tm.T):
                    return tm.ite(v.c, a, b)
                return Phi(v.c, a, b)
            if isinstance(v, Ref) and isinstance(o.st.objs.get(v.id), Inst):
                return {k: go(x) for k, x in o.st.objs[v.id].attrs.items() if not k.startswith("@")}
            raise UnknownVal("value")
        if o.crash or not o.returned:
            return None
        try:
            return go(o.value)
        except UnknownVal:
            return None

    def rejects(self, rule, config, o, points, accepted=()):
        """The call raises at every point; accepted: outcomes of similar calls that return."""
        where = getattr(o, "entry", None)
        path = getattr(o, "path", ())
        if o.crash:
            return self.row(rule, config, UNDECIDED, "analysis: " + o.crash, where, path)
        if not o.returned:
            return self.row(rule, config, CHECKED, "every path raises", where, path)
        ob = Observer(o, self.S, accepted)
        bad = None
        n = 0
        for p in points:
            E = p.evaluator()
            try:
                got = None
                for g, exc in ob.raised:
                    try:
                        if all(E.ev(c, {}) != 0 for c in g):
                            got = Raised(exc.name, exc.site)
                            break
                    except KeyError:
                        continue
                if got is None:
                    if all(E.ev(c, {}) != 0 for c in guard_of(o.st, o.base_pc) if known(c)):
                        bad = p
                        break
                n += 1
            except (tm.EvalError, KeyError):
                continue
        if bad is not None:
            if ob.fuzzy:
                return self.row(rule, config, UNDECIDED, "an exception depends on a loop", where, path)
            return self.row(rule, config, VIOLATED, f"{bad.describe()}: returns a value", where, path)
        if n == 0:
            return self.row(rule, config, UNDECIDED, "no point evaluated", where, path)
        return self.row(rule, config, CHECKED, f"{n} points", where, path)

    # ------------------------------------------------------------ points
    def points(self, arrays, sizes, families, **kw):
        """sizes: list of symbol assignments; families: list of kinds (str or dict)."""
        out = []
        for k, fam in enumerate(families):
            szs = sizes if k == 0 else [sizes[(k + j) % len(sizes)] for j in range(1 if not self.thorough else 2)]
            for sy in szs:
                lab = fam if isinstance(fam, str) else "/".join(f"{a}:{b}" for a, b in fam.items())
                seed = f"{self.seed}/{k}/{sorted(sy.items())}"
                data = eq.data_for(arrays, sy, fam, seed, **kw)
                ties = "random" if k % 2 else "stable"
                p = eq.Point(lab, sy, data, seed=k + self.seed, ties=ties, garbage=k)
                p.origin = (seed, tuple(sorted(arrays.items())), repr(sorted(kw.items())))
                p.remake = lambda sz, fam=fam, k=k: self.points(arrays, [sz], [fam], **kw)[0]
                out.append(p)
        return out
