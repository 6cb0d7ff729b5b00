"""Abstract interpreter for the Python subset fastkml is written in.

Path sensitive: a branch whose condition is not determined by the abstract
values is explored both ways (Path.choose), each path carrying the facts it
assumed.  Nothing of the analysed package is imported or executed.
"""
from __future__ import annotations

import ast
import builtins
import math
import os
import re
import sys
from collections.abc import MutableMapping

from values import *  # noqa: F403
from values import AbsExc, Bound, Cls, Deco, Env, Etree, Ext, ExtObj, Fn, Inst, Mod, Native, Partial, Super, Sym, Undecided, Unk, VDict, VIter, VList, VSet, XElem, XTree, NOTIMPL, ELLIPSIS, short, snapshot, from_snapshot

CONST = (type(None), bool, int, float, str, bytes, complex)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class AttrView(MutableMapping):
    """An instance's __dict__ seen as a VDict table (writes go through)."""

    def __init__(self, attrs):
        self.attrs = attrs

    def __getitem__(self, k):
        return (k[1], self.attrs[k[1]])

    def __contains__(self, k):
        return k[0] == "c" and k[1] in self.attrs

    def __setitem__(self, k, v):
        self.attrs[k[1]] = v[1]

    def __delitem__(self, k):
        del self.attrs[k[1]]

    def __iter__(self):
        return iter([("c", k) for k in self.attrs if not k.startswith("%")])

    def __len__(self):
        return sum(not k.startswith("%") for k in self.attrs)


class Path:
    def __init__(self, decisions=(), max_steps=400_000):
        self.decisions = list(decisions)
        self.trace = []  # (label, n, choice)
        self.truth = {}
        self.subst = {}
        self.imprecise = None
        self.steps = 0
        self.max_steps = max_steps
        self.log = []  # effects
        self.journal = []
        self.start = birth()
        self.fields_read = None
        self.notes = []

    def choose(self, n, label):
        i = len(self.trace)
        c = self.decisions[i] if i < len(self.decisions) else 0
        self.trace.append((label, n, c))
        return c

    def conditions(self):
        return [f"{lab}: {'yes' if c == 0 else 'no' if n == 2 else c}" for lab, n, c in self.trace]


class Stats:
    def __init__(self):
        self.functions = set()
        self.calls = 0
        self.paths = 0
        self.steps = 0
        self.forks = 0
        self.undecided = {}


PYEXC = {n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)}
PYTYPES = {
    "str": str, "int": int, "float": float, "bool": bool, "list": list, "tuple": tuple, "dict": dict,
    "set": set, "frozenset": frozenset, "bytes": bytes, "object": object, "type": type, "complex": complex,
    "bytearray": bytearray, "slice": slice,
}


def is_exc_type(t):
    return isinstance(t, type) and issubclass(t, BaseException)


# public attributes of the modelled library classes that fk/stubs leaves out
_D = "ctime fromisocalendar fromordinal fromtimestamp isocalendar isoweekday max min resolution timetuple today toordinal weekday"
REAL = {
    "datetime": {"date": _D, "datetime": _D + " astimezone combine dst fold now strptime time timestamp timetz tzname utcfromtimestamp utcnow utcoffset utctimetuple",
                 "timedelta": "seconds microseconds total_seconds max min resolution", "timezone": "utcoffset tzname dst fromutc max min", "tzinfo": "utcoffset tzname dst fromutc"},
    "arrow": {"Arrow": "ambiguous astimezone clone ctime dehumanize dst float_timestamp fold for_json format fromdate fromdatetime fromordinal fromtimestamp humanize imaginary int_timestamp "
              "interval is_between isocalendar isoformat isoweekday max min now range resolution span_range strftime strptime time timestamp timetuple timetz toordinal tzinfo utcfromtimestamp "
              "utcnow utcoffset utctimetuple weekday year month day hour minute second microsecond week quarter"},
    "pygeoif": {"*": "convex_hull wkt _check_dict _from_dict _from_interface _get_bounds _prepare_hull _wkt_coords _wkt_inset _wkt_type", "LinearRing": "centroid"},
}


class Interp:
    def __init__(self, root, stubdir):
        self.root = root  # repository root
        self.stubdir = stubdir
        self.modules = {}
        self.p = Path()
        self.stats = Stats()
        self.depth = 0
        self.frames = []  # (Fn, env, firstarg)
        self.excstack = []
        self.cur = None  # current (module, node)
        self.etrees = {"lxml": Etree("lxml"), "stdlib": Etree("stdlib")}
        self.files = {}
        self.warnings = []
        import models
        self.models = models.Models(self)
        self._isgen_cache = {}

    # ------------------------------------------------------------------ util
    def loc(self):
        m, n = self.cur if self.cur else (None, None)
        if m is None:
            return "?"
        fn = self.frames[-1][0].qual if self.frames else "<module>"
        return f"{m.path}:{getattr(n, 'lineno', 0)} ({fn})"

    def throw(self, name, msg="", *args):
        cls = PYEXC[name] if isinstance(name, str) else name
        e = Inst(cls)
        e.attrs["args"] = (msg, *args) if msg != "" or args else ()
        raise AbsExc(e, self.loc())

    def step(self):
        self.p.steps += 1
        if self.p.steps > self.p.max_steps:
            raise Undecided("step budget exhausted at " + self.loc())

    def decide(self, label, imprecise=None):
        """Fork: returns True/False."""
        if imprecise:
            self.p.imprecise = self.p.imprecise or imprecise
        self.stats.forks += 1
        return self.p.choose(2, f"{label} @ {self.loc()}") == 0

    def mutate(self, obj, undo):
        if obj.birth < self.p.start:
            self.p.journal.append(undo)

    def rollback(self):
        for u in reversed(self.p.journal):
            u()
        self.p.journal.clear()

    def set_var(self, env, name, val):
        if env.kind == "module":
            m = env.module
            old = env.vars.get(name, self)
            d = env.vars
            if m.birth < self.p.start:
                def undo(d=d, name=name, old=old):
                    if old is self:
                        d.pop(name, None)
                    else:
                        d[name] = old
                self.p.journal.append(undo)
        env.vars[name] = val

    def set_attr_raw(self, d, obj, name, val):
        if obj.birth < self.p.start:
            old = d.get(name, self)

            def undo():
                if old is self:
                    d.pop(name, None)
                else:
                    d[name] = old
            self.p.journal.append(undo)
        d[name] = val

    def lst_mut(self, l):
        if l.birth < self.p.start:
            old = list(l.items)

            def undo(l=l, old=old):
                l.items[:] = old
            self.p.journal.append(undo)

    def dct_mut(self, d):
        if d.birth < self.p.start:
            old = dict(d.d)

            def undo(d=d, old=old):
                d.d.clear()
                d.d.update(old)
            self.p.journal.append(undo)

    # ------------------------------------------------------------ exploration
    def explore(self, fn, max_paths=300, max_steps=400_000):
        """Run fn() on every abstract path; yields (path, result|exception)."""
        out = []
        stack = [[]]
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > max_paths:
                p = Path()
                p.imprecise = "path budget exhausted"
                out.append((p, Undecided("path budget exhausted")))
                break
            old = self.p
            self.p = p = Path(dec, max_steps)
            self.depth = 0
            self.frames = []
            self.excstack = []
            try:
                res = fn()
            except (AbsExc, Undecided) as e:
                res = e
            except RecursionError:
                res = Undecided("recursion limit")
            finally:
                self.rollback()
                self.p = old
            self.stats.paths += 1
            self.stats.steps += p.steps
            if isinstance(res, Undecided):
                self.stats.undecided[str(res)] = self.stats.undecided.get(str(res), 0) + 1
            choices = [c for _, _, c in p.trace]
            for i in range(len(dec), len(p.trace)):
                for alt in range(1, p.trace[i][1]):
                    stack.append(choices[:i] + [alt])
            out.append((p, res))
        return out

    # -------------------------------------------------------------- resolution
    def resolve(self, v):
        if isinstance(v, Sym) and self.p.subst:
            s = self.p.subst.get(v, v)
            return s
        return v

    # ------------------------------------------------------------------- truth
    def truth(self, v):
        v = self.resolve(v)
        if v is None or isinstance(v, CONST):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Sym):
            return self.sym_truth(v)
        if isinstance(v, VList):
            return len(v.items) > 0
        if isinstance(v, (VDict, VSet)):
            return len(v.d) > 0
        if isinstance(v, XElem):
            return len(v.children) > 0
        if isinstance(v, Inst):
            for nm in ("__bool__", "__len__"):
                f = self.cls_lookup(v.cls, nm)
                if f is not None:
                    r = self.call(self.bind(f, v, v.cls), [], {})
                    r = self.resolve(r)
                    if nm == "__bool__":
                        if isinstance(r, bool):
                            return r
                        if isinstance(r, Sym):
                            return self.truth(r)
                        if isinstance(r, Unk):
                            return self.truth(r)
                        self.throw("TypeError", "__bool__ should return bool")
                    return self.truth(r)
            if v.payload is not None:
                return self.truth(v.payload)
            return True
        if isinstance(v, Unk):
            return self.decide(f"unknown {v.why}", imprecise=f"unknown value {v.why}")
        if isinstance(v, ExtObj):
            return True
        if v is NOTIMPL:
            return True
        return True

    def sym_truth(self, v):
        if v in self.p.truth:
            return self.p.truth[v]
        f = v.flags
        if "truthy" in f:
            return True
        if "falsy" in f:
            return False
        if v.op == "cat":
            for a in v.args:
                if isinstance(a, str) and a:
                    return True
                if isinstance(a, Sym) and ("truthy" in a.flags or self.p.truth.get(a)):
                    return True
        if v.op == "not":
            return not self.truth(v.args[0])
        if v.op in ("str", "fmt", "repr", "tostring", "isoformat", "digits"):
            return True
        if v.op == "strip":
            # strip(x) truthy implies x truthy; x falsy implies strip falsy
            if self.p.truth.get(v.args[0]) is False or v.args[0] in self.p.subst:
                return self.truth(self.str_method(v.args[0], "strip", [], {}))
        imp = None
        if self.tainted(v):
            imp = f"external result {short(v)}"
        r = self.decide(f"{short(v)}", imprecise=imp)
        self.p.truth[v] = r
        if not r:
            z = {"str": "", "int": 0, "float": 0.0, "bool": False}.get(v.ty)
            if z is not None:
                self.p.subst[v] = z
        elif v.ty == "bool":
            self.p.subst[v] = True
        if r and v.op == "strip" and isinstance(v.args[0], Sym):
            self.p.truth.setdefault(v.args[0], True)
        if v.op == "eq" and r:
            a, b = v.args
            if isinstance(a, Sym) and not isinstance(b, Sym):
                self.p.subst[a] = b
            elif isinstance(b, Sym) and not isinstance(a, Sym):
                self.p.subst[b] = a
            elif isinstance(a, Sym) and isinstance(b, Sym):
                self.p.subst[a] = b
        return r

    def tainted(self, v):
        """Does the term contain an unmodelled external result?"""
        if isinstance(v, Unk):
            return True
        if isinstance(v, Sym):
            if v.op.startswith("ext:"):
                return True
            return any(self.tainted(a) for a in v.args)
        if isinstance(v, tuple):
            return any(self.tainted(a) for a in v)
        if isinstance(v, VList):
            return any(self.tainted(a) for a in v.items)
        return False

    # ---------------------------------------------------------------- equality
    def veq(self, a, b, depth=0):
        """Equality as True/False (deciding if needed)."""
        r = self.eq(a, b, depth)
        return self.truth(r) if isinstance(r, (Sym, Unk)) else r

    def eq(self, a, b, depth=0):
        a, b = self.resolve(a), self.resolve(b)
        if a is b and not isinstance(a, Inst):
            return True
        if depth > 40:
            raise Undecided("deep equality")
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk("== unknown")
        if isinstance(a, (Sym,)) or isinstance(b, Sym):
            return self.sym_eq(a, b)
        if isinstance(a, CONST) and isinstance(b, CONST):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.veq(x, y, depth + 1) for x, y in zip(a, b))
        if isinstance(a, VList) and isinstance(b, VList):
            if len(a.items) != len(b.items):
                return False
            return all(self.veq(x, y, depth + 1) for x, y in zip(list(a.items), list(b.items)))
        if isinstance(a, VDict) and isinstance(b, VDict):
            if set(a.d) != set(b.d):
                return False
            return all(self.veq(a.d[k][1], b.d[k][1], depth + 1) for k in list(a.d))
        if isinstance(a, VSet) and isinstance(b, VSet):
            return set(a.d) == set(b.d)
        if isinstance(a, Inst):
            r = self.inst_eq(a, b)
            if r is NOTIMPL and isinstance(b, Inst):
                r = self.inst_eq(b, a)
            if r is NOTIMPL:
                return a is b
            return r
        if isinstance(b, Inst):
            r = self.inst_eq(b, a)
            return False if r is NOTIMPL else r
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self is b.self
        if isinstance(a, (Ext, Etree)):
            return a == b
        return a is b

    def inst_eq(self, a, b):
        if isinstance(a.cls, Cls):
            if a.cls.enum:
                if isinstance(b, Inst):
                    return a is b
                if a.payload is not None:
                    return self.eq(a.payload, b)
                return NOTIMPL
            f = self.cls_lookup(a.cls, "__eq__")
            if f is not None:
                return self.call(self.bind(f, a, a.cls), [b], {})
            dc = next((c for c in a.cls.mro if isinstance(c, Cls) and c.dataclass), None)
            if dc is not None and dc.dataclass.get("eq", True):
                if not (isinstance(b, Inst) and b.cls is a.cls):
                    return NOTIMPL
                return all(self.veq(a.attrs.get(n), b.attrs.get(n)) for n in self.dc_fields(a.cls))
        if a.payload is not None:
            return self.eq(a.payload, b.payload if isinstance(b, Inst) else b)
        return NOTIMPL

    TYGROUP = {"str": "s", "int": "n", "float": "n", "bool": "n", "bytes": "b", "date": "d", "datetime": "d"}

    def tygroup(self, v):
        if v is None:
            return "none"
        if isinstance(v, str):
            return "s"
        if isinstance(v, (bool, int, float)):
            return "n"
        if isinstance(v, bytes):
            return "b"
        if isinstance(v, Sym):
            return self.TYGROUP.get(v.ty, v.ty)
        if isinstance(v, (tuple,)):
            return "tuple"
        return "o" + type(v).__name__

    def sym_eq(self, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym) and a == b:
            return True
        ga, gb = self.tygroup(a), self.tygroup(b)
        if ga != gb and "any" not in (ga, gb):
            return False
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if not isinstance(b, Sym):
            if "distinct" in a.flags:
                return False
            if b is None and a.ty != "any":
                return False
            if isinstance(b, (int, float)) and not isinstance(b, bool):
                if a.ty == "float":
                    b = float(b)
                elif a.ty == "int" and isinstance(b, float) and b == b and abs(b) < 1e15:
                    if b != int(b):
                        return False
                    b = int(b)
            if isinstance(b, (tuple, Inst, VList, VDict)) and a.ty == "any":
                return Sym("eq", (a, Sym("obj", (id(b),))), "bool")
            if not isinstance(b, CONST):
                return False
            if not b and self.sym_known_truthy(a):
                return False
            if b and self.p.truth.get(a) is False:
                return False
            if a.op == "cat" and isinstance(b, str):
                r = self.cat_eq(a.args, (b,))
                if r is not None:
                    return r
            if a.op in ("str", "fmt") and isinstance(b, str) and a.ty == "str" and b and not re.match(r"^[-+.\deEinfa]+$", b):
                return False
        else:
            if "distinct" in a.flags and "distinct" in b.flags:
                return False
            if a.op == "cat" or b.op == "cat":
                r = self.cat_eq(a.args if a.op == "cat" else (a,), b.args if b.op == "cat" else (b,))
                if r is not None:
                    return r
        key = (a, b) if not isinstance(b, Sym) or repr(a) <= repr(b) else (b, a)
        return Sym("eq", key, "bool")

    def sym_known_truthy(self, a):
        if "truthy" in a.flags or self.p.truth.get(a):
            return True
        if a.op == "cat":
            return any((isinstance(x, str) and x) or (isinstance(x, Sym) and self.sym_known_truthy(x)) for x in a.args)
        return a.op in ("str", "fmt", "repr", "digits")

    def cat_eq(self, xs, ys):
        xs, ys = list(xs), list(ys)
        # common prefix
        while xs and ys:
            x, y = xs[0], ys[0]
            if isinstance(x, Sym) and isinstance(y, Sym):
                if x == y:
                    xs.pop(0)
                    ys.pop(0)
                    continue
                break
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                xs[0], ys[0] = x[n:], y[n:]
                if not xs[0]:
                    xs.pop(0)
                if not ys[0]:
                    ys.pop(0)
                continue
            break
        while xs and ys:
            x, y = xs[-1], ys[-1]
            if isinstance(x, Sym) and isinstance(y, Sym):
                if x == y:
                    xs.pop()
                    ys.pop()
                    continue
                break
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                xs[-1], ys[-1] = x[:-n], y[:-n]
                if not xs[-1]:
                    xs.pop()
                if not ys[-1]:
                    ys.pop()
                continue
            break
        if not xs and not ys:
            return True
        if not xs or not ys:
            rest = xs or ys
            if any((isinstance(x, str) and x) or (isinstance(x, Sym) and self.sym_known_truthy(x)) for x in rest):
                return False
            return None
        if len(xs) == 1 and len(ys) == 1 and isinstance(xs[0], Sym) and isinstance(ys[0], Sym):
            if "distinct" in xs[0].flags and "distinct" in ys[0].flags:
                return False
        sx = [x for x in xs if isinstance(x, Sym)]
        sy = [x for x in ys if isinstance(x, Sym)]
        if not sy and any("distinct" in s.flags for s in sx):
            return False
        if not sx and any("distinct" in s.flags for s in sy):
            return False
        return None

    # ------------------------------------------------------------------ hashing
    def hkey(self, v):
        v = self.resolve(v)
        if isinstance(v, CONST):
            return ("c", v)
        if isinstance(v, tuple):
            return ("t", tuple(self.hkey(x) for x in v))
        if isinstance(v, Sym):
            return ("s", v)
        if isinstance(v, (VList, VDict)) or (isinstance(v, VSet) and not v.frozen):
            self.throw("TypeError", "unhashable type")
        if isinstance(v, VSet):
            return ("fs", frozenset(v.d))
        if isinstance(v, Inst):
            if isinstance(v.cls, Cls) and not v.cls.enum:
                dc = next((c for c in v.cls.mro if isinstance(c, Cls) and c.dataclass), None)
                for c in v.cls.mro:
                    if isinstance(c, Cls) and "__hash__" in c.attrs:
                        h = c.attrs["__hash__"]
                        if h is None:
                            self.throw("TypeError", "unhashable type")
                        return ("hh", self.hkey(self.call(self.bind(h, v, v.cls), [], {})))
                    if isinstance(c, Cls) and "__eq__" in c.attrs:
                        self.throw("TypeError", f"unhashable type: '{v.cls.name}'")
                if dc is not None and dc.dataclass.get("eq", True):
                    if not dc.dataclass.get("frozen"):
                        self.throw("TypeError", "unhashable type")
                    return ("dc", id(v.cls), tuple(self.hkey(v.attrs.get(n)) for n in self.dc_fields(v.cls)))
            return ("i", id(v))
        if isinstance(v, Unk):
            return ("u", id(v))
        if isinstance(v, (Ext, Etree)):
            return ("e", v)
        if isinstance(v, Bound):
            return ("b", id(v.fn), id(v.self))
        return ("o", id(v))

    def dget(self, d, k):
        """-> (found, value)"""
        hk = self.hkey(k)
        if hk in d.d:
            return True, d.d[hk][1]
        k = self.resolve(k)
        if isinstance(k, Unk):
            if not d.d:
                return False, None
            raise Undecided("dictionary lookup with unknown key at " + self.loc())
        if isinstance(k, Sym):
            for hk2, (k2, v2) in list(d.d.items()):
                if self.veq(k, k2):
                    return True, v2
        elif isinstance(k, (str, int, float)):
            for hk2, (k2, v2) in list(d.d.items()):
                if isinstance(k2, Sym) and self.veq(k, k2):
                    return True, v2
        return False, None

    def dset(self, d, k, v):
        self.dct_mut(d)
        d.d[self.hkey(k)] = (k, v)

    def mkdict(self, pairs):
        d = VDict()
        for k, v in pairs:
            d.d[self.hkey(k)] = (k, v)
        return d

    # ------------------------------------------------------------------ classes
    def mro_of(self, cls):
        if isinstance(cls, Cls):
            return cls.mro
        if isinstance(cls, type):
            return list(cls.__mro__)
        return [cls, object]

    def compute_mro(self, cls):
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Undecided("inconsistent MRO for " + cls.name)
                out.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        bases = cls.bases or [object]
        return [cls] + merge([self.mro_of(b) for b in bases] + [list(bases)])

    def cls_lookup(self, cls, name):
        for c in self.mro_of(cls):
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name]
        return None

    def cls_lookup_owner(self, cls, name):
        for c in self.mro_of(cls):
            if isinstance(c, Cls) and name in c.attrs:
                return c
        return None

    def issub(self, cls, parent):
        """subclass test -> bool"""
        if isinstance(parent, tuple):
            return any(self.issub(cls, p) for p in parent)
        if isinstance(parent, Unk) or isinstance(cls, Unk):
            return self.truth(Unk("issubclass"))
        if parent is object:
            return True
        if isinstance(parent, Ext):
            r = self.models.ext_issub(cls, parent)
            if r is not None:
                return r
            return parent in [c for c in self.mro_of(cls) if isinstance(c, Ext)]
        for c in self.mro_of(cls):
            if c is parent:
                return True
            if isinstance(c, type) and isinstance(parent, type) and issubclass(c, parent):
                return True
        return False

    TYCLS = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes}

    def class_of(self, v):
        v = self.resolve(v)
        if isinstance(v, CONST):
            return type(v)
        if isinstance(v, tuple):
            return tuple
        if isinstance(v, VList):
            return list
        if isinstance(v, VDict):
            return dict
        if isinstance(v, VSet):
            return frozenset if v.frozen else set
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Sym) and v.ty in self.TYCLS:
            return self.TYCLS[v.ty]
        if isinstance(v, (Cls, type)):
            return type
        if isinstance(v, Fn):
            return Ext("types.FunctionType")
        if isinstance(v, XElem):
            return Ext("etree._Element")
        if isinstance(v, ExtObj):
            return Ext(v.kind)
        return None

    def isinst(self, v, t):
        v = self.resolve(v)
        t = self.resolve(t)
        if isinstance(t, tuple):
            for x in t:
                if self.isinst(v, x):
                    return True
            return False
        if isinstance(t, Unk):
            return self.truth(t)
        if t is type(None) or t is None:
            if isinstance(v, Sym) and v.ty == "any":
                return self.truth(Sym("isinst", (v, "None"), "bool"))
            return v is None
        if isinstance(v, Unk):
            return self.truth(Unk("isinstance of unknown"))
        if isinstance(v, Sym):
            c = self.TYCLS.get(v.ty)
            if c is None:
                return self.truth(Sym("isinst", (v, repr(t)), "bool"))
            if isinstance(t, type):
                return issubclass(c, t)
            r = self.models.ext_isinst(v, t)
            return bool(r) if r is not None else False
        if isinstance(t, Ext):
            r = self.models.ext_isinst(v, t)
            if r is not None:
                return r
        if not isinstance(t, (Cls, type, Ext)):
            if isinstance(t, ExtObj) or isinstance(t, Native):
                return self.truth(Unk("isinstance " + repr(t)))
            self.throw("TypeError", "isinstance() arg 2 must be a type")
        c = self.class_of(v)
        if c is None:
            return False
        if t is type:
            return isinstance(v, (Cls, type))
        return self.issub(c, t)

    def dc_fields(self, cls):
        names = []
        for c in reversed(cls.mro):
            if isinstance(c, Cls) and c.dataclass is not None:
                for n, _, _ in c.dcfields:
                    if n not in names:
                        names.append(n)
        return names

    # ------------------------------------------------------------------ getattr
    def bind(self, f, obj, cls):
        if isinstance(f, Fn) or isinstance(f, Native) or isinstance(f, Partial) and False:
            return Bound(f, obj)
        if isinstance(f, Deco):
            if f.kind == "classmethod":
                return Bound(f.fn, cls)
            if f.kind == "staticmethod":
                return f.fn
            if f.kind == "property":
                return self.call(f.fn, [obj], {})
            if f.kind in ("lru_cache", "contextmanager"):
                return Bound(f, obj)
            if f.kind == "partialmethod":
                return Partial(f.fn.fn, (obj,) + tuple(f.fn.args), f.fn.kwargs)
        return f

    def getattr(self, obj, name):
        v = self.getattr_opt(obj, name)
        if v is self:
            c = self.class_of(obj)
            self.throw("AttributeError", f"'{getattr(c, 'name', None) or getattr(c, '__name__', type(obj).__name__)}' object has no attribute '{name}'")
        return v

    def getattr_opt(self, obj, name):
        """attribute value or self (sentinel) if missing"""
        obj = self.resolve(obj)
        if isinstance(obj, Inst):
            cls = obj.cls
            ca = self.cls_lookup(cls, name)
            if isinstance(ca, Deco) and ca.kind == "property":
                return self.call(ca.fn, [obj], {})
            if isinstance(ca, Deco) and ca.kind == "cached_property":
                if name in obj.attrs:
                    return obj.attrs[name]
                v = self.call(ca.fn, [obj], {})
                self.set_attr_raw(obj.attrs, obj, name, v)
                return v
            if isinstance(ca, Inst):
                g = self.cls_lookup(ca.cls, "__get__")
                if g is not None:
                    return self.call(self.bind(g, ca, ca.cls), [obj, cls], {})
            if name in obj.attrs:
                return obj.attrs[name]
            if ca is not None or self.cls_lookup_owner(cls, name) is not None:
                return self.bind(ca, obj, cls)
            if isinstance(cls, Cls) and cls.enum:
                if name == "value":
                    return obj.attrs["_value_"]
                if name == "name":
                    return obj.attrs["_name_"]
            if name == "__class__":
                return cls
            if name == "__dict__":
                if isinstance(cls, Cls) and getattr(cls.module, "name", cls.module) == "datetime":
                    return self
                d = VDict()
                d.d = AttrView(obj.attrs)
                d.birth = obj.birth
                return d
            if obj.payload is not None:
                return self.getattr_opt(obj.payload, name)
            g = self.cls_lookup(cls, "__getattr__")
            if g is not None:
                return self.call(self.bind(g, obj, cls), [name], {})
            if is_exc_type(cls) or (isinstance(cls, Cls) and any(is_exc_type(c) for c in cls.mro)):
                if name == "args":
                    return obj.attrs.get("args", ())
                if name in ("__cause__", "__context__", "__traceback__"):
                    return obj.attrs.get(name)
                if name in ("with_traceback",):
                    return Native(name, lambda I, a, k: obj)
                if name == "add_note":
                    return Native(name, lambda I, a, k: None)
                for c in self.mro_of(cls):
                    if isinstance(c, Ext):
                        return Sym("ext:attr", (name,), "any")
            r = self.models.object_attr(obj, name)
            if r is not None:
                return r
            for c in self.mro_of(cls):
                if isinstance(c, Ext) and c.name.split(".")[0] not in ("enum", "typing", "typing_extensions", "abc"):
                    return Unk(f"attribute {name} of external base {c.name}")
            return self.unmodelled(cls, name)
        if isinstance(obj, Cls):
            return self.cls_getattr(obj, name)
        if isinstance(obj, Super):
            mro = self.mro_of(obj.obj.cls if isinstance(obj.obj, Inst) else obj.obj)
            try:
                i = [c is obj.cls for c in mro].index(True)
            except ValueError:
                i = -1
            for c in mro[i + 1:]:
                if isinstance(c, Cls) and name in c.attrs:
                    f = c.attrs[name]
                    if isinstance(obj.obj, Inst):
                        return self.bind(f, obj.obj, obj.obj.cls)
                    if isinstance(f, Deco) and f.kind == "classmethod":
                        return Bound(f.fn, obj.obj)
                    if isinstance(f, Deco) and f.kind == "staticmethod":
                        return f.fn
                    return f
                if isinstance(c, Ext):
                    return Unk(f"super attribute {name} of {c.name}")
                if isinstance(c, type) and c is not object and isinstance(obj.obj, Inst):
                    if is_exc_type(c) and name == "__init__":
                        def init(I, a, k, o=obj.obj):
                            o.attrs["args"] = tuple(a)
                        return Native("__init__", init)
                    if is_exc_type(c) and name == "__str__":
                        return Native("__str__", lambda I, a, k, o=obj.obj: I.exc_str(o))
            if isinstance(obj.obj, Inst):
                r = self.models.object_attr(obj.obj, name)
                if r is not None:
                    return r
            else:
                if name == "__new__":
                    return Native("__new__", lambda I, a, k: I.models.object_new(a))
                if name in ("__init_subclass__", "__prepare__"):
                    return Native(name, lambda I, a, k: None)
                if name == "_missing_":
                    def miss(I, a, k, o=obj.obj):
                        I.throw("ValueError", "not a valid enum value")
                    return Native(name, miss)
            return self
        if isinstance(obj, Mod):
            if not obj.loaded and name not in obj.env.vars:
                sub = self.try_submodule(obj, name)
                return sub if sub is not None else self
            if name in obj.env.vars:
                return obj.env.vars[name]
            if name == "__name__":
                return obj.name
            if name == "__dict__":
                return self.mod_dict(obj)
            sub = self.modules.get(obj.name + "." + name)
            if sub is not None:
                return sub
            if "__getattr__" in obj.env.vars:
                return self.call(obj.env.vars["__getattr__"], [name], {})
            if obj.name.split(".")[0] in REAL:
                return Unk(f"{obj.name}.{name}")
            return self
        if isinstance(obj, Unk):
            return Unk(f"{obj.why}.{name}")
        if name == "__dict__" and isinstance(obj, (Sym, str, int, float, bytes, tuple, VList, VDict, VSet, VIter, XElem, type(None))):
            return self
        r = self.models.getattr(obj, name)
        if r is self.models.MISSING:
            return self
        return r

    def mod_dict(self, mod):
        """A module's namespace (writes go through)."""
        d = VDict()
        d.d = AttrView(mod.env.vars)
        d.birth = mod.birth
        return d

    def try_submodule(self, mod, name):
        full = mod.name + "." + name
        if full in self.modules:
            return self.modules[full]
        return None

    def cls_getattr(self, cls, name):
        if cls.enum and name in cls.members:
            return cls.members[name]
        owner = self.cls_lookup_owner(cls, name)
        if owner is not None:
            f = owner.attrs[name]
            if isinstance(f, Deco):
                if f.kind == "classmethod":
                    return Bound(f.fn, cls)
                if f.kind == "staticmethod":
                    return f.fn
            return f
        if name == "__name__" or name == "__qualname__":
            return cls.name
        if name == "__mro__":
            return tuple(cls.mro)
        if name == "mro":
            return Native("mro", lambda I, a, k: VList(cls.mro))
        if name == "__bases__":
            return tuple(cls.bases)
        if name == "__module__":
            return cls.module.name
        if name == "__doc__":
            return None
        if name == "__dict__":
            d = VDict()
            for k, v in cls.attrs.items():
                d.d[("c", k)] = (k, v)
            return d
        if name == "__members__" and cls.enum:
            return self.mkdict(list(cls.members.items()))
        if name == "__class__":
            return type
        if name == "__annotations__":
            return self.mkdict([(n, Unk("ann")) for n in cls.ann])
        if name == "__subclasses__":
            return Native("__subclasses__", lambda I, a, k: VList([c for c in I.all_classes() if cls in c.bases]))
        if name == "__dataclass_fields__" and cls.dataclass is not None:
            return self.mkdict([(n, ExtObj("dcfield", name=n)) for n in self.dc_fields(cls)])
        r = self.models.object_cls_attr(cls, name)
        if r is not None:
            return r
        for c in cls.mro:
            if isinstance(c, Ext):
                return Unk(f"class attribute {name} of external base {c.name}")
        return self.unmodelled(cls, name)

    def unmodelled(self, cls, name):
        """A missing attribute; no verdict where the modelled library class does have it."""
        for c in self.mro_of(cls):
            m = getattr(getattr(c, "module", None), "name", None)
            if m and m.split(".")[0] in REAL and (name in REAL[m.split(".")[0]].get(c.name, "").split() or name in REAL[m.split(".")[0]].get("*", "").split()):
                raise Undecided(f"attribute {name} of {m}.{c.name} has no model")
        return self

    def all_classes(self):
        out = []
        for m in self.modules.values():
            for v in m.env.vars.values():
                if isinstance(v, Cls) and v not in out:
                    out.append(v)
        return out

    # ------------------------------------------------------------------ setattr
    def setattr(self, obj, name, val):
        obj = self.resolve(obj)
        if isinstance(obj, Inst):
            ca = self.cls_lookup(obj.cls, name)
            if isinstance(ca, Deco) and ca.kind == "property":
                if ca.fset is None:
                    self.throw("AttributeError", f"property '{name}' of '{obj.cls.name}' object has no setter")
                self.call(ca.fset, [obj, val], {})
                return
            if isinstance(ca, Inst):
                g = self.cls_lookup(ca.cls, "__set__")
                if g is not None:
                    self.call(self.bind(g, ca, ca.cls), [obj, val], {})
                    return
            sa = self.cls_lookup(obj.cls, "__setattr__")
            if sa is not None:
                self.call(self.bind(sa, obj, obj.cls), [name, val], {})
                return
            dc = next((c for c in self.mro_of(obj.cls) if isinstance(c, Cls) and c.dataclass), None)
            if dc is not None and dc.dataclass.get("frozen"):
                self.throw("AttributeError", f"cannot assign to field '{name}'")
            if isinstance(obj.cls, Cls) and obj.cls.enum:
                pass
            self.set_attr_raw(obj.attrs, obj, name, val)
            return
        if isinstance(obj, Cls):
            self.set_attr_raw(obj.attrs, obj, name, val)
            return
        if isinstance(obj, Fn):
            self.set_attr_raw(obj.attrs, obj, name, val)
            return
        if isinstance(obj, Mod):
            self.set_var(obj.env, name, val)
            return
        if isinstance(obj, Unk):
            return
        self.models.setattr(obj, name, val)

    def delattr(self, obj, name):
        if isinstance(obj, Inst) and name in obj.attrs:
            old = obj.attrs[name]
            if obj.birth < self.p.start:
                self.p.journal.append(lambda: obj.attrs.__setitem__(name, old))
            del obj.attrs[name]
            return
        self.throw("AttributeError", name)

    # -------------------------------------------------------------------- call
    def call(self, f, args, kwargs):
        self.step()
        self.stats.calls += 1
        f = self.resolve(f)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self, *args], kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type):
            return self.models.call_type(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.fn, [*f.args, *args], {**f.kwargs, **kwargs})
        if isinstance(f, Deco):
            if f.kind == "lru_cache":
                return self.call_cached(f, args, kwargs)
            if f.kind == "contextmanager":
                return ExtObj("ctxgen", fn=f.fn, args=list(args), kwargs=dict(kwargs))
            if f.kind in ("staticmethod",):
                return self.call(f.fn, args, kwargs)
            if f.kind == "singledispatch":
                impl = f.fn
                best = None
                cls = self.class_of(args[0]) if args else None
                if cls is None:
                    raise Undecided("singledispatch on unknown")
                for c in self.mro_of(cls):
                    for t, g in f.cache or []:
                        if t is c:
                            best = best or g
                return self.call(best or impl, args, kwargs)
        if isinstance(f, Inst):
            c = self.cls_lookup(f.cls, "__call__")
            if c is not None:
                return self.call(self.bind(c, f, f.cls), args, kwargs)
            self.throw("TypeError", "object is not callable")
        if isinstance(f, Unk):
            return Unk(f"{f.why}()")
        if isinstance(f, (Ext, ExtObj, Sym, Etree)):
            return self.models.call_ext(f, list(args), dict(kwargs))
        self.throw("TypeError", f"{short(f)} object is not callable")

    def call_cached(self, f, args, kwargs):
        key = (tuple(self.hkey(a) for a in args), tuple(sorted((k, self.hkey(v)) for k, v in kwargs.items())))
        if f.cache is None:
            f.cache = {}
        if key in f.cache:
            return f.cache[key]
        v = self.call(f.fn, args, kwargs)
        f.cache[key] = v
        cache = f.cache
        self.p.journal.append(lambda: cache.pop(key, None))
        return v

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        npos = len(a.posonlyargs)
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw("TypeError", f"{f.qual}() takes {len(pos)} positional arguments but {len(args)} were given")
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        extra = None
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos[npos:] or k in kwonly:
                if k in env:
                    self.throw("TypeError", f"{f.qual}() got multiple values for argument '{k}'")
                env[k] = v
            elif a.kwarg is not None:
                if extra is None:
                    extra = {}
                extra[k] = v
            else:
                self.throw("TypeError", f"{f.qual}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.mkdict((extra or {}).items())
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                else:
                    self.throw("TypeError", f"{f.qual}() missing required argument: '{n}'")
        for n in kwonly:
            if n not in env:
                if n in f.kwdefaults:
                    env[n] = f.kwdefaults[n]
                else:
                    self.throw("TypeError", f"{f.qual}() missing required keyword-only argument: '{n}'")
        return env

    def call_fn(self, f, args, kwargs):
        if self.depth > 220:
            raise Undecided("call depth limit in " + f.qual)
        vars_ = self.bind_args(f, args, kwargs)
        self.stats.functions.add((f.module.path, f.qual))
        env = Env(f.env, f.module, "func", f.defcls)
        env.vars = vars_
        first = args[0] if args else None
        if f.isgen:
            return VIter(self.run_generator(f, env, first), "generator")
        return self.run_body(f, env, first)

    def run_body(self, f, env, first):
        self.depth += 1
        self.frames.append((f, env, first))
        saved = self.cur
        try:
            if isinstance(f.node, ast.Lambda):
                self.cur = (f.module, f.node)
                return self.ev(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur = saved

    def run_generator(self, f, env, first):
        """Executed (eagerly) at the first consumption."""
        items = []
        pending = None
        self.frames.append((f, env, first))
        self.depth += 1
        saved = self.cur
        env.vars["%yield"] = items.append
        try:
            try:
                self.block(f.node.body, env)
            except _Return:
                pass
            except AbsExc as e:
                pending = e
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur = saved
        for x in items:
            yield x
        if pending is not None:
            raise pending

    def run_ctx(self, f, args, kwargs, body):
        """Run a generator-based context manager around body(value)."""
        vars_ = self.bind_args(f, args, kwargs)
        env = Env(f.env, f.module, "func", f.defcls)
        env.vars = vars_
        env.vars["%yield"] = body
        self.frames.append((f, env, args[0] if args else None))
        try:
            try:
                self.block(f.node.body, env)
            except _Return as r:
                if getattr(r, "outer", False):
                    raise
        finally:
            self.frames.pop()

    def instantiate(self, cls, args, kwargs):
        if cls.enum:
            return self.enum_call(cls, args, kwargs)
        new = self.cls_lookup(cls, "__new__")
        if new is not None:
            if isinstance(new, Deco):
                new = new.fn
            obj = self.call(new, [cls, *args], kwargs)
            if not isinstance(obj, Inst) or not self.issub(obj.cls, cls):
                return obj
        else:
            obj = Inst(cls)
        if cls.namedtuple:
            return self.namedtuple_new(cls, args, kwargs)
        owner = self.cls_lookup_owner(cls, "__init__")
        dc = next((c for c in cls.mro if isinstance(c, Cls) and (c.dataclass is not None or "__init__" in c.attrs)), None)
        if dc is not None and dc.dataclass is not None and "__init__" not in dc.attrs and dc.dataclass.get("init", True):
            self.dataclass_init(dc, obj, args, kwargs)
            return obj
        if owner is None:
            pb = next((c for c in cls.mro if isinstance(c, type)), object)
            if is_exc_type(pb):
                obj.attrs["args"] = tuple(args)
                return obj
            if pb in (dict, list, str, tuple, set, int, float):
                obj.payload = self.models.call_type(pb, args, kwargs)
                return obj
            if any(isinstance(c, Ext) for c in cls.mro):
                return obj
            if args or kwargs:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
            return obj
        if is_exc_type(next((c for c in cls.mro if isinstance(c, type)), object)):
            obj.attrs.setdefault("args", tuple(args))
        self.call(self.bind(owner.attrs["__init__"], obj, cls), args, kwargs)
        return obj

    def dataclass_init(self, dc, obj, args, kwargs):
        names, defaults = [], {}
        for c in reversed(dc.mro):
            if isinstance(c, Cls) and c.dataclass is not None:
                for n, d, fld in c.dcfields:
                    if fld is not None and fld.get("init") is False:
                        if fld.get("default_factory") is not None:
                            obj.attrs[n] = self.call(fld["default_factory"], [], {})
                        continue
                    if n not in names:
                        names.append(n)
                    if d is not self or fld:
                        defaults[n] = (d, fld)
        if len(args) > len(names):
            self.throw("TypeError", f"{dc.name}() takes too many arguments")
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in names:
                self.throw("TypeError", f"{dc.name}() got an unexpected keyword argument '{k}'")
            if k in vals:
                self.throw("TypeError", f"{dc.name}() got multiple values for argument '{k}'")
            vals[k] = v
        for n in names:
            if n in vals:
                obj.attrs[n] = vals[n]
            elif n in defaults:
                d, fld = defaults[n]
                if fld and fld.get("default_factory") is not None:
                    obj.attrs[n] = self.call(fld["default_factory"], [], {})
                elif d is not self:
                    obj.attrs[n] = d
                else:
                    self.throw("TypeError", f"{dc.name}() missing required argument: '{n}'")
            else:
                self.throw("TypeError", f"{dc.name}() missing required argument: '{n}'")
        post = self.cls_lookup(obj.cls, "__post_init__")
        if post is not None:
            self.call(self.bind(post, obj, obj.cls), [], {})

    def namedtuple_new(self, cls, args, kwargs):
        obj = Inst(cls)
        self.dataclass_init(cls, obj, args, kwargs)
        obj.payload = tuple(obj.attrs[n] for n in self.dc_fields(cls))
        return obj

    def enum_call(self, cls, args, kwargs):
        if len(args) != 1 or kwargs:
            if "value" in kwargs and not args:
                args = [kwargs["value"]]
            else:
                self.throw("TypeError", "bad enum call")
        v = self.resolve(args[0])
        if isinstance(v, Inst) and v.cls is cls:
            return v
        for m in cls.members.values():
            if self.veq(m.attrs["_value_"], v):
                return m
        f = self.cls_lookup(cls, "_missing_")
        if f is not None:
            r = self.call(self.bind(f, None, cls), [v], {})
            if isinstance(r, Inst) and r.cls is cls:
                return r
            if r is not None:
                self.throw("TypeError", "error in _missing_")
        self.throw("ValueError", f"not a valid {cls.name}")

    # ------------------------------------------------------------------- iterate
    def iterate(self, v):
        """python generator over abstract elements"""
        v = self.resolve(v)
        if isinstance(v, tuple):
            yield from v
            return
        if isinstance(v, VList):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, VDict):
            n = len(v.d)
            for k, _ in list(v.d.values()):
                yield k
                if len(v.d) != n:
                    self.throw("RuntimeError", "dictionary changed size during iteration")
            return
        if isinstance(v, VSet):
            yield from list(v.d.values())
            return
        if isinstance(v, VIter):
            while True:
                try:
                    x = next(v.gen)
                except StopIteration:
                    return
                yield x
            return
        if isinstance(v, str):
            yield from v
            return
        if isinstance(v, bytes):
            yield from v
            return
        if isinstance(v, XElem):
            i = 0
            while i < len(v.children):
                yield v.children[i]
                i += 1
            return
        if isinstance(v, Cls) and v.enum:
            seen = []
            for m in v.members.values():
                if m not in seen:
                    seen.append(m)
                    yield m
            return
        if isinstance(v, Inst):
            f = self.cls_lookup(v.cls, "__iter__")
            if f is not None:
                r = self.call(self.bind(f, v, v.cls), [], {})
                if isinstance(r, Inst):
                    nx = self.cls_lookup(r.cls, "__next__")
                    if nx is None:
                        self.throw("TypeError", "iter() returned non-iterator")
                    k = 0
                    while True:
                        k += 1
                        if k > 200:
                            raise Undecided("unbounded iterator")
                        try:
                            x = self.call(self.bind(nx, r, r.cls), [], {})
                        except AbsExc as e:
                            if self.issub(e.val.cls, StopIteration):
                                return
                            raise
                        yield x
                yield from self.iterate(r)
                return
            g = self.cls_lookup(v.cls, "__getitem__")
            if g is not None:
                i = 0
                while True:
                    try:
                        x = self.call(self.bind(g, v, v.cls), [i], {})
                    except AbsExc as e:
                        if self.issub(e.val.cls, IndexError):
                            return
                        raise
                    yield x
                    i += 1
            if v.payload is not None:
                yield from self.iterate(v.payload)
                return
            self.throw("TypeError", f"'{getattr(v.cls, 'name', '?')}' object is not iterable")
        if isinstance(v, Sym):
            if v.ty in ("int", "float", "bool"):
                self.throw("TypeError", f"'{v.ty}' object is not iterable")
            # unknown length: nothing, or two representative elements
            if v.ty == "str":
                raise Undecided("iterating characters of " + short(v))
            if self.truth(v):
                yield Sym("elem", (v, 0), "any")
                yield Sym("elem", (v, 1), "any")
            return
        if isinstance(v, Unk):
            raise Undecided("iterating unknown " + v.why + " at " + self.loc())
        r = self.models.iterate(v)
        if r is not None:
            yield from r
            return
        self.throw("TypeError", f"{short(v)} object is not iterable")

    def check_iterable(self, v):
        v = self.resolve(v)
        if v is None or isinstance(v, (bool, int, float, Fn, Native, type)) or (isinstance(v, Sym) and v.ty in ("int", "float", "bool")):
            self.throw("TypeError", f"'{short(v)}' object is not iterable")
        if isinstance(v, Inst) and v.payload is None and self.cls_lookup(v.cls, "__iter__") is None and self.cls_lookup(v.cls, "__getitem__") is None and not any(isinstance(c, Ext) for c in self.mro_of(v.cls)):
            self.throw("TypeError", f"'{getattr(v.cls, 'name', '?')}' object is not iterable")
        if isinstance(v, Cls) and not v.enum:
            self.throw("TypeError", "class is not iterable")
        if isinstance(v, Inst) and isinstance(v.cls, Cls) and v.cls.enum and not isinstance(v.payload, (str, tuple)) and self.cls_lookup(v.cls, "__iter__") is None:
            self.throw("TypeError", f"'{v.cls.name}' object is not iterable")
        if not isinstance(v, (tuple, VList, VDict, VSet, VIter, str, bytes, XElem, Cls, Inst, Sym, Unk)) and self.models.iterate(v) is None:
            self.throw("TypeError", f"{short(v)} object is not iterable")

    # ----------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.st(s, env)

    def st(self, s, env):
        self.step()
        self.cur = (env.module, s)
        m = self.ST.get(type(s))
        if m is None:
            raise Undecided(f"statement {type(s).__name__} at {self.loc()}")
        m(self, s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if env.kind == "class" and isinstance(s.target, ast.Name):
            env.vars.setdefault("%ann", []).append((s.target.id, s.annotation))
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.augop(s.op, cur, self.ev(s.value, env))
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            n = self.mangle(t.attr, env)
            v = self.augop(s.op, self.getattr(o, n), self.ev(s.value, env))
            self.setattr(o, n, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            v = self.augop(s.op, self.getitem(o, i), self.ev(s.value, env))
            self.setitem(o, i, v)

    def augop(self, op, cur, val):
        cur = self.resolve(cur)
        if isinstance(cur, VList) and isinstance(op, ast.Add):
            self.lst_mut(cur)
            cur.items.extend(list(self.iterate(val)))
            return cur
        if isinstance(cur, VDict) and isinstance(op, ast.BitOr):
            self.models.dict_update(cur, val)
            return cur
        if isinstance(cur, VSet) and isinstance(op, ast.BitOr):
            for x in self.iterate(val):
                cur.d[self.hkey(x)] = x
            return cur
        return self.binop(op, cur, val)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Undecided("assignment target")

    def unpack(self, elts, v, env):
        v = self.resolve(v)
        if isinstance(v, Unk) or (isinstance(v, Sym) and v.ty not in ("str", "int", "float", "bool")):
            for i, e in enumerate(elts):
                self.assign(e, Unk("unpack") if isinstance(v, Unk) else Sym("elem", (v, i)), env)
            return
        self.check_iterable(v)
        items = list(self.iterate(v))
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if star is None:
            if len(items) != len(elts):
                self.throw("ValueError", "unpack mismatch")
            for e, x in zip(elts, items):
                self.assign(e, x, env)
        else:
            after = len(elts) - star - 1
            if len(items) < len(elts) - 1:
                self.throw("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:star], items):
                self.assign(e, x, env)
            self.assign(elts[star].value, VList(items[star:len(items) - after]), env)
            for e, x in zip(elts[star + 1:], items[len(items) - after:]):
                self.assign(e, x, env)

    def store(self, name, v, env):
        name = self.mangle(name, env)
        e = env
        while e.kind == "comp":
            if name in e.vars:
                break
            e = e.parent
        if e.globals and name in e.globals:
            self.set_var(e.module.env, name, v)
            return
        if e.nonlocals and name in e.nonlocals:
            q = e.parent
            while q is not None:
                if q.kind != "class" and name in q.vars:
                    self.p.journal.append(lambda d=q.vars, old=q.vars[name]: d.__setitem__(name, old))
                    q.vars[name] = v
                    return
                q = q.parent
        if e.kind == "module":
            self.set_var(e, name, v)
        else:
            e.vars[name] = v

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__") and env.defcls is not None:
            return f"_{env.defcls.name.lstrip('_')}{name}"
        return name

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.kind == "class" and not first:
                e = e.parent
                continue
            if name in e.vars:
                return e.vars[name]
            if e.kind != "comp":
                first = False
            e = e.parent
        m = env.module.env
        if name in m.vars:
            return m.vars[name]
        if name.startswith("__") and env.defcls is not None and not name.endswith("__"):
            mn = self.mangle(name, env)
            if mn != name:
                return self.lookup(mn, env)
        if name == "__class__" and env.defcls is not None:
            return env.defcls
        b = self.models.builtin(name)
        if b is not None:
            return b[0]
        if name == "__name__":
            return env.module.name
        if name == "__file__":
            return env.module.path
        if name == "__doc__":
            return None
        # local variable not assigned on this path?
        self.throw("NameError", f"name '{name}' is not defined")

    def st_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def st_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_For(self, s, env):
        it = self.ev(s.iter, env)
        self.check_iterable(it)
        n = 0
        for x in self.iterate(it):
            n += 1
            if n > 3000:
                raise Undecided("loop bound at " + self.loc())
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
            self.cur = (env.module, s)
        self.block(s.orelse, env)

    def st_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 20000:
                raise Undecided("while bound at " + self.loc())
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def st_Break(self, s, env):
        raise _Break

    def st_Continue(self, s, env):
        raise _Continue

    def st_Assert(self, s, env):
        t = self.ev(s.test, env)
        if not self.truth(t):
            self.throw("AssertionError", self.ev(s.msg, env) if s.msg else "")

    def st_Raise(self, s, env):
        if s.exc is None:
            if self.excstack:
                raise AbsExc(self.excstack[-1], self.loc())
            self.throw("RuntimeError", "No active exception to reraise")
        v = self.ev(s.exc, env)
        v = self.resolve(v)
        if isinstance(v, (Cls, type)):
            v = self.call(v, [], {})
        if s.cause is not None:
            c = self.ev(s.cause, env)
            if isinstance(v, Inst):
                v.attrs["__cause__"] = c
        if isinstance(v, Ext):
            e = Inst(v)
            raise AbsExc(e, self.loc())
        if not isinstance(v, Inst):
            raise Undecided("raise of unknown value")
        raise AbsExc(v, self.loc())

    def exc_matches(self, exc, t):
        t = self.resolve(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, VList):
            return any(self.exc_matches(exc, x) for x in t.items)
        if isinstance(t, Unk):
            return self.truth(t)
        return self.issub(exc.cls, t)

    def st_Try(self, s, env):
        def run():
            try:
                self.block(s.body, env)
            except AbsExc as e:
                for h in s.handlers:
                    saved = self.cur
                    ok = h.type is None
                    if not ok:
                        self.cur = (env.module, h)
                        ok = self.exc_matches(e.val, self.ev(h.type, env))
                        self.cur = saved
                    if ok:
                        if h.name:
                            self.store(h.name, e.val, env)
                        self.excstack.append(e.val)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.excstack.pop()
                        return
                raise
            self.block(s.orelse, env)
        if not s.finalbody:
            run()
            return
        try:
            run()
        except (AbsExc, _Return, _Break, _Continue):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def st_With(self, s, env, idx=0):
        if idx >= len(s.items):
            self.block(s.body, env)
            return
        it = s.items[idx]
        cm = self.ev(it.context_expr, env)

        def body(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self.st_With(s, env, idx + 1)

        if isinstance(cm, ExtObj) and cm.kind == "ctxgen":
            fn = cm.attrs["fn"]
            if isinstance(fn, Fn):
                state = {}

                def guarded(v):
                    try:
                        body(v)
                    except _Return as r:
                        r.outer = True
                        raise
                self.run_ctx(fn, cm.attrs["args"], cm.attrs["kwargs"], guarded)
                return
            raise Undecided("context manager")
        if isinstance(cm, Inst):
            en = self.cls_lookup(cm.cls, "__enter__")
            ex = self.cls_lookup(cm.cls, "__exit__")
            if en is None or ex is None:
                self.throw("AttributeError", "__enter__")
            v = self.call(self.bind(en, cm, cm.cls), [], {})
            try:
                body(v)
            except AbsExc as e:
                r = self.call(self.bind(ex, cm, cm.cls), [e.val.cls, e.val, None], {})
                if self.truth(r):
                    return
                raise
            except (_Return, _Break, _Continue):
                self.call(self.bind(ex, cm, cm.cls), [None, None, None], {})
                raise
            self.call(self.bind(ex, cm, cm.cls), [None, None, None], {})
            return
        self.models.with_ext(cm, body)

    def st_FunctionDef(self, s, env):
        v = self.mkfn(s, env)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            v = self.models.decorate(dv, v)
        self.store(s.name, v, env)

    def is_generator(self, node):
        r = self._isgen_cache.get(node)
        if r is None:
            r = False
            stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            self._isgen_cache[node] = r
        return r

    def mkfn(self, s, env):
        cenv = env
        defcls = env.defcls
        while cenv is not None and cenv.kind == "class":
            cenv = cenv.parent
        f = Fn(s, cenv if cenv is not None else env.module.env, env.module, defcls if env.kind == "class" or defcls is not None else None, getattr(s, "name", "<lambda>"))
        f.defaults = [self.ev(d, env) for d in s.args.defaults]
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                f.kwdefaults[a.arg] = self.ev(d, env)
        f.isgen = self.is_generator(s)
        return f

    def st_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.ev(b, env)
            v = self.resolve(v)
            if isinstance(v, Ext) and self.models.ignorable_base(v):
                continue
            if isinstance(v, ExtObj) and v.kind == "typing":
                if v.attrs.get("base") is not None:
                    bases.append(v.attrs["base"])
                continue
            bases.append(v)
        cls = Cls(s.name, bases, env.module, s)
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords if k.arg}
        if any(isinstance(b, Unk) for b in bases):
            cls.bases = [b for b in bases if not isinstance(b, Unk)] + [Ext("unknown_base")]
        cls.namedtuple = any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in cls.bases)
        if cls.namedtuple:
            cls.bases = [b for b in cls.bases if not (isinstance(b, Ext) and b.name == "typing.NamedTuple")]
        cls.enum = any((isinstance(b, Cls) and b.enum) or (isinstance(b, Ext) and b.name in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag")) for b in cls.bases)
        if cls.enum:
            cls.bases = [b for b in cls.bases if not (isinstance(b, Ext) and b.name.startswith("enum."))] + [b for b in cls.bases if isinstance(b, Ext) and b.name.startswith("enum.")]
        cls.mro = self.compute_mro(cls)
        cenv = Env(env, env.module, "class", cls)
        cenv.defcls = cls
        self.block(s.body, cenv)
        ann = cenv.vars.pop("%ann", [])
        cls.ann = [n for n, _ in ann]
        cls.attrs.update(cenv.vars)
        if cls.namedtuple:
            cls.dataclass = {"frozen": True, "eq": True}
            cls.dcfields = [(n, cls.attrs.get(n, self), None) for n in cls.ann]
        if cls.enum:
            self.mkenum(cls, cenv)
        # hash suppression handled in hkey; __init_subclass__ / __set_name__
        for n, v in list(cls.attrs.items()):
            if isinstance(v, Inst):
                g = self.cls_lookup(v.cls, "__set_name__")
                if g is not None:
                    self.call(self.bind(g, v, v.cls), [cls, n], {})
        for c in cls.mro[1:]:
            if isinstance(c, Cls) and "__init_subclass__" in c.attrs:
                f = c.attrs["__init_subclass__"]
                f = f.fn if isinstance(f, Deco) else f
                self.call(f, [cls], kw)
                break
        v = cls
        for d in reversed(s.decorator_list):
            v = self.models.decorate(self.ev(d, env), v)
        self.store(s.name, v, env)

    def mkenum(self, cls, cenv):
        auto = 0
        strmix = any(c is str for c in cls.mro) or any(isinstance(c, Ext) and c.name == "enum.StrEnum" for c in cls.mro)
        for n, v in list(cls.attrs.items()):
            if n.startswith("_") or isinstance(v, (Fn, Deco, Native, Cls)):
                continue
            if isinstance(v, ExtObj) and v.kind == "enum.auto":
                auto += 1
                v = n.lower() if strmix else auto
            dup = next((m for m in cls.members.values() if m.attrs["_value_"] is v or (isinstance(v, CONST) and m.attrs["_value_"] == v)), None)
            if dup is not None:
                cls.members[n] = dup
                del cls.attrs[n]
                continue
            m = Inst(cls)
            m.attrs["_name_"] = n
            m.attrs["_value_"] = v
            if strmix:
                m.payload = v
            cls.members[n] = m
            del cls.attrs[n]

    def st_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                self.store(a.name.split(".")[0], self.import_module(a.name.split(".")[0]), env)

    def st_ImportFrom(self, s, env):
        base = s.module or ""
        if s.level:
            pk = env.module.name.split(".")
            is_pkg = env.module.path.endswith("__init__.py")
            pk = pk[:len(pk) - s.level + (1 if is_pkg else 0)]
            base = ".".join(pk + ([base] if base else []))
        if base == "__future__":
            return
        m = self.import_module(base)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    al = m.env.vars.get("__all__")
                    names = [x for x in self.iterate(al)] if al is not None else [n for n in m.env.vars if not n.startswith("_")]
                    for n in names:
                        self.store(n, self.getattr(m, n), env)
                continue
            if isinstance(m, Mod):
                if a.name in m.env.vars:
                    v = m.env.vars[a.name]
                else:
                    sub = self.import_module(base + "." + a.name, optional=True)
                    if sub is None:
                        v = self.getattr_opt(m, a.name)
                        if v is self and base.split(".")[0] in REAL:
                            v = Unk(f"{base}.{a.name}")
                        if v is self:
                            self.throw("ImportError", f"cannot import name '{a.name}' from '{base}'")
                    else:
                        v = sub
            else:
                v = self.getattr(m, a.name)
            self.store(a.asname or a.name, v, env)

    def import_module(self, name, optional=False):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        path = None
        if top == "fastkml":
            base = os.path.join(self.root, *name.split("."))
        else:
            base = os.path.join(self.stubdir, *name.split("."))
        if os.path.isfile(base + ".py"):
            path = base + ".py"
        elif os.path.isfile(os.path.join(base, "__init__.py")):
            path = os.path.join(base, "__init__.py")
        if path is None:
            if optional:
                return None
            if top == "fastkml":
                self.throw("ModuleNotFoundError", f"No module named '{name}'")
            return self.models.ext_module(name)
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
        if name in self.modules:
            return self.modules[name]
        rel = os.path.relpath(path, self.root) if top == "fastkml" else "stub:" + name
        m = Mod(name, rel)
        self.modules[name] = m
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        m.tree = ast.parse(src, path)
        saved = self.cur
        try:
            self.block(m.tree.body, m.env)
        finally:
            self.cur = saved
        m.loaded = True
        if "." in name:
            par = self.modules.get(name.rsplit(".", 1)[0])
            if par is not None:
                par.env.vars.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def run_source(self, src, name):
        """A user's module given as text."""
        m = Mod(name, "<user>")
        m.tree = ast.parse(src, name)
        saved = self.cur
        try:
            self.block(m.tree.body, m.env)
        finally:
            self.cur = saved
        m.loaded = True
        return m

    def st_Global(self, s, env):
        e = env
        e.globals = (e.globals or set()) | set(s.names)

    def st_Nonlocal(self, s, env):
        env.nonlocals = (env.nonlocals or set()) | set(s.names)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), self.mangle(t.attr, env))
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self.ev(t.value, env), self.ev(t.slice, env))

    def st_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, subj, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def match_pat(self, p, v, env):
        v = self.resolve(v)
        if isinstance(p, ast.MatchValue):
            return self.veq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            t = self.ev(p.cls, env)
            if not self.isinst(v, t):
                return False
            if p.patterns:
                if t in (str, int, float, bool, list, dict, tuple, set, bytes) and len(p.patterns) == 1:
                    if not self.match_pat(p.patterns[0], v, env):
                        return False
                else:
                    raise Undecided("positional class pattern")
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                a = self.getattr_opt(v, n)
                if a is self or not self.match_pat(q, a, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, VList)):
                if isinstance(v, (Unk, Sym)):
                    raise Undecided("sequence pattern on unknown")
                return False
            items = list(self.iterate(v))
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            if star is None:
                return len(items) == len(p.patterns) and all(self.match_pat(q, x, env) for q, x in zip(p.patterns, items))
            after = len(p.patterns) - star - 1
            if len(items) < star + after:
                return False
            if not all(self.match_pat(q, x, env) for q, x in zip(p.patterns[:star], items)):
                return False
            if p.patterns[star].name:
                self.store(p.patterns[star].name, VList(items[star:len(items) - after]), env)
            return all(self.match_pat(q, x, env) for q, x in zip(p.patterns[star + 1:], items[len(items) - after:]))
        raise Undecided("pattern")

    # ----------------------------------------------------------------- expressions
    def ev(self, e, env):
        self.p.steps += 1
        m = self.EV.get(type(e))
        if m is None:
            raise Undecided(f"expression {type(e).__name__} at {self.loc()}")
        return m(self, e, env)

    def ev_Constant(self, e, env):
        if e.value is Ellipsis:
            return ELLIPSIS
        return e.value

    def ev_Name(self, e, env):
        return self.lookup(e.id, env)

    def ev_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, self.mangle(e.attr, env))

    def ev_Call(self, e, env):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            for f, fe, first in reversed(self.frames):
                if f.defcls is not None:
                    return Super(f.defcls, first)
            raise Undecided("super()")
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals") and not e.args:
            src = env if e.func.id == "locals" else env.module.env
            while src.kind == "comp":
                src = src.parent
            if src.kind == "module":
                return self.mod_dict(src.module)
            return self.mkdict([(k, v) for k, v in src.vars.items() if not k.startswith("%")])
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                self.check_iterable(v)
                args.extend(self.iterate(v))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, env))
                if isinstance(d, VDict):
                    for kk, vv in list(d.d.values()):
                        if not isinstance(kk, str):
                            if isinstance(kk, (Sym, Unk)):
                                raise Undecided("** with unknown key")
                            self.throw("TypeError", "keywords must be strings")
                        if kk in kwargs:
                            self.throw("TypeError", f"got multiple values for keyword argument '{kk}'")
                        kwargs[kk] = vv
                elif isinstance(d, Inst) and isinstance(d.payload, VDict):
                    for kk, vv in list(d.payload.d.values()):
                        kwargs[kk] = vv
                elif isinstance(d, Unk):
                    raise Undecided("** of unknown")
                else:
                    self.throw("TypeError", "argument after ** must be a mapping")
            else:
                if k.arg in kwargs:
                    self.throw("TypeError", f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = self.ev(k.value, env)
        saved = self.cur
        self.cur = (env.module, e)
        try:
            return self.call(f, args, kwargs)
        finally:
            self.cur = saved

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.resolve(v)
            if not isand and t:
                return self.resolve(v)
        return v

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        v = self.resolve(v)
        if isinstance(v, (int, float)):
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            if isinstance(e.op, ast.Invert):
                return ~v
        if isinstance(v, Sym):
            return Sym("neg" if isinstance(e.op, ast.USub) else type(e.op).__name__, (v,), v.ty)
        if isinstance(v, Unk):
            return v
        self.throw("TypeError", "bad operand type for unary op")

    def ev_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.models.binop(op, self.resolve(a), self.resolve(b))

    def ev_Compare(self, e, env):
        left = self.ev(e.left, env)
        n = len(e.ops)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.compare(op, left, right)
            if i < n - 1 and not self.truth(res):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            r = self.is_(a, b)
            if isinstance(r, bool):
                return r != neg
            return (not self.truth(r)) if neg else r
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            if isinstance(r, bool):
                return not r
            if isinstance(r, Sym):
                return Sym("not", (r,), "bool")
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return not r
            return r
        return self.models.order(op, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk("is unknown")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym):
                if y is None:
                    if x.ty == "any":
                        return Sym("isnone", (x,), "bool")
                    return False
                if isinstance(y, bool):
                    return self.eq(x, y) if x.ty in ("bool", "any") else False
                if isinstance(y, Sym):
                    return x == y
                return False
        if isinstance(a, CONST) and isinstance(b, CONST):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == () and b == ()
        if isinstance(a, (Ext, Etree)) and isinstance(b, (Ext, Etree)):
            return a == b
        if isinstance(a, Bound):
            return False
        return False

    def contains(self, c, x):
        c = self.resolve(c)
        if isinstance(c, str):
            x = self.resolve(x)
            if isinstance(x, str):
                return x in c
            if isinstance(x, Sym):
                return self.truth(Sym("in", (x, c), "bool"))
            if isinstance(x, Unk):
                return self.truth(x)
            self.throw("TypeError", "'in <string>' requires string as left operand")
        if isinstance(c, Sym) and c.ty == "str":
            x = self.resolve(x)
            if c.op == "cat" and isinstance(x, str) and any(isinstance(a, str) and x in a for a in c.args):
                return True
            if isinstance(x, str) and not self.models.may_contain(c, x):
                return False
            return self.truth(Sym("in", (x, c), "bool"))
        if isinstance(c, VDict):
            return self.dget(c, x)[0]
        if isinstance(c, VSet):
            hk = self.hkey(x)
            if hk in c.d:
                return True
            x = self.resolve(x)
            if isinstance(x, (Sym, Unk)):
                return any(self.veq(x, y) for y in list(c.d.values()))
            return any(self.veq(x, y) for y in list(c.d.values()) if isinstance(y, (Sym, Unk)))
        if isinstance(c, Inst):
            f = self.cls_lookup(c.cls, "__contains__")
            if f is not None:
                return self.truth(self.call(self.bind(f, c, c.cls), [x], {}))
        if isinstance(c, Cls) and c.enum:
            if isinstance(x, Inst) and x.cls is c:
                return True
            return any(self.veq(m.attrs["_value_"], x) for m in c.members.values())
        if isinstance(c, Unk):
            return self.truth(Unk("in unknown"))
        r = self.models.contains(c, x)
        if r is not None:
            return r
        self.check_iterable(c)
        for y in self.iterate(c):
            if y is x or self.veq(y, x):
                return True
        return False

    def ev_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def ev_Lambda(self, e, env):
        return self.mkfn(e, env)

    def ev_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def ev_List(self, e, env):
        return VList(self.elts(e.elts, env))

    def ev_Set(self, e, env):
        s = VSet()
        for x in self.elts(e.elts, env):
            s.d.setdefault(self.hkey(x), x)
        return s

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                self.check_iterable(v)
                out.extend(self.iterate(v))
            else:
                out.append(self.ev(x, env))
        return out

    def ev_Dict(self, e, env):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                d.d[self.hkey(kk)] = (kk, self.ev(v, env))
        return d

    def ev_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                if v.conversion == 114:
                    x = self.models.repr_(x)
                elif v.conversion == 115:
                    x = self.models.str_(x)
                parts.append(self.models.format_(x, spec))
        return self.models.cat(parts)

    def ev_FormattedValue(self, e, env):
        return self.models.format_(self.ev(e.value, env), self.ev(e.format_spec, env) if e.format_spec else "")

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        x = env
        while x.kind == "comp":
            x = x.parent
        self.store(e.target.id, v, x)
        return v

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, Ext) and self.models.is_typing(o):
            return ExtObj("typing", base=None)
        if isinstance(o, ExtObj) and o.kind == "typing":
            return o
        if isinstance(o, type) or (isinstance(o, Cls) and not o.enum):
            return ExtObj("typing", base=o)
        return self.getitem(o, self.ev(e.slice, env))

    def ev_Slice(self, e, env):
        return ExtObj("slice", lower=self.ev(e.lower, env) if e.lower else None, upper=self.ev(e.upper, env) if e.upper else None, step=self.ev(e.step, env) if e.step else None)

    def getitem(self, o, i):
        return self.models.getitem(self.resolve(o), self.resolve(i))

    def setitem(self, o, i, v):
        self.models.setitem(self.resolve(o), self.resolve(i), v)

    def ev_Starred(self, e, env):
        raise Undecided("starred")

    # comprehensions
    def comp(self, gens, env, emit, i=0, first=None):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        it = first if i == 0 else self.ev(g.iter, env)
        self.check_iterable(it)
        n = 0
        for x in self.iterate(it):
            n += 1
            if n > 3000:
                raise Undecided("comprehension bound")
            e2 = Env(env, env.module, "comp")
            self.bind_comp(g.target, x, e2)
            if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                self.comp(gens, e2, emit, i + 1)

    def bind_comp(self, t, x, e2):
        if isinstance(t, ast.Name):
            e2.vars[t.id] = x
        else:
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    e2.vars[n.id] = None
            self.assign(t, x, e2)

    def ev_ListComp(self, e, env):
        out = []
        src = self.ev(e.generators[0].iter, env)
        self.comp(e.generators, env, lambda en: out.append(self.ev(e.elt, en)), 0, src)
        rep = isinstance(src, VList) and src.rep and not any(g.ifs for g in e.generators) and len(e.generators) == 1
        return VList(out, rep=rep)

    def ev_SetComp(self, e, env):
        s = VSet()

        def emit(en):
            x = self.ev(e.elt, en)
            s.d.setdefault(self.hkey(x), x)
        self.comp(e.generators, env, emit, 0, self.ev(e.generators[0].iter, env))
        return s

    def ev_DictComp(self, e, env):
        d = VDict()

        def emit(en):
            k = self.ev(e.key, en)
            d.d[self.hkey(k)] = (k, self.ev(e.value, en))
        self.comp(e.generators, env, emit, 0, self.ev(e.generators[0].iter, env))
        return d

    def ev_GeneratorExp(self, e, env):
        src = self.ev(e.generators[0].iter, env)
        self.check_iterable(src)
        frames = list(self.frames)
        cur = self.cur

        def gen():
            g = e.generators[0]
            for x in self.iterate(src):
                saved, savedcur = self.frames, self.cur
                self.frames, self.cur = frames, cur
                try:
                    e2 = Env(env, env.module, "comp")
                    self.bind_comp(g.target, x, e2)
                    if not all(self.truth(self.ev(c, e2)) for c in g.ifs):
                        continue
                    if len(e.generators) == 1:
                        outs = [self.ev(e.elt, e2)]
                    else:
                        outs = []
                        self.comp(e.generators[1:], e2, lambda en: outs.append(self.ev(e.elt, en)), 0, self.ev(e.generators[1].iter, e2))
                finally:
                    self.frames, self.cur = saved, savedcur
                yield from outs
        return VIter(gen(), "generator")

    def ev_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        self.do_yield(v, env)
        return None

    def do_yield(self, v, env):
        x = env
        while x is not None and "%yield" not in x.vars:
            x = x.parent
        if x is None:
            raise Undecided("yield")
        x.vars["%yield"](v)

    def ev_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        self.check_iterable(v)
        for x in self.iterate(v):
            self.do_yield(x, env)
        return None

    def exc_str(self, o):
        a = o.attrs.get("args", ())
        if len(a) == 0:
            return ""
        if len(a) == 1:
            return self.models.str_(a[0])
        return self.models.repr_(a)


Interp.ST = {getattr(ast, n[3:]): f for n, f in vars(Interp).items() if n.startswith("st_") and hasattr(ast, n[3:])}
Interp.EV = {getattr(ast, n[3:]): f for n, f in vars(Interp).items() if n.startswith("ev_") and hasattr(ast, n[3:])}


def _throw_ext(self, name):
    e = Inst(Ext(name))
    e.attrs["args"] = ()
    raise AbsExc(e, self.loc())


Interp.throw_ext = _throw_ext
_old_mro_of = Interp.mro_of


def _mro_of(self, cls):
    if isinstance(cls, Ext):
        import models
        return [cls, *[c for t in models.EXT_EXC.get(cls.name, ()) for c in t.__mro__], object] if cls.name in models.EXT_EXC else [cls, object]
    return _old_mro_of(self, cls)


Interp.mro_of = _mro_of
