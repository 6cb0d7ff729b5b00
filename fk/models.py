"""Transfer functions for builtins, the standard library, and the XML
implementations, over abstract values.  This is the trusted base of the
analysis (together with the stubs for pygeoif, arrow and datetime)."""
from __future__ import annotations

import ast
import builtins
import itertools
import keyword
import math
import re
import urllib.parse

from values import *  # noqa: F403
from values import AbsExc, Bound, Cls, Deco, Env, Etree, Ext, ExtObj, Fn, Inst, Mod, Native, Partial, Super, Sym, Undecided, Unk, VDict, VIter, VList, VSet, XElem, XTree, NOTIMPL, ELLIPSIS, short, snapshot, from_snapshot

CONST = (type(None), bool, int, float, str, bytes, complex)
TYPING_IGNORE = {"typing.Protocol", "typing_extensions.Protocol", "typing.Generic", "abc.ABC", "typing.runtime_checkable"}
PYEXC = {n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)}
PYTYPES = {n: getattr(builtins, n) for n in ("str", "int", "float", "bool", "list", "tuple", "dict", "set", "frozenset", "bytes", "object", "type", "complex", "bytearray")}
NUMTOK = ("str", "fmt")
LXML_TOSTRING = {"encoding", "method", "xml_declaration", "pretty_print", "with_tail", "standalone", "doctype", "exclusive", "inclusive_ns_prefixes", "with_comments", "strip_text"}
STD_TOSTRING = {"encoding", "method", "xml_declaration", "default_namespace", "short_empty_elements"}

EXT_EXC = {  # external exception -> builtin ancestors
    "lxml.etree.XMLSyntaxError": (SyntaxError,), "lxml.etree.LxmlError": (Exception,), "lxml.etree.XPathEvalError": (Exception,),
    "lxml.etree.DocumentInvalid": (Exception,), "lxml.etree.XMLSchemaParseError": (Exception,), "lxml.etree.ParseError": (SyntaxError,),
    "xml.etree.ElementTree.ParseError": (SyntaxError,), "zipfile.BadZipFile": (Exception,), "dataclasses.FrozenInstanceError": (AttributeError,),
}


class Models:
    MISSING = object()

    def __init__(self, I):
        self.I = I
        self._b = {}
        for n in dir(self):
            if n.startswith("b_"):
                f = getattr(self, n)
                self._b[n[2:]] = Native(n[2:], lambda I, a, k, f=f: f(*a, **k))
        for n in PYTYPES:
            self._b[n] = PYTYPES[n]
        self._b.update(PYEXC)
        for n in ("classmethod", "staticmethod", "property"):
            self._b[n] = Ext("builtins." + n)
        self._b["NotImplemented"] = NOTIMPL
        self._b["Ellipsis"] = ELLIPSIS
        self._b["__debug__"] = True

    def builtin(self, name):
        if name in self._b:
            return (self._b[name],)
        return None

    # ------------------------------------------------------------ strings
    def cat(self, parts):
        out = []
        for p in parts:
            p = self.I.resolve(p)
            if isinstance(p, Unk):
                return Unk("string with " + p.why)
            if isinstance(p, Sym) and p.op == "cat":
                for q in p.args:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
                continue
            if isinstance(p, str):
                if not p:
                    continue
                if p[0] == "\n" and out and isinstance(out[-1], Sym) and out[-1].op == "xmlbody":
                    out[-1] = Sym("tostring", out[-1].args, "str", {"truthy"})
                    p = p[1:]
                    if not p:
                        continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return Sym("cat", out, "str")

    def str_(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, CONST):
            return str(v)
        if isinstance(v, Unk):
            return Unk("str of " + v.why)
        if isinstance(v, Sym):
            if v.ty == "str":
                return v
            if v.ty == "int" and "big" in v.flags:
                return Sym("digits", (v, 4), "str", {"truthy", "nospace", "nocomma", "stripped", "atom"})
            if v.ty == "int" and "y3" in v.flags:
                return Sym("digits", (v, 3), "str", {"truthy", "nospace", "nocomma", "stripped", "atom"})
            if v.ty in ("int", "float"):
                return Sym("str", (v,), "str", {"truthy", "nospace", "nocomma", "stripped"} | (v.flags & {"distinct"}))
            return Sym("str", (v,), "str")
        if isinstance(v, Inst):
            f = I.cls_lookup(v.cls, "__str__")
            if f is not None:
                return I.call(I.bind(f, v, v.cls), [], {})
            if isinstance(v.cls, type) and issubclass(v.cls, BaseException) or (isinstance(v.cls, Cls) and any(isinstance(c, type) and issubclass(c, BaseException) for c in v.cls.mro)):
                return I.exc_str(v)
            if isinstance(v.cls, Cls) and v.cls.enum:
                if any(isinstance(c, Ext) and c.name == "enum.StrEnum" for c in v.cls.mro):
                    return v.attrs["_value_"]
                return f"{v.cls.name}.{v.attrs['_name_']}"
        if isinstance(v, ExtObj) and v.kind == "path":
            return v.attrs["name"]
        return self.repr_(v)

    def repr_(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, CONST):
            return repr(v)
        if isinstance(v, Sym):
            return Sym("repr", (v,), "str", {"truthy"} | (v.flags & {"distinct"}))
        if isinstance(v, Unk):
            return Unk("repr")
        if isinstance(v, Inst):
            if isinstance(v.cls, Cls):
                f = I.cls_lookup(v.cls, "__repr__")
                if f is not None:
                    return I.call(I.bind(f, v, v.cls), [], {})
                if v.cls.enum:
                    return self.cat([f"<{v.cls.name}.{v.attrs['_name_']}: ", self.repr_(v.attrs["_value_"]), ">"])
                if any(isinstance(c, Cls) and c.dataclass is not None for c in v.cls.mro):
                    parts = [v.cls.name, "("]
                    for i, n in enumerate(I.dc_fields(v.cls)):
                        parts += [", " if i else "", n, "=", self.repr_(v.attrs.get(n))]
                    return self.cat(parts + [")"])
            return Sym("objrepr", (id(v),), "str", {"truthy"})
        if isinstance(v, (tuple, VList)):
            items = list(v) if isinstance(v, tuple) else v.items
            o, c = ("(", ")") if isinstance(v, tuple) else ("[", "]")
            parts = [o]
            for i, x in enumerate(items):
                parts += [", " if i else "", self.repr_(x)]
            if isinstance(v, tuple) and len(items) == 1:
                parts.append(",")
            return self.cat(parts + [c])
        if isinstance(v, VDict):
            parts = ["{"]
            for i, (k, x) in enumerate(v.d.values()):
                parts += [", " if i else "", self.repr_(k), ": ", self.repr_(x)]
            return self.cat(parts + ["}"])
        if isinstance(v, VSet):
            if not v.d:
                return "set()"
            parts = ["{"]
            for i, x in enumerate(v.d.values()):
                parts += [", " if i else "", self.repr_(x)]
            return self.cat(parts + ["}"])
        if isinstance(v, Cls):
            return f"<class '{v.module.name}.{v.name}'>"
        if isinstance(v, type):
            return repr(v)
        if isinstance(v, ExtObj) and v.kind == "path":
            return Sym("objrepr", (v.attrs["name"],), "str", {"truthy"})
        return Sym("objrepr", (id(v),), "str", {"truthy"})

    def format_(self, v, spec):
        I = self.I
        v = I.resolve(v)
        spec = I.resolve(spec)
        if isinstance(v, Unk) or isinstance(spec, Unk):
            return Unk("format")
        if spec == "":
            return self.str_(v)
        if isinstance(v, (bool, int, float, str)) and isinstance(spec, str):
            try:
                return format(v, spec)
            except ValueError as e:
                I.throw("ValueError", str(e))
        if v is None:
            I.throw("TypeError", "unsupported format string passed to NoneType.__format__")
        if isinstance(v, Sym) and isinstance(spec, str) and v.ty == "int":
            m = re.fullmatch(r"0?(\d+)d?", spec)
            if m and spec.startswith("0"):
                n = int(m.group(1))
                if f"w{n}" in v.flags:
                    return Sym("digits", (v, n), "str", {"truthy", "nospace", "nocomma", "stripped", "atom"})
        if isinstance(v, Sym):
            return Sym("fmt", (v, spec), "str", {"truthy", "nospace", "nocomma", "stripped"} if v.ty in ("int", "float") else set())
        if isinstance(v, (int, float)):
            return Sym("fmt", (v, spec), "str", {"truthy", "nospace", "nocomma", "stripped"})
        if isinstance(v, (tuple, VList, VDict, Inst)):
            if isinstance(v, Inst):
                f = I.cls_lookup(v.cls, "__format__")
                if f is not None:
                    return I.call(I.bind(f, v, v.cls), [spec], {})
            I.throw("TypeError", "unsupported format string")
        return Unk("format")

    def parts_of(self, s):
        if isinstance(s, str):
            return [s]
        if s.op == "cat":
            return list(s.args)
        return [s]

    def opaque(self, s, space=False, comma=False, chars=None):
        """Placeholder string for s if its symbolic parts contain none of the
        characters of interest; None otherwise. -> (text, mapping)"""
        parts = self.parts_of(s)
        out, mp = [], {}
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            fl = p.flags
            ok = "atom" in fl
            if not ok:
                ok = True
                if space and not ("nospace" in fl):
                    ok = False
                if comma and not ("nocomma" in fl):
                    ok = False
                if chars is not None:
                    for ch in chars:
                        if ch in " \t\n\r":
                            if "nospace" not in fl:
                                ok = False
                        elif ch == ",":
                            if "nocomma" not in fl:
                                ok = False
                        elif p.op in NUMTOK and p.args and getattr(p.args[0], "ty", None) in ("int", "float") and ch not in "0123456789.+-einfaEINFA_":
                            pass
                        else:
                            ok = False
            if not ok:
                return None, None
            c = chr(0xE000 + len(mp))
            mp[c] = p
            out.append(c)
        return "".join(out), mp

    def unopaque(self, t, mp):
        if not mp:
            return t
        parts, cur = [], ""
        for ch in t:
            if ch in mp:
                parts += [cur, mp[ch]]
                cur = ""
            else:
                cur += ch
        parts.append(cur)
        return self.cat(parts)

    def may_contain(self, s, x):
        t, mp = self.opaque(s, chars=set(x))
        if t is None:
            return True
        return x in t

    STR_METHODS = {m for m in dir(str) if not m.startswith("_")}

    def str_method(self, s, name, args, kw):
        I = self.I
        s = I.resolve(s)
        args = [I.resolve(a) for a in args]
        if any(isinstance(a, Unk) for a in args):
            return Unk("str." + name)
        if name == "join":
            I.check_iterable(args[0])
            src = args[0]
            items = [I.resolve(x) for x in I.iterate(src)]
            for x in items:
                if isinstance(x, Unk):
                    return Unk("join")
                if not (isinstance(x, str) or (isinstance(x, Sym) and x.ty in ("str", "any"))):
                    I.throw("TypeError", "sequence item: expected str instance")
            if items and all(isinstance(x, Sym) and x.op == "splitpart" for x in items):
                x0 = items[0]
                if [x.args[2] for x in items] == list(range(len(items))) and all(x.args[0] == x0.args[0] for x in items) and len(items) == 2 and x0.args[1] == s:
                    return x0.args[0]
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(s)
                out.append(x)
            return self.cat(out)
        if name == "format":
            return self.str_format(s, args, kw)
        if isinstance(s, str) and all(isinstance(a, CONST) or (isinstance(a, tuple) and all(isinstance(x, str) for x in a)) for a in args) and all(isinstance(v, CONST) for v in kw.values()):
            if name == "maketrans":
                raise Undecided("str.maketrans")
            try:
                r = getattr(s, name)(*args, **kw)
            except (TypeError, ValueError, LookupError) as e:
                I.throw(type(e).__name__ if type(e).__name__ in PYEXC else "ValueError", str(e))
            return VList(r) if isinstance(r, list) else r
        ss = s if isinstance(s, Sym) else None
        garbage = ss is not None and "garbage" in ss.flags
        if name in ("strip", "lstrip", "rstrip"):
            if args and args[0] is not None:
                if isinstance(args[0], str) and ss is not None:
                    t, mp = self.opaque(s, chars=set(args[0]))
                    if t is not None:
                        return self.unopaque(getattr(t, name)(args[0]), mp)
                return Sym("m:" + name, (s, *args), "str")
            return self.strip(s, name)
        if name == "split" or name == "rsplit":
            sep = args[0] if args else kw.get("sep")
            mx = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
            if sep is None:
                t, mp = self.opaque(s, space=True)
                if t is not None:
                    return VList([self.unopaque(x, mp) for x in getattr(t, name)(None, mx)])
                if garbage:
                    return VList([s])
            elif isinstance(sep, str):
                t, mp = self.opaque(s, chars=set(sep))
                if t is not None:
                    return VList([self.unopaque(x, mp) for x in getattr(t, name)(sep, mx)])
                if garbage:
                    return VList([s])
            else:
                return Unk("split")
            if I.truth(Sym("in", (sep if sep is not None else "<space>", s), "bool")):
                return VList([Sym("splitpart", (s, sep, 0), "str"), Sym("splitpart", (s, sep, 1), "str")])
            if sep is None:
                return VList([self.strip(s, "strip")])
            return VList([s])
        if name in ("partition", "rpartition") and isinstance(args[0], str):
            t, mp = self.opaque(s, chars=set(args[0]))
            if t is not None:
                return tuple(self.unopaque(x, mp) for x in getattr(t, name)(args[0]))
            if I.truth(Sym("in", (args[0], s), "bool")):
                return (Sym("splitpart", (s, args[0], 0), "str"), args[0], Sym("splitpart", (s, args[0], 1), "str"))
            return (s, "", "") if name == "partition" else ("", "", s)
        if name in ("lower", "upper", "casefold", "title", "capitalize", "swapcase"):
            if ss is not None:
                if garbage:
                    return ss
                parts = self.parts_of(ss)
                if len(parts) > 1:
                    return self.cat([self.str_method(p, name, args, kw) for p in parts])
                if name in ("lower", "casefold") and ss.op in NUMTOK and getattr(ss.args[0], "ty", "") in ("int", "float"):
                    return ss
                if ss.op == "digits":
                    return ss
                if ss.op == name:
                    return ss
                return Sym(name, (ss,), "str", ss.flags & {"truthy", "stripped", "nospace", "nocomma", "garbage", "distinct", "atom"})
        if name in ("startswith", "endswith") and ss is not None:
            a = args[0]
            alts = a if isinstance(a, tuple) else (a,)
            res = []
            for x in alts:
                res.append(self.affix(ss, name, x))
            if any(r is True for r in res):
                return True
            if all(r is False for r in res):
                return False
            if garbage:
                return False
            return I.truth(Sym(name, (ss, a), "bool"))
        if name in ("removeprefix", "removesuffix") and ss is not None and isinstance(args[0], str):
            r = self.affix(ss, "startswith" if name == "removeprefix" else "endswith", args[0])
            if r is None:
                r = I.truth(Sym("startswith" if name == "removeprefix" else "endswith", (ss, args[0]), "bool"))
            if not r:
                return ss
            parts = self.parts_of(ss)
            i = 0 if name == "removeprefix" else -1
            if isinstance(parts[i], str):
                parts[i] = parts[i][len(args[0]):] if i == 0 else parts[i][:len(parts[i]) - len(args[0])]
                return self.cat(parts)
            return Sym("m:" + name, (ss, args[0]), "str")
        if name == "replace" and ss is not None and isinstance(args[0], str):
            t, mp = self.opaque(s, chars=set(args[0]))
            if t is not None and isinstance(args[1], str):
                return self.unopaque(t.replace(*args), mp)
            return Sym("m:replace", (s, *args), "str", ss.flags & {"garbage", "distinct"} if garbage else ())
        if name == "encode":
            return Sym("encode", (s, (args[0] if args else kw.get("encoding", "utf-8")).lower() if isinstance((args[0] if args else kw.get("encoding", "utf-8")), str) else "utf-8"), "bytes")
        if name in ("isdigit", "isspace", "isalpha", "isnumeric", "isdecimal", "isupper", "islower", "isalnum", "isascii", "isidentifier", "istitle", "isprintable"):
            if garbage and name in ("isdigit", "isspace", "isnumeric", "isdecimal"):
                return False
            if name == "isspace" and ss is not None and "stripped" in ss.flags:
                return False
            return Sym("m:" + name, (s,), "bool")
        if name in ("find", "rfind", "index", "rindex", "count"):
            x = args[0]
            if isinstance(x, str):
                t, mp = self.opaque(s, chars=set(x))
                if t is not None and len(args) == 1:
                    if x not in t:
                        if name in ("index", "rindex"):
                            I.throw("ValueError", "substring not found")
                        return -1 if name != "count" else 0
            return Sym("m:" + name, (s, *args), "int")
        if name == "splitlines":
            t, mp = self.opaque(s, space=True)
            if t is not None:
                return VList([self.unopaque(x, mp) for x in t.splitlines(*args)])
            raise Undecided("splitlines")
        if name == "zfill" and ss is not None and isinstance(args[0], int):
            if ss.op == "str" and isinstance(ss.args[0], Sym) and f"w{args[0]}" in ss.args[0].flags:
                return Sym("digits", (ss.args[0], args[0]), "str", {"truthy", "nospace", "nocomma", "stripped", "atom"})
            return Sym("m:zfill", (s, *args), "str")
        if name in self.STR_METHODS:
            try:
                return Sym("m:" + name, (s, *args, *kw.values()), "str")
            except TypeError:
                return Unk("str." + name)
        I.throw("AttributeError", name)

    def strip(self, s, name):
        parts = self.parts_of(s)
        parts = list(parts)
        L = name in ("strip", "lstrip")
        R = name in ("strip", "rstrip")
        while L and parts and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip()
            if parts[0]:
                L = False
            else:
                parts.pop(0)
        while R and parts and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip()
            if parts[-1]:
                R = False
            else:
                parts.pop()
        if not parts:
            return ""

        if R and isinstance(parts[-1], Sym) and parts[-1].op == "tostring" and parts[-1].args[1] is True:
            # pretty printed text ends with a line break
            parts[-1] = Sym("xmlbody", parts[-1].args, "str", {"truthy"})

        def clean(p):
            if isinstance(p, Sym) and p.op in ("tostring", "xmlbody"):
                return True
            return isinstance(p, Sym) and (p.flags & {"stripped", "nospace", "atom", "garbage"}) and ("truthy" in p.flags or self.I.sym_known_truthy(p))
        if L and clean(parts[0]):
            L = False
        if R and clean(parts[-1]):
            R = False
        r = self.cat(parts)
        if L or R:
            if isinstance(r, Sym) and "stripped" in r.flags:
                return r
            if name == "strip" and isinstance(r, Sym) and r.op == "cat":
                return Sym("strip", (r,), "str", {"stripped"})
            return Sym(name, (r,), "str", {"stripped"} if name == "strip" else ())
        return r

    def affix(self, s, name, x):
        """True/False/None for startswith/endswith"""
        if not isinstance(x, str):
            return None
        if x == "":
            return True
        parts = self.parts_of(s)
        p = parts[0] if name == "startswith" else parts[-1]
        if isinstance(p, str):
            n = min(len(p), len(x))
            if name == "startswith":
                if p[:n] != x[:n]:
                    return False
                if len(p) >= len(x):
                    return True
            else:
                if p[-n:] != x[-n:]:
                    return False
                if len(p) >= len(x):
                    return True
            return None
        t, mp = self.opaque(s, chars=set(x))
        if t is not None:
            return getattr(t, name)(x)
        return None

    def str_format(self, s, args, kw):
        if not isinstance(s, str):
            return Unk("format")
        import string
        out, auto = [], 0
        for lit, fld, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if fld is None:
                continue
            m = re.fullmatch(r"(\w*)((?:\.\w+)*)", fld)
            if not m:
                return Unk("format")
            nm = m.group(1)
            try:
                if nm == "":
                    v = args[auto]
                    auto += 1
                elif nm.isdigit():
                    v = args[int(nm)]
                else:
                    v = kw[nm]
            except (IndexError, KeyError):
                self.I.throw("IndexError", "format")
            for a in [x for x in m.group(2).split(".") if x]:
                v = self.I.getattr(v, a)
            if conv == "r":
                v = self.repr_(v)
            if spec and "{" in spec:
                spec = self.str_format(spec, args[auto:], kw)
            out.append(self.format_(v, spec or ""))
        return self.cat(out)

    # ------------------------------------------------------------ numbers
    def to_float(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, (bool, int, float, str)):
            try:
                return float(v)
            except ValueError as e:
                I.throw("ValueError", str(e))
        if isinstance(v, Unk):
            return Unk("float")
        if isinstance(v, Sym):
            if v.ty in ("float",):
                return v
            if v.ty == "int":
                return v
            if v.ty == "str":
                if "garbage" in v.flags:
                    I.p.log.append(("convfail", v))
                    I.throw("ValueError", f"could not convert string to float: {v!r}")
                if v.op == "str" and getattr(v.args[0], "ty", None) in ("float", "int"):
                    return v.args[0]
                if v.op in ("fmt", "digits"):
                    return v.args[0] if v.op == "digits" else Sym("float", (v,), "float")
                if v.op == "strip" or v.op == "cat":
                    c = self.strip(v, "strip")
                    if isinstance(c, Sym) and c != v:
                        return self.to_float(c)
                    if isinstance(v, Sym) and v.op == "cat" and any("garbage" in getattr(a, "flags", ()) for a in v.args):
                        I.throw("ValueError", "could not convert")
                    if v.op == "cat" and all(isinstance(a, str) or a.op in NUMTOK for a in v.args):
                        if any(isinstance(a, str) and re.search(r"[^0-9.eE+\-_]", a) for a in v.args):
                            I.throw("ValueError", "could not convert")
                if I.decide(f"{short(v)} is a number"):
                    return Sym("float", (v,), "float")
                I.throw("ValueError", "could not convert string to float")
            if v.ty == "any":
                if I.decide(f"{short(v)} is a number", imprecise="float of unknown"):
                    return Sym("float", (v,), "float")
                I.throw("ValueError", "could not convert string to float")
        if isinstance(v, Inst):
            f = I.cls_lookup(v.cls, "__float__")
            if f is not None:
                return I.call(I.bind(f, v, v.cls), [], {})
        I.throw("TypeError", "float() argument must be a string or a real number")

    def to_int(self, v, base=10):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, (bool, int, float)):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                I.throw(type(e).__name__, str(e))
        if isinstance(v, str):
            try:
                return int(v, base) if isinstance(base, int) else int(v)
            except ValueError as e:
                I.throw("ValueError", str(e))
        if isinstance(v, Unk):
            return Unk("int")
        if isinstance(v, Sym):
            if v.ty == "int":
                return v
            if v.ty == "float":
                return Sym("int", (v,), "int")
            if v.ty == "str":
                if "garbage" in v.flags:
                    I.p.log.append(("convfail", v))
                    I.throw("ValueError", "invalid literal for int()")
                if v.op == "str" and getattr(v.args[0], "ty", None) == "int":
                    return v.args[0]
                if v.op == "str" and getattr(v.args[0], "ty", None) == "float":
                    I.throw("ValueError", "invalid literal for int() with base 10: float text")
                if v.op == "digits":
                    return v.args[0]
                if v.op in ("strip", "cat"):
                    c = self.strip(v, "strip")
                    if isinstance(c, Sym) and c != v:
                        return self.to_int(c)
                    if v.op == "cat":
                        if any("garbage" in getattr(a, "flags", ()) for a in v.args):
                            I.throw("ValueError", "invalid literal for int()")
                        if all(isinstance(a, Sym) and a.op == "digits" for a in v.args):
                            return Sym("int", (v,), "int")
                        if any(isinstance(a, str) and (set(a) - set("0123456789+-_ \t\n\r")) for a in v.args) or any(
                            isinstance(a, str) and a != a.strip() and 0 < i < len(v.args) - 1 for i, a in enumerate(v.args)
                        ):
                            I.throw("ValueError", "invalid literal for int()")
                if I.decide(f"{short(v)} is an integer"):
                    return Sym("int", (v,), "int")
                I.throw("ValueError", "invalid literal for int()")
            if I.decide(f"{short(v)} is an integer", imprecise="int of unknown"):
                return Sym("int", (v,), "int")
            I.throw("ValueError", "invalid literal for int()")
        I.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number")

    def call_type(self, t, args, kw):
        I = self.I
        if issubclass(t, BaseException):
            e = Inst(t)
            e.attrs["args"] = tuple(args)
            return e
        if t is str:
            if not args:
                return ""
            if len(args) > 1 or kw:
                return self.decode(args[0], *(args[1:]), **kw)
            return self.str_(args[0])
        if t is float:
            return self.to_float(args[0]) if args else 0.0
        if t is int:
            return self.to_int(args[0], *(args[1:2])) if args else 0
        if t is bool:
            return I.truth(args[0]) if args else False
        if t is list:
            if not args:
                return VList()
            I.check_iterable(args[0])
            src = I.resolve(args[0])
            return VList(I.iterate(src), rep=isinstance(src, VList) and src.rep)
        if t is tuple:
            if not args:
                return ()
            I.check_iterable(args[0])
            return tuple(I.iterate(args[0]))
        if t in (set, frozenset):
            s = VSet(frozen=t is frozenset)
            if args:
                I.check_iterable(args[0])
                for x in I.iterate(args[0]):
                    s.d.setdefault(I.hkey(x), x)
            return s
        if t is dict:
            d = VDict()
            if args:
                self.dict_update(d, args[0])
            for k, v in kw.items():
                d.d[("c", k)] = (k, v)
            return d
        if t is object:
            return Inst(object)
        if t is type:
            if len(args) == 1:
                c = I.class_of(args[0])
                return c if c is not None else Unk("type()")
            if len(args) == 3:
                name, bases, ns = args
                cls = Cls(name, list(bases), I.cur[0] if I.cur else None, None)
                for k, v in ns.d.values():
                    cls.attrs[k] = v
                cls.mro = I.compute_mro(cls)
                return cls
        if t in (bytes, bytearray):
            return Unk("bytes")
        if t is type(None):
            return None
        return Unk(f"{t}()")

    def decode(self, v, enc="utf-8", *a, **k):
        v = self.I.resolve(v)
        if isinstance(v, Sym) and v.op == "encode":
            return v.args[0]
        if isinstance(v, bytes):
            return v.decode()
        return Sym("decode", (v,), "str") if isinstance(v, Sym) else Unk("decode")

    # ------------------------------------------------------------ containers
    def dict_update(self, d, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, Inst) and isinstance(v.payload, VDict):
            v = v.payload
        if isinstance(v, VDict):
            I.dct_mut(d)
            for hk, kv in list(v.d.items()):
                d.d[hk] = kv
            return
        if isinstance(v, Unk):
            raise Undecided("dict update with unknown")
        if isinstance(v, (Sym, type(None), int, float, str, bool)) and not (isinstance(v, Sym) and v.ty == "any"):
            I.throw("TypeError", f"'{short(v)}' object is not a mapping")
        I.dct_mut(d)
        for pair in I.iterate(v):
            k, x = list(I.iterate(pair))
            d.d[I.hkey(k)] = (k, x)

    def idx(self, i):
        i = self.I.resolve(i)
        if isinstance(i, Sym) and i.op == "idx":
            return i.args[0]
        return i

    def getitem(self, o, i):
        I = self.I
        i = self.idx(i)
        if isinstance(o, Unk) or isinstance(i, Unk):
            return Unk("item")
        if isinstance(o, ExtObj) and o.kind == "classvar":
            return o
        if isinstance(i, ExtObj) and i.kind == "slice":
            return self.getslice(o, i)
        if isinstance(o, VDict):
            found, v = I.dget(o, i)
            if found:
                return v
            if o.factory is not None:
                v = I.call(o.factory, [], {})
                I.dset(o, i, v)
                return v
            I.throw("KeyError", i)
        if isinstance(o, (tuple, VList)):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(i, bool) or isinstance(i, int):
                try:
                    return items[i]
                except IndexError:
                    I.throw("IndexError", "index out of range")
            if isinstance(i, Sym) and i.ty in ("int", "any"):
                for k in range(len(items)):
                    if I.veq(i, k):
                        return items[k]
                I.throw("IndexError", "index out of range")
            I.throw("TypeError", "list indices must be integers or slices")
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                I.throw("IndexError", "string index out of range")
        if isinstance(o, Sym) and o.ty == "str":
            parts = self.parts_of(o)
            if isinstance(i, int):
                if i >= 0 and isinstance(parts[0], str) and i < len(parts[0]):
                    return parts[0][i]
                if i < 0 and isinstance(parts[-1], str) and -i <= len(parts[-1]):
                    return parts[-1][i]
                if not I.truth(o):
                    I.throw("IndexError", "string index out of range")
            return Sym("char", (o, i), "str")
        if isinstance(o, Sym):
            return Sym("item", (o, i), "any")
        if isinstance(o, XElem):
            if isinstance(i, int):
                try:
                    return o.children[i]
                except IndexError:
                    I.throw("IndexError", "child index out of range")
        if isinstance(o, Cls) and o.enum:
            if isinstance(i, str):
                if i in o.members:
                    return o.members[i]
                I.throw("KeyError", i)
            for n, m in o.members.items():
                if I.veq(i, n):
                    return m
            I.throw("KeyError", "enum")
        if isinstance(o, Inst):
            f = I.cls_lookup(o.cls, "__getitem__")
            if f is not None:
                return I.call(I.bind(f, o, o.cls), [i], {})
            if o.payload is not None:
                return self.getitem(o.payload, i)
        if isinstance(o, ExtObj):
            if o.kind == "match":
                return self.match_group(o, i)
            return Unk(f"{o.kind}[]")
        if isinstance(o, Ext):
            return Ext(o.name + "[]")
        if isinstance(o, bytes):
            return o[i]
        I.throw("TypeError", f"'{short(o)}' object is not subscriptable")

    def getslice(self, o, s):
        I = self.I
        lo, hi, st = (self.idx(s.attrs[k]) for k in ("lower", "upper", "step"))
        conc = all(x is None or isinstance(x, int) for x in (lo, hi, st))
        if isinstance(o, (tuple, VList)):
            items = o if isinstance(o, tuple) else o.items
            rep = isinstance(o, VList) and o.rep
            hi2 = hi
            if isinstance(hi, Sym) and hi.op == "replen":
                hi2 = hi.args[1]
                conc = all(x is None or isinstance(x, int) for x in (lo, hi2, st))
            if not conc:
                if isinstance(hi, Sym) and (lo is None or isinstance(lo, int)) and st is None:
                    if I.decide(f"slice bound {short(hi)} covers the whole sequence"):
                        hi2 = None
                    else:
                        hi2 = max(0, len(items) - 1)
                else:
                    raise Undecided("slice with unknown bounds")
            elif rep and isinstance(hi, int) and hi > len(items) + 1:
                if not I.decide(f"sequence has at most {hi} items"):
                    items = items[:-1]
            elif rep and isinstance(lo, int) and lo < 0 and -lo > len(items):
                if not I.decide(f"sequence has at most {-lo} items"):
                    items = items[1:]
            r = items[slice(lo, hi2, st)]
            return tuple(r) if isinstance(o, tuple) else VList(r, rep=rep and lo in (None, 0) and hi is None and st in (None, -1))
        if isinstance(o, str) and conc:
            return o[slice(lo, hi, st)]
        if isinstance(o, Sym) and o.ty == "str" and conc:
            if lo in (None, 0) and hi is None and st in (None, 1):
                return o
            parts = self.parts_of(o)
            p2 = list(parts)
            ok = st in (None, 1)
            if ok and lo not in (None, 0):
                if lo > 0 and isinstance(p2[0], str) and len(p2[0]) >= lo:
                    p2[0] = p2[0][lo:]
                elif lo < 0 and hi is None and isinstance(p2[-1], str) and len(p2[-1]) >= -lo:
                    return p2[-1][lo:]
                else:
                    ok = False
            if ok and hi is not None:
                if hi < 0 and isinstance(p2[-1], str) and len(p2[-1]) >= -hi:
                    p2[-1] = p2[-1][:hi]
                elif hi >= 0 and lo in (None, 0) and isinstance(p2[0], str) and len(p2[0]) >= hi:
                    return p2[0][:hi]
                elif hi >= 0 and lo in (None, 0) and all(isinstance(p, str) or p.op == "digits" for p in parts):
                    out, n = [], hi
                    for p in parts:
                        w = len(p) if isinstance(p, str) else p.args[1]
                        if w <= n:
                            out.append(p)
                            n -= w
                        elif isinstance(p, str):
                            out.append(p[:n])
                            n = 0
                        elif n:
                            ok = False
                            break
                        if n == 0:
                            break
                    if ok:
                        return self.cat(out)
                else:
                    ok = False
            if ok:
                return self.cat(p2)
            return Sym("slice", (o, lo, hi, st), "str")
        if isinstance(o, XElem) and conc:
            return VList(o.children[slice(lo, hi, st)])
        if isinstance(o, Unk):
            return Unk("slice")
        if o is None:
            I.throw("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(o, Inst):
            f = I.cls_lookup(o.cls, "__getitem__")
            if f is not None:
                return I.call(I.bind(f, o, o.cls), [s], {})
            if o.payload is not None:
                return self.getslice(o.payload, s)
        return Unk("slice")

    def setitem(self, o, i, v):
        I = self.I
        i = self.idx(i)
        if isinstance(o, VDict):
            I.dset(o, i, v)
            return
        if isinstance(o, VList):
            I.lst_mut(o)
            if isinstance(i, ExtObj) and i.kind == "slice":
                lo, hi, st = (i.attrs[k] for k in ("lower", "upper", "step"))
                o.items[slice(lo, hi, st)] = list(I.iterate(v))
                return
            if isinstance(i, int):
                try:
                    o.items[i] = v
                except IndexError:
                    I.throw("IndexError", "assignment index out of range")
                return
            raise Undecided("list store with unknown index")
        if isinstance(o, Inst):
            f = I.cls_lookup(o.cls, "__setitem__")
            if f is not None:
                I.call(I.bind(f, o, o.cls), [i, v], {})
                return
            if o.payload is not None:
                self.setitem(o.payload, i, v)
                return
        if isinstance(o, XElem) and isinstance(i, ExtObj) and i.kind == "slice":
            if i.attrs["lower"] is None and i.attrs["upper"] is None:
                self.journal_elem(o)
                o.children[:] = list(I.iterate(v))
                return
        if isinstance(o, Unk):
            return
        if isinstance(o, (tuple, str)) or o is None:
            I.throw("TypeError", "object does not support item assignment")
        raise Undecided("item store on " + short(o))

    def delitem(self, o, i):
        I = self.I
        if isinstance(o, VDict):
            hk = I.hkey(i)
            if hk not in o.d:
                I.throw("KeyError", i)
            I.dct_mut(o)
            del o.d[hk]
            return
        if isinstance(o, VList):
            I.lst_mut(o)
            if isinstance(i, int):
                del o.items[i]
                return
            if isinstance(i, ExtObj) and i.kind == "slice":
                del o.items[slice(i.attrs["lower"], i.attrs["upper"], i.attrs["step"])]
                return
        raise Undecided("del item")

    def contains(self, c, x):
        return None

    # ------------------------------------------------------------ operators
    OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
    DUN = {"+": ("__add__", "__radd__"), "-": ("__sub__", "__rsub__"), "*": ("__mul__", "__rmul__"), "/": ("__truediv__", "__rtruediv__"), "%": ("__mod__", "__rmod__"), "|": ("__or__", "__ror__"), "&": ("__and__", "__rand__"), "//": ("__floordiv__", "__rfloordiv__")}

    def binop(self, op, a, b):
        I = self.I
        o = self.OPN.get(type(op), "?")
        a, b = self.idx(a), self.idx(b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk("arith")
        if isinstance(a, Inst) or isinstance(b, Inst):
            da, rb = self.DUN.get(o, ("", ""))
            if isinstance(a, Inst):
                f = I.cls_lookup(a.cls, da)
                if f is not None:
                    r = I.call(I.bind(f, a, a.cls), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, Inst):
                f = I.cls_lookup(b.cls, rb)
                if f is not None:
                    return I.call(I.bind(f, b, b.cls), [a], {})
            if isinstance(a, Inst) and a.payload is not None:
                return self.binop(op, a.payload, b.payload if isinstance(b, Inst) and b.payload is not None else b)
            if o == "%" and isinstance(a, str):
                return self.percent(a, b)
            I.throw("TypeError", "unsupported operand type(s)")
        if o == "%" and (isinstance(a, str) or (isinstance(a, Sym) and a.ty == "str")):
            return self.percent(a, b)
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                import operator as om
                fn = {"+": om.add, "-": om.sub, "*": om.mul, "/": om.truediv, "%": om.mod, "//": om.floordiv, "**": om.pow, "|": om.or_, "&": om.and_, "^": om.xor, "<<": om.lshift, ">>": om.rshift}[o]
                return fn(a, b)
            except TypeError as e:
                I.throw("TypeError", str(e))
            except ZeroDivisionError as e:
                I.throw("ZeroDivisionError", str(e))
        if o == "+":
            sa = isinstance(a, str) or (isinstance(a, Sym) and a.ty == "str")
            sb = isinstance(b, str) or (isinstance(b, Sym) and b.ty == "str")
            if sa and sb:
                return self.cat([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
            if (sa != sb) and (a is None or b is None or I.tygroup(a) in "sn" and I.tygroup(b) in "sn"):
                I.throw("TypeError", "can only concatenate str")
        if o == "*" and isinstance(b, int) and isinstance(a, (VList, tuple)):
            return VList(a.items * b) if isinstance(a, VList) else a * b
        if o == "|":
            if isinstance(a, VDict) and isinstance(b, VDict):
                d = VDict()
                d.d.update(a.d)
                d.d.update(b.d)
                return d
            if isinstance(a, VSet) and isinstance(b, VSet):
                s = VSet()
                s.d.update(a.d)
                s.d.update(b.d)
                return s
            if isinstance(a, (type, Cls, Ext, ExtObj)) or isinstance(b, (type, Cls, Ext, ExtObj)):
                return tuple(x for y in (a, b) for x in (y if isinstance(y, tuple) else (y,)))
        if o in "&-^" and isinstance(a, VSet) and isinstance(b, VSet):
            s = VSet()
            s.d = {k: v for k, v in a.d.items() if (k in b.d) == (o == "&")}
            if o == "^":
                s.d.update({k: v for k, v in b.d.items() if k not in a.d})
            return s
        if o == "/" and isinstance(a, ExtObj) and a.kind == "path":
            return ExtObj("path", name=self.cat([a.attrs["name"], "/", self.str_(b)]))
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = I.tygroup(a), I.tygroup(b)
            if a is None or b is None:
                I.throw("TypeError", "unsupported operand type(s)")
            ty = "float" if "float" in (getattr(a, "ty", type(a).__name__), getattr(b, "ty", type(b).__name__)) or o == "/" else getattr(a, "ty", getattr(b, "ty", "any"))
            try:
                return Sym("op" + o, (a, b), ty)
            except TypeError:
                return Unk("arith")
        I.throw("TypeError", f"unsupported operand type(s) for {o}")

    def percent(self, a, b):
        if not isinstance(a, str):
            return Unk("%")
        args = list(b) if isinstance(b, tuple) else [b]
        out = []
        pos = 0
        k = 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])", a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(5) == "%":
                out.append("%")
                continue
            if m.group(1):
                v = self.getitem(b, m.group(1))
                prec = m.group(4)
            else:
                prec = m.group(4)
                if prec == "*":
                    prec = args[k]
                    k += 1
                if k >= len(args):
                    self.I.throw("TypeError", "not enough arguments for format string")
                v = args[k]
                k += 1
            c = m.group(5)
            if c == "s":
                out.append(self.str_(v))
            elif c == "r":
                out.append(self.repr_(v))
            else:
                spec = (m.group(2) or "") + (m.group(3) or "")
                sp = self.cat([spec, *([".", self.str_(prec)] if prec is not None else []), "d" if c in "di" else c])
                if c in "fFeEgG" and prec is None:
                    sp = self.cat([spec, c])
                out.append(self.format_(v, sp))
        out.append(a[pos:])
        return self.cat(out)

    def order(self, op, a, b):
        I = self.I
        nm = type(op).__name__
        if nm in ("Gt", "GtE"):
            a, b = b, a
            nm = {"Gt": "Lt", "GtE": "LtE"}[nm]
        # now a < b or a <= b
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk("order")
        if isinstance(a, Sym) and a.op in ("replen", "idx") or isinstance(b, Sym) and b.op in ("replen", "idx"):
            return self.rep_order(nm, a, b)
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                return a < b if nm == "Lt" else a <= b
            except TypeError as e:
                I.throw("TypeError", str(e))
        if isinstance(a, VSet) and isinstance(b, VSet):
            return set(a.d) < set(b.d) if nm == "Lt" else set(a.d) <= set(b.d)
        if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
            xs = list(a) if isinstance(a, tuple) else a.items
            ys = list(b) if isinstance(b, tuple) else b.items
            for x, y in zip(xs, ys):
                if I.veq(x, y):
                    continue
                return self.order(ast.Lt(), I.resolve(x), I.resolve(y))
            return len(xs) < len(ys) if nm == "Lt" else len(xs) <= len(ys)
        if isinstance(a, Inst) or isinstance(b, Inst):
            for x, y, n in ((a, b, "__lt__" if nm == "Lt" else "__le__"), (b, a, "__gt__" if nm == "Lt" else "__ge__")):
                if isinstance(x, Inst):
                    f = I.cls_lookup(x.cls, n)
                    if f is not None:
                        return I.call(I.bind(f, x, x.cls), [y], {})
                    if x.payload is not None:
                        return self.order(ast.Lt() if nm == "Lt" else ast.LtE(), I.resolve(x.payload if x is a else a), I.resolve(x.payload if x is b else b))
            I.throw("TypeError", "'<' not supported")
        if isinstance(a, Sym) or isinstance(b, Sym):
            ga, gb = I.tygroup(a), I.tygroup(b)
            if ga != gb and "any" not in (ga, gb):
                I.throw("TypeError", "'<' not supported between instances")
            # len(x) against 0
            if isinstance(b, Sym) and b.op == "len" and a == (0 if nm == "Lt" else 1):
                return I.truth(b.args[0])
            if isinstance(a, Sym) and a.op == "len" and b == (1 if nm == "Lt" else 0):
                return not I.truth(a.args[0])
            if isinstance(a, Sym) and isinstance(b, Sym) and a == b:
                return nm == "LtE"
            if nm == "Lt":
                return Sym("lt", (a, b), "bool")
            return Sym("not", (Sym("lt", (b, a), "bool"),), "bool")
        I.throw("TypeError", "'<' not supported between instances")

    def rep_order(self, nm, a, b):
        I = self.I

        def conc(x):
            return x.args[1] if isinstance(x, Sym) and x.op == "replen" else x.args[0] if isinstance(x, Sym) and x.op == "idx" else x
        ca, cb = conc(a), conc(b)
        if not (isinstance(ca, int) and isinstance(cb, int)):
            return Sym("lt", (a, b), "bool") if nm == "Lt" else Sym("not", (Sym("lt", (b, a), "bool"),), "bool")
        sym_a, sym_b = isinstance(a, Sym), isinstance(b, Sym)
        if sym_a != sym_b:
            n = ca if sym_a else cb
            c = cb if sym_a else ca
            if c > n + 1:
                lt = Sym("lt", (a, b), "bool") if nm == "Lt" else Sym("not", (Sym("lt", (b, a), "bool"),), "bool")
                return I.truth(lt)
        return ca < cb if nm == "Lt" else ca <= cb

    # ------------------------------------------------------------ builtins
    def b_len(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, VList):
            if v.rep:
                return Sym("replen", (id(v), len(v.items)), "int", {"truthy"} if v.items else {"falsy"})
            return len(v.items)
        if isinstance(v, (VDict, VSet)):
            return len(v.d)
        if isinstance(v, XElem):
            return len(v.children)
        if isinstance(v, Cls) and v.enum:
            return len(v.members)
        if isinstance(v, Sym):
            if v.ty in ("int", "float", "bool"):
                I.throw("TypeError", "object has no len()")
            if v.op == "cat" and all(isinstance(a, str) or a.op == "digits" for a in v.args):
                return sum(len(a) if isinstance(a, str) else a.args[1] for a in v.args)
            if v.op == "digits":
                return v.args[1]
            return Sym("len", (v,), "int")
        if isinstance(v, Unk):
            return Unk("len")
        if isinstance(v, Inst):
            f = I.cls_lookup(v.cls, "__len__")
            if f is not None:
                return I.call(I.bind(f, v, v.cls), [], {})
            if v.payload is not None:
                return self.b_len(v.payload)
        I.throw("TypeError", "object has no len()")

    def b_isinstance(self, v, t):
        return self.I.isinst(v, t)

    def b_issubclass(self, c, t):
        I = self.I
        if not isinstance(c, (Cls, type, Ext, Unk)):
            I.throw("TypeError", "issubclass() arg 1 must be a class")
        return I.issub(c, t)

    def b_getattr(self, o, n, *d):
        I = self.I
        n = I.resolve(n)
        if isinstance(n, (Sym, Unk)):
            if isinstance(o, Unk):
                return Unk("getattr")
            raise Undecided("getattr with unknown name at " + I.loc())
        if d:
            try:
                v = I.getattr_opt(o, n)
            except AbsExc as e:
                if I.issub(e.val.cls, AttributeError):
                    return d[0]
                raise
            return d[0] if v is I else v
        return I.getattr(o, n)

    def b_setattr(self, o, n, v):
        n = self.I.resolve(n)
        if not isinstance(n, str):
            raise Undecided("setattr with unknown name")
        self.I.setattr(o, n, v)

    def b_delattr(self, o, n):
        self.I.delattr(o, n)

    def b_hasattr(self, o, n):
        I = self.I
        try:
            v = I.getattr_opt(o, n)
        except AbsExc as e:
            if I.issub(e.val.cls, AttributeError):
                return False
            raise
        return v is not I

    def b_fk_concrete(self, v):
        return isinstance(self.I.resolve(v), (int, float, str))

    def b_fk_choice(self, name, v):
        """A yes/no fact about a value that depends on its numbers."""
        return Sym("choice", (name, repr(v)), "bool")

    def b_fk_number(self, name, v):
        return Sym("choice", (name, repr(v)), "float")

    def b_fk_part(self, name, tail):
        """One component of a time of day that is known only as a token."""
        tail = self.I.resolve(tail)
        if isinstance(tail, str):
            raise Undecided(f"{name} of a time given as text")
        if name == "tzinfo":
            return Unk("time zone of a symbolic time")
        return Sym("timepart", (name, tail), "int")

    def b_callable(self, v):
        return isinstance(v, (Fn, Bound, Native, Cls, type, Partial, Deco, Ext)) or (isinstance(v, Inst) and self.I.cls_lookup(v.cls, "__call__") is not None)

    def b_repr(self, v):
        return self.repr_(v)

    def b_format(self, v, spec=""):
        return self.format_(v, spec)

    def b_id(self, v):
        return Sym("id", (id(v),), "int", {"truthy"})

    def b_hash(self, v):
        k = self.I.hkey(v)
        return Sym("hash", (repr(k),), "int")

    def b_iter(self, v, *a):
        if isinstance(v, VIter):
            return v
        self.I.check_iterable(v)
        return VIter(self.I.iterate(v))

    def b_next(self, it, *d):
        I = self.I
        if isinstance(it, VIter):
            try:
                return next(it.gen)
            except StopIteration:
                if d:
                    return d[0]
                I.throw("StopIteration")
        if isinstance(it, Inst):
            f = I.cls_lookup(it.cls, "__next__")
            if f is not None:
                try:
                    return I.call(I.bind(f, it, it.cls), [], {})
                except AbsExc as e:
                    if d and I.issub(e.val.cls, StopIteration):
                        return d[0]
                    raise
        if isinstance(it, Unk):
            return Unk("next")
        I.throw("TypeError", "object is not an iterator")

    def b_all(self, it):
        self.I.check_iterable(it)
        for x in self.I.iterate(it):
            if not self.I.truth(x):
                return False
        return True

    def b_any(self, it):
        self.I.check_iterable(it)
        for x in self.I.iterate(it):
            if self.I.truth(x):
                return True
        return False

    def b_enumerate(self, it, start=0):
        I = self.I
        I.check_iterable(it)
        src = I.resolve(it)

        def gen():
            for i, x in enumerate(I.iterate(src), start if isinstance(start, int) else 0):
                if isinstance(src, VList) and src.rep and i == len(src.items) - 1 + (start if isinstance(start, int) else 0):
                    yield (Sym("idx", (i,), "int", {"truthy"} if i else {"falsy"}), x)
                else:
                    yield (i, x)
        return VIter(gen())

    def b_zip(self, *its, strict=False):
        I = self.I
        for it in its:
            I.check_iterable(it)
        gens = [I.iterate(x) for x in its]

        def gen():
            while gens:
                row = []
                for k, g in enumerate(gens):
                    try:
                        row.append(next(g))
                    except StopIteration:
                        if strict is True:
                            if k or row:
                                I.throw("ValueError", "zip() argument lengths differ")
                            for g2 in gens[1:]:
                                try:
                                    next(g2)
                                except StopIteration:
                                    continue
                                I.throw("ValueError", "zip() argument lengths differ")
                        return
                yield tuple(row)
        return VIter(gen())

    def b_map(self, f, *its):
        I = self.I
        for it in its:
            I.check_iterable(it)
        gens = [I.iterate(x) for x in its]

        def gen():
            while True:
                row = []
                for g in gens:
                    try:
                        row.append(next(g))
                    except StopIteration:
                        return
                yield I.call(f, row, {})
        return VIter(gen())

    def b_filter(self, f, it):
        I = self.I
        I.check_iterable(it)
        src = I.iterate(it)

        def gen():
            for x in src:
                if I.truth(x if f is None else I.call(f, [x], {})):
                    yield x
        return VIter(gen())

    def b_reversed(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, VIter):
            I.throw("TypeError", "object is not reversible")
        items = list(I.iterate(v))
        return VIter(iter(items[::-1]))

    def b_sorted(self, it, *, key=None, reverse=False):
        I = self.I
        items = list(I.iterate(it))
        return VList(self.sort(items, key, reverse))

    def sort(self, items, key, reverse):
        I = self.I
        ks = [(I.call(key, [x], {}) if key is not None else x) for x in items]
        out = []
        for k, x in zip(ks, items):
            i = len(out)
            while i > 0 and I.truth(self.order(ast.Lt(), I.resolve(k), I.resolve(out[i - 1][0])) if not I.truth(reverse) else self.order(ast.Lt(), I.resolve(out[i - 1][0]), I.resolve(k))):
                i -= 1
            out.insert(i, (k, x))
        return [x for _, x in out]

    def b_range(self, *a):
        a = [self.idx(x) for x in a]
        a = [x.args[1] if isinstance(x, Sym) and x.op == "replen" else x for x in a]
        if all(isinstance(x, int) for x in a):
            return VList(range(*a))
        raise Undecided("range with unknown bound")

    def b_sum(self, it, start=0):
        r = start
        for x in self.I.iterate(it):
            r = self.binop(ast.Add(), self.I.resolve(r), self.I.resolve(x))
        return r

    def minmax(self, nm, a, key=None, default=None, hasdef=False):
        I = self.I
        items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if hasdef:
                return default
            I.throw("ValueError", f"{nm}() arg is an empty sequence")
        best = items[0]
        for x in items[1:]:
            kx = I.call(key, [x], {}) if key is not None else x
            kb = I.call(key, [best], {}) if key is not None else best
            c = self.order(ast.Lt(), I.resolve(kx), I.resolve(kb)) if nm == "min" else self.order(ast.Lt(), I.resolve(kb), I.resolve(kx))
            if I.truth(c):
                best = x
        return best

    def b_min(self, *a, key=None, **k):
        return self.minmax("min", a, key, k.get("default"), "default" in k)

    def b_max(self, *a, key=None, **k):
        return self.minmax("max", a, key, k.get("default"), "default" in k)

    def b_abs(self, v):
        v = self.I.resolve(v)
        return abs(v) if isinstance(v, (int, float)) else Sym("abs", (v,), getattr(v, "ty", "any")) if isinstance(v, Sym) else Unk("abs")

    def b_round(self, v, n=None):
        v = self.I.resolve(v)
        if isinstance(v, (int, float)) and (n is None or isinstance(n, int)):
            return round(v, n) if n is not None else round(v)
        if isinstance(v, Sym):
            return Sym("round", (v, n), v.ty if n is not None else "int")
        if v is None:
            self.I.throw("TypeError", "round")
        return Unk("round")

    def b_print(self, *a, **k):
        self.I.p.log.append(("print", a))

    def b_vars(self, o):
        return self.I.getattr(o, "__dict__")

    def b_dir(self, o):
        raise Undecided("dir()")

    def b_ord(self, v):
        return ord(v) if isinstance(v, str) else Unk("ord")

    def b_chr(self, v):
        return chr(v) if isinstance(v, int) else Unk("chr")

    def b_divmod(self, a, b):
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

    def b_pow(self, a, b):
        return self.binop(ast.Pow(), a, b)

    def b_super(self, *a):
        return Super(a[0], a[1])

    def b_slice(self, *a):
        a = list(a)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return ExtObj("slice", lower=a[0], upper=a[1], step=a[2])

    def b_open(self, path, mode="r", *a, **k):
        return self.open_file(path, mode, k.get("encoding", a[1] if len(a) > 1 else None))

    def b_input(self, *a):
        return Unk("input")

    def b_eval(self, *a):
        raise Undecided("eval")

    def b_exec(self, *a):
        raise Undecided("exec")

    def b___import__(self, *a):
        raise Undecided("__import__")

    # ------------------------------------------------------------ object
    def object_attr(self, obj, name):
        I = self.I
        if name == "__eq__":
            def eq(I, a, k):
                return True if a[0] is obj else NOTIMPL
            return Native(name, eq)
        if name == "__ne__":
            return Native(name, lambda I, a, k: not I.veq(obj, a[0]))
        if name == "__init__":
            def init(I, a, k):
                if a or k:
                    mro = I.mro_of(obj.cls)
                    if any(isinstance(c, type) and issubclass(c, BaseException) for c in mro):
                        obj.attrs["args"] = tuple(a)
                        return
                    if any(isinstance(c, Ext) for c in mro):
                        return
                    I.throw("TypeError", "object.__init__() takes exactly one argument (the instance to initialize)")
            return Native(name, init)
        if name == "__str__":
            return Native(name, lambda I, a, k: self.str_(obj))
        if name == "__repr__":
            def rp(I, a, k):
                dc = next((c for c in I.mro_of(obj.cls) if isinstance(c, Cls) and c.dataclass is not None), None)
                return self.repr_(obj) if dc else Sym("objrepr", (id(obj),), "str", {"truthy"})
            return Native(name, rp)
        if name == "__setattr__":
            return Native(name, lambda I, a, k: I.set_attr_raw(obj.attrs, obj, a[0], a[1]))
        if name == "__getattribute__":
            return Native(name, lambda I, a, k: I.getattr(obj, a[0]))
        if name == "__hash__":
            return Native(name, lambda I, a, k: self.b_hash(obj))
        if name == "__doc__":
            return None
        if name == "__bool__":
            return None
        if name == "__module__" and isinstance(obj.cls, Cls):
            return obj.cls.module.name
        if name == "_asdict" and isinstance(obj.cls, Cls) and obj.cls.namedtuple:
            return Native(name, lambda I, a, k: I.mkdict([(n, obj.attrs[n]) for n in I.dc_fields(obj.cls)]))
        if name == "_replace" and isinstance(obj.cls, Cls) and obj.cls.namedtuple:
            return Native(name, lambda I, a, k: I.call(obj.cls, [], {**{n: obj.attrs[n] for n in I.dc_fields(obj.cls)}, **k}))
        return None

    def object_cls_attr(self, cls, name):
        if name in ("__init__", "__eq__", "__repr__", "__str__", "__setattr__", "__hash__", "__ne__"):
            def un(I, a, k, name=name):
                f = self.object_attr(a[0], name)
                return I.call(f, a[1:], k)
            return Native(name, un)
        if name == "__new__":
            return Native("__new__", lambda I, a, k: self.object_new(a))
        return None

    def object_new(self, a):
        cls = a[0]
        return Inst(cls)

    # ------------------------------------------------------------ decorators
    def decorate(self, dv, v):
        I = self.I
        if isinstance(dv, Ext):
            n = dv.name
            if n.startswith("builtins."):
                return Deco(n[9:], v)
            if n in ("functools.lru_cache", "functools.cache"):
                return Deco("lru_cache", v)
            if n == "functools.cached_property":
                return Deco("cached_property", v)
            if n == "functools.singledispatch":
                d = Deco("singledispatch", v)
                d.cache = []
                return d
            if n == "functools.total_ordering":
                return v
            if n == "contextlib.contextmanager":
                return Deco("contextmanager", v)
            if n == "dataclasses.dataclass":
                return self.mk_dataclass(v, {})
            if n.split(".")[0] in ("typing", "typing_extensions", "enum", "abc", "warnings") or n in ("functools.wraps",):
                if n in ("abc.abstractproperty",):
                    return Deco("property", v)
                return v
            raise Undecided("decorator " + n)
        if isinstance(dv, ExtObj) and dv.kind == "deco":
            return dv.attrs["apply"](v)
        if isinstance(dv, Unk):
            return Unk("decorated")
        return I.call(dv, [v], {})

    def mk_dataclass(self, cls, opts):
        cls.dataclass = dict(opts)
        cls.dcfields = []
        for n in cls.ann:
            d = cls.attrs.get(n, self.I)
            fld = None
            if isinstance(d, ExtObj) and d.kind == "field":
                fld = d.attrs
                cls.attrs.pop(n, None)
                d = fld.get("default", self.I)
                if d is not self.I:
                    cls.attrs[n] = d
            cls.dcfields.append((n, d, fld))
        return cls

    # ------------------------------------------------------------ modules / ext
    def ext_module(self, name):
        if name == "lxml.etree":
            return self.I.etrees["lxml"]
        if name in ("xml.etree.ElementTree", "xml.etree.cElementTree"):
            return self.I.etrees["stdlib"]
        return Ext(name)

    def is_typing(self, o):
        return o.name.split(".")[0] in ("typing", "typing_extensions", "types", "collections", "os", "pygeoif") or o.name == "re.Pattern" or o.name.startswith("weakref.")

    def ignorable_base(self, o):
        return o.name in TYPING_IGNORE or o.name.startswith("typing.") and o.name != "typing.NamedTuple"

    def ext_issub(self, cls, parent):
        n = parent.name
        if n == "builtins.property":
            return False
        if isinstance(cls, Ext) and cls.name in EXT_EXC:
            if cls == parent:
                return True
        if n in ("enum.Enum", "enum.StrEnum", "enum.IntEnum"):
            return isinstance(cls, Cls) and cls.enum
        if n in EXT_EXC and isinstance(cls, (Cls, type)):
            return parent in [c for c in self.I.mro_of(cls) if isinstance(c, Ext)]
        if n.startswith(("collections.abc.", "typing.")):
            base = n.split(".")[-1]
            if isinstance(cls, type):
                try:
                    import collections.abc as cabc
                    return issubclass(cls, getattr(cabc, base))
                except (AttributeError, TypeError):
                    return None
        if n == "numbers.Number" or n == "numbers.Real":
            return isinstance(cls, type) and issubclass(cls, (int, float))
        return None

    def ext_isinst(self, v, t):
        n = t.name
        base = n.split(".")[-1]
        if n in ("enum.Enum", "enum.IntEnum", "enum.StrEnum"):
            return isinstance(v, Inst) and isinstance(v.cls, Cls) and v.cls.enum
        if n in ("numbers.Number", "numbers.Real"):
            return isinstance(v, (int, float)) or (isinstance(v, Sym) and v.ty in ("int", "float"))
        if n.startswith(("collections.abc.", "typing.")) or n in ("collections.Iterable",):
            if base in ("Iterable", "Collection", "Sequence", "Container", "Sized", "MutableSequence", "Iterator", "Generator", "Mapping", "Callable", "Hashable", "Set"):
                if isinstance(v, Inst):
                    f = {"Iterable": "__iter__", "Sized": "__len__", "Callable": "__call__", "Hashable": "__hash__", "Container": "__contains__"}.get(base)
                    return f is not None and self.I.cls_lookup(v.cls, f) is not None
                if isinstance(v, VIter):
                    return base in ("Iterable", "Iterator") or (base == "Generator" and v.kind == "generator")
                if isinstance(v, (Fn, Bound, Native)):
                    return base == "Callable"
                c = self.I.class_of(v)
                if isinstance(c, type):
                    import collections.abc as cabc
                    return issubclass(c, getattr(cabc, base))
                return None
        if n == "types.GeneratorType":
            return isinstance(v, VIter) and v.kind == "generator"
        if n in ("pathlib.Path", "os.PathLike", "pathlib.PurePath"):
            return isinstance(v, ExtObj) and v.kind == "path"
        if n == "types.ModuleType":
            return isinstance(v, (Mod, Etree))
        if n.startswith("io.") or n == "typing.IO":
            return isinstance(v, ExtObj) and v.kind == "file"
        if n.endswith("_Element") or n.endswith("Element"):
            return isinstance(v, XElem)
        if n.endswith("ElementTree"):
            return isinstance(v, XTree)
        return None

    def getattr(self, o, name):
        I = self.I
        M = self.MISSING
        if o is None:
            return M if name != "__class__" else type(None)
        if isinstance(o, str) or (isinstance(o, Sym) and o.ty == "str"):
            if name in self.STR_METHODS:
                return Native(name, lambda I, a, k: self.str_method(o, name, a, k))
            if name == "__class__":
                return str
            if name in ("__len__", "__contains__", "__eq__"):
                return Native(name, lambda I, a, k: {"__len__": self.b_len, "__contains__": lambda x: I.contains(o, x), "__eq__": lambda x: I.eq(o, x)}[name](*a))
            return M
        if isinstance(o, bytes) or (isinstance(o, Sym) and o.ty == "bytes"):
            if name == "decode":
                return Native(name, lambda I, a, k: self.decode(o))
            return Native(name, lambda I, a, k: Unk("bytes." + name)) if hasattr(bytes, name) else M
        if isinstance(o, (bool, int, float)) or (isinstance(o, Sym) and o.ty in ("int", "float", "bool")):
            t = type(o) if not isinstance(o, Sym) else I.TYCLS[o.ty]
            if name == "__class__":
                return t
            if not hasattr(t, name):
                return M
            if name == "is_integer":
                return Native(name, lambda I, a, k: o.is_integer() if isinstance(o, (int, float)) else Sym("m:is_integer", (o,), "bool"))
            if name in ("real",):
                return o
            if name == "__format__":
                return Native(name, lambda I, a, k: self.format_(o, a[0]))
            return Native(name, lambda I, a, k: Sym("m:" + name, (o, *a), "any"))
        if isinstance(o, Sym):
            if name == "get_ns_id" or name.startswith("__"):
                return M
            return Sym("attr", (o, name), "any")
        if isinstance(o, VList):
            return self.list_attr(o, name)
        if isinstance(o, tuple):
            if name == "index":
                return Native(name, lambda I, a, k: self.seq_index(o, a[0]))
            if name == "count":
                return Native(name, lambda I, a, k: sum(1 for x in o if I.veq(x, a[0])))
            if name == "__class__":
                return tuple
            if name == "__len__":
                return Native(name, lambda I, a, k: len(o))
            if name == "__iter__":
                return Native(name, lambda I, a, k: VIter(iter(o)))
            return M
        if isinstance(o, VDict):
            return self.dict_attr(o, name)
        if isinstance(o, VSet):
            return self.set_attr(o, name)
        if isinstance(o, XElem):
            return self.elem_attr(o, name)
        if isinstance(o, XTree):
            if name == "getroot":
                return Native(name, lambda I, a, k: o.root)
            if name in ("find", "findall", "iter", "xpath", "iterfind"):
                return self.elem_attr(o.root, name)
            if name == "write":
                def wr(I, a, k):
                    I.p.log.append(("treewrite", a, k))
                return Native(name, wr)
            return Unk("tree." + name)
        if isinstance(o, Etree):
            return self.etree_attr(o, name)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, ExtObj):
            return self.extobj_attr(o, name)
        if isinstance(o, (Fn, Bound, Partial, Native, Deco)):
            if isinstance(o, Deco):
                if o.kind == "property" and name in ("setter", "deleter", "getter"):
                    def mk(I, a, k):
                        d = Deco("property", o.fn)
                        d.fset = o.fset
                        if name == "setter":
                            d.fset = a[0]
                        elif name == "getter":
                            d.fn = a[0]
                        return d
                    return Native(name, mk)
                if o.kind == "property" and name == "fget":
                    return o.fn
                if o.kind == "lru_cache" and name in ("cache_clear",):
                    def clear(I, a, k):
                        old = dict(o.cache or {})
                        if o.cache is not None:
                            o.cache.clear()
                            I.p.journal.append(lambda: o.cache.update(old))
                    return Native(name, clear)
                if o.kind == "lru_cache" and name == "cache_info":
                    return Native(name, lambda I, a, k: Unk("cache_info"))
                if o.kind == "lru_cache" and name == "__wrapped__":
                    return o.fn
                if o.kind == "singledispatch" and name == "register":
                    def reg(I, a, k):
                        if len(a) == 2:
                            o.cache.append((a[0], a[1]))
                            return a[1]
                        if isinstance(a[0], Fn):
                            ann = a[0].node.args.args[0].annotation
                            t = I.ev(ann, a[0].env)
                            o.cache.append((t, a[0]))
                            return a[0]
                        t = a[0]

                        def ap(fn):
                            o.cache.append((t, fn))
                            return fn
                        return ExtObj("deco", apply=ap)
                    return Native(name, reg)
                if name in ("__name__", "__qualname__") and isinstance(o.fn, Fn):
                    return o.fn.name
                if name == "__doc__":
                    return None
                if name in ("__func__",):
                    return o.fn
                return M
            f = o.fn if isinstance(o, Bound) else o
            if isinstance(f, Deco):
                return self.getattr(f, name)
            if name in ("__name__", "__qualname__"):
                return getattr(f, "name", "function")
            if name == "__self__" and isinstance(o, Bound):
                return o.self
            if name == "__func__" and isinstance(o, Bound):
                return o.fn
            if isinstance(f, Fn) and name in f.attrs:
                return f.attrs[name]
            if name in ("__doc__", "__wrapped__"):
                return None if name == "__doc__" else M
            if name == "__module__" and isinstance(f, Fn):
                return f.module.name
            if name == "__call__":
                return o
            return M
        if isinstance(o, type):
            if o is object:
                r = self.object_cls_attr(None, name)
                if r is not None:
                    return r
            if name in ("__name__", "__qualname__"):
                return o.__name__
            if name == "__mro__":
                return tuple(o.__mro__)
            if o is dict and name == "fromkeys":
                return Native(name, lambda I, a, k: I.mkdict([(x, a[1] if len(a) > 1 else None) for x in I.iterate(a[0])]))
            if o is str and name in self.STR_METHODS:
                return Native(name, lambda I, a, k: self.str_method(a[0], name, a[1:], k))
            if name == "__module__":
                return "builtins"
            if o is float and name == "fromhex":
                return Native(name, lambda I, a, k: Unk("fromhex"))
            if hasattr(o, name):
                return Native(name, lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k))
            return M
        if isinstance(o, VIter):
            if name == "__next__":
                return Native(name, lambda I, a, k: self.b_next(o))
            if name == "__iter__":
                return Native(name, lambda I, a, k: o)
            if name == "close":
                return Native(name, lambda I, a, k: None)
            return M
        return M

    def setattr(self, o, name, val):
        I = self.I
        if isinstance(o, XElem):
            if name in ("text", "tail"):
                val = I.resolve(val)
                if o.mode == "lxml" and not (val is None or isinstance(val, str) or isinstance(val, Unk) or (isinstance(val, Sym) and val.ty in ("str", "any"))):
                    I.throw("TypeError", f"Argument must be bytes or unicode, got '{short(val)}'")
                self.journal_elem(o)
                setattr(o, name, val)
                return
            if name == "tag":
                self.journal_elem(o)
                o.tag = val
                return
        if isinstance(o, ExtObj):
            I.set_attr_raw(o.attrs, o, name, val)
            return
        if isinstance(o, (CONST, Sym, tuple, VList, VDict)) or o is None:
            I.throw("AttributeError", f"object has no attribute '{name}'")
        raise Undecided(f"setattr on {short(o)}")

    # lists
    def seq_index(self, items, x):
        for i, y in enumerate(items):
            if y is x or self.I.veq(y, x):
                return i
        self.I.throw("ValueError", "not in list")

    def list_attr(self, o, name):
        I = self.I

        def mut(f):
            def g(I, a, k):
                I.lst_mut(o)
                return f(*a, **k)
            return Native(name, g)
        if name == "append":
            return mut(lambda x: o.items.append(x))
        if name == "extend":
            def ext(x):
                I.check_iterable(x)
                o.items.extend(list(I.iterate(x)))
            return mut(ext)
        if name == "insert":
            return mut(lambda i, x: o.items.insert(i, x))
        if name == "remove":
            def rem(x):
                del o.items[self.seq_index(o.items, x)]
            return mut(rem)
        if name == "pop":
            def pop(i=-1):
                try:
                    return o.items.pop(i)
                except IndexError:
                    I.throw("IndexError", "pop from empty list")
            return mut(pop)
        if name == "popleft":
            return mut(lambda: o.items.pop(0) if o.items else I.throw("IndexError", "pop from an empty deque"))
        if name == "appendleft":
            return mut(lambda x: o.items.insert(0, x))
        if name == "extendleft":
            return mut(lambda xs: [o.items.insert(0, x) for x in I.iterate(xs)] and None)
        if name == "clear":
            return mut(lambda: o.items.clear())
        if name == "reverse":
            return mut(lambda: o.items.reverse())
        if name == "sort":
            def srt(*, key=None, reverse=False):
                o.items[:] = self.sort(list(o.items), key, reverse)
            return mut(srt)
        if name == "copy":
            return Native(name, lambda I, a, k: VList(o.items, rep=o.rep))
        if name == "index":
            return Native(name, lambda I, a, k: self.seq_index(o.items, a[0]))
        if name == "count":
            return Native(name, lambda I, a, k: sum(1 for x in o.items if I.veq(x, a[0])))
        if name == "__class__":
            return list
        if name == "__len__":
            return Native(name, lambda I, a, k: self.b_len(o))
        if name == "__iter__":
            return Native(name, lambda I, a, k: VIter(I.iterate(o)))
        if name == "__contains__":
            return Native(name, lambda I, a, k: I.contains(o, a[0]))
        return self.MISSING

    def dict_attr(self, o, name):
        I = self.I
        if name == "get":
            def get(I, a, k):
                found, v = I.dget(o, a[0])
                return v if found else (a[1] if len(a) > 1 else k.get("default"))
            return Native(name, get)
        if name == "keys":
            return Native(name, lambda I, a, k: VList([kk for kk, _ in o.d.values()]))
        if name == "values":
            return Native(name, lambda I, a, k: VList([v for _, v in o.d.values()]))
        if name == "items":
            return Native(name, lambda I, a, k: VList([(kk, v) for kk, v in o.d.values()]))
        if name == "copy":
            def cp(I, a, k):
                d = VDict()
                d.d.update(o.d)
                return d
            return Native(name, cp)
        if name == "update":
            def up(I, a, k):
                if a:
                    self.dict_update(o, a[0])
                for kk, v in k.items():
                    I.dset(o, kk, v)
            return Native(name, up)
        if name == "setdefault":
            def sd(I, a, k):
                found, v = I.dget(o, a[0])
                if found:
                    return v
                v = a[1] if len(a) > 1 else None
                I.dset(o, a[0], v)
                return v
            return Native(name, sd)
        if name == "pop":
            def pop(I, a, k):
                hk = I.hkey(a[0])
                if hk in o.d:
                    I.dct_mut(o)
                    return o.d.pop(hk)[1]
                if len(a) > 1:
                    return a[1]
                I.throw("KeyError", a[0])
            return Native(name, pop)
        if name == "popitem":
            def pi(I, a, k):
                if not o.d:
                    I.throw("KeyError", "popitem")
                I.dct_mut(o)
                return o.d.pop(list(o.d)[-1])
            return Native(name, pi)
        if name == "clear":
            def cl(I, a, k):
                I.dct_mut(o)
                o.d.clear()
            return Native(name, cl)
        if name == "__class__":
            return dict
        if name == "__contains__":
            return Native(name, lambda I, a, k: I.contains(o, a[0]))
        if name == "__getitem__":
            return Native(name, lambda I, a, k: I.getitem(o, a[0]))
        if name == "__len__":
            return Native(name, lambda I, a, k: len(o.d))
        if name == "__iter__":
            return Native(name, lambda I, a, k: VIter(I.iterate(o)))
        return self.MISSING

    def set_attr(self, o, name):
        I = self.I
        if name == "add":
            def add(I, a, k):
                if o.birth < I.p.start:
                    old = dict(o.d)
                    I.p.journal.append(lambda: (o.d.clear(), o.d.update(old)))
                o.d.setdefault(I.hkey(a[0]), a[0])
            return Native(name, add)
        if name in ("discard", "remove"):
            def disc(I, a, k):
                hk = I.hkey(a[0])
                if hk in o.d:
                    del o.d[hk]
                elif name == "remove":
                    I.throw("KeyError", a[0])
            return Native(name, disc)
        if name == "pop":
            def pop(I, a, k):
                if not o.d:
                    I.throw("KeyError", "pop from an empty set")
                return o.d.pop(next(iter(o.d)))
            return Native(name, pop)
        if name == "update":
            def up(I, a, k):
                for it in a:
                    for x in I.iterate(it):
                        o.d.setdefault(I.hkey(x), x)
            return Native(name, up)
        if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
            def op(I, a, k):
                ks = set()
                vals = {}
                for it in a:
                    for x in I.iterate(it):
                        ks.add(I.hkey(x))
                        vals[I.hkey(x)] = x
                if name == "issubset":
                    return set(o.d) <= ks
                if name == "issuperset":
                    return set(o.d) >= ks
                if name == "isdisjoint":
                    return not (set(o.d) & ks)
                s = VSet()
                if name == "union":
                    s.d.update(o.d)
                    s.d.update({k: v for k, v in vals.items() if k not in s.d})
                elif name == "intersection":
                    s.d = {k: v for k, v in o.d.items() if k in ks}
                elif name == "difference":
                    s.d = {k: v for k, v in o.d.items() if k not in ks}
                else:
                    s.d = {k: v for k, v in o.d.items() if k not in ks}
                    s.d.update({k: v for k, v in vals.items() if k not in o.d})
                return s
            return Native(name, op)
        if name == "copy":
            def cp(I, a, k):
                s = VSet()
                s.d.update(o.d)
                return s
            return Native(name, cp)
        return self.MISSING

    # ------------------------------------------------------------ etree
    def journal_elem(self, e):
        I = self.I
        if e.birth < I.p.start:
            old = (e.tag, e.text, e.tail, list(e.children))
            def undo():
                e.tag, e.text, e.tail = old[:3]
                e.children[:] = old[3]
            I.p.journal.append(undo)

    def elem_append(self, parent, child, idx=None):
        I = self.I
        if not isinstance(child, XElem):
            if isinstance(child, Unk):
                raise Undecided("append unknown")
            I.throw("TypeError", "Argument 'element' has incorrect type")
        self.journal_elem(parent)
        if parent.mode == "lxml" and child.parent is not None:
            self.journal_elem(child.parent)
            child.parent.children[:] = [c for c in child.parent.children if c is not child]
        child.parent = parent
        if idx is None:
            parent.children.append(child)
        else:
            parent.children.insert(idx, child)

    def set_attrib(self, e, k, v):
        I = self.I
        v = I.resolve(v)
        if e.mode == "lxml" and not (isinstance(v, (str, bytes, Unk)) or (isinstance(v, Sym) and v.ty in ("str", "any"))):
            I.throw("TypeError", f"Argument must be bytes or unicode, got '{short(v)}'")
        I.dset(e.attrib, k, v)

    def tag_match(self, child, tag):
        t = child.tag
        if isinstance(t, str) and isinstance(tag, str):
            if tag == t:
                return True
            if tag == "*":
                return True
            if tag.startswith("{*}"):
                return t.rsplit("}", 1)[-1] == tag[3:]
            return False
        if isinstance(t, (Native, Ext)):
            return False
        return self.I.veq(t, tag)

    def find_path(self, e, path, nsmap=None):
        """list of matches, document order"""
        I = self.I
        path = I.resolve(path)
        if isinstance(path, Unk):
            raise Undecided("find with unknown path")
        if isinstance(path, Sym) or not isinstance(path, str):
            if path is None:
                I.throw("TypeError", "expected string")
            return [c for c in e.children if self.tag_match(c, path)]
        if nsmap is not None and isinstance(nsmap, VDict):
            def rep(m):
                f, v = I.dget(nsmap, m.group(1))
                if not f:
                    I.throw("SyntaxError", "prefix not found")
                return "{" + v + "}"
            path = re.sub(r"(?<![{\w/:.])(\w+):(?=\w)", rep, path)
        toks = re.findall(r"(\{[^}]*\}[^/\[\]]*|\.\.|\.|[^/\[\]{}]+|//|/|\[[^\]]*\])", path)
        if any(t.startswith("[") for t in toks):
            raise Undecided("find predicate")
        cur = [e]
        deep = False
        for t in toks:
            if t == ".":
                continue
            if t == "/":
                continue
            if t == "//":
                deep = True
                continue
            nxt = []
            for c in cur:
                pool = list(self.descend(c)) if deep else c.children
                nxt += [x for x in pool if self.tag_match(x, t)]
            cur = nxt
            deep = False
        return cur

    def descend(self, e):
        for c in e.children:
            yield c
            yield from self.descend(c)

    def elem_attr(self, e, name):
        I = self.I
        if name == "tag":
            return e.tag
        if name == "text":
            return e.text
        if name == "tail":
            return e.tail
        if name == "attrib":
            return e.attrib
        if name == "find":
            def find(I, a, k):
                r = self.find_path(e, a[0] if a else k["path"], a[1] if len(a) > 1 else k.get("namespaces"))
                return r[0] if r else None
            return Native(name, find)
        if name in ("findall", "iterfind"):
            def fa(I, a, k):
                r = self.find_path(e, a[0] if a else k["path"], a[1] if len(a) > 1 else k.get("namespaces"))
                return VList(r) if name == "findall" else VIter(iter(r))
            return Native(name, fa)
        if name == "findtext":
            def ft(I, a, k):
                r = self.find_path(e, a[0], k.get("namespaces"))
                if not r:
                    return a[1] if len(a) > 1 else k.get("default")
                return r[0].text if r[0].text is not None else ""
            return Native(name, ft)
        if name in ("iter", "iterdescendants", "iterchildren", "getiterator"):
            if e.mode == "stdlib" and name in ("iterdescendants", "iterchildren"):
                return self.MISSING
            def it(I, a, k):
                pool = ([e] if name == "iter" else []) + (list(e.children) if name == "iterchildren" else list(self.descend(e)))
                tags = [t for t in list(a) + [k[x] for x in k if x == "tag"] if t is not None]
                if k.get("reversed") is True:
                    pool = pool[::-1]
                return VIter(iter([c for c in pool if not tags or any(self.tag_match(c, t) for t in tags)]))
            return Native(name, it)
        if name == "getchildren" and e.mode == "lxml":
            return Native(name, lambda I, a, k: VList(e.children))
        if name == "get":
            def get(I, a, k):
                f, v = I.dget(e.attrib, a[0] if a else k["key"])
                return v if f else (a[1] if len(a) > 1 else k.get("default"))
            return Native(name, get)
        if name == "set":
            def st(I, a, k):
                a = list(a) + [k[x] for x in ("key", "tag", "value") if x in k]
                self.set_attrib(e, a[0], a[1])
            return Native(name, st)
        if name in ("items", "keys", "values"):
            return self.dict_attr(e.attrib, name)
        if name == "append":
            return Native(name, lambda I, a, k: self.elem_append(e, a[0] if a else k["element"]))
        if name == "extend":
            def ext(I, a, k):
                for c in list(I.iterate(a[0])):
                    self.elem_append(e, c)
            return Native(name, ext)
        if name == "insert":
            return Native(name, lambda I, a, k: self.elem_append(e, a[1], a[0]))
        if name == "remove":
            def rem(I, a, k):
                self.journal_elem(e)
                if a[0] not in e.children:
                    I.throw("ValueError", "Element is not a child of this node.")
                e.children.remove(a[0])
                a[0].parent = None
            return Native(name, rem)
        if name == "clear":
            def cl(I, a, k):
                self.journal_elem(e)
                I.dct_mut(e.attrib)
                e.attrib.d.clear()
                e.children.clear()
                e.text = e.tail = None
            return Native(name, cl)
        if name == "itertext":
            def itx(I, a, k):
                out = []
                def walk(x):
                    if x.text is not None:
                        out.append(x.text)
                    for c in x.children:
                        walk(c)
                        if c.tail is not None:
                            out.append(c.tail)
                walk(e)
                return VIter(iter(out))
            return Native(name, itx)
        if name == "__len__":
            return Native(name, lambda I, a, k: len(e.children))
        if name == "__iter__":
            return Native(name, lambda I, a, k: VIter(iter(list(e.children))))
        if name == "__class__":
            return Ext("etree._Element")
        if e.mode == "lxml":
            if name == "getparent":
                return Native(name, lambda I, a, k: e.parent)
            if name == "getnext" or name == "getprevious":
                def sib(I, a, k):
                    if e.parent is None:
                        return None
                    i = e.parent.children.index(e) + (1 if name == "getnext" else -1)
                    return e.parent.children[i] if 0 <= i < len(e.parent.children) else None
                return Native(name, sib)
            if name == "getroottree":
                def rt(I, a, k):
                    r = e
                    while r.parent is not None:
                        r = r.parent
                    return XTree(r)
                return Native(name, rt)
            if name == "nsmap":
                return Unk("nsmap")
            if name == "prefix":
                return Unk("prefix")
            if name == "index":
                return Native(name, lambda I, a, k: e.children.index(a[0]))
            if name == "sourceline":
                return Sym("sourceline", (id(e),), "int")
            if name == "xpath":
                def xp(I, a, k):
                    c = I.p.choose(3, f"xpath outcome @ {I.loc()}")
                    if c == 2:
                        I.throw_ext("lxml.etree.XPathEvalError")
                    if c == 1:
                        par = XElem("parent", e.mode)
                        ch = XElem("offender", e.mode)
                        ch.parent = par
                        par.children.append(ch)
                        return VList([ch])
                    return VList([e])
                return Native(name, xp)
        return self.MISSING

    def mk_elem(self, et, args, kw):
        I = self.I
        tag = args[0] if args else kw.pop("_tag", kw.pop("tag", None))
        tag = I.resolve(tag)
        if isinstance(tag, ExtObj) and tag.kind == "qname":
            tag = tag.attrs["text"]
        if not (isinstance(tag, (str, Unk)) or (isinstance(tag, Sym) and tag.ty in ("str", "any"))):
            I.throw("TypeError", "invalid tag")
        if et.mode == "lxml" and (tag == "" or (isinstance(tag, str) and (tag.endswith("}") or " " in tag))):
            I.throw("ValueError", "Invalid tag name")
        e = XElem(tag, et.mode)
        rest = list(args[1:])
        attrib = rest.pop(0) if rest else kw.pop("attrib", None)
        nsmap = None
        if et.mode == "lxml":
            nsmap = rest.pop(0) if rest else kw.pop("nsmap", None)
        e.nsmap = nsmap
        if attrib is not None:
            for k, v in list(attrib.d.values()):
                self.set_attrib(e, k, v)
        for k, v in kw.items():
            self.set_attrib(e, k, v)
        return e

    def etree_attr(self, et, name):
        v = self.etree_attr_(et, name)
        if isinstance(v, Native) and name in ("Element", "SubElement", "tostring", "fromstring", "XML", "parse", "XMLParser", "XMLSchema"):
            def logged(I, a, k):
                I.p.log.append(("etree", et.mode, name))
                return v.fn(I, a, k)
            return Native(name, logged)
        return v

    def etree_attr_(self, et, name):
        I = self.I
        lx = et.mode == "lxml"
        if name == "Element":
            return Native("Element", lambda I, a, k: self.mk_elem(et, a, dict(k)))
        if name == "SubElement":
            def sub(I, a, k):
                k = dict(k)
                par = a[0] if a else k.pop("_parent")
                if not isinstance(par, XElem):
                    I.throw("TypeError", "SubElement parent")
                e = self.mk_elem(et, a[1:], k)
                self.elem_append(par, e)
                return e
            return Native(name, sub)
        if name == "tostring":
            return Native(name, lambda I, a, k: self.tostring(et, a, k))
        if name in ("fromstring", "XML"):
            return Native(name, lambda I, a, k: self.fromstring(et, a, k))
        if name == "parse":
            return Native(name, lambda I, a, k: self.parse_file(et, a, k))
        if name == "XMLParser":
            def xp(I, a, k):
                if not lx and set(k) - {"target", "encoding"}:
                    I.throw("TypeError", "XMLParser() got an unexpected keyword argument")
                I.p.log.append(("xmlparser", dict(k)))
                return ExtObj("xmlparser", opts=dict(k))
            return Native(name, xp)
        if name == "XMLSchema":
            if not lx:
                return self.MISSING
            def xs(I, a, k):
                src = a[0] if a else k.get("etree", k.get("file"))
                return ExtObj("xmlschema", src=src)
            return Native(name, xs)
        if name == "LXML_VERSION":
            return (6, 1, 3, 0) if lx else self.MISSING
        if name == "register_namespace":
            def rn(I, a, k):
                I.p.log.append(("register_namespace", tuple(a) + tuple(k.values())))
            return Native(name, rn)
        if name == "QName":
            def qn(I, a, k):
                t = a[0]
                if isinstance(t, XElem):
                    t = t.tag
                t = I.resolve(t)
                if len(a) > 1:
                    t = self.cat(["{", a[0], "}", a[1]])
                if not isinstance(t, str):
                    return ExtObj("qname", text=t, localname=Unk("localname"), namespace=Unk("namespace"))
                m = re.match(r"(?:\{(.*)\})?(.*)", t)
                return ExtObj("qname", text=t, localname=m.group(2), namespace=m.group(1))
            return Native(name, qn)
        if name == "ElementTree":
            return Native(name, lambda I, a, k: XTree(a[0]) if a and isinstance(a[0], XElem) else Unk("tree"))
        if name == "iselement":
            return Native(name, lambda I, a, k: isinstance(a[0], XElem))
        if name == "indent":
            return Native(name, lambda I, a, k: None)
        if name in ("Comment", "ProcessingInstruction", "PI"):
            return Ext("etree." + name)
        if name == "CDATA" and lx:
            return Native(name, lambda I, a, k: a[0])
        if name == "_Element" and lx:
            return Ext("etree._Element")
        if lx and name in ("XMLSyntaxError", "XPathEvalError", "LxmlError", "DocumentInvalid", "ParseError", "XMLSchemaParseError"):
            return Ext("lxml.etree." + name)
        if not lx and name == "ParseError":
            return Ext("xml.etree.ElementTree.ParseError")
        if name == "__name__":
            return "lxml.etree" if lx else "xml.etree.ElementTree"
        if lx and name in ("cleanup_namespaces", "strip_tags", "strip_elements"):
            return Native(name, lambda I, a, k: None)
        if name == "__dict__":
            return Unk("etree dict")
        if lx or name in ("iterparse", "dump", "TreeBuilder", "XMLPullParser", "canonicalize"):
            return Native(name, lambda I, a, k: Unk("etree." + name))
        return self.MISSING

    def tostring(self, et, a, k):
        I = self.I
        e = a[0] if a else k.get("element", k.get("element_or_tree"))
        opts = {x: v for x, v in k.items() if x not in ("element", "element_or_tree")}
        if len(a) > 1:
            opts["encoding"] = a[1]
        bad = set(opts) - (LXML_TOSTRING if et.mode == "lxml" else STD_TOSTRING)
        if bad:
            I.throw("TypeError", f"tostring() got an unexpected keyword argument '{sorted(bad)[0]}'")
        if isinstance(e, XTree):
            e = e.root
        if not isinstance(e, XElem):
            if isinstance(e, Unk):
                return Unk("tostring")
            I.throw("TypeError", "Type cannot be serialized.")
        if et.mode == "stdlib":
            for x in [e, *self.descend(e)]:
                for v in [x.text, *[vv for _, vv in x.attrib.d.values()], *[kk for kk, _ in x.attrib.d.values()]]:
                    v = I.resolve(v)
                    if not (v is None or isinstance(v, (str, Unk)) or (isinstance(v, Sym) and v.ty in ("str", "any"))):
                        I.throw("TypeError", f"cannot serialize {short(v)}")
        pretty = opts.get("pretty_print", False)
        enc = opts.get("encoding")
        I.p.log.append(("tostring", e, dict(opts)))
        r = Sym("tostring", (snapshot(e), bool(pretty) if isinstance(pretty, bool) else pretty), "str", {"truthy"})
        if enc == "unicode" or enc is str:
            return r
        return Sym("encode", (r, str(enc or "ascii").lower()), "bytes", {"truthy"})

    def fromstring(self, et, a, k):
        I = self.I
        v = I.resolve(a[0] if a else k.get("text"))
        if isinstance(v, Sym) and v.op == "encode":
            v = v.args[0]
        if isinstance(v, Sym) and v.op == "strip":
            v = v.args[0]
        if isinstance(v, Sym) and v.op in ("tostring", "xmlbody"):
            return from_snapshot(v.args[0], et.mode)
        if isinstance(v, Sym) and v in I.files:
            return from_snapshot(I.files[v], et.mode)
        if v is None:
            I.throw("ValueError", "can only parse strings")
        raise Undecided("parsing unknown XML text")

    def parse_file(self, et, a, k):
        I = self.I
        f = I.resolve(a[0] if a else k.get("source"))
        parser = a[1] if len(a) > 1 else k.get("parser")
        I.p.log.append(("parsefile", f, parser))
        key = f
        if isinstance(f, ExtObj) and f.kind == "path":
            key = f.attrs["name"]
        if isinstance(f, ExtObj) and f.kind == "file":
            if I.p.__dict__.setdefault("fileconsumed", set()).__contains__(id(f)):
                I.throw_ext("lxml.etree.XMLSyntaxError" if et.mode == "lxml" else "xml.etree.ElementTree.ParseError")
            if parser is None or True:
                I.p.fileconsumed.add(id(f))
            key = f.attrs["name"]
        if key in I.files:
            return XTree(from_snapshot(I.files[key], et.mode))
        if isinstance(key, (str, Sym)):
            return XTree(XElem(f"schema:{key if isinstance(key, str) else short(key)}", et.mode)) if "xsd" in repr(key) else self._undec("parsing unknown file " + short(key))
        raise Undecided("parsing unknown file")

    def _undec(self, m):
        raise Undecided(m)

    # ------------------------------------------------------------ external names
    def open_file(self, path, mode, enc):
        I = self.I
        I.p.log.append(("open", path.attrs["name"] if isinstance(path, ExtObj) else path, mode))
        return ExtObj("file", name=path.attrs["name"] if isinstance(path, ExtObj) else path, mode=mode, encoding=enc)

    def ext_attr(self, o, name):
        full = o.name + "." + name
        if full in ("typing.TYPE_CHECKING", "typing_extensions.TYPE_CHECKING"):
            return False
        if full == "lxml.etree":
            return self.I.etrees["lxml"]
        if full == "xml.etree.ElementTree":
            return self.I.etrees["stdlib"]
        m = self.I.import_module(full, optional=True) if full.split(".")[0] in ("pygeoif", "datetime", "arrow") else None
        if m is not None:
            return m
        if full in ("math.inf", "math.pi", "math.e", "math.nan"):
            return getattr(math, name)
        if full in ("functools.cached_property",):
            return Ext(full)
        if full in ("re.I", "re.IGNORECASE"):
            return re.I.value
        if full in ("re.M", "re.MULTILINE", "re.S", "re.DOTALL", "re.X", "re.VERBOSE", "re.A", "re.ASCII"):
            return getattr(re, name).value
        if full == "re.error":
            return Ext("re.error")
        if full in ("zipfile.ZIP_DEFLATED", "zipfile.ZIP_STORED", "zipfile.ZIP_LZMA"):
            return {"ZIP_DEFLATED": 8, "ZIP_STORED": 0, "ZIP_LZMA": 14}[name]
        if full == "operator.eq":
            return Native("eq", lambda I, a, k: I.eq(a[0], a[1]))
        if full == "string.digits":
            return "0123456789"
        if full == "sys.modules":
            return self.I.mkdict(list(self.I.modules.items()))
        if full == "sys.version_info":
            return (3, 12, 3)
        if full in ("logging.DEBUG", "logging.INFO", "logging.WARNING", "logging.ERROR", "logging.CRITICAL"):
            return {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}[name]
        if full == "__class__":
            return type
        if name == "__name__":
            return o.name.split(".")[-1]
        return Ext(full)

    def call_ext(self, f, a, k):
        I = self.I
        if isinstance(f, Ext):
            n = f.name
            m = getattr(self, "x_" + n.replace(".", "_").replace("[]", ""), None)
            if m is not None:
                return m(*a, **k)
            top = n.split(".")[0]
            if n in EXT_EXC or n.endswith("Error"):
                e = Inst(f)
                e.attrs["args"] = tuple(a)
                return e
            if top in ("typing", "typing_extensions"):
                if n.endswith((".cast",)):
                    return a[1]
                if n.endswith("assert_never"):
                    I.throw("AssertionError", "assert_never")
                if n.endswith((".TypeVar", ".NewType", ".ParamSpec")):
                    return ExtObj("typing", base=None)
                if n.endswith("NamedTuple"):
                    return Unk("NamedTuple")
                return a[0] if a else ExtObj("typing", base=None)
            if top == "warnings":
                I.p.log.append(("warn", tuple(a)))
                return None
            if n.startswith("builtins."):
                d = Deco(n[9:], a[0] if a else None)
                if len(a) > 1:
                    d.fset = a[1]
                return d
            if top == "logging":
                if n == "logging.getLogger":
                    return ExtObj("logger")
                lv = n.split(".")[-1]
                I.p.log.append(("log", lv, tuple(a)))
                return None
            if top == "math":
                nm = n.split(".")[-1]
                vals = [I.resolve(x) for x in a]
                if all(isinstance(x, (int, float)) for x in vals):
                    try:
                        return getattr(math, nm)(*vals)
                    except (ValueError, OverflowError) as e:
                        I.throw(type(e).__name__, str(e))
                if any(x is None or isinstance(x, str) for x in vals):
                    I.throw("TypeError", "must be real number")
                ty = "bool" if nm.startswith("is") else "int" if nm in ("floor", "ceil", "trunc") else "float"
                return Sym("math." + nm, tuple(vals), ty)
            return self.unmodelled(n, a, k)
        if isinstance(f, ExtObj):
            if f.kind == "deco":
                return f.attrs["apply"](a[0])
            if f.kind == "callable":
                return f.attrs["fn"](*a, **k)
            if f.kind == "typing":
                if f.attrs.get("base") is not None:
                    return I.call(f.attrs["base"], a, k)
                return Unk("typing call")
            return Unk(f.kind + "()")
        if isinstance(f, Sym):
            if f.op == "attr":
                try:
                    return Sym("call." + f.args[1], (f.args[0], *a), "any")
                except TypeError:
                    return Unk("call")
            I.throw("TypeError", "object is not callable")
        if isinstance(f, Etree):
            I.throw("TypeError", "'module' object is not callable")
        return Unk("call")

    def unmodelled(self, n, a, k):
        self.I.p.notes.append("unmodelled call " + n)
        try:
            return Sym("ext:" + n, tuple(x if isinstance(x, (Sym, *CONST, tuple)) else id(x) for x in a), "any")
        except TypeError:
            return Unk(n)

    # typing
    def x_typing_cast(self, t, v):
        return v

    x_typing_extensions_cast = x_typing_cast

    # functools
    def x_functools_lru_cache(self, *a, **k):
        if a and isinstance(a[0], (Fn, Deco)):
            return Deco("lru_cache", a[0])
        return ExtObj("deco", apply=lambda f: Deco("lru_cache", f))

    x_functools_cache = x_functools_lru_cache

    def x_functools_wraps(self, w, *a, **k):
        return ExtObj("deco", apply=lambda f: f)

    def x_functools_partial(self, f, *a, **k):
        return Partial(f, a, k)

    def x_functools_partialmethod(self, f, *a, **k):
        return Deco("partialmethod", Partial(f, a, k))

    def x_functools_reduce(self, f, it, *init):
        I = self.I
        items = list(I.iterate(it))
        if init:
            acc = init[0]
        else:
            if not items:
                I.throw("TypeError", "reduce() of empty iterable with no initial value")
            acc = items.pop(0)
        for x in items:
            acc = I.call(f, [acc, x], {})
        return acc

    # itertools
    def x_itertools_zip_longest(self, *its, fillvalue=None):
        I = self.I
        for it in its:
            I.check_iterable(it)
        gens = [I.iterate(x) for x in its]

        def gen():
            alive = [True] * len(gens)
            while any(alive):
                row = []
                for i, g in enumerate(gens):
                    if alive[i]:
                        try:
                            row.append(next(g))
                            continue
                        except StopIteration:
                            alive[i] = False
                    row.append(fillvalue)
                if not any(alive):
                    return
                yield tuple(row)
        return VIter(gen())

    def x_itertools_chain(self, *its):
        I = self.I

        def gen():
            for it in its:
                I.check_iterable(it)
                yield from I.iterate(it)
        return VIter(gen())

    def x_itertools_chain_from_iterable(self, it):
        I = self.I

        def gen():
            for x in I.iterate(it):
                I.check_iterable(x)
                yield from I.iterate(x)
        return VIter(gen())

    def x_itertools_islice(self, it, *a):
        I = self.I
        src = I.resolve(it)
        a = [self.idx(x) for x in a]
        if not all(x is None or isinstance(x, int) for x in a):
            raise Undecided("islice")
        items = list(I.iterate(src))
        stop = a[0] if len(a) == 1 else a[1]
        if isinstance(src, VList) and src.rep and stop is not None and stop > len(items) + 1:
            if not I.decide(f"sequence has at most {stop} items"):
                items = items[:-1]
        return VIter(iter(items[slice(*a)]))

    def x_itertools_count(self, start=0, step=1):
        return VIter(itertools.count(start, step))

    def x_itertools_repeat(self, v, *n):
        return VIter(itertools.repeat(v, *n))

    def x_itertools_starmap(self, f, it):
        I = self.I
        return VIter(I.call(f, list(I.iterate(x)), {}) for x in I.iterate(it))

    def x_itertools_filterfalse(self, f, it):
        I = self.I
        return VIter(x for x in I.iterate(it) if not I.truth(x if f is None else I.call(f, [x], {})))

    def x_itertools_takewhile(self, f, it):
        I = self.I
        return VIter(itertools.takewhile(lambda x: I.truth(I.call(f, [x], {})), I.iterate(it)))

    def x_itertools_dropwhile(self, f, it):
        I = self.I
        return VIter(itertools.dropwhile(lambda x: I.truth(I.call(f, [x], {})), I.iterate(it)))

    def x_itertools_product(self, *its):
        I = self.I
        return VIter(itertools.product(*[list(I.iterate(x)) for x in its]))

    def x_itertools_compress(self, a, b):
        I = self.I
        return VIter(x for x, y in zip(I.iterate(a), I.iterate(b)) if I.truth(y))

    def x_itertools_tee(self, it, n=2):
        items = list(self.I.iterate(it))
        return tuple(VIter(iter(list(items))) for _ in range(n))

    def x_itertools_accumulate(self, it, *a):
        raise Undecided("accumulate")

    # operator
    def x_operator_attrgetter(self, *names):
        I = self.I

        def get(o, n):
            for part in n.split("."):
                o = I.getattr(o, part)
            return o

        def f(I, a, k):
            r = tuple(get(a[0], n) for n in names)
            return r[0] if len(r) == 1 else r
        return Native("attrgetter", f)

    def x_operator_itemgetter(self, *ks):
        def f(I, a, k):
            r = tuple(I.getitem(a[0], x) for x in ks)
            return r[0] if len(r) == 1 else r
        return Native("itemgetter", f)

    def x_operator_methodcaller(self, name, *a, **k):
        return Native("methodcaller", lambda I, aa, kk: I.call(I.getattr(aa[0], name), list(a), k))

    def x_operator_is_not(self, a, b):
        return not self.I.truth(self.I.is_(a, b))

    def x_operator_is_(self, a, b):
        return self.I.truth(self.I.is_(a, b))

    def x_operator_ne(self, a, b):
        return not self.I.veq(a, b)

    def x_operator_not_(self, a):
        return not self.I.truth(a)

    def x_operator_truth(self, a):
        return self.I.truth(a)

    # collections
    def x_collections_OrderedDict(self, *a, **k):
        return self.call_type(dict, a, k)

    def x_collections_defaultdict(self, *a, **k):
        d = self.call_type(dict, a[1:], k)
        d.factory = a[0] if a else None
        return d

    def x_collections_deque(self, it=(), maxlen=None):
        return VList(self.I.iterate(it))

    def x_collections_ChainMap(self, *maps):
        d = VDict()
        for m in reversed(maps):
            d.d.update(m.d)
        return d

    def x_types_MappingProxyType(self, d):
        return d

    def x_types_SimpleNamespace(self, **k):
        o = Inst(object)
        o.attrs.update(k)
        return o

    # copy
    def x_copy_copy(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, VList):
            return VList(v.items, rep=v.rep)
        if isinstance(v, VDict):
            d = VDict()
            d.d.update(v.d)
            return d
        if isinstance(v, Inst):
            o = Inst(v.cls)
            o.attrs.update(v.attrs)
            o.payload = v.payload
            return o
        return v

    def x_copy_deepcopy(self, v, *a):
        memo = {}
        I = self.I

        def dc(x):
            x = I.resolve(x)
            if id(x) in memo:
                return memo[id(x)]
            if isinstance(x, tuple):
                return tuple(dc(y) for y in x)
            if isinstance(x, VList):
                n = VList((), rep=x.rep)
                memo[id(x)] = n
                n.items = [dc(y) for y in x.items]
                return n
            if isinstance(x, VDict):
                n = VDict()
                memo[id(x)] = n
                n.d = {h: (k, dc(y)) for h, (k, y) in x.d.items()}
                return n
            if isinstance(x, VSet):
                n = VSet(x.frozen)
                n.d = dict(x.d)
                return n
            if isinstance(x, Inst) and not (isinstance(x.cls, Cls) and x.cls.enum):
                n = Inst(x.cls)
                memo[id(x)] = n
                n.attrs = {k: dc(y) for k, y in x.attrs.items()}
                n.payload = dc(x.payload) if x.payload is not None else None
                return n
            if isinstance(x, XElem):
                return from_snapshot(snapshot(x), x.mode)
            return x
        return dc(v)

    # dataclasses / enum
    def x_dataclasses_dataclass(self, *a, **k):
        if a and isinstance(a[0], Cls):
            return self.mk_dataclass(a[0], k)
        return ExtObj("deco", apply=lambda c: self.mk_dataclass(c, k))

    def x_dataclasses_field(self, **k):
        return ExtObj("field", **k)

    def x_dataclasses_replace(self, o, **k):
        I = self.I
        return I.call(o.cls, [], {**{n: o.attrs[n] for n in I.dc_fields(o.cls)}, **k})

    def x_dataclasses_fields(self, o):
        I = self.I
        c = o.cls if isinstance(o, Inst) else o
        return tuple(ExtObj("dcfield", name=n) for n in I.dc_fields(c))

    def x_dataclasses_asdict(self, o):
        I = self.I
        return I.mkdict([(n, o.attrs[n]) for n in I.dc_fields(o.cls)])

    def x_dataclasses_astuple(self, o):
        return tuple(o.attrs[n] for n in self.I.dc_fields(o.cls))

    def x_enum_auto(self):
        return ExtObj("enum.auto")

    # contextlib
    def x_contextlib_suppress(self, *a):
        return ExtObj("suppress", types=tuple(a))

    def x_contextlib_nullcontext(self, v=None):
        return ExtObj("nullcontext", v=v)

    def x_contextlib_closing(self, v):
        return ExtObj("nullcontext", v=v)

    def with_ext(self, cm, body):
        I = self.I
        if isinstance(cm, ExtObj):
            if cm.kind == "suppress":
                try:
                    body(None)
                except AbsExc as e:
                    if I.exc_matches(e.val, cm.attrs["types"]):
                        return
                    raise
                return
            if cm.kind == "nullcontext":
                body(cm.attrs["v"])
                return
            if cm.kind in ("file", "zip", "lock"):
                body(cm)
                I.p.log.append(("close", cm))
                return
            body(Unk(cm.kind))
            return
        if isinstance(cm, (Unk, Sym)):
            body(Unk("context"))
            return
        if cm is None or isinstance(cm, CONST):
            I.throw("TypeError", "object does not support the context manager protocol")
        body(Unk("context"))

    def x_threading_Lock(self):
        return ExtObj("lock")

    x_threading_RLock = x_threading_Lock

    # re
    def x_re_compile(self, p, flags=0):
        return ExtObj("regex", p=p, flags=flags)

    def x_re_sub(self, p, r, s, count=0, flags=0):
        return self.re_sub(p, r, s, flags, count)

    def re_sub(self, p, r, s, flags=0, count=0):
        I = self.I
        p = p.attrs["p"] if isinstance(p, ExtObj) else p
        s = I.resolve(s)
        if s is None or isinstance(s, (int, float)):
            I.throw("TypeError", "expected string or bytes-like object")
        if isinstance(s, Unk):
            return s
        if not isinstance(p, str):
            return Unk("re.sub")
        if isinstance(s, str):
            if isinstance(r, str):
                return re.sub(p, r, s, count=count, flags=flags)
            return Unk("re.sub")
        if "garbage" in s.flags:
            return s
        if isinstance(r, str) and self.numeric_safe(s, p):
            chars = set(" ,\t\n")
            t, mp = self.opaque(s, space=True, comma=True)
            if t is not None:
                return self.unopaque(re.sub(p, r, t, count=count, flags=flags), mp)
        return Sym("re.sub", (p, r if isinstance(r, str) else repr(r), s), "str")

    def numeric_safe(self, s, p):
        """pattern cannot match inside a numeric token differently than in a placeholder"""
        if any(isinstance(x, Sym) and x.op in NUMTOK for x in self.parts_of(s)):
            return not re.search(r"\\d|\\w|[0-9]|\\\.|e|\+\d|\[", p.replace(" +", "").replace("\\s", ""))
        return True

    def match(self, p, s, how, flags=0):
        I = self.I
        s = I.resolve(s)
        if isinstance(s, Unk):
            return Unk("match")
        if s is None or isinstance(s, (bool, int, float)) or (isinstance(s, Sym) and s.ty in ("int", "float")):
            I.throw("TypeError", "expected string or bytes-like object, got " + short(s))
        if not isinstance(p, str):
            return Unk("match")
        if isinstance(s, str):
            m = getattr(re, how)(p, s, flags)
            if m is None:
                return None
            return ExtObj("match", m=m, mp=None, src=s)
        if "garbage" in s.flags:
            return None
        parts = self.parts_of(s)
        # digit runs are instantiated with representative digits
        if all(isinstance(x, str) or x.op == "digits" or "atom" in x.flags or "isotail" in x.flags for x in parts):
            res = []
            for digs in ({4: "1987", 3: "987", 2: "04"}, {4: "2015", 3: "215", 2: "11"}):
                text, spans = "", []
                for x in parts:
                    if isinstance(x, str):
                        text += x
                        continue
                    rep = digs.get(x.args[1], "9" * x.args[1]) if x.op == "digits" else ("12:34:56+00:00" if "isotail" in x.flags else "\ue000")
                    spans.append((len(text), len(text) + len(rep), x))
                    text += rep
                res.append((getattr(re, how)(p, text, flags), spans))
            (m1, spans), (m2, _) = res
            if (m1 is None) != (m2 is None):
                raise Undecided("regex depends on digits")
            if m1 is None:
                return None
            return ExtObj("match", m=m1, mp=spans, src=s)
        if I.decide(f"{short(s)} matches {p!r}"):
            return ExtObj("match", m=None, mp=None, src=s)
        return None

    def match_group(self, o, g):
        I = self.I
        m = o.attrs["m"]
        if m is None:
            return Sym("group", (o.attrs["src"], g), "str")
        try:
            t = m.group(g)
            sp = m.span(g)
        except (IndexError, error_type):
            I.throw("IndexError", "no such group")
        if t is None or not o.attrs["mp"]:
            return t
        out = []
        pos = sp[0]
        for a, b, x in o.attrs["mp"]:
            if b <= sp[0] or a >= sp[1]:
                continue
            if a < sp[0] or b > sp[1]:
                if x.op == "digits":
                    return Sym("digitpart", (x, sp[0] - a, sp[1] - a), "str", {"truthy", "nospace", "nocomma"})
                raise Undecided("partial group")
            out.append(m.string[pos:a])
            out.append(x)
            pos = b
        out.append(m.string[pos:sp[1]])
        return self.cat(out)

    def x_re_match(self, p, s, flags=0):
        return self.match(p, s, "match", flags)

    def x_re_fullmatch(self, p, s, flags=0):
        return self.match(p, s, "fullmatch", flags)

    def x_re_search(self, p, s, flags=0):
        return self.match(p, s, "search", flags)

    def x_re_split(self, p, s, maxsplit=0, flags=0):
        s = self.I.resolve(s)
        if isinstance(s, str):
            return VList(re.split(p, s, maxsplit=maxsplit, flags=flags))
        if isinstance(s, Sym) and s.ty == "str" and self.numeric_safe(s, p):
            if "garbage" in s.flags:
                return VList([s])
            t, mp = self.opaque(s, space=True, comma=True)
            if t is not None:
                return VList([self.unopaque(x, mp) if x is not None else None for x in re.split(p, t, maxsplit=maxsplit, flags=flags)])
        if s is None:
            self.I.throw("TypeError", "expected string")
        return Unk("re.split")

    def x_re_findall(self, p, s, flags=0):
        s = self.I.resolve(s)
        if isinstance(s, str):
            return VList(re.findall(p, s, flags))
        if isinstance(s, Sym) and s.ty == "str" and self.numeric_safe(s, p):
            t, mp = self.opaque(s, space=True, comma=True)
            if t is not None:
                r = re.findall(p, t, flags)
                if all(isinstance(x, str) for x in r):
                    return VList([self.unopaque(x, mp) for x in r])
        return Unk("re.findall")

    def x_re_escape(self, s):
        return re.escape(s) if isinstance(s, str) else Unk("re.escape")

    # urllib
    def x_urllib_parse_urlparse(self, s, *a, **k):
        return self.url(s, "urlparse")

    def x_urllib_parse_urlsplit(self, s, *a, **k):
        return self.url(s, "urlsplit")

    def x_urllib_parse_urldefrag(self, s):
        return self.url(s, "urldefrag")

    def url(self, s, how):
        I = self.I
        s = I.resolve(s)
        if isinstance(s, (str, Sym)):
            t, mp = self.opaque(s, chars=set("#?/:;&=%"))
            if t is not None:
                r = getattr(urllib.parse, how)(t)
                attrs = {n: (self.unopaque(getattr(r, n), mp) if isinstance(getattr(r, n), str) else getattr(r, n)) for n in ("scheme", "netloc", "path", "query", "fragment", "url", "params") if hasattr(r, n)}
                return ExtObj("url", seq=tuple(self.unopaque(x, mp) for x in r), **attrs)
            return ExtObj("url", seq=None, **{n: Sym("url." + n, (s,), "str") for n in ("scheme", "netloc", "path", "query", "fragment", "url", "params")})
        return Unk("url")

    def x_urllib_parse_unquote(self, s, *a):
        s = self.I.resolve(s)
        if isinstance(s, str):
            return urllib.parse.unquote(s)
        if isinstance(s, Sym):
            if "atom" in s.flags:
                return s
            return Sym("unquote", (s,), "str")
        return Unk("unquote")

    def x_urllib_parse_quote(self, s, *a, **k):
        s = self.I.resolve(s)
        if isinstance(s, Sym):
            return Sym("quote", (s,), "str")
        return Unk("quote")

    # pathlib / os / zip / io
    def x_pathlib_Path(self, *a):
        if len(a) == 1 and isinstance(a[0], ExtObj) and a[0].kind == "path":
            return a[0]
        if len(a) == 1 and isinstance(a[0], ExtObj) and a[0].kind == "file":
            self.I.throw("TypeError", "expected str, bytes or os.PathLike object")
        return ExtObj("path", name=self.cat([x if i == 0 else self.cat(["/", x]) for i, x in enumerate(self.str_(y) for y in a)]))

    x_pathlib_PurePath = x_pathlib_Path

    def x_os_fspath(self, p):
        return p.attrs["name"] if isinstance(p, ExtObj) and p.kind == "path" else p

    def x_os_path_splitext(self, p):
        n = self.I.resolve(p.attrs["name"] if isinstance(p, ExtObj) else p)
        import os as _os
        return _os.path.splitext(n) if isinstance(n, str) else Unk("splitext")

    def x_os_path_join(self, *a):
        return self.cat([x if i == 0 else self.cat(["/", x]) for i, x in enumerate(self.str_(y) for y in a)])

    def x_os_path_dirname(self, p):
        p = self.str_(p)
        return p.rsplit("/", 1)[0] if isinstance(p, str) else Unk("dirname")

    def x_os_path_abspath(self, p):
        return p

    def x_zipfile_ZipFile(self, path, mode="r", compression=0, *a, **k):
        z = ExtObj("zip", path=path, mode=mode, compression=compression)
        self.I.p.log.append(("zipopen", path.attrs["name"] if isinstance(path, ExtObj) and "name" in path.attrs else path, mode, compression))
        return z

    def x_zipfile_is_zipfile(self, path):
        return Sym("ext:is_zipfile", (), "bool")

    def x_io_StringIO(self, *a):
        return ExtObj("file", name=a[0] if a else "", mode="r", encoding=None)

    x_io_BytesIO = x_io_StringIO

    def extobj_attr(self, o, name):
        I = self.I
        k = o.kind
        if name in o.attrs and k not in ("match", "regex", "ctxgen", "deco", "path"):
            return o.attrs[name]
        if k == "logger":
            if name in ("debug", "info", "warning", "error", "critical", "exception", "warn"):
                def lg(I, a, kw):
                    I.p.log.append(("log", name, tuple(a)))
                return Native(name, lg)
            if name == "log":
                def lg2(I, a, kw):
                    lv = I.resolve(a[0])
                    nm = {10: "debug", 20: "info", 30: "warning", 40: "error", 50: "critical"}.get(lv, "log") if isinstance(lv, int) else "log"
                    I.p.log.append(("log", nm, tuple(a[1:])))
                return Native(name, lg2)
            if name == "isEnabledFor":
                return Native(name, lambda I, a, kw: True)
            return Native(name, lambda I, a, kw: None)
        if k == "regex":
            p, fl = o.attrs["p"], o.attrs["flags"]
            if name in ("match", "fullmatch", "search"):
                return Native(name, lambda I, a, kw: self.match(p, a[0], name, fl))
            if name == "sub":
                return Native(name, lambda I, a, kw: self.re_sub(p, a[0], a[1], fl))
            if name == "split":
                return Native(name, lambda I, a, kw: self.x_re_split(p, a[0], 0, fl))
            if name == "findall":
                return Native(name, lambda I, a, kw: self.x_re_findall(p, a[0], fl))
            if name == "pattern":
                return p
            return Unk("regex." + name)
        if k == "match":
            if name == "group":
                return Native(name, lambda I, a, kw: self.match_group(o, a[0] if a else 0) if len(a) < 2 else tuple(self.match_group(o, x) for x in a))
            if name == "groupdict":
                if o.attrs["m"] is None:
                    return Native(name, lambda I, a, kw: Unk("groupdict"))
                return Native(name, lambda I, a, kw: I.mkdict([(g, self.match_group(o, g)) for g in o.attrs["m"].re.groupindex]))
            if name == "groups":
                if o.attrs["m"] is None:
                    return Native(name, lambda I, a, kw: Unk("groups"))
                return Native(name, lambda I, a, kw: tuple(self.match_group(o, i + 1) for i in range(o.attrs["m"].re.groups)))
            return Unk("match." + name)
        if k == "xmlschema":
            if name == "assert_" or name == "assertValid":
                def as_(I, a, kw):
                    I.p.log.append(("schema", name, o, a[0]))
                    if not self.elementish(a[0]):
                        I.throw("TypeError", "Invalid input object")
                    if I.decide("document is schema valid"):
                        return None
                    if name == "assert_":
                        I.throw("AssertionError", "schema")
                    I.throw_ext("lxml.etree.DocumentInvalid")
                return Native(name, as_)
            if name == "validate":
                def va(I, a, kw):
                    I.p.log.append(("schema", name, o, a[0]))
                    if not self.elementish(a[0]):
                        I.throw("TypeError", "Invalid input object")
                    return I.decide("document is schema valid")
                return Native(name, va)
            if name == "error_log":
                return ExtObj("error_log")
            return Unk("schema." + name)
        if k == "errentry":
            return Sym("errentry." + name, (), "str")
        if k == "error_log":
            return Unk("error_log." + name)
        if k == "path":
            n = o.attrs["name"]
            cn = I.resolve(n)
            import pathlib
            if isinstance(cn, str) and name in ("suffix", "stem", "name", "suffixes", "parts", "anchor", "root", "drive"):
                r = getattr(pathlib.PurePosixPath(cn), name)
                return VList(r) if isinstance(r, list) else r
            if name == "parent":
                return ExtObj("path", name=str(pathlib.PurePosixPath(cn).parent) if isinstance(cn, str) else Sym("parent", (n,), "str"))
            if name == "open":
                return Native(name, lambda I, a, kw: self.open_file(o, a[0] if a else kw.get("mode", "r"), kw.get("encoding", a[2] if len(a) > 2 else None)))
            if name in ("write_text", "write_bytes"):
                def wt(I, a, kw):
                    I.p.log.append(("write", n, "w" if name == "write_text" else "wb", kw.get("encoding", a[1] if len(a) > 1 else None), a[0]))
                return Native(name, wt)
            if name in ("exists", "is_file"):
                return Native(name, lambda I, a, kw: True)
            if name in ("resolve", "absolute", "expanduser"):
                return Native(name, lambda I, a, kw: o)
            if name == "as_posix" or name == "__fspath__":
                return Native(name, lambda I, a, kw: n)
            if name == "with_suffix" and isinstance(cn, str):
                return Native(name, lambda I, a, kw: ExtObj("path", name=str(pathlib.PurePosixPath(cn).with_suffix(a[0]))))
            if name == "joinpath":
                return Native(name, lambda I, a, kw: ExtObj("path", name=self.cat([n, *[self.cat(["/", self.str_(x)]) for x in a]])))
            if name == "__class__":
                return Ext("pathlib.Path")
            if name in ("endswith", "startswith", "lower", "split", "strip", "find", "decode"):
                return self.MISSING
            return Unk("path." + name)
        if k == "file":
            if name == "write":
                def wr(I, a, kw):
                    I.p.log.append(("write", o.attrs["name"], o.attrs["mode"], o.attrs["encoding"], a[0]))
                return Native(name, wr)
            if name == "writelines":
                def wl(I, a, kw):
                    for x in I.iterate(a[0]):
                        I.p.log.append(("write", o.attrs["name"], o.attrs["mode"], o.attrs["encoding"], x))
                return Native(name, wl)
            if name == "read":
                def rd(I, a, kw):
                    nm = o.attrs["name"]
                    if nm in I.files:
                        return Sym("tostring", (I.files[nm], False), "str", {"truthy"})
                    return Unk("file.read")
                return Native(name, rd)
            if name in ("close", "flush"):
                return Native(name, lambda I, a, kw: None)
            if name == "seek":
                def sk(I, a, kw):
                    I.p.__dict__.setdefault("fileconsumed", set()).discard(id(o))
                    return 0
                return Native(name, sk)
            return Unk("file." + name)
        if k == "zip":
            if name == "writestr":
                def ws(I, a, kw):
                    I.p.log.append(("writestr", o, a[0], a[1] if len(a) > 1 else kw.get("data"), kw))
                return Native(name, ws)
            if name in ("close",):
                return Native(name, lambda I, a, kw: None)
            return Unk("zip." + name)
        if k == "qname":
            return self.MISSING
        if k == "typing":
            if o.attrs.get("base") is not None:
                v = I.getattr_opt(o.attrs["base"], name)
                return self.MISSING if v is I else v
            return Unk("typing." + name)
        if k == "dcfield":
            return Unk("field." + name)
        if k == "lock":
            return Native(name, lambda I, a, kw: True)
        if k == "slice":
            return {"start": o.attrs["lower"], "stop": o.attrs["upper"], "step": o.attrs["step"]}.get(name, self.MISSING)
        return Unk(f"{k}.{name}")

    def elementish(self, v):
        return isinstance(v, (XElem, XTree, Unk))

    def iterate(self, v):
        if isinstance(v, ExtObj):
            if v.kind == "url" and v.attrs.get("seq") is not None:
                return v.attrs["seq"]
            if v.kind == "error_log":
                return [ExtObj("errentry")]
            if v.kind == "classvar":
                return []
            raise Undecided("iterating " + v.kind)
        if isinstance(v, Ext):
            raise Undecided("iterating " + v.name)
        return None


error_type = re.error


