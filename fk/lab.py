"""Scenario kit on top of the abstract interpreter.

Builds abstract instances of the element classes through their public
constructors, with provenance symbols as field values, next to an independent
description ("model") of what they must contain; writes and reads them through
the public methods; compares attributes with the model structurally.
"""
from __future__ import annotations

import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from engine import Interp, is_exc_type  # noqa: E402
from values import (  # noqa: E402
    AbsExc, Bound, Cls, Etree, Ext, ExtObj, Fn, Inst, Sym, Undecided, Unk, VDict, VIter, VList, VSet, XElem, XTree,
    dump, short, snapshot,
)
import spec  # noqa: E402
from spec import CLASSES, ENUMS, URI  # noqa: E402

REPO = os.environ.get("FK_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class Fail(Exception):
    """A property obligation is violated on the current abstract path."""

    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.msg, self.where = msg, where


class AnchorLost(Exception):
    """Something the property names (class, function, attribute) is not there."""


class E:
    """Expected enumeration member."""

    def __init__(self, enum, value):
        self.enum, self.value = enum, value

    def __repr__(self):
        return f"{self.enum}:{self.value}"


class D:
    """Expected KmlDateTime."""

    def __init__(self, res, y, m=None, d=None, tail=None):
        self.res, self.y, self.m, self.d, self.tail = res, y, m, d, tail

    def __repr__(self):
        return f"KmlDateTime[{self.res}]"


class O:
    """Expected element object: class path and set fields."""

    def __init__(self, path, fields=None):
        self.path, self.fields = path, fields or {}

    def __repr__(self):
        return f"{self.path}{list(self.fields)}"


class TI:
    """Expected track item."""

    def __init__(self, when, coord, angle=None):
        self.when, self.coord, self.angle = when, coord, angle


RES = ("year", "year_month", "date", "datetime")


class Lab:
    def __init__(self):
        self.I = Interp(REPO, STUBS)
        self.I.import_module("fastkml")
        self._cls = {}
        self.counter = 0
        self.prec = None  # decimals the oracle writes coordinates with
        self.grouped = False  # mixed lists: compare each kind's members in order
        self.modes = ("lxml", "stdlib")

    # ---------------------------------------------------------------- names
    def mod(self, name):
        try:
            return self.I.import_module(name)
        except AbsExc as e:
            raise AnchorLost(f"module {name} cannot be loaded: {e.val}")

    def name(self, dotted):
        """fastkml.<dotted>, e.g. 'styles.LineStyle'."""
        if dotted in self._cls:
            return self._cls[dotted]
        m, _, n = dotted.rpartition(".")
        mod = self.mod("fastkml." + m if m else "fastkml")
        if n not in mod.env.vars:
            raise AnchorLost(f"fastkml.{dotted} does not exist")
        v = mod.env.vars[n]
        self._cls[dotted] = v
        return v

    cls = name

    def enum(self, name, value):
        c = self.name("enums." + name)
        for m in c.members.values():
            if m.attrs.get("_value_") == value:
                return m
        return None

    def where(self, path, field=None):
        try:
            c = self.name(path)
            w = getattr(c, "where", "?")
        except AnchorLost:
            w = "?"
        w = w.replace(REPO + "/", "")
        return f"{w} (class {path}{', field ' + field if field else ''})"

    # -------------------------------------------------------------- symbols
    def sym(self, name, ty, *flags):
        return Sym("v", (name,), ty, flags)

    def text(self, name, distinct=True):
        return self.sym(name, "str", "truthy", "stripped", *(("distinct",) if distinct else ()))

    def num(self, name, ty="float", distinct=True):
        return self.sym(name, ty, *(("distinct", "truthy") if distinct else ()))

    def date(self, name, res, small=False):
        y = self.sym(name + ".year", "int", "truthy", "w4", "distinct", "y3" if small else "big")
        m = self.sym(name + ".month", "int", "truthy", "w2", "distinct")
        d = self.sym(name + ".day", "int", "truthy", "w2", "distinct")
        if res == "year":
            return D(res, y)
        if res == "year_month":
            return D(res, y, m)
        if res == "date":
            return D(res, y, m, d)
        return D(res, y, m, d, self.sym(name + ".time", "str", "truthy", "stripped", "isotail", "nospace", "distinct", "nocomma"))

    def mkdate(self, m: D):
        """Build the KmlDateTime through its constructor."""
        I = self.I
        dtm = I.import_module("datetime")
        if m.res == "datetime":
            dt = I.call(dtm.env.vars["datetime"], [m.y, m.m, m.d], {"tail": m.tail})
        else:
            dt = I.call(dtm.env.vars["date"], [m.y, m.m or 1, m.d or 1], {})
        res = self.name("enums.DateTimeResolution")
        return I.call(self.name("times.KmlDateTime"), [dt, I.getattr(res, m.res)], {})

    def datetext(self, m: D):
        I = self.I
        y = I.models.format_(m.y, "04d")
        if m.res == "year":
            return y
        mo = I.models.format_(m.m, "02d")
        if m.res == "year_month":
            return I.models.cat([y, "-", mo])
        d = I.models.format_(m.d, "02d")
        if m.res == "date":
            return I.models.cat([y, "-", mo, "-", d])
        return I.models.cat([y, "-", mo, "-", d, "T", m.tail])

    def coords(self, prefix, n=2, dim=3, distinct=True):
        return tuple(tuple(self.num(f"{prefix}{i}{'xyz'[k]}", "float", distinct) for k in range(dim)) for i in range(n))

    # ------------------------------------------------------------- models
    def npts(self, owner):
        return {"geometry.Point": 1, "geometry.LineString": 3, "geometry.LinearRing": 4}.get(owner, 2)

    def ring(self, prefix, dim=3, n=None):
        # rings of different lengths: holes are told apart by size as well
        c = self.coords(prefix, n or (4, 3, 5)[sum(map(ord, prefix)) % 3], dim)
        return (*c, c[0])

    def simple(self, f, prefix, distinct=True, enum_i=None):
        """Model value for a simple field."""
        nm = f"{prefix}.{f.name}"
        if f.kind == "text":
            return self.text(nm, distinct)
        if f.kind in ("float", "int"):
            return self.num(nm, f.kind, distinct)
        if f.kind == "bool":
            return self.sym(nm, "bool")
        if f.kind == "enum":
            vals = ENUMS[f.enum]
            return E(f.enum, vals[(len(vals) - 1 if enum_i is None else enum_i) % len(vals)])
        if f.kind == "date":
            return self.date(nm, "date")
        if f.kind == "coords":
            return self.coords(nm, 2)
        raise KeyError(f.kind)

    def model(self, path, prefix="o", depth=2, owner=None, pick=None, only=None, boolean=None, distinct=True, dim=3):
        """All fields set.  depth bounds optional nesting; pick(path, field) chooses classes."""
        c = CLASSES[path]
        out = {}
        for f in c.fields:
            nm = f"{prefix}.{f.name}"
            if only is not None and f.name not in only and not f.required:
                continue
            if f.kind in ("obj", "list"):
                core = self.core(path, f.name)
                if depth <= 0 and not core:
                    continue
                choice = pick(path, f) if pick else None
                classes = choice if choice is not None else ([f.classes[0]] if f.kind == "obj" else self.listmix(path, f))
                if f.kind == "obj":
                    out[f.name] = self.model(classes[0], nm, depth - 1, owner=path, boolean=boolean, distinct=distinct, dim=dim)
                else:
                    out[f.name] = [self.model(k, f"{nm}[{i}]", depth - 1, owner=path, boolean=boolean, distinct=distinct, dim=dim)
                                   for i, k in enumerate(classes)]
            elif f.kind == "coords":
                ring = owner == "geometry.LinearRing"
                out[f.name] = self.ring(nm, dim) if ring else self.coords(nm, self.npts(owner), dim, distinct)
            elif f.kind == "track":
                out[f.name] = [TI(self.date(f"{nm}[{i}].when", "datetime"), self.coords(f"{nm}[{i}].coord", 1, dim, distinct)[0],
                                  self.coords(f"{nm}[{i}].angle", 1, 3, distinct)[0]) for i in range(2)]
            elif f.kind == "bool" and boolean is not None:
                out[f.name] = boolean
            else:
                out[f.name] = self.simple(f, prefix, distinct)
        return O(path, out)

    # nested fields that make up the element's defining content
    CORE = {
        "geometry.Point": {"kml_coordinates"}, "geometry.LineString": {"kml_coordinates"}, "geometry.LinearRing": {"kml_coordinates"},
        "geometry.OuterBoundaryIs": {"kml_geometry"}, "geometry.InnerBoundaryIs": {"kml_geometry"},
        "geometry.Polygon": {"outer_boundary"}, "geometry.MultiGeometry": {"kml_geometries"}, "gx.MultiTrack": {"tracks"},
        "data.SchemaData": {"data"}, "data.ExtendedData": {"elements"}, "data.Schema": {"fields"}, "model.ResourceMap": {"aliases"},
        "styles.Style": {"styles"}, "styles.StyleMap": {"pairs"}, "styles.Pair": {"style"}, "views.Region": {"lat_lon_alt_box"},
        "features.NetworkLink": {"link"}, "styles.IconStyle": {"icon"}, "model.Model": {"location", "link"},
    }

    def core(self, path, fname):
        return fname in self.CORE.get(path, ())

    def listmix(self, path, f):
        """Default mixture for a list field: two of the first kind and one of each other leaf kind."""
        if f.name == "features":
            return ["features.Placemark", "features.Placemark", "overlays.GroundOverlay"]
        if path == "geometry.MultiGeometry":
            return ["geometry.Point", "geometry.Point", "geometry.LineString"]
        return [f.classes[0], f.classes[0], *f.classes[1:]]

    # ------------------------------------------------------------ instances
    def value(self, m):
        """Abstract runtime value for a model."""
        if isinstance(m, O):
            return self.make(m)
        if isinstance(m, E):
            v = self.enum(m.enum, m.value)
            if v is None:
                raise Fail(f"enumeration {m.enum} has no member for schema value {m.value!r}", self.where("enums." + m.enum))
            return v
        if isinstance(m, D):
            return self.mkdate(m)
        if isinstance(m, TI):
            I = self.I
            geo = I.import_module("pygeoif.geometry")
            pt = I.call(geo.env.vars["Point"], list(m.coord), {})
            kw = {"when": self.mkdate(m.when), "coord": pt}
            if m.angle is not None:
                kw["angle"] = I.call(self.name("gx.Angle"), list(m.angle), {})
            return I.call(self.name("gx.TrackItem"), [], kw)
        if isinstance(m, list):
            return VList([self.value(x) for x in m])
        return m

    def make(self, m: O, **extra):
        kw = {k: self.value(v) for k, v in m.fields.items()}
        kw.update(extra)
        return self.I.call(self.name(m.path), [], kw)

    # ------------------------------------------------------------ comparing
    def same(self, got, want):
        """Decide got == want, forking when it depends on the symbols."""
        I = self.I
        got, want = I.resolve(got), I.resolve(want)
        if isinstance(got, Unk):
            raise Undecided("compare unknown " + got.why)
        if isinstance(want, bool) or (isinstance(want, Sym) and want.ty == "bool"):
            if not (isinstance(got, bool) or (isinstance(got, Sym) and got.ty == "bool")):
                return False
        if isinstance(got, Sym) and I.tainted(got):
            raise Undecided("compare " + short(got))
        if isinstance(got, (Inst, VList, VDict, XElem)) and not isinstance(want, (Inst, VList, VDict, XElem)):
            if isinstance(got, Inst) and isinstance(got.cls, Cls) and got.cls.enum and isinstance(want, str):
                return False
            return False
        return I.veq(got, want)

    def diff(self, got, m, at):
        """None if the runtime value agrees with the model, else a description."""
        I = self.I
        got = I.resolve(got)
        if isinstance(got, Unk):
            raise Undecided("compare unknown " + got.why)
        if m is None:
            if got is None or got == "":
                return None
            if isinstance(got, VList) and not got.items or got == ():
                return None
            if isinstance(got, Sym) and got.ty == "any":
                raise Undecided("compare " + short(got))
            return f"{at} should be unset but is {short(got)}"
        if isinstance(m, O):
            if not isinstance(got, Inst):
                return f"{at} should be a {m.path} object but is {short(got)}"
            want = self.name(m.path)
            if got.cls is not want:
                return f"{at} should be a {m.path} object but is {short(got)}"
            for f in CLASSES[m.path].fields:
                d = self.diff(I.getattr(got, f.name), m.fields.get(f.name), f"{at}.{f.name}")
                if d:
                    return d
            return None
        if isinstance(m, E):
            if isinstance(got, Inst) and isinstance(got.cls, Cls) and got.cls.enum and got.attrs.get("_value_") == m.value:
                return None
            return f"{at} should be {m} but is {short(got)}"
        if isinstance(m, D):
            return self.diff_date(got, m, at)
        if isinstance(m, TI):
            if not isinstance(got, Inst):
                return f"{at} should be a track item but is {short(got)}"
            d = self.diff_date(I.getattr(got, "when"), m.when, at + ".when")
            if d:
                return d
            pt = I.getattr(got, "coord")
            cc = self.seq(I.getattr(pt, "coords"))
            d = self.diff(cc[0] if cc else None, m.coord, at + ".coord")
            if d:
                return d
            an = I.getattr(got, "angle")
            if m.angle is None:
                if an is None:
                    return None
                m2 = (0.0, 0.0, 0.0)
            else:
                m2 = m.angle
            if an is None:
                return f"{at}.angle is missing"
            return self.diff(tuple(I.getattr(an, x) for x in ("heading", "tilt", "roll")), m2, at + ".angle")
        if isinstance(m, (list, tuple)):
            if not isinstance(got, (VList, tuple)):
                return f"{at} should be a sequence of {len(m)} but is {short(got)}"
            items = self.seq(got)
            if len(items) != len(m):
                return f"{at} has {len(items)} members instead of {len(m)}"
            kinds = {x.path for x in m if isinstance(x, O)}
            if self.grouped and len(kinds) > 1:
                for k in sorted(kinds):
                    c = self.name(k)
                    gs = [g for g in items if isinstance(g, Inst) and g.cls is c]
                    d = self.diff(VList(gs), [x for x in m if x.path == k], f"{at}<{k}>")
                    if d:
                        return d
                return None
            for i, (g, w) in enumerate(zip(items, m)):
                d = self.diff(g, w, f"{at}[{i}]")
                if d:
                    return d
            return None
        if not self.same(got, m):
            return f"{at} should be {short(m)} but is {short(got)}"
        return None

    def diff_date(self, got, m, at):
        I = self.I
        if not isinstance(got, Inst):
            return f"{at} should be a {m} but is {short(got)}"
        res = I.getattr(got, "resolution")
        nm = res.attrs.get("_name_") if isinstance(res, Inst) else res
        if nm != m.res:
            return f"{at} should have resolution {m.res} but has {short(nm)}"
        dt = I.getattr(got, "dt")
        if not isinstance(dt, Inst):
            return f"{at}.dt is {short(dt)}"
        for a, w in (("year", m.y), ("month", m.m or 1), ("day", m.d or 1)):
            if not self.same(dt.attrs.get(a), w):
                return f"{at}.{a} should be {short(w)} but is {short(dt.attrs.get(a))}"
        if m.res == "datetime":
            t = dt.attrs.get("tail")
            if t is None and I.cls_lookup(dt.cls, "_tail") is not None:
                t = I.call(I.getattr(dt, "_tail"), [], {})  # a concrete time of day
            if t is None or not self.same(t, m.tail):
                return f"{at} time of day should be {short(m.tail)} but is {short(t)}"
        return None

    def seq(self, v):
        if isinstance(v, VList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        return list(self.I.iterate(v))

    # -------------------------------------------------------------- actions
    def verbosity(self, name):
        return self.I.getattr(self.name("enums.Verbosity"), name)

    def meth(self, obj, name, *a, **k):
        return self.I.call(self.I.getattr(obj, name), list(a), k)

    def element(self, obj, **k):
        e = self.meth(obj, "etree_element", **k)
        if isinstance(e, Unk):
            raise Undecided("element unknown")
        if not isinstance(e, XElem):
            raise Fail(f"etree_element returned {short(e)}")
        return e

    def tostr(self, obj, **k):
        return self.meth(obj, "to_string", **k)

    def read(self, path, text, **k):
        return self.I.call(self.I.getattr(self.name(path), "from_string"), [text], k)

    def xml(self, tag, ns="kml", attrs=(), text=None, kids=(), uri=None):
        """A snapshot tree node."""
        u = URI.get(ns, ns) if uri is None else uri
        return ("elem", ("{%s}%s" % (u, tag)) if u else tag, tuple(attrs), text, tuple(kids), None)

    def doc(self, snap):
        """XML text whose parse is snap."""
        return Sym("tostring", (snap, True), "str", {"truthy"})

    # ------------------------------------- expected XML for a model (oracle)
    def lit(self, f, m):
        """Expected text of a simple value, as the schema writes it."""
        I = self.I
        if isinstance(m, E):
            return m.value
        if isinstance(m, D):
            return self.datetext(m)
        m = I.resolve(m)
        if isinstance(m, bool):
            return "1" if m else "0"
        if isinstance(m, (int, float)):
            return str(m)
        if isinstance(m, Sym) and m.ty in ("int", "float"):
            return Sym("str", (m,), "str", {"truthy", "nospace", "nocomma", "stripped"} | (m.flags & {"distinct"}))
        return m

    def coordtext(self, cs):
        parts = []
        for i, c in enumerate(cs):
            if i:
                parts.append(" ")
            for j, x in enumerate(c):
                if j:
                    parts.append(",")
                parts.append(self.clit(x))
        return self.I.models.cat(parts)

    def clit(self, x):
        if self.prec is None:
            return self.lit(None, x)
        return self.I.models.format_(x, f".{self.prec}f")

    def expect_xml(self, m: O, ns=None, over=None):
        """Snapshot the schema prescribes for the model (fields in schema order).

        ns: {"kml": uri, ...} overriding URI.  over(path, field, model) may
        return replacement nodes/attributes for single fields."""
        I = self.I
        U = dict(URI)
        if ns:
            U.update(ns)
        c = CLASSES[m.path]
        attrs, kids, text = [], [], None
        # Atom/gx children follow their own vocabulary, everything else the class's
        cns = c.ns
        for f in c.fields:
            if f.name not in m.fields:
                continue
            v = m.fields[f.name]
            if over is not None:
                r = over(m, f, v)
                if r is not None:
                    k, val = r
                    if k == "attr":
                        attrs.append((f.xml, val))
                    elif k == "text":
                        text = val
                    elif k == "kids":
                        kids.extend(val)
                    elif k == "skip":
                        pass
                    continue
            if v is None:
                continue
            if f.place == "attr":
                attrs.append((f.xml, self.lit(f, v)))
            elif f.kind == "coords":
                text = self.coordtext(v)
            elif f.place == "node":
                text = self.lit(f, v)
            elif f.kind == "obj":
                kids.append(self.expect_xml(v, ns, over))
            elif f.kind == "list":
                kids.extend(self.expect_xml(x, ns, over) for x in v)
            elif f.kind == "track":
                for x in v:
                    kids.append(self.xml("when", text=self.datetext(x.when), uri=U["kml"]))
                for x in v:
                    parts = []
                    for j, y in enumerate(x.coord):
                        parts += [" "] if j else []
                        parts.append(self.clit(y))
                    kids.append(self.xml("coord", text=I.models.cat(parts), uri=U["gx"]))
                for x in v:
                    parts = []
                    for j, y in enumerate(x.angle or (0.0, 0.0, 0.0)):
                        parts += [" "] if j else []
                        parts.append(self.clit(y))
                    kids.append(self.xml("angles", text=I.models.cat(parts), uri=U["gx"]))
            else:
                u = U["gx"] if isinstance(v, E) and v.enum == "AltitudeMode" and v.value in spec.GX_ALTITUDE else None
                if u is None:
                    u = U["kml"] if isinstance(v, E) and v.enum == "AltitudeMode" else U[f.ns if f.ns != "kml" else ("kml" if cns == "gx" else cns)]
                kids.append(self.xml(f.xml, text=self.lit(f, v), uri=u))
        u = U[cns]
        return ("elem", ("{%s}%s" % (u, c.tag)) if u else c.tag, tuple(attrs), text, tuple(kids), None)

    def xdiff(self, got, want, at=None, tail=False):
        """Compare two snapshots; None or description."""
        I = self.I
        if isinstance(got, XElem):
            got = snapshot(got)
        at = at or re.sub(r"\{.*?\}", "", str(want[1]))
        if not (isinstance(got[1], str) and got[1] == want[1]):
            if not isinstance(got[1], str):
                raise Undecided("tag " + short(got[1]))
            return f"{at}: element {got[1]} written instead of {want[1]}"
        ga = {k: v for k, v in got[2]}
        wa = {k: v for k, v in want[2]}
        for k in wa:
            if k not in ga:
                return f"{at}: attribute {k} is missing"
            if not self.sametext(ga[k], wa[k]):
                return f"{at}: attribute {k} is {short(ga[k])} instead of {short(wa[k])}"
        for k in ga:
            if k not in wa:
                return f"{at}: unexpected attribute {k}={short(ga[k])}"
        if not self.sametext(got[3], want[3]):
            return f"{at}: text is {short(got[3])} instead of {short(want[3])}"
        gt = [x[1] for x in got[4]]
        wt = [x[1] for x in want[4]]
        if gt != wt:
            strip = lambda ts: [re.sub(r"\{.*?\}", "", t) if isinstance(t, str) else short(t) for t in ts]
            if strip(gt) == strip(wt):
                i = next(i for i in range(len(gt)) if gt[i] != wt[i])
                return f"{at}: child {gt[i]} written instead of {wt[i]}"
            return f"{at}: children {strip(gt)} written instead of {strip(wt)}"
        for i, (g, w) in enumerate(zip(got[4], want[4])):
            d = self.xdiff(g, w, f"{at}/{re.sub(r'{.*?}', '', w[1])}")
            if d:
                return d
        return None

    def sametext(self, a, b):
        I = self.I
        a, b = I.resolve(a), I.resolve(b)
        a = None if a == "" else a
        b = None if b == "" else b
        if isinstance(a, Unk):
            raise Undecided("text unknown")
        if isinstance(a, str) and isinstance(b, str) and a != b and re.fullmatch(r"-?\d+\.0", b):
            return a == b[:-2]  # the same real number
        if a is None or b is None:
            return a is b
        if isinstance(a, Sym) and I.tainted(a):
            raise Undecided("text " + short(a))
        return I.veq(a, b)
