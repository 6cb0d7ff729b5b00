"""Shared vocabulary of the property definitions."""
from __future__ import annotations

from check import Skip  # noqa: F401
from lab import *  # noqa: F401,F403
from lab import CLASSES, D, E, ENUMS, O, TI, URI, Fail, Lab, AbsExc, Undecided, short, snapshot, dump  # noqa: F401
import spec

PROPS = {}
SIMPLE = ("text", "float", "int", "bool", "enum", "date")
TYPED = ("float", "int", "bool", "enum", "date")


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def more(pid):
    """Further obligations of a property defined elsewhere."""
    first = PROPS[pid]

    def deco(f):
        def both(c):
            first(c)
            f(c)
        PROPS[pid] = both
        return f
    return deco


def fields():
    for path, c in CLASSES.items():
        for f in c.fields:
            yield path, c, f


def values(L: Lab, path, f, prefix="o", distinct=False, enums=None, rich=True):
    """(label, model) for every shape of value a field may hold."""
    nm = f"{prefix}.{f.name}"
    if f.kind == "text":
        yield "text", L.text(nm, distinct)
    elif f.kind in ("float", "int"):
        yield "number", L.num(nm, f.kind, distinct)
    elif f.kind == "bool":
        yield "True", True
        yield "False", False
    elif f.kind == "enum":
        for v in ENUMS[f.enum]:
            yield v, E(f.enum, v)
    elif f.kind == "date":
        for r in ("year", "year_month", "date", "datetime"):
            yield r, L.date(nm, r)
        yield "early year", L.date(nm, "date", small=True)
    elif f.kind == "coords":
        yield "3d", L.coords(nm, 2, 3, distinct)
        yield "2d", L.coords(nm, 3, 2, distinct)
    elif f.kind == "track":
        for dim in (3, 2):
            yield f"{dim}d", [TI(L.date(f"{nm}[{i}].when", "datetime"), L.coords(f"{nm}[{i}].coord", 1, dim, distinct)[0],
                                 L.coords(f"{nm}[{i}].angle", 1, 3, distinct)[0]) for i in range(3)]
    elif f.kind == "obj":
        for k in f.classes:
            yield k, L.model(k, nm, 1 if rich else 0, owner=path, boolean=True)
    elif f.kind == "list":
        for k in f.classes:
            yield "1x" + k, [L.model(k, nm + "[0]", 0, owner=path, boolean=True)]
            if rich:
                yield "3x" + k, [L.model(k, f"{nm}[{i}]", 0, owner=path, boolean=bool(i % 2)) for i in range(3)]
        if rich and len(f.classes) > 1:
            ks = list(reversed(f.classes)) + list(f.classes)
            yield "mixed", [L.model(k, f"{nm}[{i}]", 0, owner=path, boolean=True) for i, k in enumerate(ks)]


def required(L, path):
    c = CLASSES[path]
    return {f.name: L.text("o." + f.name) for f in c.fields if f.required}


def single(L, path, f, v):
    return O(path, {**required(L, path), f.name: v})


def ordered(m: O):
    """Fields in schema order."""
    return O(m.path, {f.name: m.fields[f.name] for f in CLASSES[m.path].fields if f.name in m.fields})


def edges():
    """(parent, field, child class)."""
    for path, c, f in fields():
        for k in f.classes:
            yield path, f, k


def chain_to(path, root="kml.KML"):
    """Shortest containment chain root -> ... -> path as [(parent, field)], by the spec."""
    seen = {root: []}
    todo = [root]
    while todo:
        p = todo.pop(0)
        if p == path:
            return seen[p]
        for f in CLASSES[p].fields:
            for k in f.classes:
                if k not in seen:
                    seen[k] = seen[p] + [(p, f)]
                    todo.append(k)
    return None


def complete(L, path, prefix, owner=None):
    """Fields that make an element non-empty by the documented rules (so that parents write it)."""
    return L.model(path, prefix, 0, owner=owner, boolean=True).fields


def wrap(L, m: O, chain):
    """Put m at the end of a containment chain of otherwise minimal (core-only) parents."""
    cur = m
    for i, (p, f) in enumerate(reversed(chain)):
        fs = dict(required(L, p))
        for name in L.CORE.get(p, ()):
            if name != f.name:
                ff = CLASSES[p].field(name)
                sub = L.model(ff.classes[0], f"w{i}.{name}", 0, owner=p, boolean=True)
                fs[name] = [sub] if ff.kind == "list" else sub
        for name in ("schema_url", "key", "name"):
            if name in {x.name for x in CLASSES[p].fields} and p in ("data.SchemaData", "styles.Pair", "data.Data"):
                fs.setdefault(name, L.simple(CLASSES[p].field(name), f"w{i}"))
        if p == "model.Model":
            for name in ("location", "link"):
                if name != f.name:
                    fs.setdefault(name, L.model(CLASSES[p].field(name).classes[0], f"w{i}.{name}", 0, owner=p, boolean=True))
        if p == "gx.Track":
            fs["track_items"] = next(v for _, v in values(L, p, CLASSES[p].field("track_items"), f"w{i}", True))
        fs[f.name] = [cur] if f.kind == "list" else cur
        cur = ordered(O(p, fs))
    return cur


def roundtrip(L, m: O, **k):
    o = L.make(m)
    return L.read(m.path, L.tostr(o), **k)


def check_trip(L, m, xml=True):
    o = L.make(m)
    if xml:
        d = L.xdiff(L.element(o), L.expect_xml(m))
        if d:
            return "written " + d
    r = L.read(m.path, L.tostr(o))
    L.grouped = True
    try:
        d = L.diff(r, m, m.path)
    finally:
        L.grouped = False
    return "read back: " + d if d else None


# ------------------------------------------------------------ completeness
# What an element must hold to count as present; every other class always does.
_ALL = {
    "atom.Link": "href", "atom.Author": "name", "atom.Contributor": "name", "data.SimpleField": "name type_", "data.Data": "name value",
    "data.SimpleData": "name value", "data.SchemaData": "data schema_url", "data.ExtendedData": "elements", "features.Snippet": "text",
    "features.NetworkLink": "link", "geometry.Coordinates": "coords", "geometry.Point": "kml_coordinates", "geometry.LineString": "kml_coordinates",
    "geometry.LinearRing": "kml_coordinates", "geometry.OuterBoundaryIs": "kml_geometry", "geometry.InnerBoundaryIs": "kml_geometry",
    "geometry.Polygon": "outer_boundary", "gx.Track": "track_items", "gx.MultiTrack": "tracks", "links.Link": "href", "links.Icon": "href",
    "model.Location": "latitude longitude", "model.ResourceMap": "aliases", "model.Model": "link location",
    "overlays.ViewVolume": "left_fov right_fov bottom_fov top_fov near", "overlays.ImagePyramid": "max_width max_height",
    "overlays.LatLonBox": "north south east west", "views.LatLonAltBox": "north south east west", "overlays.OverlayXY": "x y", "overlays.ScreenXY": "x y",
    "overlays.RotationXY": "x y", "overlays.Size": "x y", "styles.StyleUrl": "url", "styles.Pair": "key style", "styles.StyleMap": "pairs",
    "times.TimeStamp": "timestamp", "views.Lod": "min_lod_pixels", "views.Region": "lat_lon_alt_box",
}
_ANY = {
    "model.Orientation": "heading tilt roll", "model.Scale": "x y z", "model.Alias": "target_href source_href",
    "styles.IconStyle": "color color_mode scale heading icon hot_spot", "styles.LineStyle": "color color_mode width",
    "styles.PolyStyle": "color color_mode fill outline", "styles.LabelStyle": "color color_mode scale",
    "styles.BalloonStyle": "bg_color text_color text display_mode", "styles.Style": "styles", "times.TimeSpan": "begin end",
    "geometry.MultiGeometry": "kml_geometries",
}
ALL_OF = {k: tuple(v.split()) for k, v in _ALL.items()}
ANY_OF = {k: tuple(v.split()) for k, v in _ANY.items()}
DEEP = {"styles.Style", "geometry.MultiGeometry", "data.ExtendedData", "gx.MultiTrack"}  # a list of only empty members is no content


def present(m, name):
    v = m.fields.get(name)
    if v is None or isinstance(v, (list, tuple)) and not v or v == "":
        return False
    if isinstance(v, O):
        # a pair counts as soon as it has a key and a style, whatever the style holds
        return nonempty(v) or m.path == "styles.Pair"
    if isinstance(v, list) and m.path in DEEP:
        return any(nonempty(x) for x in v)
    return True


def nonempty(m: O):
    if m.path in ALL_OF:
        return all(present(m, n) for n in ALL_OF[m.path])
    if m.path in ANY_OF:
        return any(present(m, n) for n in ANY_OF[m.path])
    return True


def pruned(m: O):
    """The model without the children that count as empty (which are not written)."""
    out = {}
    for k, v in m.fields.items():
        if isinstance(v, O):
            if not nonempty(v):
                continue
            v = pruned(v)
        elif isinstance(v, list) and v and isinstance(v[0], O):
            v = [pruned(x) for x in v if nonempty(x)]
            if not v:
                continue
        out[k] = v
    return O(m.path, out)


NSVAR = {
    "custom": {"kml": "http://www.opengis.net/kml/2.3", "gx": URI["gx"], "atom": URI["atom"]},
    "none": {"kml": "", "gx": "", "atom": URI["atom"]},
    "own": {"kml": "http://earth.google.com/kml/2.1", "gx": "http://example.org/gx", "atom": "http://example.org/atom"},
}


def braced(u):
    return "{" + u + "}" if u else ""


def mkns(L, m: O, nsd):
    """Construct m with the given namespaces on every object."""
    kw = {}
    for k, v in m.fields.items():
        if isinstance(v, O):
            kw[k] = mkns(L, v, nsd)
        elif isinstance(v, list):
            kw[k] = VList([mkns(L, x, nsd) if isinstance(x, O) else L.value(x) for x in v])
        else:
            kw[k] = L.value(v)
    tab = L.I.mkdict([(k, braced(u)) for k, u in nsd.items() if u != URI[k]])
    return L.I.call(L.name(m.path), [], {**kw, "ns": braced(nsd[CLASSES[m.path].ns]), "name_spaces": tab})


def expect_ns(L, m: O, nsd):
    """The oracle's XML with the given namespaces (a root without prefix declares its namespace by an attribute)."""
    s = L.expect_xml(m, ns=nsd)
    if m.path == "kml.KML" and not nsd["kml"]:
        s = (s[0], s[1], (*s[2], ("xmlns", URI["kml"])), *s[3:])
    return s
