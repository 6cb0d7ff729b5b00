"""P19-P24: geometries, searching, style lookup, validation, files, extensions."""
from common import *
from props_c import geometries, NSVAR
from props_b import at_level, junk, sub_doc
from props_e import state, tables, graph, walk, first_diff


# ------------------------------------------------------------------- P19
def desc(L, g):
    """Structure of a plain geometry: (kind, coordinates / rings / parts)."""
    I = L.I
    g = I.resolve(g)
    if g is None:
        return None
    if isinstance(g, Unk):
        raise Undecided("geometry " + g.why)
    if not isinstance(g, Inst):
        return ("?", short(g))
    k = I.getattr(g, "geom_type")
    pts = lambda x: tuple(tuple(p) for p in L.seq(I.getattr(x, "coords")))
    if k in ("Point", "LineString", "LinearRing"):
        return (k, pts(g))
    if k == "Polygon":
        return (k, pts(I.getattr(g, "exterior")), tuple(pts(r) for r in I.iterate(I.getattr(g, "interiors"))))
    return (k, tuple(desc(L, x) for x in I.iterate(I.getattr(g, "geoms"))))


def uniform(d):
    """A collection of parts of one simple kind is the corresponding multi-geometry."""
    if d and d[0] == "GeometryCollection":
        parts = tuple(uniform(x) for x in d[1])
        kinds = {x[0] for x in parts}
        if len(kinds) == 1 and kinds <= {"Point", "LineString", "Polygon"}:
            return ("Multi" + kinds.pop(), parts)
        return (d[0], parts)
    return d


def sdesc(d):
    if d is None:
        return "nothing"
    if d[0] in ("Point", "LineString", "LinearRing"):
        return f"{d[0]} of {len(d[1])} points"
    if d[0] == "Polygon":
        return f"Polygon({len(d[1])} points, {len(d[2])} holes)"
    if d[0] == "?":
        return d[1]
    return f"{d[0]}[{', '.join(sdesc(x) for x in d[1])}]"


def same_desc(got, want):
    if got == want:
        return None
    a, b = sdesc(got), sdesc(want)
    return f"{a} instead of {b}" if a != b else f"{a} with other coordinates or in another order"


def leaves(L, o):
    """Single-part KML geometries below a KML geometry."""
    if isinstance(o, Inst) and "kml_geometries" in o.attrs:
        for x in L.seq(o.attrs["kml_geometries"]):
            yield from leaves(L, x)
    else:
        yield o


def model_desc(m):
    """Plain geometry of a KML geometry model."""
    p = m.path
    if p in ("geometry.Point", "geometry.LineString", "geometry.LinearRing"):
        return (p.split(".")[1], tuple(m.fields["kml_coordinates"].fields["coords"]))
    if p.endswith("BoundaryIs"):
        return model_desc(m.fields["kml_geometry"])
    if p == "geometry.Polygon":
        return ("Polygon", model_desc(m.fields["outer_boundary"])[1], tuple(model_desc(x)[1] for x in m.fields.get("inner_boundaries", [])))
    if p == "geometry.MultiGeometry":
        return uniform(("GeometryCollection", tuple(model_desc(x) for x in m.fields["kml_geometries"])))
    if p == "gx.Track":
        return ("LineString", tuple(x.coord for x in m.fields["track_items"]))
    if p == "gx.MultiTrack":
        return ("MultiLineString", tuple(model_desc(x) for x in m.fields["tracks"]))
    if p == "model.Model":
        f = m.fields["location"].fields
        return ("Point", (tuple(f[x] for x in ("longitude", "latitude", "altitude") if x in f),))
    raise KeyError(p)


@prop("P19")
def p19(c):
    L = c.L
    I = L.I
    c.rule = ("Interpret create_kml_geometry / the geometry constructors / Placemark on symbolic plain geometries of every kind and read the geometry property, the written coordinates and the settings back; "
              "the same from KML parts, including after a write/read round trip; wrong dimensions and missing coordinates give None.")
    alt = E("AltitudeMode", "absolute")

    def back(o, g, what):
        d = same_desc(desc(L, I.getattr(o, "geometry")), uniform(desc(L, g)))
        return f"{what}: {d}" if d else None

    for lab, mkgeo, path in geometries(L):
        wh = lambda path=path: L.where(path)

        def factory(mkgeo=mkgeo, path=path):
            g = mkgeo()
            o = I.call(L.name("geometry.create_kml_geometry"), [g], {})
            if o.cls is not L.name(path):
                return f"gives a {o.cls.name} instead of a {path}"
            return back(o, g, "geometry")
        c.ob(f"create_kml_geometry({lab})", factory, wh)

        def keyword(mkgeo=mkgeo, path=path):
            g = mkgeo()
            o = I.call(L.name("geometry.create_kml_geometry"), [], {"geometry": g})
            return back(o, g, "geometry")
        c.ob(f"create_kml_geometry(geometry={lab})", keyword, wh)

        def mapping(mkgeo=mkgeo, path=path):
            g = mkgeo()
            o = I.call(L.name("geometry.create_kml_geometry"), [I.getattr(g, "__geo_interface__")], {})
            if o.cls is not L.name(path):
                return f"gives a {o.cls.name} instead of a {path}"
            return back(o, g, "geometry")
        c.ob(f"create_kml_geometry(mapping of {lab})", mapping, wh)

        def ctor(mkgeo=mkgeo, path=path):
            g = mkgeo()
            return back(I.call(L.name(path), [], {"geometry": g}), g, "geometry")
        c.ob(f"{path}(geometry={lab})", ctor, wh)

        def placemark(mkgeo=mkgeo, path=path):
            g = mkgeo()
            o = I.call(L.name("features.Placemark"), [], {"geometry": g})
            k = I.getattr(o, "kml_geometry")
            if not isinstance(k, Inst) or k.cls is not L.name(path):
                return f"kml_geometry is {short(k)} instead of a {path}"
            return back(o, g, "geometry")
        c.ob(f"Placemark(geometry={lab})", placemark, lambda: L.where("features.Placemark"))

        def trip(mkgeo=mkgeo, path=path):
            g = mkgeo()
            o = I.call(L.name("features.Placemark"), [], {"geometry": g})
            r = L.read("features.Placemark", L.tostr(o))
            if path == "geometry.MultiGeometry" and "ollection" in lab_of(g):
                return None if sorted_desc(desc(L, I.getattr(r, "geometry"))) == sorted_desc(uniform(desc(L, g))) else "the geometry read back has other parts"
            return back(r, g, "read back")
        c.ob(f"Placemark(geometry={lab}) write and read", trip, lambda: L.where("features.Placemark"))
        for b in (True, False):
            for how in ("factory", "constructor"):
                def settings(mkgeo=mkgeo, path=path, b=b, how=how):
                    g = mkgeo()
                    kw = {"extrude": b, "altitude_mode": L.value(alt), "id": "the-id", "target_id": "the-target"}
                    if how == "factory" or path != "geometry.Point":
                        kw["tessellate"] = not b
                    f = L.name("geometry.create_kml_geometry") if how == "factory" else L.name(path)
                    o = I.call(f, [], {"geometry": g, **kw})
                    if I.getattr(o, "id") != "the-id" or I.getattr(o, "target_id") != "the-target":
                        return "the requested id is not set"
                    n = 0
                    for x in leaves(L, o):
                        n += 1
                        want = {"extrude": b, "altitude_mode": alt}
                        if x.cls is not L.name("geometry.Point"):
                            want["tessellate"] = not b
                        for k, v in want.items():
                            d = L.diff(I.getattr(x, k), v, f"{x.cls.name}.{k}")
                            if d:
                                return f"requested setting does not reach a part: {d}"
                    if not n:
                        return "no parts"
                    return back(o, g, "geometry")
                c.ob(f"{how} {lab} settings {b}", settings, wh)
    # from the KML parts
    for path in ("geometry.Point", "geometry.LineString", "geometry.LinearRing", "geometry.OuterBoundaryIs", "geometry.InnerBoundaryIs", "geometry.Polygon",
                 "geometry.MultiGeometry", "gx.Track", "gx.MultiTrack", "model.Model"):
        wh = lambda path=path: L.where(path)
        for dim in (2, 3):
            if path == "model.Model" and dim == 2:
                continue
            for depth in (0, 1, 2):
                def parts(path=path, dim=dim, depth=depth):
                    m = L.model(path, depth=depth, boolean=True, dim=dim)
                    o = L.make(m)
                    d = same_desc(desc(L, I.getattr(o, "geometry")), model_desc(m))
                    if d:
                        return f"geometry: {d}"
                    r = L.read(path, L.tostr(o))
                    d = same_desc(desc(L, I.getattr(r, "geometry")), model_desc(m))
                    return f"geometry read back: {d}" if d else None
                c.ob(f"{path}.geometry {dim}d, depth {depth}", parts, wh)

                def inplace(path=path, dim=dim, depth=depth):
                    if path.endswith("BoundaryIs"):
                        raise Skip
                    m = L.model(path, depth=depth, boolean=True, dim=dim)
                    o = I.call(L.name("features.Placemark"), [], {"kml_geometry": L.make(m)})
                    d = same_desc(desc(L, I.getattr(o, "geometry")), model_desc(m))
                    return f"placemark geometry: {d}" if d else None
                if not path.endswith("BoundaryIs"):
                    c.ob(f"Placemark.geometry of {path} {dim}d, depth {depth}", inplace, wh)
    for holes in (0, 1, 2, 5):
        def poly(holes=holes):
            ring = lambda n: O("geometry.LinearRing", {"kml_coordinates": O("geometry.Coordinates", {"coords": L.ring(n)})})
            m = O("geometry.Polygon", {"outer_boundary": O("geometry.OuterBoundaryIs", {"kml_geometry": ring("o")}),
                                       "inner_boundaries": [O("geometry.InnerBoundaryIs", {"kml_geometry": ring(f"i{k}")}) for k in range(holes)]})
            d = same_desc(desc(L, I.getattr(L.make(m), "geometry")), model_desc(m))
            return d
        c.ob(f"Polygon with {holes} holes", poly, lambda: L.where("geometry.Polygon"))
    for kinds in (("Point",) * 3, ("LineString",) * 2, ("Polygon",) * 2, ("LinearRing",) * 2, ("Point", "LineString"), ("LineString", "Point", "Polygon", "LinearRing"), ("MultiGeometry", "Point"),
                  ("Point", "MultiGeometry"), ("MultiGeometry", "MultiGeometry"), ("LineString", "LinearRing")):
        def multi(kinds=kinds):
            m = O("geometry.MultiGeometry", {"kml_geometries": [L.model("geometry." + k, f"p{i}", 1, owner="geometry.MultiGeometry", boolean=True) for i, k in enumerate(kinds)]})
            return same_desc(desc(L, I.getattr(L.make(m), "geometry")), model_desc(m))
        c.ob(f"MultiGeometry of {'+'.join(kinds)}", multi, lambda: L.where("geometry.MultiGeometry"))
    # incomplete or wrongly dimensioned coordinates
    leafs = {"geometry.Point": 1, "geometry.LineString": 3, "geometry.LinearRing": 4}
    for path, n in leafs.items():
        wh = lambda path=path: L.where(path)

        def nothing(path=path):
            o = L.make(O(path))
            g = I.getattr(o, "geometry")
            if g is not None:
                return f"geometry of an empty object is {short(g)}"
            o = L.make(O(path, {"kml_coordinates": O("geometry.Coordinates", {})}))
            g = I.getattr(o, "geometry")
            return None if g is None else f"geometry without coordinates is {short(g)}"
        c.ob(f"{path} without coordinates", nothing, wh)
        for dim in (1, 4):
            def wrong(path=path, n=n, dim=dim):
                cs = tuple(tuple(L.num(f"w{i}{k}") for k in range(dim)) for i in range(n))
                o = L.make(O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": cs})}))
                g = I.getattr(o, "geometry")
                if g is not None:
                    return f"geometry of {dim}-dimensional coordinates is {short(g)}"
                return None if I.truth(o) is False else f"an object with {dim}-dimensional coordinates counts as present"
            c.ob(f"{path} {dim}-dimensional", wrong, wh)

            def read(path=path, n=n, dim=dim):
                cs = tuple(tuple(L.num(f"w{i}{k}") for k in range(dim)) for i in range(n))
                r = L.read(path, L.doc(L.expect_xml(O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": cs})}))), strict=False)
                g = I.getattr(r, "geometry")
                return None if g is None else f"geometry of {dim}-dimensional coordinates is {short(g)}"
            c.ob(f"{path} read {dim}-dimensional", read, wh)
        if n > 1:
            def mixed(path=path, n=n):
                cs = (*L.coords("a", n - 1, 3), *L.coords("b", 1, 2))
                o = L.make(O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": cs})}))
                g = I.getattr(o, "geometry")
                return None if g is None else f"geometry of mixed dimensions is {short(g)}"
            c.ob(f"{path} mixed dimensions", mixed, wh)

    def mixed_track(owner, n, at):
        its = [TI(L.date(f"t{i}", "datetime"), L.coords(f"t{i}.c", 1, 2 if i == at else 3)[0], None) for i in range(n)]
        o = L.make(O("gx.Track", {"track_items": its}))
        if owner == "gx.MultiTrack":
            t = [TI(L.date(f"u{i}", "datetime"), L.coords(f"u{i}.c", 1, 3)[0], None) for i in range(3)]
            o = I.call(L.name(owner), [], {"tracks": VList([o, L.make(O("gx.Track", {"track_items": t}))])})
            return same_desc(desc(L, I.getattr(o, "geometry")), ("MultiLineString", (("LineString", tuple(x.coord for x in t)),)))
        if owner:
            o = I.call(L.name(owner), [], {"kml_geometry": o})
        g = I.getattr(o, "geometry")
        return None if g is None else f"geometry of mixed dimensions is {short(g)}"
    for owner in (None, "features.Placemark", "gx.MultiTrack"):
        for n, at in ((2, 0), (2, 1), (4, 2)):
            c.ob(f"{owner or 'gx.Track'} track mixed dimensions {at} of {n}", lambda owner=owner, n=n, at=at: mixed_track(owner, n, at), lambda: L.where("gx.Track"))
    for path in ("geometry.OuterBoundaryIs", "geometry.InnerBoundaryIs", "geometry.Polygon", "geometry.MultiGeometry", "features.Placemark"):
        def empty(path=path):
            g = I.getattr(L.make(O(path)), "geometry")
            return None if g is None else f"geometry of an empty object is {short(g)}"
        c.ob(f"{path} without parts", empty, lambda path=path: L.where(path))

    def hole_incomplete():
        ring = lambda n: O("geometry.LinearRing", {"kml_coordinates": O("geometry.Coordinates", {"coords": L.ring(n)})})
        m = O("geometry.Polygon", {"outer_boundary": O("geometry.OuterBoundaryIs", {"kml_geometry": ring("o")}),
                                   "inner_boundaries": [O("geometry.InnerBoundaryIs"), O("geometry.InnerBoundaryIs", {"kml_geometry": ring("i")})]})
        return same_desc(desc(L, I.getattr(L.make(m), "geometry")), ("Polygon", L.ring("o"), (L.ring("i"),)))
    c.ob("Polygon with an incomplete hole", hole_incomplete, lambda: L.where("geometry.Polygon"))

    def part_incomplete():
        m = O("geometry.MultiGeometry", {"kml_geometries": [O("geometry.Point"), L.model("geometry.Point", "p", 0), O("geometry.LineString")]})
        return same_desc(desc(L, I.getattr(L.make(m), "geometry")), ("MultiPoint", (("Point", m.fields["kml_geometries"][1].fields["kml_coordinates"].fields["coords"]),)))
    c.ob("MultiGeometry with incomplete parts", part_incomplete, lambda: L.where("geometry.MultiGeometry"))


def lab_of(g):
    return g.cls.name


def sorted_desc(d):
    if isinstance(d, tuple) and len(d) == 2 and d[0] == "GeometryCollection":
        return (d[0], tuple(sorted((sorted_desc(x) for x in d[1]), key=repr)))
    return d


# ------------------------------------------------------------------- P20
@prop("P20")
def p20(c):
    L = c.L
    I = L.I
    c.rule = "find_all/find interpreted on object trees of every class: the set found equals the objects of the type with the attribute values in the tree; ancestors first, list members in order; find = first."
    FA, FI = (lambda: L.name("utils.find_all")), (lambda: L.name("utils.find"))

    def objects(o):
        """Element objects of the tree, by the public fields."""
        out = []

        def go(x):
            if isinstance(x, Inst) and isinstance(x.cls, Cls) and not x.cls.enum and isinstance(x.cls.module, object):
                if any(x is y for y in out):
                    return
                out.append(x)
                for k, v in x.attrs.items():
                    if k.startswith("_"):
                        continue
                    if isinstance(v, Inst):
                        go(v)
                    elif isinstance(v, (VList, tuple)):
                        for y in v.items if isinstance(v, VList) else v:
                            go(y)
        go(o)
        return out

    def check(o, want, of_type, **kw):
        k = dict(kw)
        if of_type is not None:
            k["of_type"] = of_type
        got = list(I.iterate(I.call(FA(), [o], k)))
        ids = [id(x) for x in got]
        for w in want:
            if id(w) not in ids:
                return f"does not find a {w.cls.name}"
        for g in got:
            if not any(g is w for w in want):
                return f"also finds {short(g)}"
        if len(got) != len(want):
            return f"finds {len(got)} objects instead of {len(want)}"
        first = I.call(FI(), [o], k)
        if want and first is not got[0]:
            return "find does not return the first object found"
        if not want and first is not None:
            return f"find returns {short(first)} though nothing matches"
        # ancestors before descendants, list members in order
        pos = {id(x): i for i, x in enumerate(got)}
        for x in want:
            seq = []
            for k2, v in x.attrs.items():
                if isinstance(v, VList):
                    ps = [pos[id(y)] for y in v.items if id(y) in pos]
                    if ps != sorted(ps):
                        return f"members of {x.cls.name}.{k2} are found out of order"
                    seq += ps
            if seq and min(seq) < pos[id(x)]:
                return f"children of a {x.cls.name} are found before it"
        return None

    def cls_of(x, t):
        return I.issub(x.cls, t)

    bases = ["base._XMLObject", "kml_base._BaseObject", "features._Feature", "geometry._Geometry", "styles._StyleSelector", "times._TimePrimitive"]
    for path in CLASSES:
        wh = lambda path=path: "fastkml/utils.py"
        kinds = sorted({k for f in CLASSES[path].fields for k in f.classes})
        for t in [path, *kinds, *bases]:
            def bytype(path=path, t=t):
                o = L.make(L.model(path, depth=2, boolean=True))
                T = L.name(t)
                return check(o, [x for x in objects(o) if cls_of(x, T)], T)
            c.ob(f"{path} tree, type {t}", bytype, wh)

        def several(path=path, kinds=kinds):
            o = L.make(L.model(path, depth=2, boolean=True))
            ts = tuple(L.name(t) for t in ([path] + kinds)[:3])
            return check(o, [x for x in objects(o) if any(cls_of(x, T) for T in ts)], ts)
        c.ob(f"{path} tree, several types", several, wh)

        def several_bases(path=path):
            o = L.make(L.model(path, depth=2, boolean=True))
            for ts in (tuple(L.name(t) for t in bases[1:4]), (L.name("styles.Style"), L.name("features._Feature"), L.name("geometry._Geometry")), (L.name("base._XMLObject"),), (L.name("kml_base._BaseObject"), L.name(path))):
                r = check(o, [x for x in objects(o) if any(cls_of(x, T) for T in ts)], ts)
                if r:
                    return f"{', '.join(t.name for t in ts)}: {r}"
            return None
        c.ob(f"{path} tree, several base classes", several_bases, wh)
        for f in CLASSES[path].fields:
            if f.kind in SIMPLE:
                def byattr(path=path, f=f):
                    m = L.model(path, depth=1, boolean=True)
                    o = L.make(m)
                    val = L.value(m.fields[f.name])
                    want = []
                    for x in objects(o):
                        a = I.getattr_opt(x, f.name)
                        if a is not I and I.veq(a, val) is True:
                            want.append(x)
                    if not want:
                        return "harness: nothing to find"
                    r = check(o, want, L.name("base._XMLObject"), **{f.name: val})
                    if r:
                        return f"searching by {f.name}: {r}"
                    other = L.text("no-such-value")
                    r = check(o, [], L.name("base._XMLObject"), **{f.name: other})
                    return f"searching a value no object has: {r}" if r else None
                c.ob(f"{path} tree, attribute {f.name}", byattr, wh)

        def bytwo(path=path):
            fs = [f for f in CLASSES[path].fields if f.kind in SIMPLE][:2]
            if len(fs) < 2:
                raise Skip
            m = L.model(path, depth=1, boolean=True)
            o = L.make(m)
            a, b = (L.value(m.fields[f.name]) for f in fs)
            T = L.name(path)
            r = check(o, [o], T, **{fs[0].name: a, fs[1].name: b})
            if r:
                return f"searching by two attributes: {r}"
            r = check(o, [], T, **{fs[0].name: a, fs[1].name: L.text("no-such-value")})
            if r:
                return f"one attribute matches, the other does not: {r}"
            r = check(o, [], T, **{fs[0].name: L.text("no-such-value"), fs[1].name: b})
            if r:
                return f"one attribute matches, the other does not: {r}"
            r = check(o, [], T, **{fs[0].name: a, "no_such_attribute": None})
            return f"searching an attribute no object has: {r}" if r else None
        if len([f for f in CLASSES[path].fields if f.kind in SIMPLE]) > 1:
            c.ob(f"{path} tree, two attributes", bytwo, wh)

    # empty (falsy) objects are found too
    def falsy():
        a, b = L.make(O("geometry.Point")), L.make(O("atom.Link"))
        pm = I.call(L.name("features.Placemark"), [], {"kml_geometry": a, "atom_link": b})
        k = I.call(L.name("kml.KML"), [], {"features": VList([pm])})
        return check(k, [a], L.name("geometry.Point")) or check(k, [b], L.name("atom.Link")) or check(k, [pm], L.name("features.Placemark"))
    c.ob("objects that count as empty", falsy, lambda: "fastkml/utils.py")
    for val, fld, path in ((False, "visibility", "features.Placemark"), (0.0, "width", "styles.LineStyle"), (0, "draw_order", "overlays.GroundOverlay"), (None, "name", "features.Placemark")):
        def fv(val=val, fld=fld, path=path, back=False):
            mk = lambda v: I.call(L.name(path), [], {fld: v} if v is not None else {})
            a, b = mk(val), mk(True if val is False else L.text("x") if val is None else 5)
            d = VList([b, a]) if back else VList([a, b])
            if val is not None:
                d.items.append(mk(None))
            if path == "styles.LineStyle":
                root = I.call(L.name("styles.Style"), [], {"styles": d})
            else:
                root = I.call(L.name("containers.Folder"), [], {"features": d, "name": L.text("folder")})
            return check(root, [a], L.name(path), **{fld: I.getattr(a, fld)})
        c.ob(f"attribute value {val!r} of {path}", fv, lambda: "fastkml/utils.py")
        c.ob(f"attribute value {val!r} of {path}, last", lambda fv=fv: fv(back=True), lambda: "fastkml/utils.py")

        def unset(val=val, fld=fld, path=path):
            mk = lambda v: I.call(L.name(path), [], {fld: v} if v is not None else {})
            a, b, e = mk(None), mk(L.text("x") if val is None else val), mk(None)
            d = VList([b, a, e])
            root = I.call(L.name("styles.Style"), [], {"styles": d}) if path == "styles.LineStyle" else I.call(L.name("containers.Folder"), [], {"features": d, "name": L.text("folder"), "visibility": True})
            return check(root, [a, e], L.name(path), **{fld: None})
        c.ob(f"attribute {fld} of {path} unset, next to {val!r}", unset, lambda: "fastkml/utils.py")

    def deep(n=5):
        pms = []
        cur = None
        allf = []
        for i in range(n):
            p1 = L.make(O("features.Placemark", {"name": L.text(f"a{i}")}))
            p2 = L.make(O("features.Placemark", {"name": L.text(f"b{i}")}))
            pms += [p1, p2]
            cur = I.call(L.name("containers.Folder"), [], {"features": VList([p1, *([cur] if cur is not None else []), p2])})
            allf.append(cur)
        k = I.call(L.name("kml.KML"), [], {"features": VList([cur])})
        return check(k, pms, L.name("features.Placemark")) or check(k, allf, L.name("containers.Folder")) or check(k, [pms[0]], L.name("features.Placemark"), name=L.text("a0"))
    c.ob("placemarks in 5 nested folders", deep, lambda: "fastkml/utils.py")
    c.ob("placemarks in 25 nested folders", lambda: deep(25), lambda: "fastkml/utils.py")

    def foreign():
        for v in (None, 1, "text", 2.5):
            got = list(I.iterate(I.call(FA(), [v], {"of_type": L.name("features.Placemark")})))
            if got:
                return f"finds {short(got[0])} in {v!r}"
        return None
    c.ob("searching a plain value", foreign, lambda: "fastkml/utils.py")

    def in_tuple(n, deep=False):
        """Lists replaced by tuples are searched the same."""
        pms = [L.make(O("features.Placemark", {"name": L.text(f"p{i}")})) for i in range(n)]
        f = I.call(L.name("containers.Folder"), [], {"features": VList(list(pms))})
        I.setattr(f, "features", tuple(pms))
        root = f
        if deep:
            root = I.call(L.name("kml.KML"), [], {"features": VList([f])})
            I.setattr(root, "features", (f,))
        return check(root, pms, L.name("features.Placemark")) or (check(root, [pms[-1]], L.name("features.Placemark"), name=L.text(f"p{n - 1}")) if n else None)
    for n in (0, 1, 2, 5):
        for dp in (False, True):
            c.ob(f"{n} placemarks in a tuple{', nested' if dp else ''}", lambda n=n, dp=dp: in_tuple(n, dp), lambda: "fastkml/utils.py")

    def wide(n=40):
        pms = [L.make(O("features.Placemark", {"name": L.text(f"p{i}")})) for i in range(n)]
        f = I.call(L.name("containers.Folder"), [], {"features": VList(list(pms))})
        return check(f, pms, L.name("features.Placemark")) or check(f, [pms[-1]], L.name("features.Placemark"), name=L.text(f"p{n - 1}"))
    c.ob("40 placemarks in a folder", wide, lambda: "fastkml/utils.py")

    def root_list():
        a, b = (L.make(O("features.Placemark", {"name": L.text(x)})) for x in "ab")
        got = list(I.iterate(I.call(FA(), [I.call(L.name("kml.KML"), [], {"features": VList([a, a, b])})], {"of_type": L.name("features.Placemark")})))
        return None if len(got) == 3 and got[0] is a and got[1] is a and got[2] is b else f"finds {len(got)} of 3 members"
    c.ob("a member listed twice", root_list, lambda: "fastkml/utils.py")


# ------------------------------------------------------------------- P21
@prop("P21")
def p21(c):
    L = c.L
    I = L.I
    c.rule = "get_style_by_url on documents with styles at every place (document, folder, placemark, overlay, pair, style map), URL with/without file part; StyleMap.normal/highlight for each order of pairs; IconStyle.icon_href."
    wh = lambda: L.where("containers.Document")
    cat = I.models.cat

    def style(i, kind="styles.Style"):
        if kind == "styles.Style":
            return I.call(L.name(kind), [], {"id": i, "styles": VList([L.make(O("styles.LineStyle", {"width": L.num("w")}))])} if i is not None else {})
        return I.call(L.name(kind), [], {"id": i, "pairs": VList([I.call(L.name("styles.Pair"), [], {"key": L.value(E("PairKey", "normal")), "style": L.make(O("styles.StyleUrl", {"url": L.text("u")}))})])})

    def place(where, s, other):
        """A document with s at a place and `other` styles around."""
        n = L.name
        pm = lambda st: I.call(n("features.Placemark"), [], {"styles": VList(st)})
        if where == "document":
            return I.call(n("containers.Document"), [], {"styles": VList([other, s]), "features": VList([pm([])])})
        if where == "document first":
            return I.call(n("containers.Document"), [], {"styles": VList([s, other])})
        if where == "placemark":
            return I.call(n("containers.Document"), [], {"styles": VList([other]), "features": VList([pm([]), pm([s])])})
        if where == "folder":
            f = I.call(n("containers.Folder"), [], {"styles": VList([s])})
            return I.call(n("containers.Document"), [], {"styles": VList([other]), "features": VList([f])})
        if where == "placemark in nested folders":
            f = I.call(n("containers.Folder"), [], {"features": VList([pm([other, s])])})
            f = I.call(n("containers.Folder"), [], {"features": VList([pm([]), f])})
            return I.call(n("containers.Document"), [], {"features": VList([f])})
        if where == "nested document":
            f = I.call(n("containers.Document"), [], {"styles": VList([s])})
            return I.call(n("containers.Document"), [], {"styles": VList([other]), "features": VList([f])})
        if where == "overlay":
            f = I.call(n("overlays.GroundOverlay"), [], {"styles": VList([s])})
            return I.call(n("containers.Document"), [], {"features": VList([f])})
        if where == "network link":
            f = I.call(n("features.NetworkLink"), [], {"styles": VList([s])})
            return I.call(n("containers.Document"), [], {"features": VList([f])})
        if where == "pair":
            p = I.call(n("styles.Pair"), [], {"key": L.value(E("PairKey", "normal")), "style": s})
            m = I.call(n("styles.StyleMap"), [], {"id": "the-map", "pairs": VList([p])})
            return I.call(n("containers.Document"), [], {"styles": VList([m])})
        raise KeyError(where)

    ids = {"symbolic": L.sym("style-id", "str", "truthy", "stripped", "nospace", "distinct", "atom"), "literal": "myStyle"}
    for il, i in ids.items():
        urls = {"fragment only": cat(["#", i]), "file": cat(["styles.kml#", i]), "absolute": cat(["http://example.com/a/b.kml?q=1#", i])}
        for ul, u in urls.items():
            for w in ("document", "document first", "placemark", "folder", "placemark in nested folders", "nested document", "overlay", "network link", "pair"):
                for kind in ("styles.Style", "styles.StyleMap"):
                    if w == "pair" and kind == "styles.StyleMap":
                        continue

                    def look(i=i, u=u, w=w, kind=kind):
                        s, o = style(i, kind), style("another")
                        doc = place(w, s, o)
                        r = L.meth(doc, "get_style_by_url", u)
                        return None if r is s else f"gives {short(r)} instead of the style"
                    c.ob(f"{kind} in {w}, {ul}, {il} id", look, wh)

            def missing(i=i, u=u):
                doc = place("placemark", style("one"), style("two"))
                r = L.meth(doc, "get_style_by_url", u)
                return None if r is None else f"gives {short(r)} though there is no such style"
            c.ob(f"no such style, {ul}, {il} id", missing, wh)

            def other_kind(i=i, u=u):
                pm = I.call(L.name("features.Placemark"), [], {"id": i})
                ls = I.call(L.name("styles.LineStyle"), [], {"id": i, "width": 1.0})
                s = I.call(L.name("styles.Style"), [], {"id": "x", "styles": VList([ls])})
                doc = I.call(L.name("containers.Document"), [], {"id": i, "features": VList([pm]), "styles": VList([s])})
                r = L.meth(doc, "get_style_by_url", u)
                return None if r is None else f"gives {short(r)}, which is no style or style map"
            c.ob(f"id of something else, {ul}, {il} id", other_kind, wh)

            def first(i=i, u=u):
                a, b = style(i), style(i)
                doc = I.call(L.name("containers.Document"), [], {"styles": VList([style("z"), a, b])})
                r = L.meth(doc, "get_style_by_url", u)
                return None if r is a else "does not give the first style with the id"
            c.ob(f"two styles with the id, {ul}, {il} id", first, wh)

            def later(i=i, u=u):
                s = style("old")
                doc = place("document", s, style("another"))
                if L.meth(doc, "get_style_by_url", u) is not None:
                    return "finds a style with another id"
                I.setattr(s, "id", i)
                if L.meth(doc, "get_style_by_url", u) is not s:
                    return "does not find the style after its id was set"
                n = style(i)
                L.meth(I.getattr(doc, "styles"), "insert", 0, n)
                return None if L.meth(doc, "get_style_by_url", u) is n else "does not follow later changes of the styles"
            c.ob(f"changed later, {ul}, {il} id", later, wh)
    for u in ("", "styles.kml", "http://example.com/x.kml", "#"):
        def nofrag(u=u):
            doc = place("document", style(None), style("another"))
            r = L.meth(doc, "get_style_by_url", u)
            return None if r is None else f"gives {short(r)} for a URL without fragment"
        c.ob(f"URL {u!r} without fragment", nofrag, wh)

        def namesake(u=u):
            for w in ("document", "document first", "placemark"):
                for kind in ("styles.Style", "styles.StyleMap"):
                    r = L.meth(place(w, style(u or None, kind) if u or kind == "styles.Style" else style("q", kind), style("another")), "get_style_by_url", u)
                    if r is not None:
                        return f"gives {short(r)}, whose id is the URL without fragment"
            return None
        c.ob(f"URL {u!r} without fragment equal to an id", namesake, wh)
    for u, i in (("myStyle", "myStyle"), ("styles.kml#b", "styles.kml"), ("a#b", "a"), ("a#b", "a#b"), ("#b", "#b"), ("#B", "b"), ("#b", "B"), ("#ab", "a"), ("#a", "ab"), ("#ab", "b"), ("#a ", "a"), ("a?b", "b"), ("/a/b", "b"), ("a/b", "b"), ("a;b", "b"), ("?x=#b", "x")):
        def near(u=u, i=i):
            r = L.meth(place("document", style(i), style("another")), "get_style_by_url", u)
            return None if r is None else f"URL {u} gives the style with id {i}"
        if (u, i) != ("#a ", "a"):
            c.ob(f"URL {u!r} is not id {i!r}", near, wh)
    for key, prop_ in (("normal", "normal"), ("highlight", "highlight")):
        for kind in ("styles.StyleUrl", "styles.Style"):
            for order in (("normal", "highlight"), ("highlight", "normal"), ("normal",), ("highlight",), ("highlight", "normal", "normal", "highlight"), ()):
                def short_(key=key, kind=kind, order=order):
                    sts = [L.make(L.model(kind, f"s{i}", 1, owner="styles.Pair", boolean=True)) for i, _ in enumerate(order)]
                    pairs = [I.call(L.name("styles.Pair"), [], {"key": L.value(E("PairKey", k)), "style": s}) for k, s in zip(order, sts)]
                    m = I.call(L.name("styles.StyleMap"), [], {"pairs": VList(pairs)})
                    r = I.getattr(m, key)
                    want = sts[order.index(key)] if key in order else None
                    if r is not want:
                        return f"{key} of pairs {order} gives {short(r)}"
                    if key in order:
                        n = L.make(L.model("styles.StyleUrl", "n", 0))
                        I.setattr(pairs[order.index(key)], "style", n)
                        if I.getattr(m, key) is not n:
                            return f"{key} does not follow a later change of the pair"
                    return None
                c.ob(f"StyleMap.{key}, {kind}, pairs {order}", short_, lambda: L.where("styles.StyleMap"))

    def keyless():
        s = L.make(L.model("styles.StyleUrl", "s", 0))
        p0 = I.call(L.name("styles.Pair"), [], {"style": L.make(L.model("styles.StyleUrl", "t", 0))})
        p1 = I.call(L.name("styles.Pair"), [], {"key": L.value(E("PairKey", "normal")), "style": s})
        m = I.call(L.name("styles.StyleMap"), [], {"pairs": VList([p0, p1])})
        if I.getattr(m, "normal") is not s:
            return "a pair without key hides the normal style"
        return None if I.getattr(m, "highlight") is None else "a pair without key counts as highlight"
    c.ob("StyleMap with a pair without key", keyless, lambda: L.where("styles.StyleMap"))

    def hrefs():
        h, h2 = L.text("href"), L.text("href2")
        a = I.call(L.name("styles.IconStyle"), [], {"icon_href": h})
        if L.diff(I.getattr(a, "icon_href"), h, "icon_href") or L.diff(I.getattr(I.getattr(a, "icon"), "href"), h, "icon.href"):
            return "icon_href given to the constructor is lost"
        d = L.xdiff(L.element(a), L.expect_xml(O("styles.IconStyle", {"icon": O("links.Icon", {"href": h})})))
        if d:
            return d
        b = I.call(L.name("styles.IconStyle"), [], {"icon": L.make(O("links.Icon", {"href": h}))})
        if L.diff(I.getattr(b, "icon_href"), h, "icon_href"):
            return "icon_href does not give the icon's address"
        I.setattr(I.getattr(b, "icon"), "href", h2)
        if L.diff(I.getattr(b, "icon_href"), h2, "icon_href"):
            return "icon_href does not follow a later change of the icon"
        both = I.call(L.name("styles.IconStyle"), [], {"icon": L.make(O("links.Icon", {"href": h})), "icon_href": h2})
        if L.diff(I.getattr(both, "icon_href"), h, "icon_href"):
            return "a given icon is replaced by icon_href"
        return None if I.getattr(L.make(O("styles.IconStyle")), "icon_href") is None else "icon_href without icon is not None"
    c.ob("IconStyle.icon_href", hrefs, lambda: L.where("styles.IconStyle"))


# ------------------------------------------------------------------- P22
@prop("P22")
def p22(c):
    L = c.L
    I = L.I
    c.rule = "Interpret validate()/obj.validate()/KML.parse with the schema verdict as an unknown: True exactly on the accepting path, AssertionError plus an error log on the rejecting path, right schema and right element, None without schema support, ValueError for none/both inputs."
    V = lambda: L.name("validator.validate")
    wh = lambda: "fastkml/validator.py"
    path = lambda n: ExtObj("path", name=n)

    def schema_used(ev):
        o = ev[2]
        src = o.attrs.get("src")
        if isinstance(src, XTree):
            return str(src.root.tag)
        return short(src)

    def run(f, schema="ogckml22.xsd", element=None, n=1, tag=None):
        """Run f; check verdict and schema use."""
        n0, t0 = len(I.p.log), len(I.p.trace)
        try:
            r = f()
            exc = None
        except AbsExc as e:
            exc = e
        log = I.p.log[n0:]
        evs = [x for x in log if x[0] == "schema"]
        verdicts = [(lab, ch) for lab, nn, ch in I.p.trace[t0:] if lab.startswith("document is schema valid")]
        if exc is not None and not (exc.val.cls is AssertionError):
            raise exc
        if len(evs) != n:
            return f"{len(evs)} schema checks instead of {n}"
        for e in evs:
            if schema not in schema_used(e):
                return f"checked against {schema_used(e)} instead of {schema}"
            if element is not None and e[3] is not element and not (isinstance(e[3], XTree) and e[3].root is element):
                return "another element is checked than the one given"
            if tag is not None:
                root = e[3].root if isinstance(e[3], XTree) else e[3]
                if not str(root.tag).endswith(tag):
                    return f"{root.tag} is checked instead of {tag}"
        ok = bool(verdicts) and all(ch == 0 for _, ch in verdicts)
        if n == 0:
            return f"raises {excn(exc)}" if exc else None
        if ok:
            if exc:
                return "AssertionError though the schema accepts"
            return None if r is True else f"returns {short(r)} though the schema accepts"
        if exc is None:
            return f"returns {short(r)} though the schema rejects"
        if not any(x[0] == "log" and x[1] in ("error", "exception", "critical") for x in log):
            return "the rejection is not logged"
        return None

    def excn(e):
        return getattr(e.val.cls, "name", None) or getattr(e.val.cls, "__name__", "?")

    def elem(kids=True):
        m = L.model("kml.KML", depth=1, boolean=True) if kids else O("kml.KML")
        return L.element(L.make(m))

    for kids in (True, False):
        s = "with content" if kids else "without children"

        def plain(kids=kids):
            e = elem(kids)
            return run(lambda: I.call(V(), [], {"element": e}), element=e)
        c.ob(f"element {s}", plain, wh)

        def custom(kids=kids):
            e = elem(kids)
            return run(lambda: I.call(V(), [], {"element": e, "schema": path("/tmp/my.xsd")}), schema="my.xsd", element=e)
        c.ob(f"element {s}, own schema", custom, wh)

        def std(kids=kids):
            e = elem(kids)
            I.call(L.name("config.set_etree_implementation"), [I.etrees["stdlib"]], {})
            r = I.call(V(), [], {"element": e})
            return None if r is None else f"returns {short(r)} though the implementation cannot validate"
        c.ob(f"element {s}, ElementTree", std, wh)

        def both(kids=kids):
            e = elem(kids)
            try:
                r = I.call(V(), [], {"element": e, "file_to_validate": path("x.kml")})
            except AbsExc as x:
                return None if x.val.cls is ValueError else f"raises {excn(x)} instead of ValueError"
            return f"returns {short(r)} for both an element and a file"
        c.ob(f"element {s} and file", both, wh)

    def neither():
        for kw in ({}, {"schema": path("/tmp/my.xsd")}, {"element": None, "file_to_validate": None}):
            try:
                r = I.call(V(), [], kw)
                return f"returns {short(r)} for no input"
            except AbsExc as x:
                if x.val.cls is not ValueError:
                    return f"raises {excn(x)} instead of ValueError"
        return None
    c.ob("no input", neither, wh)
    for kind in ("path", "text"):
        for sch in (None, "/tmp/my.xsd"):
            def file(kind=kind, sch=sch):
                I.files["x.kml"] = L.expect_xml(L.model("kml.KML", depth=0, boolean=True))
                try:
                    kw = {"file_to_validate": path("x.kml") if kind == "path" else "x.kml"}
                    if sch:
                        kw["schema"] = path(sch)
                    return run(lambda: I.call(V(), [], kw), schema=(sch or "ogckml22.xsd").rsplit("/", 1)[-1], tag="}kml")
                finally:
                    I.files.pop("x.kml", None)
            c.ob(f"file by {kind}, schema {sch}", file, wh)

    def sequence():
        e = elem()
        for sch, nm in ((None, "ogckml22.xsd"), ("/tmp/my.xsd", "my.xsd"), (None, "ogckml22.xsd"), ("/tmp/other.xsd", "other.xsd"), ("/tmp/my.xsd", "my.xsd")):
            kw = {"element": e}
            if sch:
                kw["schema"] = path(sch)
            r = run(lambda: I.call(V(), [], kw), schema=nm, element=e)
            if r:
                return f"in a sequence of calls: {r}"
        return None
    c.ob("sequence of schemas", sequence, wh, 4000)

    def same_name():
        """Schemas are told apart by their whole path."""
        e = elem()
        for sch in ("/tmp/a/my.xsd", "/tmp/b/my.xsd", "/tmp/b/ogckml22.xsd", None, "/tmp/a/my.xsd"):
            kw = {"element": e}
            if sch:
                kw["schema"] = path(sch)
            r = run(lambda: I.call(V(), [], kw), schema=sch or "ogckml22.xsd", element=e)
            if r:
                return f"schemas with equal file names: {r}"
            if sch is None and "/tmp/b" in schema_used([x for x in I.p.log if x[0] == "schema"][-1]):
                return "the default schema is mixed up with another of the same name"
        return None
    c.ob("schemas with equal file names", same_name, wh, 4000)

    def after_failure():
        e, e2 = elem(), elem(False)
        for i, x in enumerate((e, e2, e)):
            r = run(lambda: I.call(V(), [], {"element": x}), element=x)
            if r:
                return f"call {i + 1}: {r}"
        return None
    c.ob("repeated calls", after_failure, wh)

    def parser():
        f = L.name("validator.get_schema_parser")
        a = I.call(f, [], {})
        b = I.call(f, [path("/tmp/my.xsd")], {})
        b2 = I.call(f, [path("/var/my.xsd")], {})
        for x, n in ((a, "ogckml22.xsd"), (b, "/tmp/my.xsd"), (b2, "/var/my.xsd")):
            if not (isinstance(x, ExtObj) and x.kind == "xmlschema" and isinstance(x.attrs["src"], XTree) and n in str(x.attrs["src"].root.tag)):
                return f"get_schema_parser gives {short(x)} for {n}"
        return None
    c.ob("get_schema_parser", parser, wh)
    for p in CLASSES:
        def obj(p=p):
            o = L.make(L.model(p, depth=1, boolean=True))
            n0 = len(I.p.log)
            r = run(lambda: L.meth(o, "validate"))
            if r:
                return r
            ev = [x for x in I.p.log[n0:] if x[0] == "schema"][0]
            e = ev[3].root if isinstance(ev[3], XTree) else ev[3]
            return None if snapshot(e) == snapshot(L.element(o)) else "the element checked is not what the object writes"
        c.ob(f"{p}.validate()", obj, lambda p=p: L.where(p))
    for strict in (True, False, None):
        for val in (None, True, False):
            for src in ("text", "path", "file"):
                def parse(strict=strict, val=val, src=src):
                    m = L.model("kml.KML", depth=0, boolean=True)
                    I.files["in.kml"] = L.expect_xml(m)
                    try:
                        kw = {}
                        if strict is not None:
                            kw["strict"] = strict
                        if val is not None:
                            kw["validate"] = val
                        f = "in.kml" if src == "text" else path("in.kml") if src == "path" else ExtObj("file", name="in.kml", mode="r", encoding=None)
                        want = 1 if val or val is None and strict is not False else 0
                        n0, t0 = len(I.p.log), len(I.p.trace)
                        res = []
                        r = run(lambda: res.append(I.call(I.getattr(L.name("kml.KML"), "parse"), [f], kw)) or True, n=want, tag="}kml" if want else None)
                        if r:
                            return r
                        if res:
                            L.grouped = True
                            try:
                                return L.diff(res[0], m, "kml.KML")
                            finally:
                                L.grouped = False
                        return None
                    finally:
                        I.files.pop("in.kml", None)
                c.ob(f"KML.parse strict={strict} validate={val} from {src}", parse, lambda: L.where("kml.KML"))


# ------------------------------------------------------------------- P23
@prop("P23")
def p23(c):
    L = c.L
    I = L.I
    c.rule = "Interpret KML.write/KML.parse with recorded file effects: content, options, encoding, archive member; parse gives the object of the text with ns/name_spaces/strict honoured."
    wh = lambda: L.where("kml.KML")
    path = lambda n: ExtObj("path", name=n)
    docs = {"full": lambda: L.model("kml.KML", depth=2, boolean=True), "empty": lambda: O("kml.KML"),
            "coordinates": lambda: wrap(L, L.model("geometry.LineString", "n", 0, boolean=True), chain_to("geometry.LineString"))}
    for mode in ("lxml", "stdlib"):
        for dl, dm in docs.items():
            for name in ("out.kml", "out.kmz", "dir.kmz/out.kml", "out.xml", "out", "out.kmz.kml", "out.kml.kmz", "out.kmz.bak", "outkmz", "dir.kml/out.kmz"):
                for kw in ({}, {"prettyprint": False}, {"prettyprint": True}, {"precision": 0}, {"precision": 3, "prettyprint": False}, {"verbosity": "terse"}, {"verbosity": "verbose", "precision": 2}):
                    def write(mode=mode, dm=dm, name=name, kw=kw):
                        I.call(L.name("config.set_etree_implementation"), [I.etrees[mode]], {})
                        m = dm()
                        o = L.make(m)
                        k = dict(kw)
                        lv = k.get("verbosity", "normal")
                        if "verbosity" in k:
                            k["verbosity"] = L.verbosity(k["verbosity"])
                        n0 = len(I.p.log)
                        r = L.meth(o, "write", path(name), **k)
                        log = I.p.log[n0:]
                        if name.endswith(".kmz"):
                            z = [x for x in log if x[0] == "zipopen"]
                            if len(z) != 1 or z[0][1] != name or z[0][2] not in ("w", "x"):
                                return f"archive opened as {[x[1:] for x in z]}"
                            w = [x for x in log if x[0] == "writestr"]
                            if len(w) != 1:
                                return f"{len(w)} archive members"
                            member = w[0][2]
                            if isinstance(member, ExtObj):
                                raise Undecided("zip member")
                            if member != "doc.kml":
                                return f"archive member {short(member)} instead of doc.kml"
                            if [x for x in log if x[0] == "write"]:
                                return "also written outside the archive"
                            text = w[0][3]
                        else:
                            if [x for x in log if x[0] in ("zipopen", "writestr")]:
                                return "written as an archive"
                            w = [x for x in log if x[0] == "write"]
                            if not w:
                                return "nothing is written"
                            if any(x[1] != name for x in w):
                                return f"written to {short(next(x[1] for x in w if x[1] != name))}"
                            opens = [x for x in log if x[0] == "open"]
                            if len(opens) > 1:
                                raise Undecided("several files opened")
                            text = w[0][4] if len(w) == 1 else I.models.cat([x[4] for x in w])
                            md, enc = str(w[0][2]), w[0][3]
                            if not md.startswith(("w", "x")):
                                return f"file opened with mode {md}"
                            if "b" not in md and str(enc).lower().replace("_", "-") not in ("utf-8", "utf8"):
                                return f"file encoding {enc}"
                        if isinstance(text, Sym) and text.op == "encode":
                            if text.args[1].replace("_", "-") not in ("utf-8", "utf8"):
                                return f"encoded as {text.args[1]}"
                            text = text.args[0]
                        if isinstance(text, str) or isinstance(text, Sym) and text.op in ("cat", "xmlbody") and all(isinstance(x, str) or isinstance(x, Sym) and x.op in ("tostring", "xmlbody") for x in (text.args if text.op == "cat" else [text])):
                            return f"the file holds {short(text)}, not exactly the serialisation"
                        if not (isinstance(text, Sym) and text.op == "tostring"):
                            raise Undecided("written " + short(text))
                        want_pretty = kw.get("prettyprint", True) if mode == "lxml" else False
                        if mode == "lxml" and bool(text.args[1]) is not want_pretty:
                            return f"pretty printing is {text.args[1]}"
                        L.prec = kw.get("precision")
                        try:
                            want = L.expect_xml(at_level(L, m, lv))
                        finally:
                            L.prec = None
                        d = L.xdiff(text.args[0], want)
                        if d:
                            return d
                        ref = L.tostr(o, **k)
                        return None if I.veq(ref, text) is True or mode == "stdlib" else "the file differs from to_string with the same options"
                    c.ob(f"write {dl} to {name} {kw} ({mode})", write, wh)
    for dl, dm in docs.items():
        for mode in ("lxml", "stdlib"):
            for src in ("text", "path", "file"):
                for kw in ({}, {"strict": False}, {"validate": False}, {"strict": False, "validate": False}):
                    def parse(dm=dm, mode=mode, src=src, kw=kw):
                        I.call(L.name("config.set_etree_implementation"), [I.etrees[mode]], {})
                        m = dm()
                        I.files["in.kml"] = L.expect_xml(m)
                        try:
                            f = "in.kml" if src == "text" else path("in.kml") if src == "path" else ExtObj("file", name="in.kml", mode="r", encoding=None)
                            try:
                                r = I.call(I.getattr(L.name("kml.KML"), "parse"), [f], dict(kw))
                            except AbsExc as e:
                                if e.val.cls is AssertionError:
                                    raise Skip
                                raise
                        finally:
                            I.files.pop("in.kml", None)
                        L.grouped = True
                        try:
                            d = L.diff(r, m, "kml.KML")
                        finally:
                            L.grouped = False
                        if d:
                            return d
                        t = L.read("kml.KML", L.doc(L.expect_xml(m)))
                        return None if I.veq(r, t) is True else "differs from the object read from the same text"
                    c.ob(f"parse {dl} from {src} {kw} ({mode})", parse, wh)

    def nsdoc(uri):
        m = docs["full"]()
        return m, L.expect_xml(m, ns={"kml": uri})
    for lab, kw in (("detected", {}), ("given", {"ns": "{http://earth.google.com/kml/2.2}"}), ("given in name_spaces", {"ns": "{http://earth.google.com/kml/2.2}", "name_spaces": {"kml": "{http://earth.google.com/kml/2.2}"}})):
        def other(lab=lab, kw=kw):
            m, s = nsdoc("http://earth.google.com/kml/2.2")
            I.files["in.kml"] = s
            k = dict(kw)
            if "name_spaces" in k:
                k["name_spaces"] = I.mkdict(list(k["name_spaces"].items()))
            try:
                r = I.call(I.getattr(L.name("kml.KML"), "parse"), ["in.kml"], {"validate": False, **k})
            finally:
                I.files.pop("in.kml", None)
            L.grouped = True
            try:
                d = L.diff(r, m, "kml.KML")
            finally:
                L.grouped = False
            if d:
                return d
            d = L.xdiff(L.element(r), grouped_xml(L, r, m, {"kml": "http://earth.google.com/kml/2.2"}))
            return f"written again: {d}" if d else None
        c.ob(f"other KML namespace {lab}", other, wh)

    def extra_ns():
        m = docs["full"]()
        I.files["in.kml"] = L.expect_xml(m)
        try:
            r = I.call(I.getattr(L.name("kml.KML"), "parse"), ["in.kml"], {"validate": False, "name_spaces": I.mkdict([("x", "{urn:x}")])})
        finally:
            I.files.pop("in.kml", None)
        for at, x in graph(L, r):
            n = x.attrs.get("name_spaces")
            if isinstance(n, VDict) and dict(n.d.values()).get("x") != "{urn:x}":
                return f"the given name_spaces do not reach {at}"
        return None
    c.ob("name_spaces given to parse", extra_ns, wh)
    OLD = "http://earth.google.com/kml/2.1"
    nskw = {"": {}, "detected": {}, "given": {"ns": "{%s}" % OLD}, "named": {"ns": "{%s}" % OLD, "name_spaces": {"kml": "{%s}" % OLD}}}
    for strict in (True, False, None):
        for mode in ("lxml", "stdlib"):
            for src in ("text", "path", "file"):
                for lab, nk in nskw.items():
                    def bad(strict=strict, mode=mode, src=src, lab=lab, nk=nk):
                        I.call(L.name("config.set_etree_implementation"), [I.etrees[mode]], {})
                        ch = chain_to("styles.LineStyle")
                        m = L.model("styles.LineStyle", "n", 0, owner=ch[-1][0], boolean=True)
                        f = CLASSES["styles.LineStyle"].field("width")
                        w = wrap(L, m, ch)
                        d = sub_doc(L, w, m, f, junk(L)).args[0]
                        if lab:
                            d = renamed(d, OLD)
                        I.files["in.kml"] = d
                        k = dict(nk)
                        if "name_spaces" in k:
                            k["name_spaces"] = I.mkdict(list(k["name_spaces"].items()))
                        if strict is not None:
                            k["strict"] = strict
                        fl = "in.kml" if src == "text" else path("in.kml") if src == "path" else ExtObj("file", name="in.kml", mode="r", encoding=None)
                        try:
                            r = I.call(I.getattr(L.name("kml.KML"), "parse"), [fl], {"validate": False, **k})
                        except AbsExc as e:
                            if strict is not False and I.issub(e.val.cls, L.name("exceptions.KMLParseError")):
                                return None
                            raise
                        finally:
                            I.files.pop("in.kml", None)
                        if strict is not False:
                            return "strict parsing accepts a malformed value"
                        kept = O("styles.LineStyle", {a: b for a, b in m.fields.items() if a != "width"})
                        L.grouped = True
                        try:
                            return L.diff(r, wrap(L, kept, ch), "kml.KML")
                        finally:
                            L.grouped = False
                    c.ob(f"malformed value, strict={strict} {lab} from {src} ({mode})", bad, wh)

    def failing():
        cs = (L.coords("a", 1, 3)[0], (L.num("x"),))
        o = L.make(wrap(L, O("geometry.Coordinates", {"coords": ((L.num("x"),),)}), []))
        ls = I.call(L.name("geometry.LineString"), [], {"kml_coordinates": o})
        pm = I.call(L.name("overlays.PhotoOverlay"), [], {})
        bad = I.call(L.name("kml.KML"), [], {"features": VList([I.call(L.name("features.Placemark"), [], {"name": L.text("n"), "region": 5})])})
        n0 = len(I.p.log)
        try:
            L.meth(bad, "write", path("out.kml"))
        except AbsExc:
            t = [x for x in I.p.log[n0:] if x[0] in ("open", "write", "zipopen", "writestr")]
            return "the file is opened before serialising fails" if t else None
        raise Skip
    c.ob("a failing write leaves the file alone", failing, wh)


def renamed(s, uri):
    """The snapshot with the KML namespace replaced."""
    t = s[1].replace("http://www.opengis.net/kml/2.2", uri) if isinstance(s[1], str) else s[1]
    return (s[0], t, s[2], s[3], tuple(renamed(x, uri) for x in s[4]), *s[5:])


def grouped_xml(L, r, m, ns):
    """Expected XML of what was read: members of mixed lists grouped as the object lists them."""
    I = L.I

    def order(got, mm):
        out = {}
        for k, v in mm.fields.items():
            if isinstance(v, O):
                v = order(I.getattr(got, k), v)
            elif isinstance(v, list) and v and isinstance(v[0], O):
                items = L.seq(I.getattr(got, k))
                left = list(v)
                new = []
                for g in items:
                    x = next(y for y in left if L.name(y.path) is g.cls)
                    left.remove(x)
                    new.append(order(g, x))
                v = new
            out[k] = v
        return O(mm.path, out)
    return L.expect_xml(order(r, m), ns=ns)


# ------------------------------------------------------------------- P24
@prop("P24")
def p24(c):
    L = c.L
    I = L.I
    c.rule = ("Interpret registry.register of new text/attribute/number/child fields for every element class and base class, before and after use; then construct, write (position), read, and search in the class, its "
              "subclasses and unrelated classes; earlier items keep their place.")

    def item(kind, name, node, cls=None):
        h = L.mod("fastkml.helpers").env.vars
        rd, wr, k = {"sub": ("subelement_text_kwarg", "text_subelement", (str,)), "attr": ("attribute_text_kwarg", "text_attribute", (str,)),
                     "float": ("subelement_float_kwarg", "float_subelement", (float,)), "bool": ("subelement_bool_kwarg", "bool_subelement", (bool,)),
                     "obj": ("xml_subelement_kwarg", "xml_subelement", None), "list": ("xml_subelement_list_kwarg", "xml_subelement_list", None)}[kind]
        classes = tuple(I.models.builtin(x.__name__)[0] if isinstance(I.models.builtin(x.__name__), tuple) else I.models.builtin(x.__name__) for x in k) if k else (L.name(cls),)
        return I.call(L.name("registry.RegistryItem"), [], {"ns_ids": ("kml", "atom", "gx", ""), "classes": classes, "attr_name": name, "node_name": node, "get_kwarg": h[rd], "set_element": h[wr]})

    def register(target, it):
        L.meth(L.name("registry.registry"), "register", L.name(target), it)

    def items(path):
        return L.seq(L.meth(L.name("registry.registry"), "get", L.name(path)))

    def insert(s, n, kids, attrs):
        return (s[0], s[1], (*s[2], *attrs), s[3], (*s[4][:n], *kids, *s[4][n:]), s[5])

    def scenario(target, sub, late, full_=True):
        """Register two sub-elements and an attribute for target; use through class sub."""
        m = L.model(sub, depth=1, boolean=True) if full_ else O(sub, required(L, sub))
        before = items(target)
        mine = {I.getattr(x, "attr_name") for x in before}
        old = items(sub)
        oldobj = None
        if late:
            oldobj = L.make(m)
            L.tostr(oldobj)
            L.read(sub, L.doc(L.expect_xml(m)))
        mine2 = mine | ({"track_items"} if mine & {"whens", "coords", "angles"} else set())
        base = O(sub, {k: v for k, v in m.fields.items() if k in mine2})
        n = len(L.expect_xml(pruned(base))[4])
        register(target, item("sub", "my_ext", "myExt"))
        register(target, item("attr", "my_attr", "myAttr"))
        register(target, item("float", "my_num", "myNum"))
        new = items(sub)
        names = [I.getattr(x, "attr_name") for x in new]
        rest = [x for x in new if I.getattr(x, "attr_name") not in ("my_ext", "my_attr", "my_num")]
        if len(rest) != len(old) or any(a is not b for a, b in zip(rest, old)):
            return "registering replaces or reorders earlier registrations"
        ext, at, num = L.text("ext"), L.text("attr"), L.num("num")
        # unset: harmless
        o = L.make(m)
        d = L.xdiff(L.element(o), L.expect_xml(m))
        if d:
            return f"unset extension fields change the output: {d}"
        L.element(o, verbosity=L.verbosity("verbose"))
        I.call(I.models.builtin("repr")[0], [o], {})
        r = L.read(sub, L.doc(L.expect_xml(m)))
        L.grouped = True
        try:
            d = L.diff(r, m, sub)
        finally:
            L.grouped = False
        if d:
            return f"unset extension fields change reading: {d}"
        if oldobj is not None:
            d = L.xdiff(L.element(oldobj), L.expect_xml(m))
            if d:
                return f"objects made before registering: {d}"
        # set
        o = L.make(m, my_ext=ext, my_attr=at, my_num=num)
        for k, v in (("my_ext", ext), ("my_attr", at), ("my_num", num)):
            d = L.diff(I.getattr(o, k), v, f"{sub}.{k}")
            if d:
                return d
        d = L.diff(o, m, sub)
        if d:
            return f"other fields: {d}"
        u = L.expect_xml(m)[1].rsplit("}", 1)[0] + "}"
        kid = lambda tag, t: ("elem", u + tag, (), t, (), None)
        want = insert(L.expect_xml(m), n, [kid("myExt", ext), kid("myNum", L.lit(None, num))], [("myAttr", at)])
        d = L.xdiff(L.element(o), want)
        if d:
            return f"written {d}"
        r = L.read(sub, L.tostr(o))
        for k, v in (("my_ext", ext), ("my_attr", at), ("my_num", num)):
            a = I.getattr_opt(r, k)
            if a is I:
                return f"{k} is not read back"
            d = L.diff(a, v, f"{sub}.{k} read back")
            if d:
                return d
        L.grouped = True
        try:
            d = L.diff(r, m, sub)
        finally:
            L.grouped = False
        if d:
            return f"other fields read back: {d}"
        if I.veq(o, L.make(m, my_ext=L.text("other"), my_attr=at, my_num=num)) is not False:
            return "objects differing in an extension field are equal"
        return None

    def unaffected(target):
        t = L.name(target)
        others = [p for p in CLASSES if not I.issub(L.name(p), t)]
        old = {p: items(p) for p in others}
        register(target, item("sub", "my_ext", "myExt"))
        for p in others:
            n = items(p)
            if len(n) != len(old[p]) or any(a is not b for a, b in zip(n, old[p])):
                return f"registering for {target} changes {p}"
        for p in others[:: max(1, len(others) // 6)]:
            m = L.model(p, depth=0, boolean=True)
            s = L.expect_xml(m)
            u = s[1].rsplit("}", 1)[0] + "}"
            s2 = insert(s, len(s[4]), [("elem", u + "myExt", (), L.text("x"), (), None)], [])
            r = L.read(p, L.doc(s2))
            if I.getattr_opt(r, "my_ext") is not I:
                return f"{p} reads a field registered for {target}"
        return None

    bases = ["base._XMLObject", "kml_base._BaseObject", "features._Feature", "containers._Container", "overlays._Overlay", "geometry._Geometry", "geometry.BoundaryIs", "styles._ColorStyle",
             "styles._StyleSelector", "times._TimePrimitive", "views._AbstractView", "atom._Person", "overlays._XY"]
    for t in bases:
        def ok(t=t):
            m, _, n = t.rpartition(".")
            return n in L.mod("fastkml." + m).env.vars
        if not ok():
            continue
        for s in CLASSES:
            if L.I.issub(L.name(s), L.name(t)):
                for late in (False, True):
                    c.ob(f"registered for {t}, used in {s}{', after use' if late else ''}", lambda t=t, s=s, late=late: scenario(t, s, late), lambda s=s: L.where(s))
        c.ob(f"registered for {t}, other classes", lambda t=t: unaffected(t), lambda t=t: L.where(t))
    for t in CLASSES:
        wh = lambda t=t: L.where(t)
        for late in (False, True):
            for full_ in (True, False):
                c.ob(f"registered for {t}{', after use' if late else ''}, {'all' if full_ else 'no'} other fields", lambda t=t, late=late, full_=full_: scenario(t, t, late, full_), wh)
        c.ob(f"registered for {t}, other classes", lambda t=t: unaffected(t), wh)
        for s in CLASSES:
            if s != t and L.I.issub(L.name(s), L.name(t)):
                c.ob(f"registered for {t}, used in {s}", lambda t=t, s=s: scenario(t, s, True), lambda s=s: L.where(s))

        def child(t=t):
            register(t, item("obj", "my_link", "Icon", "links.Icon"))
            register(t, item("list", "my_list", "Alias", "model.Alias"))
            m = O(t, required(L, t))
            if any(k in CLASSES[t].fields and k.classes for k in ()):
                raise Skip
            if any("links.Icon" in f.classes or "model.Alias" in f.classes for f in CLASSES[t].fields):
                raise Skip
            ic, al = L.model("links.Icon", "ic", 0), [L.model("model.Alias", f"al{i}", 0) for i in range(2)]
            o = L.make(m, my_link=L.make(ic), my_list=VList([L.make(x) for x in al]))
            want = L.expect_xml(m)
            want = insert(want, len(want[4]), [L.expect_xml(ic), *[L.expect_xml(x) for x in al]], [])
            d = L.xdiff(L.element(o), want)
            if d:
                return f"written {d}"
            r = L.read(t, L.tostr(o))
            for k, v in (("my_link", ic), ("my_list", al)):
                a = I.getattr_opt(r, k)
                if a is I:
                    return f"{k} is not read back"
                d = L.diff(a, v, f"{t}.{k}")
                if d:
                    return d
            o2 = L.make(m)
            return L.xdiff(L.element(o2), L.expect_xml(m))
        if not any("links.Icon" in f.classes or "model.Alias" in f.classes for f in CLASSES[t].fields):
            c.ob(f"child and list registered for {t}", child, wh)

    def same_attr(t):
        """Two registrations of one attribute under two element names are both kept, in order."""
        old = items(t)
        a, b = item("sub", "my_ext", "myExt"), item("sub", "my_ext", "myOther")
        c2, d2 = item("attr", "my_two", "myTwo"), item("float", "my_three", "myTwo")
        for x in (a, b, c2, d2):
            register(t, x)
        new = items(t)
        if len(new) != len(old) + 4 or any(x is not y for x, y in zip(new, old)) or any(x is not y for x, y in zip(new[-4:], (a, b, c2, d2))):
            return "a registration replaces or reorders another one"
        first = old[0]
        again = item("sub", I.getattr(first, "attr_name"), "myAgain")
        register(t, again)
        new = items(t)
        return None if len(new) == len(old) + 5 and new[-1] is again and all(x is y for x, y in zip(new, old)) else "registering a known attribute again replaces or reorders registrations"
    for t in CLASSES:
        c.ob(f"one attribute registered twice for {t}", lambda t=t: same_attr(t), lambda t=t: L.where(t))

    def nested():
        register("features.Placemark", item("sub", "my_ext", "myExt"))
        ext = L.text("ext")
        pm = L.make(L.model("features.Placemark", "p", 0, boolean=True), my_ext=ext)
        k = I.call(L.name("kml.KML"), [], {"features": VList([I.call(L.name("containers.Folder"), [], {"features": VList([pm])})])})
        r = L.read("kml.KML", L.tostr(k))
        f = L.seq(I.getattr(r, "features"))[0]
        p = L.seq(I.getattr(f, "features"))[0]
        a = I.getattr_opt(p, "my_ext")
        return None if a is not I and L.diff(a, ext, "my_ext") is None else "an extension field of a nested object is not read back"
    c.ob("extension of a nested object", nested, lambda: L.where("features.Placemark"))
