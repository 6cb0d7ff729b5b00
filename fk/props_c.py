"""P08-P12: precision, schema order, defaults, slots, namespaces."""
from common import *
from props_b import at_level, default_of, LIBDEFAULT
import xsd

GEO = [p for p in CLASSES if p.startswith("geometry.")] + ["gx.Track", "gx.MultiTrack"]


def has_coords(path, seen=()):
    for f in CLASSES[path].fields:
        if f.kind in ("coords", "track"):
            return True
        for k in f.classes:
            if k not in seen and has_coords(k, (*seen, path)):
                return True
    return False


@prop("P08")
def p08(c):
    L = c.L
    c.rule = ("etree_element/to_string with precision in {None, 0, 1, 2, 6, 15}: coordinate texts must be exactly the fixed-point rendering of each coordinate symbol with that many "
              "decimals (full value without precision), everything else identical to the schema oracle's rendering.")

    def want(m, p):
        L.prec = p
        try:
            return L.expect_xml(m)
        finally:
            L.prec = None

    def el(m, p):
        o = L.make(m)
        e = L.element(o, precision=p)
        return L.xdiff(e, want(m, p))

    def st(m, p, **k):
        o = L.make(m)
        s = L.tostr(o, precision=p, **k)
        if not (isinstance(s, Sym) and s.op == "tostring"):
            raise Undecided("to_string result " + short(s))
        return L.xdiff(s.args[0], want(m, p))

    precs = (None, 0, 1, 2, 6, 15)
    for path in CLASSES:
        wh = lambda path=path: L.where(path)
        for p in precs:
            for dim in ((3, 2) if has_coords(path) else (3,)):
                c.ob(f"{path} {dim}d precision {p}", lambda path=path, p=p, dim=dim: el(L.model(path, depth=2, boolean=True, dim=dim), p), wh)
            if has_coords(path):
                c.ob(f"{path} to_string precision {p}", lambda path=path, p=p: st(L.model(path, depth=1, boolean=True), p), wh)
                for pp in (True, False):
                    c.ob(f"{path} to_string precision {p} prettyprint {pp}", lambda path=path, p=p, pp=pp: st(L.model(path, depth=0, boolean=True), p, prettyprint=pp), wh)
        for what, nsd in NSVAR.items():
            for p in (None, 0, 3):
                def other(path=path, nsd=nsd, p=p):
                    m = L.model(path, depth=2, boolean=True)
                    e = L.element(mkns(L, m, nsd), precision=p)
                    L.prec = p
                    try:
                        w = expect_ns(L, m, nsd)
                    finally:
                        L.prec = None
                    return L.xdiff(e, w)
                if has_coords(path):
                    c.ob(f"{path} precision {p}, {what} namespace", other, wh)
    for path, f in (("geometry.Coordinates", None), ("geometry.Point", 1), ("geometry.LineString", 4), ("geometry.LinearRing", 5)):
        for p in precs:
            for dim in (2, 3):
                def arbitrary(path=path, n=f, p=p, dim=dim):
                    cs = L.coords("q", n or 3, dim, distinct=False)
                    if path == "geometry.LinearRing":
                        cs = (*cs[:-1], cs[0])
                    cm = O("geometry.Coordinates", {"coords": cs})
                    return el(cm if n is None else O(path, {"kml_coordinates": cm}), p)
                c.ob(f"{path} arbitrary {dim}d coordinates precision {p}", arbitrary, lambda path=path: L.where(path))
                def ints(path=path, n=f, p=p, dim=dim, lit=False):
                    cs = tuple(tuple((3 * i + k - 1) if lit else L.num(f"q{i}{k}", "int", False) for k in range(dim)) for i in range(n or 3))
                    if path == "geometry.LinearRing":
                        cs = (*cs[:-1], cs[0])
                    cm = O("geometry.Coordinates", {"coords": cs})
                    return el(cm if n is None else O(path, {"kml_coordinates": cm}), p)
                c.ob(f"{path} integer {dim}d coordinates precision {p}", ints, lambda path=path: L.where(path))
                c.ob(f"{path} literal integer {dim}d coordinates precision {p}", lambda ints=ints: ints(lit=True), lambda path=path: L.where(path))
                if path == "geometry.Coordinates" or path == "geometry.LineString":
                    def zero(path=path, p=p, dim=dim):
                        cm = O("geometry.Coordinates", {"coords": tuple(tuple([0.0] * dim) for _ in range(3))})
                        return el(cm if path == "geometry.Coordinates" else O(path, {"kml_coordinates": cm}), p)
                    c.ob(f"{path} zero {dim}d coordinates precision {p}", zero, lambda path=path: L.where(path))
    for p in precs:
        for lab, mk in (("arbitrary", lambda i, k: L.num(f"q{i}{k}", "float", False)), ("integer", lambda i, k: L.num(f"q{i}{k}", "int", False)), ("zero", lambda i, k: 0.0),
                        ("integer zero", lambda i, k: 0), ("small", lambda i, k: (0.0004, -0.0004, 1e-9)[(i + k) % 3]), ("large", lambda i, k: (123456789.125, -99999.5, 1e6)[(i + k) % 3])):
            def track(p=p, mk=mk, n=3):
                its = [TI(L.date(f"t{i}", "datetime"), tuple(mk(i, k) for k in range(3)), tuple(mk(i, 3 + k) for k in range(3))) for i in range(n)]
                return el(O("gx.Track", {"track_items": its}), p)
            c.ob(f"gx.Track {lab} positions and angles precision {p}", track, lambda: L.where("gx.Track"))

            def flat(p=p, mk=mk):
                return el(O("geometry.Coordinates", {"coords": tuple(tuple(mk(i, k) for k in range(3)) for i in range(3))}), p)
            c.ob(f"geometry.Coordinates {lab} values precision {p}", flat, lambda: L.where("geometry.Coordinates"))
    for parent, slot, kid in edges():
        if not has_coords(kid):
            continue
        for p in (None, 0, 3):
            c.ob(f"{parent}.{slot.name} -> {kid} precision {p}",
                 lambda parent=parent, slot=slot, kid=kid, p=p: el(wrap(L, L.model(kid, "n", 1, owner=parent, boolean=True), [(parent, slot)]), p),
                 lambda parent=parent, slot=slot: L.where(parent, slot.name))
    for path in GEO:
        ch = chain_to(path)
        for p in (0, 4):
            if ch:
                c.ob(f"{path} below {'/'.join(x for x, _ in ch)} precision {p}",
                     lambda path=path, ch=ch, p=p: el(wrap(L, L.model(path, "n", 1, owner=ch[-1][0], boolean=True), ch), p), lambda path=path: L.where(path))
    # precision is independent of verbosity
    for path in GEO:
        for lv in ("terse", "verbose"):
            def both(path=path, lv=lv):
                m = L.model(path, depth=1, boolean=True)
                e = L.element(L.make(m), precision=2, verbosity=L.verbosity(lv))
                return L.xdiff(e, want(at_level(L, m, lv), 2))
            c.ob(f"{path} precision 2, {lv}", both, lambda path=path: L.where(path))


@prop("P09")
def p09(c):
    L = c.L
    c.rule = ("The abstract XML of every class (all fields, every pair of fields, every alternative child and enumeration value) equals the oracle's element names, namespaces and order; "
              "the oracle itself is compared with the sequences of the bundled XSD files.")

    def x(m):
        return L.xdiff(L.element(L.make(m)), L.expect_xml(m))

    for path, k in CLASSES.items():
        wh = lambda path=path: L.where(path)
        c.ob(f"{path} all fields", lambda path=path: x(L.model(path, depth=2, boolean=True)), wh)
        c.ob(f"{path} no fields", lambda path=path: x(O(path, required(L, path))), wh)
        fs = [f for f in k.fields if not f.required]
        for i, f in enumerate(fs):
            for g in fs[i + 1:]:
                c.ob(f"{path} {f.name} + {g.name}", lambda path=path, f=f, g=g: x(L.model(path, depth=1, boolean=True, only={f.name, g.name})), wh)

            def but(path=path, f=f):
                m = L.model(path, depth=1, boolean=True)
                m.fields.pop(f.name)
                return x(m)
            c.ob(f"{path} all but {f.name}", but, wh)
            for lab, v in values(L, path, f):
                def alt(path=path, f=f, v=v):
                    m = L.model(path, depth=0, boolean=True)
                    m.fields[f.name] = v
                    return x(ordered(m))
                c.ob(f"{path} all fields, {f.name} = {lab}", alt, lambda path=path, f=f: L.where(path, f.name))
    for path in CLASSES:
        c.ob(f"schema sequence of {path}", lambda path=path: xsd.order_problem(L, path), lambda path=path: L.where(path))


@prop("P10")
def p10(c):
    L = c.L
    c.rule = ("Verbose rendering of an object without fields gives, for each field with a default in the bundled XSD, that default; the members of each enumeration class are exactly the XSD's "
              "enumeration values (plus the two gx altitude modes).")
    for path, k, f in fields():
        if f.kind in ("obj", "list", "coords", "track"):
            continue
        wh = lambda path=path, f=f: L.where(path, f.name)
        d = xsd.default_for(path, f)

        def dflt(path=path, f=f, d=d):
            o = L.make(O(path, required(L, path)))
            e = snapshot(L.element(o, verbosity=L.verbosity("verbose")))
            if f.place == "attr":
                got = dict(e[2]).get(f.xml)
            elif f.place == "node":
                got = e[3]
            else:
                got = next((x[3] for x in e[4] if x[1].endswith("}" + f.xml)), None)
            if f.required:
                return None
            want = d
            if want is None:
                return None if got is None or (path, f.name) in EXTRA_DEFAULT and EXTRA_DEFAULT[path, f.name] == got else f"verbose output gives {f.xml} = {short(got)} though the schema has no default"
            if got is None and (path, f.name) in NO_DEFAULT:
                return None
            ok = got == want
            if f.kind in ("float", "int") and isinstance(got, str):
                try:
                    ok = float(got) == float(want)
                except ValueError:
                    ok = False
            return None if ok else f"verbose output gives {f.xml} = {short(got)}, the schema default is {want}"
        c.ob(f"{path}.{f.name} default", dflt, wh)

        def terse(path=path, f=f, d=d):
            if d is None:
                raise Skip
            v = E(f.enum, d) if f.kind == "enum" else (d == "1") if f.kind == "bool" else float(d) if f.kind == "float" else int(float(d)) if f.kind == "int" else d
            m = single(L, path, f, v)
            e = snapshot(L.element(L.make(m), verbosity=L.verbosity("terse")))
            base = L.expect_xml(O(path, required(L, path)))
            r = L.xdiff(e, base)
            return f"terse output keeps the schema default {d}: {r}" if r else None
        if d is not None and (path, f.name) not in NO_DEFAULT:
            c.ob(f"{path}.{f.name} schema default left out of terse output", terse, wh)
        if f.kind == "enum":
            def voc(path=path, f=f):
                want = set(xsd.vocabulary(path, f))
                got = {m.attrs.get("_value_") for m in L.name("enums." + f.enum).members.values()}
                # which enumeration the field really uses: read every schema value
                for v in sorted(want | got):
                    m = single(L, path, f, E(f.enum, v))
                    from props_b import sub_doc
                    doc = sub_doc(L, m, m, f, v)
                    try:
                        r = L.read(path, doc)
                        a = L.I.getattr(r, f.name)
                        ok = isinstance(a, Inst) and a.attrs.get("_value_") == v
                    except AbsExc:
                        ok = False
                    if v in want and not ok:
                        return f"schema value {v!r} of {f.xml} is not accepted"
                    if v not in want and ok:
                        return f"{v!r} is accepted for {f.xml} but is not a schema value"
                return None
            c.ob(f"{path}.{f.name} vocabulary", voc, wh)
    for name in ENUMS:
        def members(name=name):
            got = sorted(m.attrs.get("_value_") for m in L.name("enums." + name).members.values())
            want = sorted(xsd.enum_values(name))
            return None if got == want else f"members {got} instead of {want}"
        c.ob(f"enums.{name} members", members, lambda name=name: L.where("enums." + name))


# the library leaves these to the caller: it neither fills in nor leaves out the schema's value
NO_DEFAULT = {("gx.MultiTrack", "interpolate"), ("model.Location", "longitude"), ("model.Location", "latitude"),
              ("styles.Pair", "key"), ("views.LookAt", "range"), ("overlays.ImagePyramid", "max_width"), ("overlays.ImagePyramid", "max_height")}
NO_DEFAULT |= {(p, n) for p in ("overlays.LatLonBox", "views.LatLonAltBox") for n in ("north", "south", "east", "west")}
NO_DEFAULT |= {(p, n) for p in ("overlays.OverlayXY", "overlays.ScreenXY", "overlays.RotationXY", "overlays.Size") for n in ("x", "y")}
# given by the KML reference, not by the XSD
EXTRA_DEFAULT = {(p, "view_format"): "BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]" for p in ("links.Link", "links.Icon")}


@prop("P11")
def p11(c):
    L = c.L
    c.rule = "Every (parent, slot, child kind) permitted by the schema: written under the schema's tag and read back as the same kind with the same fields; also doubled, nested in itself, and from the kml root."
    for parent, slot, kid in edges():
        wh = lambda parent=parent, slot=slot: L.where(parent, slot.name)

        def edge(parent=parent, slot=slot, kid=kid):
            return check_trip(L, wrap(L, L.model(kid, "n", 1, owner=parent, boolean=True), [(parent, slot)]))
        c.ob(f"{parent}.{slot.name} -> {kid}", edge, wh)

        def lean(parent=parent, slot=slot, kid=kid):
            return check_trip(L, wrap(L, wrap(L, L.model(kid, "n", 0, owner=parent, boolean=True), []), [(parent, slot)]))
        c.ob(f"{parent}.{slot.name} -> lean {kid}", lean, wh)
        ch = chain_to(parent)
        if ch:
            c.ob(f"{parent}.{slot.name} -> {kid} from the root",
                 lambda parent=parent, slot=slot, kid=kid, ch=ch: check_trip(L, wrap(L, L.model(kid, "n", 0, owner=parent, boolean=True), [*ch, (parent, slot)])), wh)
        # two levels: every grandchild slot below this child
        for s2 in CLASSES[kid].fields:
            for k2 in s2.classes:
                c.ob(f"{parent}.{slot.name} -> {kid}.{s2.name} -> {k2}",
                     lambda parent=parent, slot=slot, kid=kid, s2=s2, k2=k2: check_trip(L, wrap(L, L.model(k2, "n", 0, owner=kid, boolean=True), [(parent, slot), (kid, s2)])), wh)
    for path, slot in (("containers.Folder", "features"), ("containers.Document", "features"), ("geometry.MultiGeometry", "kml_geometries")):
        f = CLASSES[path].field(slot)
        kids = [k for k in f.classes]
        for k in kids:
            def deep(path=path, f=f, k=k):
                return check_trip(L, wrap(L, L.model(k, "n", 0, owner=path, boolean=True), [(path, f)] * 4))
            c.ob(f"{k} in 4 nested {path}", deep, lambda path=path: L.where(path))


@prop("P12")
def p12(c):
    L = c.L
    I = L.I
    c.rule = ("Written tags carry the namespace of their vocabulary (default and custom KML URI, also for children built from plain geometries); documents in a custom KML namespace and, "
              "below the root element, without namespace are read back completely.")
    new = NSVAR["custom"]

    def custom_kw():
        return {"ns": "{" + new["kml"] + "}", "name_spaces": I.mkdict([("kml", "{" + new["kml"] + "}")])}

    def table(nsd):
        return I.mkdict([(k, "{" + u + "}") for k, u in nsd.items() if u != URI[k]])

    def mk(m, nsd=new):
        return mkns(L, m, nsd)

    for path in CLASSES:
        wh = lambda path=path: L.where(path)

        def write(path=path):
            m = L.model(path, depth=2, boolean=True)
            return L.xdiff(L.element(L.make(m)), L.expect_xml(m))
        c.ob(f"{path} default namespaces written", write, wh)

        def wcustom(path=path):
            m = L.model(path, depth=1, boolean=True)
            return L.xdiff(L.element(mk(m)), L.expect_xml(m, ns=new))
        c.ob(f"{path} custom KML namespace written", wcustom, wh)

        def wnone(path=path):
            m = L.model(path, depth=1, boolean=True)
            return L.xdiff(L.element(mk(m, NSVAR["none"])), expect_ns(L, m, NSVAR["none"]))
        c.ob(f"{path} without namespace written", wnone, wh)
        for what, nsd in NSVAR.items():
            for strict in (True, False):
                def keeps(path=path, what=what, nsd=nsd, strict=strict):
                    u = braced(nsd[CLASSES[path].ns])
                    m = O(path, required(L, path))
                    kw = {} if what == "none" else {"name_spaces": table(nsd)}
                    r = L.read(path, L.doc(L.expect_xml(m, ns=nsd)), ns=u, strict=strict, **kw)
                    got = I.getattr(r, "ns")
                    return None if got == u else f"object read with namespace {u!r} has the namespace {short(got)}"
                c.ob(f"{path} keeps the namespace it was read with, {what}, {'strict' if strict else 'lenient'}", keeps, wh)

        def rcustom(path=path, nsd=new, given=True):
            m = L.model(path, depth=1, boolean=True)
            doc = L.doc(L.expect_xml(m, ns=nsd))
            kw = {"ns": "{" + nsd[CLASSES[path].ns] + "}"} if given else {}
            r = L.read(path, doc, name_spaces=table(nsd), **kw)
            L.grouped = True
            try:
                return L.diff(r, m, path)
            finally:
                L.grouped = False
        c.ob(f"{path} custom KML namespace read", rcustom, wh)
        c.ob(f"{path} custom KML namespace read, ns left to the table", lambda rcustom=rcustom: rcustom(given=False), wh)
        c.ob(f"{path} all namespaces custom, read", lambda rcustom=rcustom: rcustom(nsd=NSVAR["own"]), wh)

        def trip(path=path, nsd=new):
            m = L.model(path, depth=1, boolean=True)
            o = mk(m, nsd)
            r = L.read(path, L.tostr(o), ns="{" + nsd[CLASSES[path].ns] + "}", name_spaces=table(nsd))
            return L.xdiff(L.element(r), L.expect_xml(m, ns=nsd))
        c.ob(f"{path} custom KML namespace kept through reading and writing", trip, wh)
        c.ob(f"{path} all namespaces custom, kept through reading and writing", lambda trip=trip: trip(nsd=NSVAR["own"]), wh)
        if path != "kml.KML":
            def rnone(path=path):
                m = L.model(path, depth=1, boolean=True)
                doc = L.doc(L.expect_xml(m, ns=NSVAR["none"]))
                r = L.read(path, doc, ns="")
                L.grouped = True
                try:
                    return L.diff(r, m, path)
                finally:
                    L.grouped = False
            c.ob(f"{path} without namespace read", rnone, wh)
    for path, k, f in fields():
        for what, nsd in NSVAR.items():
            if path == "kml.KML" and what == "none":
                continue
            for lab, v in values(L, path, f, distinct=True):
                def one(path=path, f=f, v=v, nsd=nsd, what=what):
                    m = single(L, path, f, v)
                    doc = L.doc(L.expect_xml(m, ns=nsd))
                    u = nsd[CLASSES[path].ns]
                    kw = {"ns": "{" + u + "}" if u else ""}
                    if what != "none":
                        kw["name_spaces"] = table(nsd)
                    r = L.read(path, doc, **kw)
                    L.grouped = True
                    try:
                        return L.diff(r, m, path)
                    finally:
                        L.grouped = False
                def wone(path=path, f=f, v=v, nsd=nsd):
                    m = single(L, path, f, v)
                    return L.xdiff(L.element(mk(m, nsd)), L.expect_xml(m, ns=nsd))
                if what != "none":
                    c.ob(f"{path}.{f.name} = {lab} written, {what} namespace", wone, lambda path=path, f=f: L.where(path, f.name))
                else:
                    c.ob(f"{path}.{f.name} = {lab} written, default namespace", lambda path=path, f=f, v=v: L.xdiff(L.element(L.make(single(L, path, f, v))), L.expect_xml(single(L, path, f, v))),
                         lambda path=path, f=f: L.where(path, f.name))
                c.ob(f"{path}.{f.name} = {lab} read, {what} namespace", one, lambda path=path, f=f: L.where(path, f.name))
    # children the library builds itself from plain geometries
    for lab, mkgeo, path in geometries(L):
        def own(mkgeo=mkgeo, path=path):
            g = mkgeo()
            o = I.call(L.name(path), [], {"geometry": g, **custom_kw()})
            return all_ns(L.element(o), new["kml"])
        c.ob(f"{path}(geometry={lab}) custom KML namespace", own, lambda path=path: L.where(path))

        def placemark(mkgeo=mkgeo):
            g = mkgeo()
            o = I.call(L.name("features.Placemark"), [], {"geometry": g, **custom_kw()})
            return all_ns(L.element(o), new["kml"])
        c.ob(f"Placemark(geometry={lab}) custom KML namespace", placemark, lambda: L.where("features.Placemark"))

        def factory(mkgeo=mkgeo):
            g = mkgeo()
            o = I.call(L.name("geometry.create_kml_geometry"), [g], custom_kw())
            return all_ns(L.element(o), new["kml"])
        c.ob(f"create_kml_geometry({lab}) custom KML namespace", factory, lambda: L.where("geometry.create_kml_geometry"))


def all_ns(e, uri):
    bad = []

    def go(x):
        if not x.tag.startswith("{" + uri + "}"):
            bad.append(x.tag)
        for k in x.children:
            go(k)
    go(e)
    return f"{bad[0]} is written outside the namespace {uri}" if bad else None


def geometries(L):
    """(label, thunk building a pygeoif geometry, matching KML class)."""
    I = L.I

    def g(name):
        return I.import_module("pygeoif.geometry").env.vars[name]

    def pt(p="g", dim=3):
        return I.call(g("Point"), list(L.coords(p, 1, dim)[0]), {})

    def ls(p="g", n=3, dim=3, ring=False):
        cs = L.coords(p, n, dim)
        if ring:
            cs = (*cs, cs[0])
        return I.call(g("LinearRing" if ring else "LineString"), [cs], {})

    def poly(p="g", holes=2, dim=3):
        a = L.ring(p + "o", dim)
        hs = tuple(L.ring(f"{p}h{i}", dim) for i in range(holes))
        return I.call(g("Polygon"), [a, hs] if holes else [a], {})

    def col(*parts):
        return I.call(g("GeometryCollection"), [VList(list(parts))], {})

    def multi(kind, *parts):
        return I.call(g(kind), [tuple(parts)], {})

    def closed(dim):
        a, b, d = L.coords("p", 3, dim)
        return I.call(g("LineString"), [(a, b, a, d, b, a)], {})

    M = "geometry.MultiGeometry"
    for n in (2, 5, 9):
        yield f"LineString of {n} points", (lambda n=n: ls(n=n)), "geometry.LineString"
        yield f"LinearRing of {n + 1} points", (lambda n=n: ls(n=n, ring=True)), "geometry.LinearRing"
        yield f"MultiPoint of {n}", (lambda n=n: multi("MultiPoint", *L.coords("m", n, 3))), M
        yield f"MultiLineString of {n}", (lambda n=n: multi("MultiLineString", *(L.coords(f"m{i}", 2 + i % 3, 3) for i in range(n)))), M
        yield f"MultiPolygon of {n}", (lambda n=n: multi("MultiPolygon", *((L.ring(f"m{i}"), tuple(L.ring(f"m{i}h{j}") for j in range(i % 3))) for i in range(n)))), M
    yield "Polygon 6 holes", (lambda: poly(holes=6)), "geometry.Polygon"
    for k, mk in (("Point", pt), ("LineString", ls), ("LinearRing", lambda p: ls(p, ring=True)), ("Polygon", poly)):
        m = {"Point": lambda p: multi("MultiPoint", *L.coords(p, 2)), "LineString": lambda p: multi("MultiLineString", L.coords(p + "0", 2), L.coords(p + "1", 3)),
             "Polygon": lambda p: multi("MultiPolygon", (L.ring(p + "o"), (L.ring(p + "h"),)), (L.ring(p + "q"), ()))}.get(k)
        yield f"collection of one {k}", (lambda mk=mk: col(mk("c0"))), M
        yield f"collection of two {k}s", (lambda mk=mk: col(mk("c0"), mk("c1"))), M
        yield f"collection of a collection of one {k}", (lambda mk=mk: col(col(mk("c0")))), M
        yield f"collection of {k} and a collection of one {k}", (lambda mk=mk: col(mk("c0"), col(mk("c1")))), M
        if m:
            yield f"Multi{k} in a collection", (lambda m=m: col(m("c0"))), M
            yield f"{k}s around a Multi{k}", (lambda m=m, mk=mk: col(mk("c0"), m("c1"), mk("c2"))), M
    yield "collections three deep", (lambda: col(pt("c0"), col(ls("c1"), col(poly("c2", 1), pt("c3")), pt("c4")), ls("c5"))), M
    for dim in (2, 3):
        yield f"LineString through the same points again {dim}d", (lambda dim=dim: closed(dim)), "geometry.LineString"
        yield f"MultiPoint with equal points {dim}d", (lambda dim=dim: (lambda a, b: multi("MultiPoint", a, b, a, b))(*L.coords("m", 2, dim))), M
        yield f"MultiLineString with equal lines {dim}d", (lambda dim=dim: (lambda a, b: multi("MultiLineString", a, b, a))(L.coords("m", 2, dim), L.coords("k", 3, dim))), M
        yield f"Point {dim}d", (lambda dim=dim: pt(dim=dim)), "geometry.Point"
        yield f"LineString {dim}d", (lambda dim=dim: ls(dim=dim)), "geometry.LineString"
        yield f"LinearRing {dim}d", (lambda dim=dim: ls(dim=dim, ring=True)), "geometry.LinearRing"
        for h in (0, 1, 3):
            yield f"Polygon {h} holes {dim}d", (lambda dim=dim, h=h: poly(holes=h, dim=dim)), "geometry.Polygon"
        yield f"MultiPoint {dim}d", (lambda dim=dim: I.call(g("MultiPoint"), [L.coords("m", 3, dim)], {})), "geometry.MultiGeometry"
        yield f"MultiLineString {dim}d", (lambda dim=dim: I.call(g("MultiLineString"), [(L.coords("m", 2, dim), L.coords("n", 3, dim))], {})), "geometry.MultiGeometry"
        yield f"MultiPolygon {dim}d", (lambda dim=dim: I.call(g("MultiPolygon"), [((L.ring("m", dim), (L.ring("mh", dim),)), (L.ring("n", dim), ()))], {})), "geometry.MultiGeometry"
        yield f"GeometryCollection {dim}d", (lambda dim=dim: I.call(g("GeometryCollection"), [VList([pt("c0", dim), ls("c1", 3, dim), poly("c2", 1, dim), ls("c3", 3, dim, True), pt("c4", dim)])], {})), "geometry.MultiGeometry"
        yield f"nested GeometryCollection {dim}d", (lambda dim=dim: I.call(g("GeometryCollection"), [VList([pt("c0", dim), I.call(g("GeometryCollection"), [VList([ls("c1", 2, dim), pt("c2", dim)])], {}), I.call(g("MultiPoint"), [L.coords("m", 2, dim)], {})])], {})), "geometry.MultiGeometry"
