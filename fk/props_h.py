"""Further obligations: long lists, values that coincide, users' own classes, combined options."""
import ast
from common import *
from props_b import at_level, default_of, ZERO, LEVELS
from props_c import geometries
from props_d import flatten_repr, call_is
from props_e import graph
from props_f import desc, same_desc, uniform, model_desc
from props_g import isa, excn, track_model


def leaf(L, path, owner, i):
    """A small complete member."""
    return L.model(path, f"m{i}", 0, owner=owner, boolean=bool(i % 2))


def long_list(L, path, f, n, kid=None):
    ks = [kid] if kid else f.classes
    ms = [leaf(L, ks[i % len(ks)] if i % 7 else ks[0], path, i) for i in range(n)]
    m = O(path, {**required(L, path), **({"schema_url": L.text("u")} if path == "data.SchemaData" else {}), f.name: ms})
    return ordered(m)


def line(L, n, dim=3, path="geometry.LineString"):
    cs = L.coords("q", n, dim)
    if path == "geometry.LinearRing":
        cs = (*cs, cs[0])
    return O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": cs})})


def lists():
    return [(p, f) for p, _, f in fields() if f.kind == "list"]


LONG = 270


# ---------------------------------------------------------------- long lists
@more("P27")
def p27(c):
    L = c.L
    I = L.I
    for path, f in lists():
        for n in (33, 130, LONG) if not c.thorough else (33, 65, 101, 130, LONG, 530):
            def trip(path=path, f=f, n=n):
                m = long_list(L, path, f, n)
                d = check_trip(L, m)
                return d
            c.ob(f"{path}.{f.name} {n} members", trip, lambda path=path, f=f: L.where(path, f.name))

            def grown(path=path, f=f, n=n):
                m = long_list(L, path, f, n + 1)
                lst = m.fields[f.name]
                o = L.make(O(path, {**m.fields, f.name: lst[:-1]}))
                L.element(o)
                a = I.getattr(o, f.name)
                if not isinstance(a, VList):
                    raise Skip
                L.meth(a, "append", L.make(lst[-1]))
                return L.xdiff(L.element(o), L.expect_xml(m))
            if n == 130:
                c.ob(f"{path}.{f.name} {n + 1} members, the last appended", grown, lambda path=path, f=f: L.where(path, f.name))
    for path in ("geometry.LineString", "geometry.LinearRing"):
        for n in (50, 400, 1300):
            for dim in (2, 3):
                c.ob(f"{path} {n} points {dim}d", lambda path=path, n=n, dim=dim: check_trip(L, line(L, n, dim, path)), lambda path=path: L.where(path))


@more("P26")
def p26(c):
    L = c.L
    I = L.I
    for n in (12, 60, 150, LONG):
        for ang in (True, False, {0}, {n - 1}):
            def trip(n=n, ang=ang):
                its = track_model(L, n, 3, ang)
                o = L.make(O("gx.Track", {"track_items": its}))
                zs = [TI(x.when, x.coord, x.angle or (0.0, 0.0, 0.0)) for x in its] if ang else [TI(x.when, x.coord, None) for x in its]
                d = L.diff(I.getattr(o, "track_items"), its, "track_items")
                if d:
                    return d
                d = same_desc(desc(L, I.getattr(o, "geometry")), ("LineString", tuple(x.coord for x in its)))
                if d:
                    return d
                r = L.read("gx.Track", L.tostr(o))
                return L.diff(I.getattr(r, "track_items"), zs, "track_items read back")
            c.ob(f"track of {n} samples, angles {'all' if ang is True else sorted(ang) if ang else 'none'}", trip, lambda: L.where("gx.Track"))

        def parallel(n=n, form="list"):
            its = track_model(L, n)
            mk = {"list": lambda v: VList(list(v)), "tuple": tuple, "iterator": lambda v: VIter(iter(list(v)))}[form]
            o = I.call(L.name("gx.Track"), [], {"whens": mk([L.mkdate(x.when) for x in its]), "coords": mk([x.coord for x in its]), "angles": mk([x.angle for x in its])})
            return L.diff(I.getattr(o, "track_items"), its, "track_items")
        for form in ("list", "tuple", "iterator"):
            c.ob(f"track of {n} samples from parallel {form}", lambda parallel=parallel, form=form: parallel(form=form), lambda: L.where("gx.Track"))

    def several(sizes):
        ts = [O("gx.Track", {"track_items": track_model(L, k, nm=f"t{i}")}) for i, k in enumerate(sizes)]
        o = L.make(O("gx.MultiTrack", {"tracks": ts}))
        d = L.diff(I.getattr(o, "tracks"), ts, "tracks")
        if d:
            return d
        r = L.read("gx.MultiTrack", L.tostr(o))
        return L.diff(I.getattr(r, "tracks"), ts, "tracks read back")
    for sizes in ((1,), (1, 2), (2, 1), (1, 1), (1, 1, 1), (3, 1, 2), (2, 2), (4, 1, 1, 4), (1,) * 40):
        c.ob(f"multi-track of tracks with {sizes if len(sizes) < 9 else '40 times 1'} samples", lambda sizes=sizes: several(sizes), lambda: L.where("gx.MultiTrack"))


@more("P08")
def p08(c):
    L = c.L
    for p in (None, 0, 3):
        def both(p=p, m=None):
            m = m()
            e = L.element(L.make(m), precision=p)
            L.prec = p
            try:
                return L.xdiff(e, L.expect_xml(m))
            finally:
                L.prec = None
        for n in (60, 400):
            c.ob(f"line of {n} points precision {p}", lambda both=both, n=n: both(m=lambda: line(L, n)), lambda: L.where("geometry.LineString"))
            c.ob(f"track of {n} samples precision {p}", lambda both=both, n=n: both(m=lambda: O("gx.Track", {"track_items": track_model(L, n)})), lambda: L.where("gx.Track"))
        c.ob(f"line of 80 points below the root precision {p}", lambda both=both: both(m=lambda: wrap(L, line(L, 80), chain_to("geometry.LineString"))), lambda: L.where("geometry.LineString"))
        c.ob(f"document of 60 lines precision {p}",
             lambda both=both: both(m=lambda: O("containers.Document", {"features": [O("features.Placemark", {"kml_geometry": O("geometry.Point", {"kml_coordinates": O("geometry.Coordinates", {"coords": L.coords(f"p{i}", 1)})})}) for i in range(60)]})),
             lambda: L.where("containers.Document"))


@more("P14")
def p14(c):
    L = c.L
    I = L.I

    def shows(m, **extra):
        o = L.make(m, **extra)
        txt, tab = flatten_repr(L, I.call(I.models.builtin("repr")[0], [o], {}))
        try:
            node = ast.parse(txt, mode="eval").body
        except SyntaxError:
            return "the representation is not an expression"
        return call_is(L, node, tab, m, m.path)
    for path, f in lists():
        if (path, f.name) == ("geometry.Polygon", "inner_boundaries"):
            continue
        for n in (12, 60, 130):
            c.ob(f"{path}.{f.name} {n} members", lambda path=path, f=f, n=n: shows(long_list(L, path, f, n)), lambda path=path, f=f: L.where(path, f.name))
    for n in (12, 60, 300):
        for path in ("geometry.LineString", "geometry.LinearRing", "features.Placemark"):
            c.ob(f"{path} of {n} points", lambda path=path, n=n: shows(O(path, {"kml_geometry": line(L, n)}) if path == "features.Placemark" else line(L, n, 3, path)), lambda path=path: L.where(path))
        c.ob(f"gx.Track of {n} samples", lambda n=n: shows(O("gx.Track", {"track_items": track_model(L, n)})), lambda: L.where("gx.Track"))


@more("P13")
def p13(c):
    L = c.L
    I = L.I

    def eq(a, b, want):
        for x, y, d in ((a, b, "a == b"), (b, a, "b == a")):
            if I.veq(x, y) is not want:
                return f"{d} is {not want}"
        return None
    for path, f in lists():
        for n in (40, 130):
            def far(path=path, f=f, n=n):
                m = long_list(L, path, f, n)
                ms = m.fields[f.name]
                a = L.make(m)
                r = eq(a, L.make(m), True)
                if r:
                    return f"equal lists of {n}: {r}"
                for i in (0, n // 2, n - 1):
                    o = O(path, {**m.fields, f.name: [*ms[:i], L.model(ms[i].path, "other", 0, owner=path, boolean=True), *ms[i + 1:]]})
                    r = eq(a, L.make(o), False)
                    if r:
                        return f"lists of {n} differing at {i}: {r}"
                o = O(path, {**m.fields, f.name: ms[:-1]})
                r = eq(a, L.make(o), False)
                if r:
                    return f"lists of {n} and {n - 1}: {r}"
                o = O(path, {**m.fields, f.name: [*ms[:-2], ms[-1], ms[-2]]})
                r = eq(a, L.make(o), False)
                return f"lists of {n} with the last two swapped: {r}" if r else None
            c.ob(f"{path}.{f.name} {n} members", far, lambda path=path, f=f: L.where(path, f.name))
    for n in (30, 200):
        for path in ("geometry.LineString", "geometry.LinearRing"):
            def pts(path=path, n=n):
                m = line(L, n, 3, path)
                cs = m.fields["kml_coordinates"].fields["coords"]
                a = L.make(m)
                for i in (1, n // 2, n - 1):
                    for k in range(3):
                        p = tuple(L.num("other") if j == k else v for j, v in enumerate(cs[i]))
                        o = O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": (*cs[:i], p, *cs[i + 1:])})})
                        r = eq(a, L.make(o), False)
                        if r:
                            return f"{n} points differing at {i} in component {k}: {r}"
                return None
            c.ob(f"{path} {n} points", pts, lambda path=path: L.where(path))

    # objects of users' own subclasses
    for path in CLASSES:
        def sub(path=path):
            K = user_class(L, path)
            m = L.model(path, depth=0, boolean=True)
            a, b, s = make_as(L, K, m), make_as(L, K, m), L.make(m)
            r = eq(a, b, True)
            if r:
                return f"twins of a subclass: {r}"
            r = eq(a, s, False)
            return f"object of a subclass and of the class: {r}" if r else None
        c.ob(f"{path} subclass", sub, lambda path=path: L.where(path))


def user_class(L, path, name="Mine", body="pass"):
    m, _, n = path.rpartition(".")
    return L.I.run_source(f"from fastkml.{m} import {n}\nclass {name}({n}):\n    {body}\n", "user").env.vars[name]


def make_as(L, K, m, **extra):
    kw = {k: L.value(v) for k, v in m.fields.items()}
    return L.I.call(K, [], {**kw, **extra})


# ------------------------------------------------------- verbosity and zeros
@more("P07")
def p07(c):
    L = c.L

    def render(m, level, how="element"):
        o = L.make(m)
        want = L.expect_xml(at_level(L, m, level))
        if how == "element":
            return L.xdiff(L.element(o, verbosity=L.verbosity(level)), want)
        s = L.tostr(o, verbosity=L.verbosity(level))
        if not (isinstance(s, Sym) and s.op == "tostring"):
            raise Undecided("to_string result " + short(s))
        return L.xdiff(s.args[0], want)
    for path, k, f in fields():
        wh = lambda path=path, f=f: L.where(path, f.name)
        if f.kind in ("float", "int"):
            ty = float if f.kind == "float" else int
            vals = [ty(x) for x in (0, 1, -1, 2, 10, 45, 90, 100, 180, 256, 360, 1000)] + ([0.5, 0.25, -0.5] if ty is float else [])
            d = default_of(path, f)
            if d is not None:
                vals += [-d, d + 1, d - 1] + ([d * 2, d / 2, d + 1e-9] if ty is float else [])
        elif f.kind == "bool":
            vals = [False, True]
        elif f.kind == "enum":
            vals = [E(f.enum, v) for v in ENUMS[f.enum]]
        elif f.kind == "text":
            vals = ["0", "1", "false", "None", "ffffffff", "default", "x"]
        else:
            continue
        for v in vals:
            for lv in LEVELS:
                c.ob(f"{path}.{f.name} = {v!r}, {lv}", lambda path=path, f=f, v=v, lv=lv: render(single(L, path, f, v), lv), wh)
        # next to all the other fields
        for v in vals[:4]:
            for lv in ("terse", "verbose"):
                def among(path=path, f=f, v=v, lv=lv):
                    m = L.model(path, depth=0, boolean=True)
                    m.fields[f.name] = v
                    return render(ordered(m), lv)
                c.ob(f"{path}.{f.name} = {v!r} among others, {lv}", among, wh)
    # precision, verbosity, namespaces and the way of writing together
    for path in CLASSES:
        for what, nsd in {"default": None, **NSVAR}.items():
            for lv in LEVELS:
                for prec in (None, 2):
                    for pretty in (True, False):
                        def comb(path=path, nsd=nsd, lv=lv, prec=prec, pretty=pretty):
                            m = L.model(path, depth=1, boolean=False)
                            for f in CLASSES[path].fields[::2]:
                                if default_of(path, f) is not None:
                                    m.fields[f.name] = default_of(path, f)
                            m = ordered(m)
                            o = L.make(m) if nsd is None else mkns(L, m, nsd)
                            s = L.tostr(o, verbosity=L.verbosity(lv), precision=prec, prettyprint=pretty)
                            if not (isinstance(s, Sym) and s.op == "tostring"):
                                raise Undecided("to_string result " + short(s))
                            L.prec = prec
                            try:
                                w = at_level(L, m, lv)
                                want = L.expect_xml(w) if nsd is None else expect_ns(L, w, nsd)
                            finally:
                                L.prec = None
                            return L.xdiff(s.args[0], want)
                        c.ob(f"{path} to_string {lv}, precision {prec}, prettyprint {pretty}, {what} namespace", comb, lambda path=path: L.where(path))


# --------------------------------------------------------------- namespaces
@more("P12")
def p12(c):
    L = c.L
    I = L.I
    for what, nsd in NSVAR.items():
        for extra in (True, False):
            def icon(nsd=nsd, extra=extra):
                ns = braced(nsd["kml"])
                kw = {"ns": ns, "name_spaces": I.mkdict([(k, braced(u)) for k, u in nsd.items()]), "icon_href": L.text("href")}
                if extra:
                    kw.update(id="i", scale=2.0, color="ffffffff")
                o = I.call(L.name("styles.IconStyle"), [], kw)
                ic = I.getattr(o, "icon")
                got = I.getattr(ic, "ns")
                if got != ns:
                    return f"the icon made from an address has the namespace {short(got)} instead of {ns!r}"
                want = dict(I.getattr(o, "name_spaces").d.values())
                have = dict(I.getattr(ic, "name_spaces").d.values())
                return None if want == have else f"the icon made from an address has name_spaces {have} instead of {want}"
            c.ob(f"icon from an address, {what} namespace{', other fields' if extra else ''}", icon, lambda: L.where("styles.IconStyle"))

    def alone(ns):
        o = I.call(L.name("styles.IconStyle"), [], {"ns": ns, "icon_href": L.text("href")})
        got = I.getattr(I.getattr(o, "icon"), "ns")
        return None if got == ns else f"the icon made from an address has the namespace {short(got)} instead of {ns!r}"
    for ns in ("{urn:x}", "", "{http://earth.google.com/kml/2.1}"):
        c.ob(f"icon from an address, only ns {ns!r}", lambda ns=ns: alone(ns), lambda: L.where("styles.IconStyle"))
    # the same for what is built from plain geometries
    for lab, g, path in geometries(L):
        for ns in ("{urn:x}", "", "{http://earth.google.com/kml/2.1}"):
            def built(g=g, ns=ns, path=path, how="constructor"):
                if how == "constructor":
                    o = I.call(L.name(path), [], {"ns": ns, "geometry": g()})
                elif how == "factory":
                    o = I.call(L.name("geometry.create_kml_geometry"), [g()], {"ns": ns})
                else:
                    o = I.getattr(I.call(L.name("features.Placemark"), [], {"ns": ns, "geometry": g()}), "kml_geometry")
                for at, x in graph(L, o):
                    if isinstance(x.cls, Cls) and "ns" in x.attrs and I.getattr(x, "ns") != ns:
                        return f"{at} has the namespace {short(I.getattr(x, 'ns'))} instead of {ns!r}"
                return None
            for how in ("constructor", "factory", "placemark"):
                c.ob(f"{lab} by {how}, only ns {ns!r}", lambda built=built, how=how: built(how=how), lambda path=path: L.where(path))


# ------------------------------------------------------------ both forms given
@more("P28")
def p28(c):
    L = c.L
    I = L.I

    def rejects(fn, *names):
        try:
            r = fn()
        except AbsExc as e:
            return None if isa(L, e, *names) else f"raises {excn(e)} instead of {' / '.join(names)}"
        return f"accepted (gives {short(r)})"
    forms = {
        "geometry.Point": "kml_coordinates", "geometry.LineString": "kml_coordinates", "geometry.LinearRing": "kml_coordinates",
        "geometry.OuterBoundaryIs": "kml_geometry", "geometry.InnerBoundaryIs": "kml_geometry", "geometry.Polygon": "outer_boundary", "geometry.MultiGeometry": "kml_geometries",
    }
    for lab, g, p in geometries(L):
        for path, arg in forms.items():
            if {"geometry.OuterBoundaryIs": "geometry.LinearRing", "geometry.InnerBoundaryIs": "geometry.LinearRing"}.get(path, path) != p:
                continue

            def same(path=path, arg=arg, g=g, twice=False):
                x = g()
                other = I.getattr(I.call(L.name(path), [], {"geometry": x}), arg)
                return rejects(lambda: I.call(L.name(path), [], {"geometry": x if twice else g(), arg: other}), "GeometryError")
            c.ob(f"{path}: {lab} and the {arg} made from it", same, lambda path=path: L.where(path))
            c.ob(f"{path}: {lab} and the {arg} made from the same one", lambda same=same: same(twice=True), lambda path=path: L.where(path))

        def pm(g=g, twice=False):
            x = g()
            k = I.call(L.name("geometry.create_kml_geometry"), [x], {})
            return rejects(lambda: I.call(L.name("features.Placemark"), [], {"geometry": x if twice else g(), "kml_geometry": k}), "ValueError", "GeometryError")
        c.ob(f"Placemark: {lab} and its KML form", pm, lambda: L.where("features.Placemark"))
        c.ob(f"Placemark: {lab} and its own KML form", lambda pm=pm: pm(twice=True), lambda: L.where("features.Placemark"))
    for n in (1, 2, 5):
        def track(n=n):
            its = track_model(L, n)
            o = L.make(O("gx.Track", {"track_items": its}))
            return rejects(lambda: I.call(L.name("gx.Track"), [], {"track_items": I.getattr(o, "track_items"), "whens": VList(L.seq(I.getattr(o, "whens"))), "coords": VList(L.seq(I.getattr(o, "coords")))}), "ValueError")
        c.ob(f"Track: {n} items and the same samples as lists", track, lambda: L.where("gx.Track"))


# ------------------------------------------------------------------ geometries
@more("P19")
def p19(c):
    L = c.L
    I = L.I
    geo = lambda n: I.import_module("pygeoif.geometry").env.vars[n]

    def ring(n):
        return O("geometry.LinearRing", {"kml_coordinates": O("geometry.Coordinates", {"coords": L.ring(n)})})

    def polym(outer, holes):
        return O("geometry.Polygon", {"outer_boundary": O("geometry.OuterBoundaryIs", {"kml_geometry": ring(outer)}), "inner_boundaries": [O("geometry.InnerBoundaryIs", {"kml_geometry": ring(h)}) for h in holes]})

    def parts(m):
        o = L.make(m)
        d = same_desc(desc(L, I.getattr(o, "geometry")), model_desc(m))
        if d:
            return f"geometry: {d}"
        r = L.read(m.path, L.tostr(o))
        d = same_desc(desc(L, I.getattr(r, "geometry")), model_desc(m))
        return f"geometry read back: {d}" if d else None
    # parts that coincide
    for holes in (("a", "a"), ("a", "b", "a"), ("o",), ("a",) * 5, ("o", "o")):
        c.ob(f"Polygon o with holes {'+'.join(holes)}", lambda holes=holes: parts(polym("o", holes)), lambda: L.where("geometry.Polygon"))

        def plain(holes=holes):
            g = I.call(geo("Polygon"), [VList(list(L.ring("o"))), VList([VList(list(L.ring(h))) for h in holes])], {})
            for mk in (lambda: I.call(L.name("geometry.Polygon"), [], {"geometry": g}), lambda: I.call(L.name("geometry.create_kml_geometry"), [g], {}), lambda: I.call(L.name("features.Placemark"), [], {"geometry": g})):
                d = same_desc(desc(L, I.getattr(mk(), "geometry")), ("Polygon", L.ring("o"), tuple(L.ring(h) for h in holes)))
                if d:
                    return d
            return None
        c.ob(f"plain polygon o with holes {'+'.join(holes)}", plain, lambda: L.where("geometry.Polygon"))
    pt = lambda n: O("geometry.Point", {"kml_coordinates": O("geometry.Coordinates", {"coords": L.coords(n, 1)})})
    ls = lambda n: O("geometry.LineString", {"kml_coordinates": O("geometry.Coordinates", {"coords": L.coords(n, 3)})})
    kinds = {"point": pt, "line": ls, "polygon": lambda n: polym(n, ("h",)), "ring": ring}
    for k, mk in kinds.items():
        for pat in ("aa", "aba", "abab", "aaa", "abcdefgh"):
            m = lambda mk=mk, pat=pat: O("geometry.MultiGeometry", {"kml_geometries": [mk(x) for x in pat]})
            c.ob(f"MultiGeometry of {k}s {pat}", lambda m=m: parts(m()), lambda: L.where("geometry.MultiGeometry"))
            c.ob(f"MultiGeometry of {k}s {pat} inside another", lambda m=m: parts(O("geometry.MultiGeometry", {"kml_geometries": [m()]})), lambda: L.where("geometry.MultiGeometry"))

            def factory(mk=mk, pat=pat):
                g = I.getattr(L.make(O("geometry.MultiGeometry", {"kml_geometries": [mk(x) for x in pat]})), "geometry")
                o = I.call(L.name("geometry.create_kml_geometry"), [g], {})
                return same_desc(desc(L, I.getattr(o, "geometry")), desc(L, g))
            c.ob(f"create_kml_geometry of {k}s {pat}", factory, lambda: L.where("geometry.MultiGeometry"))
    for path in ("geometry.LineString", "geometry.LinearRing"):
        for pat in ("abab", "abcab", "abca", "abcdabcd"):
            def rep(path=path, pat=pat):
                t = {x: L.coords(x, 1)[0] for x in pat}
                cs = tuple(t[x] for x in pat)
                if path == "geometry.LinearRing" and cs[0] != cs[-1]:
                    cs = (*cs, cs[0])
                return parts(O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": cs})}))
            c.ob(f"{path} through {pat}", rep, lambda path=path: L.where(path))
    # many parts
    for n in (40, 150):
        c.ob(f"MultiGeometry of {n} points", lambda n=n: parts(O("geometry.MultiGeometry", {"kml_geometries": [pt(f"p{i}") for i in range(n)]})), lambda: L.where("geometry.MultiGeometry"))
        c.ob(f"Polygon with {n} holes", lambda n=n: parts(polym("o", [f"h{i}" for i in range(n)])), lambda: L.where("geometry.Polygon"))
        c.ob(f"line of {n * 5} points", lambda n=n: parts(line(L, n * 5)), lambda: L.where("geometry.LineString"))
    # tracks of few samples
    for sizes in ((1,), (1, 2), (2, 1), (1, 1), (3, 1, 2), (2,) * 30):
        def multi(sizes=sizes):
            ts = [O("gx.Track", {"track_items": track_model(L, k, nm=f"t{i}")}) for i, k in enumerate(sizes)]
            want = ("MultiLineString", tuple(("LineString", tuple(x.coord for x in t.fields["track_items"])) for t in ts))
            m = O("gx.MultiTrack", {"tracks": ts})
            for o in (L.make(m), I.call(L.name("features.Placemark"), [], {"kml_geometry": L.make(m)}), L.read("gx.MultiTrack", L.tostr(L.make(m)))):
                d = same_desc(desc(L, I.getattr(o, "geometry")), want)
                if d:
                    return d
            return None
        c.ob(f"multi-track of tracks with {sizes if len(sizes) < 9 else '30 times 2'} samples", multi, lambda: L.where("gx.MultiTrack"))

        def same(sizes=sizes):
            t = O("gx.Track", {"track_items": track_model(L, sizes[0])})
            m = O("gx.MultiTrack", {"tracks": [t] * len(sizes)})
            return same_desc(desc(L, I.getattr(L.make(m), "geometry")), ("MultiLineString", (("LineString", tuple(x.coord for x in t.fields["track_items"])),) * len(sizes)))
        c.ob(f"multi-track of {len(sizes)} equal tracks with {sizes[0]} samples", same, lambda: L.where("gx.MultiTrack"))


# -------------------------------------------------------------------- searching
@more("P20")
def p20(c):
    L = c.L
    I = L.I
    wh = lambda: "fastkml/utils.py"

    def found(root, want, of_type=None, **kw):
        k = dict(kw)
        if of_type is not None:
            k["of_type"] = of_type
        got = list(I.iterate(I.call(L.name("utils.find_all"), [root], k)))
        if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            return f"finds {len(got)} objects instead of {len(want)}" if len(got) != len(want) else "finds other objects or in another order"
        one = I.call(L.name("utils.find"), [root], k)
        return None if one is (want[0] if want else None) else "find does not give the first one"

    def folder(ms):
        return I.call(L.name("containers.Folder"), [], {"features": VList(ms)})
    # numbers equal across types
    for path, name, owner in (("styles.LineStyle", "width", "styles.Style"), ("overlays.GroundOverlay", "draw_order", None), ("features.Placemark", "visibility", None)):
        for stored, asked in ((2.0, 2), (2, 2.0), (1, True), (True, 1), (0.0, 0), (0, False), (False, 0.0), (1.0, True), (True, 1.0), (0, 0.0)):
            def num(path=path, name=name, owner=owner, stored=stored, asked=asked):
                mk = lambda v: I.call(L.name(path), [], {name: v})
                a, b, d = mk(stored), mk(7), mk(stored)
                root = I.call(L.name(owner), [], {"styles": VList([a, b, d])}) if owner else folder([a, b, d])
                return found(root, [a, d], L.name(path), **{name: asked})
            c.ob(f"{path}.{name} {stored!r} searched by {asked!r}", num, wh)
    # values given by properties
    for lab, g, _ in geometries(L):
        def by_geometry(g=g):
            x = g()
            ps = [I.call(L.name("features.Placemark"), [], {"geometry": x}), I.call(L.name("features.Placemark"), [], {"name": "none"})]
            return found(folder(ps), ps[:1], L.name("features.Placemark"), geometry=I.getattr(ps[0], "geometry"))
        c.ob(f"placemark by its geometry, {lab}", by_geometry, wh)

    def by_none():
        ps = [I.call(L.name("features.Placemark"), [], {"name": "x"}), I.call(L.name("features.Placemark"), [], {"geometry": I.call(I.import_module("pygeoif.geometry").env.vars["Point"], [1.0, 2.0], {})})]
        return found(folder(ps), ps[:1], L.name("features.Placemark"), geometry=None)
    c.ob("placemark without geometry", by_none, wh)

    def by_href():
        ics = [I.call(L.name("styles.IconStyle"), [], {"icon_href": h}) for h in ("a.png", "b.png", "a.png")]
        return found(I.call(L.name("styles.Style"), [], {"styles": VList(ics)}), [ics[0], ics[2]], L.name("styles.IconStyle"), icon_href="a.png")
    c.ob("icon style by its address", by_href, wh)

    def by_time():
        t = lambda i: I.call(L.name("times.TimeStamp"), [], {"timestamp": L.mkdate(L.date(f"d{i}", "date"))})
        ps = [I.call(L.name("features.Placemark"), [], {"times": t(i)}) for i in (0, 1, 0)]
        return found(folder(ps), [ps[0], ps[2]], L.name("features.Placemark"), time_stamp=I.getattr(ps[0], "time_stamp"))
    c.ob("placemark by its time stamp", by_time, wh)

    def by_child():
        mk = lambda i: I.call(L.name("features.Placemark"), [], {"view": L.make(L.model("views.Camera", f"v{i}", 0, boolean=True))})
        ps = [mk(0), mk(1), mk(0)]
        return found(folder(ps), [ps[0], ps[2]], L.name("features.Placemark"), view=L.make(L.model("views.Camera", "v0", 0, boolean=True)))
    c.ob("placemark by an equal view", by_child, wh)

    def by_list():
        ps = [I.call(L.name("features.Placemark"), [], {"styles": VList([L.make(L.model("styles.Style", f"s{i}", 0))])}) for i in (0, 1)]
        return found(folder(ps), ps[1:], L.name("features.Placemark"), styles=VList([L.make(L.model("styles.Style", "s1", 0))]))
    c.ob("placemark by its styles", by_list, wh)
    for p, cl, kw in (("ns", "features.Placemark", {"ns": "{urn:x}"}), ("my_key", "features.Placemark", {"my_key": 5})):
        def by_other(p=p, cl=cl, kw=kw):
            a, b = I.call(L.name(cl), [], dict(kw)), I.call(L.name(cl), [], {})
            return found(folder([b, a]), [a], L.name(cl), **kw)
        c.ob(f"placemark by {p}", by_other, wh)
    # a user's own classes
    for path in CLASSES:
        def sub(path=path):
            K = user_class(L, path, body="@property\n    def label(self):\n        return 'mine'")
            m = L.model(path, depth=0, boolean=True)
            a, b = make_as(L, K, m), L.make(m)
            holder = I.call(L.name("containers.Folder"), [], {"features": VList([]), "my_list": VList([b, a])})
            for of, want in ((K, [a]), (L.name(path), [b, a])):
                d = found(holder, want, of, **({} if path != "containers.Folder" or of is K else {"id": m.fields["id"].args and L.value(m.fields["id"])}))
                if d:
                    return f"searching {of.name}: {d}"
            d = found(holder, [a], L.name(path), label="mine")
            return f"searching by a property of the subclass: {d}" if d else None
        if "id" in {f.name for f in CLASSES["containers.Folder"].fields}:
            c.ob(f"objects of a subclass of {path}", sub, wh)
    # long and deep
    for path, f in lists():
        for n in (60, LONG):
            def far(path=path, f=f, n=n):
                m = long_list(L, path, f, n)
                o = L.make(m)
                its = L.seq(I.getattr(o, f.name))
                T = tuple(L.name(k) for k in f.classes)
                got = [x for x in I.iterate(I.call(L.name("utils.find_all"), [o], {"of_type": T})) if x is not o]
                top = [x for x in got if any(x is y for y in its)]
                if len(top) != n or any(a is not b for a, b in zip(top, its)):
                    return f"finds {len(top)} of {n} members" if len(top) != n else "finds the members in another order"
                return None
            c.ob(f"{n} members of {path}.{f.name}", far, wh)

    def deep(n):
        a = I.call(L.name("features.Placemark"), [], {"name": "x"})
        cur = a
        for i in range(n):
            cur = folder([cur])
        return found(cur, [a], L.name("features.Placemark"), name="x")
    for n in (1, 12, 60, 110):
        c.ob(f"placemark in {n} nested folders", lambda n=n: deep(n), wh)


# ------------------------------------------------------------------ style URLs
@more("P21")
def p21(c):
    L = c.L
    I = L.I
    cat = I.models.cat
    st = lambda i: I.call(L.name("styles.Style"), [], {"id": i})
    ids = ("a%20b", "a b", "a+b", "\u00e4", "%C3%A4", "a/b", "a?b", "a=b", "a&b", "a;b", "a:b", "a.b", "a-b", "a_b", "a~b", "a!b", "A", "a", "1", "01", "None", "a%2Fb", "a%2fb", "style.kml", "a,b", "a@b", "(a)", "'a'", "*", "a" * 300, "\u65e5\u672c")
    for i in ids:
        for pre in ("", "styles.kml", "http://example.com/x.kml?q=1&r=2", "../a%20b.kml"):
            def look(i=i, pre=pre):
                near = [x for x in ids if x != i]
                s = st(i)
                doc = I.call(L.name("containers.Document"), [], {"styles": VList([*[st(x) for x in near], s])})
                r = L.meth(doc, "get_style_by_url", f"{pre}#{i}")
                if r is not s:
                    return f"gives {short(I.getattr(r, 'id')) if r is not None else None} for the id {i!r}"
                doc = I.call(L.name("containers.Document"), [], {"styles": VList([st(x) for x in near])})
                r = L.meth(doc, "get_style_by_url", f"{pre}#{i}")
                return None if r is None else f"gives {short(I.getattr(r, 'id'))} though no style has the id {i!r}"
            c.ob(f"id {i[:20]!r} after {pre!r}", look, lambda: L.where("containers.Document"))

    def crowd(n):
        ss = [st(f"s{i}") for i in range(n)]
        pms = [I.call(L.name("features.Placemark"), [], {"styles": VList([st(f"p{i}")])}) for i in range(n)]
        doc = I.call(L.name("containers.Document"), [], {"styles": VList(ss), "features": VList(pms)})
        for i in (0, 1, n // 2, n - 1):
            if L.meth(doc, "get_style_by_url", f"#s{i}") is not ss[i]:
                return f"does not find style {i} of {n}"
            if L.meth(doc, "get_style_by_url", f"#p{i}") is not L.seq(I.getattr(pms[i], "styles"))[0]:
                return f"does not find the style of placemark {i} of {n}"
        return None if L.meth(doc, "get_style_by_url", "#none") is None else "finds a style nothing has"
    for n in (20, 150):
        c.ob(f"{n} styles and {n} placemarks with styles", lambda n=n: crowd(n), lambda: L.where("containers.Document"))


# ----------------------------------------------------------------------- files
@more("P23")
def p23(c):
    L = c.L
    I = L.I
    wh = lambda: L.where("kml.KML")
    NEW, OLD = URI["kml"], "http://earth.google.com/kml/2.1"
    for root in (NEW, OLD, "http://www.opengis.net/kml/2.3"):
        for tab in ({"kml": "{%s}" % NEW}, {"kml": "{%s}" % OLD}, {"kml": "{urn:else}"}, {"kml": "{%s}" % OLD, "x": "{urn:x}"}, {"gx": "{%s}" % URI["gx"]}):
            for strict in (True, False):
                def read(root=root, tab=tab, strict=strict):
                    m = wrap(L, L.model("geometry.LineString", "n", 0, boolean=True), chain_to("geometry.LineString"))
                    I.files["in.kml"] = L.expect_xml(m, ns={"kml": root})
                    t = I.mkdict(list(tab.items()))
                    try:
                        r = I.call(I.getattr(L.name("kml.KML"), "parse"), ["in.kml"], {"validate": False, "strict": strict, "name_spaces": t})
                    finally:
                        I.files.pop("in.kml", None)
                    if dict(t.d.values()) != tab:
                        return "the table given is changed"
                    L.grouped = True
                    try:
                        d = L.diff(r, m, "kml.KML")
                    finally:
                        L.grouped = False
                    return d
                c.ob(f"root in {root}, name_spaces {tab}, {'strict' if strict else 'lenient'}", read, wh)


# -------------------------------------------------------------------- aliasing
@more("P16")
def p16(c):
    L = c.L
    I = L.I
    from props_e import state
    # constructors leave the objects they are given alone
    for parent, slot, kid in edges():
        for full in (True, False):
            def kept(parent=parent, slot=slot, kid=kid, full=full):
                m = L.model(kid, "k", 1, owner=parent, boolean=True) if full else O(kid, required(L, kid))
                k = L.make(m)
                s0, x0 = state(L, k), snapshot(L.element(k)) if full else None
                o = I.call(L.name(parent), [], {**{a: L.value(b) for a, b in required(L, parent).items()}, slot.name: VList([k, k]) if slot.kind == "list" else k})
                if state(L, k) != s0:
                    return f"constructing changes the {kid} given as {slot.name}"
                I.truth(o)
                I.call(I.models.builtin("repr")[0], [o], {})
                if state(L, k) != s0:
                    return f"using the object changes the {kid} given as {slot.name}"
                a = I.getattr(o, slot.name)
                if slot.kind == "list":
                    a = (L.seq(a) or [None])[0]
                if a is None and not full:
                    return None  # kinds that count as empty need not be kept
                return None if a is k else f"{slot.name} is not the object given"
            c.ob(f"{parent}.{slot.name} leaves the {'full' if full else 'bare'} {kid} alone", kept, lambda parent=parent, slot=slot: L.where(parent, slot.name))
    for path, own in (("geometry.Point", 1), ("geometry.LineString", 3), ("geometry.LinearRing", 4)):
        for n in (0, 1, 2, own, own + 1):
            for dim in (2, 3):
                def coords(path=path, n=n, dim=dim, tup=False):
                    cs = L.coords("q", n, dim)
                    k = I.call(L.name("geometry.Coordinates"), [], {"coords": tuple(cs) if tup else VList(list(cs))})
                    s0 = state(L, k)
                    o = I.call(L.name(path), [], {"kml_coordinates": k})
                    for use in (lambda: I.truth(o), lambda: I.getattr(o, "geometry"), lambda: L.element(o), lambda: I.call(I.models.builtin("repr")[0], [o], {})):
                        try:
                            use()
                        except AbsExc:
                            pass
                        if state(L, k) != s0:
                            return "the coordinates given are changed"
                    return None if I.getattr(o, "kml_coordinates") is k else "kml_coordinates is not the object given"
                c.ob(f"{path} of {n} open {dim}d coordinates", coords, lambda path=path: L.where(path))
                c.ob(f"{path} of a tuple of {n} open {dim}d coordinates", lambda coords=coords: coords(tup=True), lambda path=path: L.where(path))


# ------------------------------------------------------------------- extensions
@more("P24")
def p24(c):
    L = c.L
    I = L.I
    REG = lambda: L.name("registry.registry")
    got = lambda K: L.seq(L.meth(REG(), "get", K))

    def item(name, node, kind=("subelement_text_kwarg", "text_subelement", "str")):
        h = L.mod("fastkml.helpers").env.vars
        b = I.models.builtin(kind[2])
        return I.call(L.name("registry.RegistryItem"), [], {"ns_ids": ("kml", "atom", "gx", ""), "classes": (b[0] if isinstance(b, tuple) else b,), "attr_name": name, "node_name": node, "get_kwarg": h[kind[0]], "set_element": h[kind[1]]})

    for path in CLASSES:
        wh = lambda path=path: L.where(path)

        def private(path=path, how="clear", own=False):
            """The list handed out is the caller's to change."""
            K = L.name(path)
            if own:
                K = user_class(L, path)
                L.meth(REG(), "register", K, item("my_ext", "myExt"))
            before = got(K)
            lst = L.meth(REG(), "get", K)
            if not isinstance(lst, VList):
                return None if isinstance(lst, tuple) else f"get gives {short(lst)}"
            if how == "clear":
                L.meth(lst, "clear")
            elif how == "reverse":
                L.meth(lst, "reverse")
            else:
                L.meth(lst, "append", item("other", "other"))
            after = got(K)
            if len(after) != len(before) or any(a is not b for a, b in zip(after, before)):
                return f"{how} on the list handed out changes the registrations"
            m = L.model(path, depth=0, boolean=True)
            return L.xdiff(L.element(L.make(m)), L.expect_xml(m))
        for how in ("clear", "reverse", "append"):
            c.ob(f"list of {path} handed out, {how}", lambda private=private, how=how: private(how=how), wh)
        c.ob(f"list of a subclass of {path} handed out, clear", lambda private=private: private(own=True), wh)

        def namesake(path=path):
            A, B = user_class(L, path), user_class(L, path)
            it = item("my_ext", "myExt")
            base = got(L.name(path))
            L.meth(REG(), "register", A, it)
            if got(A) != [*base, it]:
                return "a subclass does not have its base's registrations followed by its own"
            if got(B) != base:
                return "registering for one class shows at another of the same name"
            if got(L.name(path)) != base:
                return "registering for a subclass shows at its base"
            other = user_class(L, path, CLASSES[path].tag)
            return None if got(other) == base else "a class of the same name as the element has other registrations"
        c.ob(f"namesakes below {path}", namesake, wh)

        def derived(path=path):
            """A user's subclass with a field of its own is written and read."""
            K = user_class(L, path, "Mine", f"@classmethod\n    def get_tag_name(cls):\n        return {CLASSES[path].tag!r}")
            L.meth(REG(), "register", K, item("my_ext", "myExt"))
            K2 = user_class(L, path)
            m = L.model(path, depth=0, boolean=True)
            ext = L.text("ext")
            o = make_as(L, K, m, my_ext=ext)
            x = L.expect_xml(m)
            u = x[1].rsplit("}", 1)[0] + "}"
            d = L.xdiff(L.element(o), (*x[:4], (*x[4], ("elem", u + "myExt", (), ext, (), None)), x[5]))
            if d:
                return f"written {d}"
            r = I.call(I.getattr(K, "from_string"), [L.tostr(o)], {})
            if r.cls is not K:
                return f"read back as a {r.cls.name}"
            d = L.diff(I.getattr(r, "my_ext"), ext, "my_ext")
            if d:
                return d
            for f in CLASSES[path].fields:
                v = m.fields.get(f.name)
                d = L.diff(I.getattr(r, f.name), v, f"{path}.{f.name}")
                if d:
                    return f"read back: {d}"
            # the base class does not know the field
            r = L.read(path, L.doc((*x[:4], (*x[4], ("elem", u + "myExt", (), ext, (), None)), x[5])))
            return None if I.getattr_opt(r, "my_ext") is I else "the base class reads its subclass's field"
        c.ob(f"subclass of {path} with a field", derived, wh)

        for v in (0, 0.0, False, "", None, (), 5, "x"):
            def stored(path=path, v=v):
                for f in (O(path, required(L, path)), L.model(path, depth=0, boolean=True)):
                    o = L.make(f, my_field=v)
                    a = I.getattr(o, "my_field")
                    if type(a) is not type(v) or a != v:
                        return f"an additional keyword given as {v!r} is stored as {short(a)}"
                return None
            c.ob(f"{path} additional keyword {v!r}", stored, wh)

        def extval(path=path):
            """Falsy values of an extension field are written and read as given."""
            K = L.name(path)
            L.meth(REG(), "register", K, item("my_num", "myNum", ("subelement_int_kwarg", "int_subelement", "int")))
            L.meth(REG(), "register", K, item("my_bool", "myBool", ("subelement_bool_kwarg", "bool_subelement", "bool")))
            L.meth(REG(), "register", K, item("my_float", "myFloat", ("attribute_float_kwarg", "float_attribute", "float")))
            m = O(path, required(L, path))
            o = L.make(m, my_num=0, my_bool=False, my_float=0.0)
            x = L.expect_xml(m)
            u = x[1].rsplit("}", 1)[0] + "}"
            k = lambda t: ("elem", u + t, (), "0", (), None)
            w = (x[0], x[1], (*x[2], ("myFloat", "0.0")), x[3], (*x[4], k("myNum"), k("myBool")), x[5])
            d = L.xdiff(L.element(o), w)
            if d:
                return f"written {d}"
            r = L.read(path, L.tostr(o))
            for n, v in (("my_num", 0), ("my_bool", False), ("my_float", 0.0)):
                a = I.getattr_opt(r, n)
                if a is I or a is None or a != v:
                    return f"{n} is read back as {short(a) if a is not I else 'nothing'}"
            return None
        c.ob(f"{path} extension fields zero and false", extval, wh)

    def many(n):
        its = [item(f"ext{i}", f"ext{i}") for i in range(n)]
        K = L.name("features.Placemark")
        base = got(K)
        for it in its:
            L.meth(REG(), "register", K, it)
        if got(K) != [*base, *its]:
            return f"{n} registrations are not kept in order"
        vals = {f"ext{i}": L.text(f"v{i}") for i in range(n)}
        o = L.make(O("features.Placemark", {"name": L.text("n")}), **vals)
        r = L.read("features.Placemark", L.tostr(o))
        for k, v in vals.items():
            d = L.diff(I.getattr(r, k), v, k)
            if d:
                return d
        return None
    for n in (8, 60):
        c.ob(f"{n} extension fields", lambda n=n: many(n), lambda: L.where("features.Placemark"))
