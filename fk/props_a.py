"""P01-P03."""
from common import *


@prop("P01")
def p01(c):
    L = c.L
    c.rule = ("For every element class and mapped field: construct with a provenance symbol for the field value, interpret etree_element/to_string, "
              "compare the abstract XML with the schema oracle, interpret from_string on it and compare every attribute with the symbol put in.")
    for path in CLASSES:
        for b in (True, False):
            c.ob(f"{path} all fields, booleans {b}", lambda path=path, b=b: check_trip(L, L.model(path, depth=2, boolean=b)), lambda path=path: L.where(path))
        for dim in (2,):
            if path.startswith(("geometry.", "gx.")):
                c.ob(f"{path} all fields, {dim}d", lambda path=path: check_trip(L, L.model(path, depth=2, boolean=True, dim=2)), lambda path=path: L.where(path))
    for path, k, f in fields():
        for lab, v in values(L, path, f):
            c.ob(f"{path}.{f.name} = {lab}", lambda path=path, f=f, v=v: check_trip(L, single(L, path, f, v)), lambda path=path, f=f: L.where(path, f.name))
    # at the end of a containment chain from the document root
    for path in CLASSES:
        ch = chain_to(path)
        if ch:
            c.ob(f"{path} all fields below {'/'.join(p for p, _ in ch)}",
                 lambda path=path, ch=ch: check_trip(L, wrap(L, L.model(path, "n", 0, owner=ch[-1][0], boolean=True), ch)), lambda path=path: L.where(path))
    if c.thorough:
        for path, k in CLASSES.items():
            fs = [f for f in k.fields if not f.required]
            for i, f in enumerate(fs):
                def fn(path=path, f=f):
                    m = L.model(path, depth=1, boolean=True)
                    m.fields.pop(f.name)
                    return check_trip(L, m)
                c.ob(f"{path} all fields but {f.name}", fn, lambda path=path: L.where(path))
                for g in fs[i + 1:]:
                    def fn2(path=path, f=f, g=g):
                        return check_trip(L, L.model(path, depth=1, boolean=True, only={f.name, g.name}))
                    c.ob(f"{path} fields {f.name} and {g.name}", fn2, lambda path=path: L.where(path))


ZERO = {"float": 0.0, "int": 0, "bool": False}


@prop("P02")
def p02(c):
    L = c.L
    c.rule = "Explicit 0/0.0/False in each numeric or boolean field: stored, written with that value, read back as that value (never None)."

    def zeroed(m):
        out = {}
        for f in CLASSES[m.path].fields:
            if f.name not in m.fields:
                continue
            v = m.fields[f.name]
            if f.kind in ZERO:
                v = ZERO[f.kind]
            elif isinstance(v, O):
                v = zeroed(v)
            elif isinstance(v, list) and v and isinstance(v[0], O):
                v = [zeroed(x) for x in v]
            out[f.name] = v
        return O(m.path, out)

    def ctor_and_trip(m):
        o = L.make(m)
        d = L.diff(o, m, m.path)
        return "constructed: " + d if d else check_trip(L, m)

    for path, k, f in fields():
        if f.kind in ZERO:
            zs = [ZERO[f.kind]] + ([0] if f.kind == "float" else [])
            for z in zs:
                c.ob(f"{path}.{f.name} = {z!r}", lambda path=path, f=f, z=z: ctor_and_trip(single(L, path, f, z)), lambda path=path, f=f: L.where(path, f.name))

                def late(path=path, f=f, z=z):
                    o = L.make(O(path, required(L, path)))
                    L.I.setattr(o, f.name, z)
                    return L.xdiff(L.element(o), L.expect_xml(single(L, path, f, z)))
                c.ob(f"{path}.{f.name} := {z!r} after construction", late, lambda path=path, f=f: L.where(path, f.name))
        if f.kind in ZERO:
            def others(path=path, f=f):
                m = L.model(path, depth=0, boolean=True)
                m.fields[f.name] = ZERO[f.kind]
                return ctor_and_trip(ordered(m))
            c.ob(f"{path}.{f.name} = 0 among set fields", others, lambda path=path, f=f: L.where(path, f.name))
    for path in CLASSES:
        c.ob(f"{path} all numbers 0", lambda path=path: ctor_and_trip(zeroed(L.model(path, depth=1, boolean=False))), lambda path=path: L.where(path))
        ch = chain_to(path)
        if ch:
            c.ob(f"{path} all numbers 0 below {'/'.join(p for p, _ in ch)}",
                 lambda path=path, ch=ch: check_trip(L, wrap(L, zeroed(L.model(path, "n", 0, owner=ch[-1][0], boolean=False)), ch)), lambda path=path: L.where(path))
    for parent, f, k in edges():
        def edge(parent=parent, f=f, k=k):
            sub = zeroed(L.model(k, "n", 0, owner=parent, boolean=False))
            m = wrap(L, sub, [(parent, f)])
            return check_trip(L, m)
        c.ob(f"{parent}.{f.name} holds {k} with all numbers 0", edge, lambda parent=parent, f=f: L.where(parent, f.name))
    # coordinates
    zero = {"geometry.Point": 1, "geometry.LineString": 3, "geometry.LinearRing": 4}
    for path, n in zero.items():
        for dim in (2, 3):
            for mixed in (False, True):
                def coords(path=path, n=n, dim=dim, mixed=mixed):
                    cs = [tuple([0.0] * dim) for _ in range(n)]
                    if mixed:
                        x = L.coords("p", n, dim)
                        cs = [tuple(x[i][j] if (i + j) % 2 else 0.0 for j in range(dim)) for i in range(n)]
                        if path == "geometry.LinearRing":
                            cs[-1] = cs[0]
                    return check_trip(L, O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": tuple(cs)})}))
                c.ob(f"{path} {dim}d coordinates {'partly' if mixed else 'all'} 0", coords, lambda path=path: L.where(path))
    for dim in (2, 3):
        def track(dim=dim):
            z = [TI(L.date(f"t{i}", "datetime"), tuple([0.0] * dim), (0.0, 0.0, 0.0)) for i in range(2)]
            return check_trip(L, O("gx.Track", {"track_items": z}))
        c.ob(f"gx.Track {dim}d samples all 0", track, lambda: L.where("gx.Track"))


@prop("P03")
def p03(c):
    L = c.L
    c.rule = "Each constructor argument (provenance symbol) is found unchanged in the attribute of the same name, all other mapped attributes hold their defaults."

    def built(m):
        return L.diff(L.make(m), m, m.path)

    for path in CLASSES:
        for b in (True, False):
            c.ob(f"{path} all arguments, booleans {b}", lambda path=path, b=b: built(L.model(path, depth=1, boolean=b)), lambda path=path: L.where(path))
        c.ob(f"{path} no arguments", lambda path=path: built(O(path, required(L, path))), lambda path=path: L.where(path))

        def ns(path=path):
            I = L.I
            u = L.sym("ns", "str", "truthy", "stripped", "distinct")
            nsd = I.mkdict([("kml", u), ("myns", L.text("myuri"))])
            o = L.make(O(path, required(L, path)), ns=u, name_spaces=nsd)
            if not L.same(I.getattr(o, "ns"), u):
                return f"ns should be {u} but is {short(I.getattr(o, 'ns'))}"
            got = I.getattr(o, "name_spaces")
            for k, v in (("kml", u), ("myns", L.text("myuri"))):
                if not L.same(I.dget(got, k)[1], v):
                    return f"name_spaces[{k!r}] should be {v} but is {short(I.dget(got, k)[1])}"
            return None
        c.ob(f"{path} ns and name_spaces", ns, lambda path=path: L.where(path))
    for path, k, f in fields():
        for lab, v in values(L, path, f):
            c.ob(f"{path}({f.name} = {lab})", lambda path=path, f=f, v=v: built(single(L, path, f, v)), lambda path=path, f=f: L.where(path, f.name))

        def among(path=path, f=f):
            m = L.model(path, depth=1, boolean=True)
            m.fields[f.name] = next(v for _, v in values(L, path, f))
            return built(m)
        c.ob(f"{path}({f.name}) with arbitrary value among all arguments", among, lambda path=path, f=f: L.where(path, f.name))

        def without(path=path, f=f):
            m = L.model(path, depth=1, boolean=True)
            if not f.required:
                m.fields.pop(f.name)
            return built(m)
        c.ob(f"{path} without {f.name}", without, lambda path=path, f=f: L.where(path, f.name))

        if f.kind == "obj":
            for k2 in f.classes:
                def empty_child(path=path, f=f, k2=k2):
                    """An object that holds nothing yet is stored as well: it may be filled later."""
                    kid = L.make(O(k2, dict(required(L, k2))))
                    o = L.I.call(L.name(path), [], {**{n: L.value(v) for n, v in required(L, path).items() if n != f.name}, f.name: kid})
                    got = L.I.getattr(o, f.name)
                    return None if got is kid else f"{f.name} should be the given object without fields but is {short(got)}"
                c.ob(f"{path}({f.name} = {k2} without fields)", empty_child, lambda path=path, f=f: L.where(path, f.name))
