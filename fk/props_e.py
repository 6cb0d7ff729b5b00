"""P15-P18: purity, aliasing, XML implementation, dates."""
from common import *
from props_d import other_value
from props_c import geometries
from props_b import must_reject, sub_doc, junk, full, at_level


# ----------------------------------------------------------------- state
def state(L, v, seen=None):
    """Public state of an abstract value as nested tuples (private attributes are caches' business)."""
    I = L.I
    v = I.resolve(v)
    if isinstance(v, VList):
        return ("list", tuple(state(L, x) for x in v.items))
    if isinstance(v, VDict):
        return ("dict", tuple((k, state(L, x)) for k, x in v.d.values()))
    if isinstance(v, tuple):
        return tuple(state(L, x) for x in v)
    if isinstance(v, XElem):
        return snapshot(v)
    if isinstance(v, Inst):
        if isinstance(v.cls, Cls) and v.cls.enum:
            return ("enum", v.cls.name, v.attrs.get("_value_"))
        return ("obj", id(v), tuple(sorted((k, state(L, x)) for k, x in v.attrs.items() if not k.startswith("_"))))
    if isinstance(v, (Sym, Unk)):
        return ("sym", repr(v))
    if isinstance(v, (str, int, float, bool, type(None))):
        return (type(v).__name__, v)
    return ("id", id(v))


def tables(L, path=None):
    """The library's shared tables, as seen through its public interface."""
    I = L.I
    cfg = L.mod("fastkml.config")
    out = [state(L, cfg.env.vars[n]) for n in ("NAME_SPACES", "DEFAULT_NAME_SPACES", "KMLNS", "ATOMNS", "GXNS") if n in cfg.env.vars]
    reg = L.name("registry.registry")
    for p in (path, "kml.KML", "features.Placemark", "geometry.Point", "styles.Style") if path else CLASSES:
        r = L.seq(L.meth(reg, "get", L.name(p)))
        out.append((p, tuple(state(L, x) for x in r)))
    return out


def props_of(L, path):
    """Names of the public properties of a class."""
    out = []
    for k in L.name(path).mro:
        for n, v in getattr(k, "attrs", {}).items():
            if getattr(v, "kind", None) in ("property", "cached_property") and not n.startswith("_") and n not in out:
                out.append(n)
    return out


def readonly(L, path):
    """(label, f(object)) of the operations that only look."""
    I = L.I
    B = I.models.builtin
    for lv in ("terse", "normal", "verbose"):
        yield f"etree_element {lv}", lambda o, lv=lv: snapshot(L.element(o, verbosity=L.verbosity(lv)))
    yield "etree_element precision", lambda o: snapshot(L.element(o, precision=2))
    yield "to_string", lambda o: L.tostr(o)
    yield "to_string plain", lambda o: L.tostr(o, prettyprint=False, precision=3)
    yield "str()", lambda o: I.call(B("str")[0] if isinstance(B("str"), tuple) else B("str"), [o], {})
    yield "repr()", lambda o: I.call(B("repr")[0], [o], {})
    yield "bool()", lambda o: I.truth(o)
    yield "== itself", lambda o: I.veq(o, o)
    yield "== other", lambda o: I.veq(o, L.make(O(path, required(L, path))))
    yield "find_all", lambda o: tuple(id(x) for x in I.iterate(I.call(L.name("utils.find_all"), [o], {})) if isinstance(x, Inst) and not (isinstance(x.cls, Cls) and x.cls.name in NOID))
    yield "find", lambda o: I.call(L.name("utils.find"), [o], {"of_type": L.name("atom.Link")})
    yield "validate", lambda o: valid(L, o)
    for n in props_of(L, path):
        yield f"property {n}", lambda o, n=n: n2(L, I.getattr(o, n))
    if path == "containers.Document":
        yield "get_style_by_url", lambda o: L.meth(o, "get_style_by_url", "#nothing")


NOID = ()


def prime(L, path, o):
    """Use the object so that anything remembered by it is remembered."""
    for lab, op in readonly(L, path):
        if lab in ("etree_element normal", "to_string plain", "repr()", "bool()", "== itself", "find") or lab.startswith("property "):
            op(o)


def n2(L, v):
    s = L.I.resolve(v)
    return strip_ids(state(L, s))


def strip_ids(s):
    if isinstance(s, tuple):
        if len(s) == 3 and s[0] == "obj":
            return ("obj", strip_ids(s[2]))
        return tuple(strip_ids(x) for x in s)
    return s


def valid(L, o):
    try:
        return L.meth(o, "validate")
    except AbsExc as e:
        if e.val.cls is AssertionError or getattr(e.val.cls, "__name__", "") == "AssertionError":
            raise Skip
        raise


def norm(L, r):
    r = L.I.resolve(r)
    if isinstance(r, Unk):
        raise Undecided("result " + r.why)
    if isinstance(r, (Sym, str, int, bool, float, type(None))):
        return ("v", repr(r))
    if isinstance(r, Inst):
        return ("obj", id(r))
    return r


@prop("P15")
def p15(c):
    L = c.L
    I = L.I
    c.rule = ("Interpret each read-only operation on a populated abstract object: public state of the object graph, caller arguments, namespace and registry tables before = after, "
              "the repeated operation gives the same result; then assign/append/remove in each field after all those operations and compare the next output with the oracle for the new content.")

    def shaped(path, shape):
        """An object of the class, its content arranged in a certain way."""
        m = L.model(path, depth=1, boolean=True) if shape != "no" else O(path, required(L, path))
        o = L.make(m)
        if shape in ("all", "no"):
            return o
        for f in CLASSES[path].fields:
            if f.kind == "obj" and shape == "empty children" and not f.required:
                I.setattr(o, f.name, L.make(O(f.classes[-1], dict(required(L, f.classes[-1])))))
            if f.kind == "list":
                l = L.seq(I.getattr(o, f.name))
                if shape == "reversed lists":
                    l = l[::-1]
                    for j, x in enumerate(l):  # members that differ in their keywords
                        for p2, k2 in CLASSES.items():
                            if x.cls is L.name(p2):
                                for ef in k2.fields:
                                    if ef.kind == "enum":
                                        I.setattr(x, ef.name, L.value(E(ef.enum, ENUMS[ef.enum][-1 - j % len(ENUMS[ef.enum])])))
                else:
                    e = [L.make(O(k2, dict(required(L, k2)))) for k2 in (f.classes[0], f.classes[-1])]
                    l = [e[0], *l[:1], e[1], *l[1:], e[0]] if shape == "empty members" else e
                I.setattr(o, f.name, VList(l))
            if f.kind == "track" and shape == "reversed lists":
                I.setattr(o, f.name, VList(L.seq(I.getattr(o, f.name))[::-1]))
        return o

    def pure(path, lab, op, shape):
        o = shaped(path, shape)
        s0, t0 = state(L, o), tables(L, path)
        r1 = norm(L, op(o))
        if state(L, o) != s0:
            return f"{lab} changes the object: {first_diff(s0, state(L, o))}"
        if tables(L, path) != t0:
            return f"{lab} changes the library's shared tables: {first_diff(t0, tables(L, path))}"
        r2 = norm(L, op(o))
        if lab not in ("== other", "validate") and r1 != r2:
            return f"repeating {lab} gives a different result"
        if state(L, o) != s0:
            return f"repeating {lab} changes the object"
        return None

    for path in CLASSES:
        wh = lambda path=path: L.where(path)
        for lab, op in readonly(L, path):
            kinds = {f.kind for f in CLASSES[path].fields}
            shapes = ["all", "no"]
            if kinds & {"list", "track"}:
                shapes.append("reversed lists")
            if "list" in kinds:
                shapes.append("empty members")
            if kinds & {"list", "obj"}:
                shapes.append("empty children")
            if not c.thorough and lab in ("etree_element terse", "etree_element precision", "to_string plain", "to_string", "str()", "validate", "== other"):
                shapes = shapes[:2]
            for shape in shapes:
                c.ob(f"{path} {lab}, {shape} fields", lambda path=path, lab=lab, op=op, shape=shape: pure(path, lab, op, shape), wh)

        def fresh(path=path):
            o = L.make(L.model(path, depth=1, boolean=True))
            a = L.element(o)
            s = snapshot(a)
            b = L.element(o)
            if a is b or any(x is y for x in walk(a) for y in walk(b)):
                return "etree_element hands out the same element twice"
            return None if snapshot(a) == s else "a second etree_element changes the first element"
        c.ob(f"{path} fresh elements", fresh, wh)

        def readpure(path=path):
            doc = L.doc(L.expect_xml(L.model(path, depth=1, boolean=True)))
            e = L.I.models.fromstring(L.I.etrees["lxml"], [doc], {})
            s, t0 = snapshot(e), tables(L)
            u = L.name("base._XMLObject")
            k = {"ns": "{" + URI[CLASSES[path].ns] + "}", "name_spaces": None, "element": e, "strict": True}
            r1 = I.call(I.getattr(L.name(path), "class_from_element"), [], k)
            if snapshot(e) != s:
                return "reading changes the element"
            if tables(L) != t0:
                return "reading changes the library's shared tables"
            r2 = I.call(I.getattr(L.name(path), "class_from_element"), [], k)
            return None if I.veq(r1, r2) is True else "reading the same element twice gives different objects"
        c.ob(f"{path} reading", readpure, wh)

    for path, k, f in fields():
        wh = lambda path=path, f=f: L.where(path, f.name)
        m0 = L.model(path, depth=1, boolean=True)
        if f.name not in m0.fields:
            continue
        for lab, v in other_value(L, path, f, m0.fields[f.name]):
            if v is None and f.required:
                continue

            def stale(path=path, f=f, v=v, m0=m0):
                o = L.make(m0)
                prime(L, path, o)
                new = VList(list(v)) if f.kind == "coords" and v is not None else L.value(v) if v is not None else VList([]) if f.kind in ("list", "track") else None
                I.setattr(o, f.name, new)
                fs = dict(m0.fields)
                fs.pop(f.name)
                if v is not None:
                    fs[f.name] = v
                m1 = m2 = ordered(O(path, fs))
                d = L.diff(o, m1, path)
                if d:
                    return f"after assigning {f.name}: {d}"
                m1 = pruned(m1)
                d = L.xdiff(L.element(o), L.expect_xml(m1))
                if d:
                    return f"output after assigning {f.name}: {d}"
                s = L.tostr(o)
                if isinstance(s, Sym) and s.op == "tostring":
                    d = L.xdiff(s.args[0], L.expect_xml(m1))
                    if d:
                        return f"to_string after assigning {f.name}: {d}"
                if v is None:
                    return None
                r = L.make(m2)
                if I.veq(o, r) is not True:
                    return f"after assigning {f.name} the object differs from one built that way"
                return None
            if f.kind == "coords" and v is None:
                continue
            c.ob(f"{path}.{f.name} := {lab} after use", stale, wh)
        if f.kind == "list":
            def grown(path=path, f=f, m0=m0):
                o = L.make(m0)
                prime(L, path, o)
                extra = L.model(m0.fields[f.name][0].path, "late", 0, owner=path, boolean=True)
                lst = I.getattr(o, f.name)
                L.meth(lst, "append", L.make(extra))
                m1 = ordered(O(path, {**m0.fields, f.name: [*m0.fields[f.name], extra]}))
                d = L.xdiff(L.element(o), L.expect_xml(m1)) or L.diff(o, m1, path)
                return f"after appending to {f.name}: {d}" if d else None
            c.ob(f"{path}.{f.name} append after use", grown, wh)

            def shrunk(path=path, f=f, m0=m0):
                o = L.make(m0)
                prime(L, path, o)
                L.meth(I.getattr(o, f.name), "pop", 0)
                m1 = ordered(O(path, {**m0.fields, f.name: m0.fields[f.name][1:]}))
                d = L.xdiff(L.element(o), L.expect_xml(m1)) or L.diff(o, m1, path)
                return f"after removing from {f.name}: {d}" if d else None
            c.ob(f"{path}.{f.name} pop after use", shrunk, wh)
        if f.kind == "obj":
            sub = m0.fields[f.name]
            for sf in CLASSES[sub.path].fields:
                if sf.name in sub.fields and sf.kind in SIMPLE and not sf.required:
                    def inner(path=path, f=f, m0=m0, sub=sub, sf=sf):
                        o = L.make(m0)
                        prime(L, path, o)
                        v = next(x for l, x in other_value(L, sub.path, sf, sub.fields[sf.name]) if x is not None)
                        I.setattr(I.getattr(o, f.name), sf.name, L.value(v))
                        m1 = ordered(O(path, {**m0.fields, f.name: ordered(O(sub.path, {**sub.fields, sf.name: v}))}))
                        d = L.xdiff(L.element(o), L.expect_xml(m1))
                        return f"output after changing {f.name}.{sf.name}: {d}" if d else None
                    c.ob(f"{path}.{f.name}.{sf.name} changed after use", inner, wh)
                    break
    # changes anywhere below an object that was already used
    FEATURES = [p for p in CLASSES if p.startswith(("features.", "containers.", "overlays.")) and any(f.name == "times" for f in CLASSES[p].fields)]
    COMMON = set.intersection(*({f.name for f in CLASSES[p].fields} for p in FEATURES))
    for path in CLASSES:
        deep_model = lambda path=path: L.model(path, depth=3 if path.startswith(("geometry.", "gx.", "styles.", "model.", "data.")) else 1, boolean=True)
        m0 = deep_model()
        for steps, sub in positions(m0):
            if not steps:
                continue
            if not c.thorough and path in FEATURES and path != "features.Placemark" and steps[0][0] in COMMON:
                continue  # the common fields of a feature: all features in the thorough tier
            simple = 0
            for sf in CLASSES[sub.path].fields:
                if sf.name not in sub.fields or sf.required:
                    continue
                if sf.kind in SIMPLE:
                    simple += 1
                    if simple > 1 and not c.thorough:
                        continue
                vs = [x for x in other_value(L, sub.path, sf, sub.fields[sf.name]) if x[1] is not None]
                for lab, v in vs if c.thorough else vs[:1] + vs[-1:] if sf.kind in ("coords", "obj", "list", "track") and len(vs) > 1 else vs[:1]:
                    def deep(path=path, m0=m0, steps=steps, sub=sub, sf=sf, v=v):
                        o = L.make(m0)
                        ops = [(l, op) for l, op in readonly(L, path) if not l.startswith(("validate", "str()", "== ", "etree_element terse", "etree_element verbose"))]
                        for _, op in ops:
                            op(o)
                        x = o
                        for name, i in steps:
                            x = I.getattr(x, name)
                            if i is not None:
                                x = L.seq(x)[i]
                        I.setattr(x, sf.name, VList(list(v)) if sf.kind == "coords" else L.value(v))
                        m1 = replaced(m0, steps, ordered(O(sub.path, {**sub.fields, sf.name: v})))
                        at = "/".join(n for n, _ in steps) + "." + sf.name
                        d = L.xdiff(L.element(o), L.expect_xml(pruned(m1)))
                        if d:
                            return f"output after changing {at}: {d}"
                        r = L.make(m1)
                        for l, op in ops:
                            if l.startswith("find") or l == "get_style_by_url":
                                continue
                            a, b = plain(norm(L, op(o))), plain(norm(L, op(r)))
                            if a != b:
                                return f"{l} after changing {at} is not that of an object built this way"
                        a, b = (len([1 for _ in I.iterate(I.call(L.name("utils.find_all"), [q], {}))]) for q in (o, r))
                        if a != b:
                            return f"find_all after changing {at} gives {a} objects instead of {b}"
                        if I.veq(o, r) is not True:
                            return f"after changing {at} the object differs from one built that way"
                        return None
                    c.ob(f"{path} after use: {'/'.join(n if i is None else f'{n}[{i}]' for n, i in steps)}.{sf.name} := {lab}", deep, lambda path=path, steps=steps: L.where(path, steps[0][0]))
    # geometries follow later changes of their coordinates
    for path in ("geometry.Point", "geometry.LineString", "geometry.LinearRing"):
        def geo(path=path):
            n = L.npts(path)
            ring = path.endswith("Ring")
            c1, c2 = ((L.ring(x), L.ring(x))[0] if ring else L.coords(x, n) for x in ("a", "b"))
            o = L.make(O(path, {"kml_coordinates": O("geometry.Coordinates", {"coords": c1})}))
            if tuple(map(tuple, L.seq(I.getattr(I.getattr(o, "geometry"), "coords")))) != c1:
                return "geometry does not give the coordinates"
            I.setattr(I.getattr(o, "kml_coordinates"), "coords", c2)
            g = I.getattr(o, "geometry")
            if tuple(map(tuple, L.seq(I.getattr(g, "coords")))) != c2:
                return "geometry does not follow the changed coordinates"
            pm = I.call(L.name("features.Placemark"), [], {"kml_geometry": o})
            I.getattr(pm, "geometry")
            I.setattr(o, "kml_coordinates", L.make(O("geometry.Coordinates", {"coords": c1})))
            g = I.getattr(pm, "geometry")
            return None if tuple(map(tuple, L.seq(I.getattr(g, "coords")))) == c1 else "the placemark's geometry does not follow the changed coordinates"
        c.ob(f"{path}.geometry follows changes", geo, lambda path=path: L.where(path))


def positions(m, steps=()):
    """(steps, nested model) of a model and everything below it."""
    yield steps, m
    for f in CLASSES[m.path].fields:
        v = m.fields.get(f.name)
        if f.kind == "obj" and v is not None:
            yield from positions(v, (*steps, (f.name, None)))
        elif f.kind == "list" and v:
            for i in sorted({0, len(v) - 1}):
                yield from positions(v[i], (*steps, (f.name, i)))


def replaced(m, steps, sub):
    if not steps:
        return sub
    (n, i), rest = steps[0], steps[1:]
    v = m.fields[n]
    v = replaced(v, rest, sub) if i is None else [replaced(x, rest, sub) if j == i else x for j, x in enumerate(v)]
    return ordered(O(m.path, {**m.fields, n: v}))


def plain(r):
    """Results without object identities."""
    if isinstance(r, tuple) and len(r) == 2 and r[0] == "obj":
        return "obj"
    return strip_ids(r)


def walk(e):
    yield e
    for k in e.children:
        yield from walk(k)


def first_diff(a, b, at=""):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return f"{at} {len(a)} entries before, {len(b)} after"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ("obj", "list", "str", "sym", "dict") else ""
                return first_diff(x, y, f"{at}.{lab}" if lab else at)
    return f"{at} {str(a)[:60]} became {str(b)[:60]}"


# ------------------------------------------------------------------- P16
@prop("P16")
def p16(c):
    L = c.L
    I = L.I
    c.rule = ("For each list/dict argument: interpret construction, then mutate the caller's collection or the object's; neither may show through to the other, to a second object built from the "
              "same arguments, to later objects, or to the shared tables; one-shot iterators are accepted. Same for objects read from one element.")

    def listfields(path):
        for f in CLASSES[path].fields:
            if f.kind in ("list", "track", "coords"):
                yield f

    def val(path, f):
        return next(v for lab, v in values(L, path, f, distinct=True) if isinstance(v, (list, tuple)) and len(v) > 1 or lab == "mixed")

    for path in CLASSES:
        wh = lambda path=path: L.where(path)
        for f in listfields(path):
            v = val(path, f)
            whf = lambda path=path, f=f: L.where(path, f.name)

            def mk(path, f, arg):
                return I.call(L.name(path), [], {**{k: L.value(x) for k, x in required(L, path).items()}, f.name: arg})

            def members(v):
                return VList([L.value(x) for x in v])

            def arg_kept(path=path, f=f, v=v):
                arg = members(v)
                s0 = state(L, arg)
                o = mk(path, f, arg)
                L.element(o)
                return None if state(L, arg) == s0 else f"constructing changes the list given as {f.name}"
            c.ob(f"{path}.{f.name} argument unchanged", arg_kept, whf)

            def caller_later(path=path, f=f, v=v):
                arg = members(v)
                o = mk(path, f, arg)
                L.meth(arg, "pop")
                L.meth(arg, "reverse")
                d = L.diff(I.getattr(o, f.name), list(v) if not isinstance(v, tuple) else v, f"{path}.{f.name}")
                return f"changing the caller's list afterwards changes the object: {d}" if d else None
            c.ob(f"{path}.{f.name} private from the caller", caller_later, whf)

            def twins(path=path, f=f, v=v):
                arg = members(v)
                a, b = mk(path, f, arg), mk(path, f, arg)
                la = I.getattr(a, f.name)
                if not isinstance(la, VList):
                    return None
                L.meth(la, "pop")
                d = L.diff(I.getattr(b, f.name), v, f"{path}.{f.name}") or L.diff(arg, v, "caller's list")
                return f"changing one object changes another: {d}" if d else None
            c.ob(f"{path}.{f.name} private from a twin", twins, whf)

            def oneshot(path=path, f=f, v=v):
                arg = I.call(I.models.builtin("iter")[0], [members(v)], {})
                o = mk(path, f, arg)
                d = L.diff(I.getattr(o, f.name), v, f"{path}.{f.name}")
                return f"given as a one-shot iterator: {d}" if d else None
            c.ob(f"{path}.{f.name} from a one-shot iterator", oneshot, whf)

            def tup(path=path, f=f, v=v):
                o = mk(path, f, tuple(L.value(x) for x in v))
                d = L.diff(I.getattr(o, f.name), v, f"{path}.{f.name}")
                return f"given as a tuple: {d}" if d else None
            c.ob(f"{path}.{f.name} from a tuple", tup, whf)
            if f.kind != "coords":
                def fresh(path=path, f=f, v=v):
                    a = L.make(O(path, required(L, path)))
                    lst = I.getattr(a, f.name)
                    if not isinstance(lst, VList):
                        return f"{f.name} of a new object is {short(lst)}, not a list"
                    L.meth(lst, "append", L.value(v[0]))
                    b = L.make(O(path, required(L, path)))
                    d = L.diff(I.getattr(b, f.name), None, f"{path}.{f.name}")
                    return f"a new object shows another object's members: {d}" if d else None
                c.ob(f"{path}.{f.name} of new objects", fresh, whf)

                def none(path=path, f=f):
                    a = mk(path, f, VList([]))
                    b = mk(path, f, None)
                    la, lb = I.getattr(a, f.name), I.getattr(b, f.name)
                    return None if isinstance(la, VList) and isinstance(lb, VList) and la is not lb else f"{f.name} is {short(la)} / {short(lb)}"
                c.ob(f"{path}.{f.name} of empty objects", none, whf)

        def nsmap(path=path):
            cfg0 = tables(L)
            d = I.mkdict([("x", "{urn:x}")])
            kw = {k: L.value(x) for k, x in required(L, path).items()}
            a = I.call(L.name(path), [], {**kw, "name_spaces": d})
            b = I.call(L.name(path), [], {**kw, "name_spaces": d})
            n = I.call(L.name(path), [], dict(kw))
            na, nb, nn = (I.getattr(x, "name_spaces") for x in (a, b, n))
            want = {"x": "{urn:x}", **{p: "{" + u + "}" for p, u in URI.items() if p}}
            if {k: v for k, v in d.d.values()} != {"x": "{urn:x}"}:
                return "constructing changes the caller's name_spaces"
            for w in (na, nb):
                if {k: v for k, v in w.d.values()} != want:
                    return f"name_spaces is {short(w)}"
            I.setitem(na, "y", "{urn:y}")
            I.setitem(nn, "z", "{urn:z}")
            I.setitem(nn, "kml", "{urn:k}")
            if {k: v for k, v in d.d.values()} != {"x": "{urn:x}"}:
                return "changing an object's name_spaces changes the caller's"
            if {k: v for k, v in nb.d.values()} != want:
                return "changing an object's name_spaces changes another object's"
            if tables(L) != cfg0:
                return "changing an object's name_spaces changes the library's defaults"
            n2 = I.getattr(I.call(L.name(path), [], dict(kw)), "name_spaces")
            if {k: v for k, v in n2.d.values()} != {p: "{" + u + "}" for p, u in URI.items() if p}:
                return f"a new object's name_spaces is {short(n2)}"
            return None
        c.ob(f"{path} name_spaces private", nsmap, wh)

        def read2(path=path):
            m = L.model(path, depth=1, boolean=True)
            doc = L.doc(L.expect_xml(m))
            d = I.mkdict([("x", "{urn:x}")])
            t0 = tables(L)
            a, b = (L.read(path, doc, name_spaces=d) for _ in range(2))
            if {k: v for k, v in d.d.values()} != {"x": "{urn:x}"}:
                return "reading changes the caller's name_spaces"
            if tables(L) != t0:
                return "reading changes the library's shared tables"
            sh = shared(L, a, b)
            if sh:
                return f"two objects read from one document share {sh}"
            ds = {}
            for at, x in graph(L, a):
                n = x.attrs.get("name_spaces")
                if isinstance(n, VDict):
                    if id(n) in ds:
                        return f"{ds[id(n)]} and {at} share one name_spaces table"
                    ds[id(n)] = at
            return None
        c.ob(f"{path} read twice", read2, wh)

        def nested(path=path):
            """Objects given as members are stored, not altered."""
            m = L.model(path, depth=2, boolean=True)
            kw = {k: L.value(v) for k, v in m.fields.items()}
            s0 = {k: state(L, v) for k, v in kw.items()}
            o = I.call(L.name(path), [], dict(kw))
            L.element(o)
            L.tostr(o)
            for k, v in kw.items():
                if state(L, v) != s0[k]:
                    return f"constructing or writing changes the object given as {k}: {first_diff(s0[k], state(L, v))}"
            return None
        c.ob(f"{path} arguments unchanged", nested, wh)
    for lab, mkgeo, path in geometries(L):
        for target in (path, "features.Placemark"):
            def geo(mkgeo=mkgeo, target=target):
                g = mkgeo()
                d = I.mkdict([("x", "{urn:x}")])
                s0 = geostate(L, g)
                o = I.call(L.name(target), [], {"geometry": g, "name_spaces": d})
                L.element(o)
                if geostate(L, g) != s0:
                    return "constructing changes the geometry"
                ds = {}
                for at, x in graph(L, o):
                    n = x.attrs.get("name_spaces")
                    if n is d:
                        return f"{at} uses the caller's name_spaces table"
                    if isinstance(n, VDict):
                        if id(n) in ds:
                            return f"{ds[id(n)]} and {at} share one name_spaces table"
                        ds[id(n)] = at
                return None
            c.ob(f"{target}(geometry={lab}) private parts", geo, lambda target=target: L.where(target))

    def parse_ns():
        m = L.model("kml.KML", depth=1, boolean=True)
        I.files["in.kml"] = L.expect_xml(m)
        try:
            d = I.mkdict([("x", "{urn:x}")])
            t0 = tables(L)
            I.call(I.getattr(L.name("kml.KML"), "parse"), ["in.kml"], {"name_spaces": d, "validate": False})
            if {k: v for k, v in d.d.values()} != {"x": "{urn:x}"}:
                return "parsing changes the caller's name_spaces"
            return None if tables(L) == t0 else "parsing changes the library's shared tables"
        finally:
            I.files.pop("in.kml", None)
    c.ob("KML.parse leaves name_spaces alone", parse_ns, lambda: L.where("kml.KML"))
    for path in ("kml.KML", "containers.Folder", "containers.Document"):
        def app(path=path):
            pm = L.make(O("features.Placemark", {"name": L.text("n")}))
            a, b = L.make(O(path)), L.make(O(path))
            L.meth(a, "append", pm)
            if L.seq(I.getattr(a, "features")) != [pm]:
                return "append does not add the feature"
            return None if not L.seq(I.getattr(b, "features")) else "append shows in another object"
        c.ob(f"{path}.append", app, lambda path=path: L.where(path))


def geostate(L, g):
    return strip_ids(state(L, L.I.getattr(g, "__geo_interface__")))


def graph(L, o, at=None, seen=None):
    """Element objects reachable from o."""
    seen = set() if seen is None else seen
    if not isinstance(o, Inst) or id(o) in seen or not isinstance(o.cls, Cls) or o.cls.enum:
        return
    seen.add(id(o))
    at = at or o.cls.name
    yield at, o
    for k, v in list(o.attrs.items()):
        if isinstance(v, Inst):
            yield from graph(L, v, f"{at}.{k}", seen)
        elif isinstance(v, (VList, tuple)):
            for i, x in enumerate(v.items if isinstance(v, VList) else v):
                yield from graph(L, x, f"{at}.{k}[{i}]", seen)


def shared(L, a, b):
    ids = {}
    for at, x in graph(L, a):
        if not frozen(x):
            ids[id(x)] = at
        for k, v in x.attrs.items():
            if isinstance(v, (VList, VDict)):
                ids[id(v)] = f"{at}.{k}"
    for at, x in graph(L, b):
        if id(x) in ids:
            return ids[id(x)]
        for k, v in x.attrs.items():
            if isinstance(v, (VList, VDict)) and id(v) in ids:
                return ids[id(v)]
    return None


def frozen(x):
    m = getattr(x.cls, "module", None)
    n = getattr(m, "name", str(m))
    return not n.startswith("fastkml")


# ------------------------------------------------------------------- P17
@prop("P17")
def p17(c):
    L = c.L
    I = L.I
    c.rule = "Interpret writing, reading (strict and lenient), printing, validating and file access with config.etree = ElementTree: same abstract XML and objects as the oracle; also switching back and forth after use."

    def used(mode):
        """Calls of the implementation that is not selected."""
        other = [x[2] for x in I.p.log[cur[1]:] if x[0] == "etree" and x[1] != mode]
        return f"{other[0]} of the implementation that is not selected is used" if other else None

    cur = ["lxml", 0, None]

    def use(mode):
        cur[2] = cur[2] or used(cur[0])
        I.call(L.name("config.set_etree_implementation"), [I.etrees[mode]], {})
        cur[0], cur[1] = mode, len(I.p.log)

    class C:
        def ob(self, title, fn, *a):
            def run():
                cur[:] = ["lxml", len(I.p.log), None]
                return fn() or cur[2] or used(cur[0])
            outer.ob(title, run, *a)
    outer, c = c, C()

    def trip(m):
        d = check_trip(L, m)
        if d:
            return d
        for e in walk(L.element(L.make(m))):
            if e.mode != "stdlib":
                return f"element {e.tag} is built with the other implementation"
        return None

    for path in CLASSES:
        wh = lambda path=path: L.where(path)
        for b in (True, False):
            def all_(path=path, b=b):
                use("stdlib")
                return trip(L.model(path, depth=2, boolean=b))
            c.ob(f"{path} all fields, booleans {b}", all_, wh)

        def empty(path=path):
            use("stdlib")
            return trip(O(path, required(L, path)))
        c.ob(f"{path} no fields", empty, wh)

        def switch(path=path):
            m = L.model(path, depth=1, boolean=True)
            o = L.make(m)
            t = L.tostr(o)
            L.read(path, t)
            use("stdlib")
            d = trip(m)
            if d:
                return "after switching: " + d
            d = L.xdiff(L.element(o), L.expect_xml(m))
            if d:
                return "object made before switching: " + d
            if any(e.mode != "stdlib" for e in walk(L.element(o))):
                return "object made before switching is still written with the other implementation"
            use("lxml")
            d = check_trip(L, m)
            if d:
                return "after switching back: " + d
            if any(e.mode != "lxml" for e in walk(L.element(o))):
                return "after switching back the other implementation is still used"
            return None
        c.ob(f"{path} switching", switch, wh)

        def levels(path=path):
            use("stdlib")
            m = L.model(path, depth=1, boolean=True)
            for lv in ("terse", "verbose"):
                d = L.xdiff(L.element(L.make(m), verbosity=L.verbosity(lv), precision=None), L.expect_xml(at_level(L, m, lv)))
                if d:
                    return f"{lv}: {d}"
            return None
        c.ob(f"{path} verbosity", levels, wh)

        def pretty(path=path):
            use("stdlib")
            m = L.model(path, depth=1, boolean=True)
            o = L.make(m)
            for kw in ({}, {"prettyprint": True}, {"prettyprint": False}, {"precision": 2}):
                s = L.tostr(o, **kw)
                if not (isinstance(s, Sym) and s.op == "tostring"):
                    raise Undecided("to_string " + short(s))
            I.call(I.models.builtin("repr")[0], [o], {})
            v = L.meth(o, "validate")
            return None if v is None else f"validate gives {short(v)} though the implementation cannot validate"
        c.ob(f"{path} printing and validating", pretty, wh)

        def valid_switch(path=path):
            o = L.make(L.model(path, depth=0, boolean=True))
            valid(L, o)
            use("stdlib")
            v = L.meth(o, "validate")
            if v is not None:
                return f"validate gives {short(v)} after switching to an implementation that cannot validate"
            use("lxml")
            v = valid(L, o)
            return None if v is True else f"validate gives {short(v)} after switching back"
        c.ob(f"{path} validating, switching", valid_switch, wh)
    for path, k, f in fields():
        wh = lambda path=path, f=f: L.where(path, f.name)
        for lab, v in values(L, path, f):
            def one(path=path, f=f, v=v):
                use("stdlib")
                return trip(single(L, path, f, v))
            c.ob(f"{path}.{f.name} = {lab}", one, wh)
        if f.kind in ("float", "int", "bool", "enum", "date", "coords"):
            def bad(path=path, f=f):
                use("stdlib")
                m = full(L, path, f, "geometry.LineString")
                return must_reject(L, path, sub_doc(L, m, m, f, junk(L)))
            c.ob(f"{path}.{f.name} <- junk, strict", bad, wh)

            def soft(path=path, f=f):
                use("stdlib")
                m = full(L, path, f, "geometry.LineString")
                r = L.read(path, sub_doc(L, m, m, f, junk(L)), strict=False)
                want = O(path, {k: v for k, v in m.fields.items() if k != f.name})
                L.grouped = True
                try:
                    return L.diff(r, want, path)
                finally:
                    L.grouped = False
            c.ob(f"{path}.{f.name} <- junk, lenient", soft, wh)

    def mixed(first, second):
        use(first)
        m = L.model("kml.KML", depth=2, boolean=True)
        t = L.tostr(L.make(m))
        use(second)
        r = L.read("kml.KML", t)
        L.grouped = True
        try:
            d = L.diff(r, m, "kml.KML")
        finally:
            L.grouped = False
        return f"written with {first}, read with {second}: {d}" if d else None
    for a, b in (("lxml", "stdlib"), ("stdlib", "lxml")):
        c.ob(f"KML written with {a}, read with {b}", lambda a=a, b=b: mixed(a, b), lambda: L.where("kml.KML"))
    for kw in ({}, {"strict": False}, {"validate": True}, {"validate": False}):
        def parse(kw=kw):
            use("stdlib")
            m = L.model("kml.KML", depth=1, boolean=True)
            I.files["in.kml"] = L.expect_xml(m)
            try:
                r = I.call(I.getattr(L.name("kml.KML"), "parse"), ["in.kml"], dict(kw))
            finally:
                I.files.pop("in.kml", None)
            L.grouped = True
            try:
                return L.diff(r, m, "kml.KML")
            finally:
                L.grouped = False
        c.ob(f"KML.parse({kw})", parse, lambda: L.where("kml.KML"))
    for suf in ("kml", "kmz"):
        def write(suf=suf):
            use("stdlib")
            m = L.model("kml.KML", depth=1, boolean=True)
            o = L.make(m)
            n0 = len(I.p.log)
            L.meth(o, "write", ExtObj("path", name="out." + suf))
            w = [x for x in I.p.log[n0:] if x[0] in ("write", "writestr")]
            if len(w) != 1:
                return f"{len(w)} writes"
            s = w[0][3] if w[0][0] == "writestr" else w[0][4]
            if isinstance(s, Sym) and s.op == "encode":
                s = s.args[0]
            if not (isinstance(s, Sym) and s.op == "tostring"):
                raise Undecided("written " + short(s))
            return L.xdiff(s.args[0], L.expect_xml(m))
        c.ob(f"KML.write(out.{suf})", write, lambda: L.where("kml.KML"))

    def vfile():
        use("stdlib")
        v = I.call(L.name("validator.validate"), [], {"file_to_validate": ExtObj("path", name="x.kml")})
        return None if v is None else f"validate gives {short(v)}"
    c.ob("validate a file", vfile, lambda: "fastkml/validator.py")


# ------------------------------------------------------------------- P18
@prop("P18")
def p18(c):
    L = c.L
    I = L.I
    c.rule = ("KmlDateTime with symbolic year/month/day/time of day: printed form per resolution, parse(print(x)) == x, explicit coarser resolution truncates, detection of the resolution, "
              "inequality of different resolutions/fields, use through TimeStamp/TimeSpan/expires/track times.")
    RES = ("year", "year_month", "date", "datetime")
    wh = lambda: L.where("times.KmlDateTime")

    def kdt(*a, **k):
        return I.call(L.name("times.KmlDateTime"), list(a), k)

    def res(n):
        return I.getattr(L.name("enums.DateTimeResolution"), n)

    def pystr(o):
        B = I.models.builtin("str")
        return I.call(B[0] if isinstance(B, tuple) else B, [o], {})

    def dt(m):
        dtm = I.import_module("datetime")
        if m.tail is not None:
            return I.call(dtm.env.vars["datetime"], [m.y, m.m, m.d], {"tail": m.tail})
        return I.call(dtm.env.vars["date"], [m.y, m.m or 1, m.d or 1], {})

    def trunc(m, r):
        i = RES.index(r)
        return D(r, m.y, m.m if i >= 1 else None, m.d if i >= 2 else None, m.tail if i >= 3 else None)

    for small in (False, True):
        s = " (early year)" if small else ""
        for r in RES:
            def prints(r=r, small=small):
                m = L.date("x", r, small)
                got = pystr(L.mkdate(m))
                return None if L.sametext(got, L.datetext(m)) else f"prints {short(got)} instead of {short(L.datetext(m))}"
            c.ob(f"{r} prints{s}", prints, wh)

            def parses(r=r, small=small):
                m = L.date("x", r, small)
                o = I.call(I.getattr(L.name("times.KmlDateTime"), "parse"), [L.datetext(m)], {})
                if o is None:
                    return "printed text is not recognised"
                d = L.diff_date(o, m, "parsed")
                if d:
                    return d
                if I.veq(o, L.mkdate(m)) is not True:
                    return "the value read differs from the value printed"
                got = pystr(o)
                return None if L.sametext(got, L.datetext(m)) else f"re-printed as {short(got)}"
            c.ob(f"{r} parse(print(x)) == x{s}", parses, wh)
            for fine in ("date", "datetime"):
                def coarse(r=r, fine=fine, small=small):
                    if RES.index(r) > RES.index(fine):
                        raise Skip
                    m = L.date("x", fine, small)
                    o = kdt(dt(m), res(r))
                    t = trunc(m, r)
                    d = L.diff_date(o, t, f"{fine} given as {r}")
                    if d:
                        return d
                    got = pystr(o)
                    if not L.sametext(got, L.datetext(t)):
                        return f"{fine} given as {r} prints {short(got)}"
                    return None if I.veq(o, L.mkdate(t)) is True else f"{fine} given as {r} differs from the truncated value"
                if RES.index(r) <= RES.index(fine):
                    c.ob(f"{fine} truncated to {r}{s}", coarse, wh)
        for fine in ("date", "datetime"):
            def detect(fine=fine, small=small):
                m = L.date("x", fine, small)
                return L.diff_date(kdt(dt(m)), m, "resolution not given")
            c.ob(f"{fine} detected{s}", detect, wh)

            def detect2(fine=fine, small=small):
                m = L.date("x", fine, small)
                return L.diff_date(kdt(dt(m), resolution=None), m, "resolution None")
            c.ob(f"{fine} detected, None given{s}", detect2, wh)
    for a in RES:
        for b in RES:
            def neq(a=a, b=b):
                ma = L.date("x", "datetime")
                x, y = L.mkdate(trunc(ma, a)), L.mkdate(trunc(ma, b))
                want = a == b
                r = I.veq(x, y)
                return None if r is want else f"{a} == {b} of the same moment is {r}"
            c.ob(f"{a} == {b}", neq, wh)
            for lab, y0, m0, d0 in (("first of January of any year", None, 1, 1), ("2000-01-01", 2000, 1, 1), ("first of a month", None, None, 1), ("0001-01-01", 1, 1, 1), ("9999-12-31", 9999, 12, 31)):
                def neq1(a=a, b=b, y0=y0, m0=m0, d0=d0):
                    x = L.date("x", "datetime")
                    m = D("datetime", y0 or x.y, m0 or x.m, d0 or x.d, x.tail)
                    plain = D("date", m.y, m.m, m.d)
                    if a == b == "datetime":
                        raise Skip
                    mk = lambda r: kdt(dt(m), res(r)) if r == "datetime" else kdt(dt(plain), res(r))
                    r = I.veq(mk(a), mk(b))
                    return None if r is (a == b) else f"{a} == {b} of the same day is {r}"
                if (a, b) != ("datetime", "datetime"):
                    c.ob(f"{a} == {b} of the {lab}", neq1, wh)
    for r in RES:
        m0 = L.date("x", r)
        for part in ("y", "m", "d", "tail"):
            if getattr(m0, part) is None:
                continue

            def differs(r=r, part=part):
                m = L.date("x", r)
                o = L.date("z", r)
                n = D(r, m.y, m.m, m.d, m.tail)
                setattr(n, part, getattr(o, part))
                a, b = L.mkdate(m), L.mkdate(n)
                return None if I.veq(a, b) is False and I.veq(b, a) is False else f"values differing in {part} are equal"
            c.ob(f"{r} differing in {part}", differs, wh)

        def foreign(r=r):
            a = L.mkdate(L.date("x", r))
            for o in (None, "2001", 1):
                if I.veq(a, o) is not False:
                    return f"equals {o!r}"
            return None
        c.ob(f"{r} against foreign values", foreign, wh)

        def boolean(r=r):
            return None if I.truth(L.mkdate(L.date("x", r))) is True else "a date counts as empty"
        c.ob(f"{r} is true", boolean, wh)
    for path, k, f in fields():
        if f.kind == "date":
            for r in RES:
                for small in (False, True):
                    c.ob(f"{path}.{f.name} {r}{' early year' if small else ''} round trip",
                         lambda path=path, f=f, r=r, small=small: check_trip(L, single(L, path, f, L.date("x", r, small))), lambda path=path, f=f: L.where(path, f.name))
    for r in RES:
        def tr(r=r):
            its = [TI(L.date(f"w{i}", r), L.coords(f"c{i}", 1, 3)[0], L.coords(f"a{i}", 1, 3)[0]) for i in range(2)]
            return check_trip(L, O("gx.Track", {"track_items": its}))
        c.ob(f"gx.Track times {r} round trip", tr, lambda: L.where("gx.Track", "track_items"))
    for t, want in (("2001", ("year", 2001, 1, 1)), ("0987", ("year", 987, 1, 1)), ("2001-07", ("year_month", 2001, 7, 1)), ("2001-12", ("year_month", 2001, 12, 1)),
                    ("2001-07-31", ("date", 2001, 7, 31)), ("0001-01-01", ("date", 1, 1, 1)), ("9999-12-31", ("date", 9999, 12, 31)), ("1996-02-29", ("date", 1996, 2, 29)),
                    ("1997-07-16T07:30:15Z", ("datetime", 1997, 7, 16)), ("1997-07-16T10:30:15+03:00", ("datetime", 1997, 7, 16))):
        def concrete(t=t, want=want):
            o = I.call(I.getattr(L.name("times.KmlDateTime"), "parse"), [t], {})
            if not isinstance(o, Inst):
                return f"{t} is not recognised"
            r, y, m, d = want
            x = L.diff_date(o, D(r, y, m, d), t) if r != "datetime" else None
            if x:
                return x
            if r == "datetime":
                rr = I.getattr(o, "resolution")
                if rr.attrs.get("_name_") != r:
                    return f"{t} has resolution {short(rr)}"
            return None
        c.ob(f"text {t}", concrete, wh)
    for t in ("", "nonsense", "2001-1", "2001-7-5", "01-01-2001", "2001-13", "2001-00", "2001-02-30", "2001-7", "20011", "200", "2001/07"):
        def reject(t=t):
            try:
                o = I.call(I.getattr(L.name("times.KmlDateTime"), "parse"), [t], {})
            except AbsExc:
                return None
            return None if o is None else f"{t!r} is read as {short(o)}"
        c.ob(f"text {t!r} is no date", reject, wh)

    # moments and days at the edges of their ranges
    CLOCKS = (("midnight", (0, 0, 0, 0), "00:00:00"), ("noon", (12, 0, 0, 0), "12:00:00"), ("last moment", (23, 59, 59, 999999), "23:59:59.999999"),
              ("one microsecond", (0, 0, 0, 1), "00:00:00.000001"), ("half a second", (0, 0, 0, 500000), "00:00:00.500000"), ("one second", (0, 0, 1, 0), "00:00:01"),
              ("one minute", (0, 1, 0, 0), "00:01:00"), ("one o'clock", (1, 0, 0, 0), "01:00:00"), ("any time", (13, 45, 30, 0), "13:45:30"), ("milliseconds", (13, 45, 30, 120000), "13:45:30.120000"))
    ZONES = (("naive", None, ""), ("UTC", 0, "+00:00"), ("east", 330, "+05:30"), ("west", -480, "-08:00"))
    DAYS = (("mid year", 2004, 6, 15), ("new year", 2004, 1, 1), ("last day", 2004, 12, 31), ("leap day", 2004, 2, 29), ("first of a month", 2004, 6, 1), ("first year", 1, 1, 1), ("last year", 9999, 12, 31), ("year 987", 987, 10, 9))

    def zone(mins):
        dtm = I.import_module("datetime").env.vars
        if mins is None:
            return None
        if mins == 0:
            return I.getattr(dtm["timezone"], "utc")
        return I.call(dtm["timezone"], [I.call(dtm["timedelta"], [], {"minutes": mins})], {})

    def moment(day, hms, mins):
        return I.call(I.import_module("datetime").env.vars["datetime"], [*day, *hms], {"tzinfo": zone(mins)})

    def day_text(day, r):
        return ("%04d", "%04d-%02d", "%04d-%02d-%02d")[RES.index(r)] % day[:RES.index(r) + 1]

    for dlab, *day in DAYS:
        day = tuple(day)
        for clab, hms, ctext in CLOCKS:
            for zlab, mins, ztext in ZONES:
                if not c.thorough and dlab not in ("mid year", "new year", "last day") and (clab, zlab) not in (("midnight", "naive"), ("midnight", "UTC"), ("last moment", "UTC"), ("any time", "east")):
                    continue
                lab = f"{dlab}, {clab}, {zlab}"
                tail = ctext + ztext

                def at(day=day, hms=hms, mins=mins, tail=tail):
                    y, mo, d = day
                    for a, k in (((), {}), ((None,), {}), ((res("datetime"),), {})):
                        o = kdt(moment(day, hms, mins), *a, **k)
                        x = L.diff_date(o, D("datetime", y, mo, d, tail), "moment")
                        if x:
                            return x
                        got = pystr(o)
                        if got != f"{day_text(day, 'date')}T{tail}":
                            return f"prints {short(got)} instead of {day_text(day, 'date')}T{tail}"
                        if I.truth(o) is not True:
                            return "counts as empty"
                        if I.veq(o, kdt(moment(day, hms, mins))) is not True:
                            return "differs from its twin"
                        if mins is not None:
                            b = I.call(I.getattr(L.name("times.KmlDateTime"), "parse"), [got], {})
                            x = L.diff_date(b, D("datetime", y, mo, d, tail), f"{got} read back")
                            if x:
                                return x
                            if I.veq(b, o) is not True:
                                return f"{got} read back differs"
                    for r in RES[:3]:
                        o = kdt(moment(day, hms, mins), res(r))
                        i = RES.index(r)
                        x = L.diff_date(o, D(r, y, mo if i >= 1 else None, d if i >= 2 else None), f"moment given as {r}")
                        if x:
                            return x
                        if pystr(o) != day_text(day, r):
                            return f"moment given as {r} prints {short(pystr(o))}"
                        if I.veq(o, kdt(moment(day, hms, mins))) is not False:
                            return f"{r} equals the moment"
                    return None
                c.ob(lab, at, wh)
        for r in RES[:3]:
            def plain(day=day, r=r):
                y, mo, d = day
                i = RES.index(r)
                m = D(r, y, mo if i >= 1 else None, d if i >= 2 else None)
                date_ = I.import_module("datetime").env.vars["date"]
                o = kdt(I.call(date_, list(day), {}), res(r))
                x = L.diff_date(o, m, "day")
                if x:
                    return x
                t = pystr(o)
                if t != day_text(day, r):
                    return f"prints {short(t)} instead of {day_text(day, r)}"
                b = I.call(I.getattr(L.name("times.KmlDateTime"), "parse"), [t], {})
                x = L.diff_date(b, m, f"{t} read back")
                if x:
                    return x
                return None if I.veq(b, o) is True and I.truth(o) is True else f"{t} read back differs"
            c.ob(f"{dlab} as {r}", plain, wh)
    for path, k, f in fields():
        if f.kind == "date":
            for t, m in (("2004-06-15T00:00:00+00:00", D("datetime", 2004, 6, 15, "00:00:00+00:00")), ("2004-12-31T23:59:59.999999-08:00", D("datetime", 2004, 12, 31, "23:59:59.999999-08:00")),
                         ("2004-01-01", D("date", 2004, 1, 1)), ("2004-01", D("year_month", 2004, 1)), ("2004", D("year", 2004)), ("0987-10-09", D("date", 987, 10, 9))):
                def slot(path=path, f=f, t=t, m=m):
                    o = L.read(path, L.doc(L.expect_xml(single(L, path, f, m))))
                    x = L.diff_date(I.getattr(o, f.name), m, f.name)
                    return x or L.xdiff(L.element(o), L.expect_xml(single(L, path, f, m)))
                c.ob(f"{path}.{f.name} {t}", slot, lambda path=path, f=f: L.where(path, f.name))
    for t, m in (("1997-07-16T07:30:15Z", D("datetime", 1997, 7, 16, "07:30:15+00:00")), ("1997-07-16T07:30:15", D("datetime", 1997, 7, 16, "07:30:15+00:00")), ("1997-07-16T07:30:15.5Z", D("datetime", 1997, 7, 16, "07:30:15.500000+00:00")),
                 ("1997-07-16T10:30:15+03:00", D("datetime", 1997, 7, 16, "10:30:15+03:00")), ("1997-07-16T00:00:00Z", D("datetime", 1997, 7, 16, "00:00:00+00:00")), ("1997-01-01T00:00:00Z", D("datetime", 1997, 1, 1, "00:00:00+00:00")),
                 ("1996-02-29T23:59:59-11:30", D("datetime", 1996, 2, 29, "23:59:59-11:30"))):
        def told(t=t, m=m):
            o = I.call(I.getattr(L.name("times.KmlDateTime"), "parse"), [t], {})
            x = L.diff_date(o, m, t)
            if x:
                return x
            got, want = pystr(o), f"{day_text((m.y, m.m, m.d), 'date')}T{m.tail}"
            return None if got == want else f"{t} is printed {short(got)}"
        c.ob(f"moment {t}", told, wh)
