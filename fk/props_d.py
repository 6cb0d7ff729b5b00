"""P13-P18: equality, representation, purity, aliasing, XML implementation, dates."""
import ast
from common import *


def other_value(L, path, f, v):
    """(label, different model values) for a set field."""
    nm = "other." + f.name
    yield "unset", None
    if f.kind == "text":
        yield "other text", L.text(nm)
    elif f.kind in ("float", "int"):
        yield "other number", L.num(nm, f.kind)
        yield "zero", 0.0 if f.kind == "float" else 0
    elif f.kind == "bool":
        yield "negated", not v
    elif f.kind == "enum":
        for x in ENUMS[f.enum]:
            if x != v.value:
                yield x, E(f.enum, x)
    elif f.kind == "date":
        yield "other date", D(v.res, L.sym(nm + ".y", "int", "truthy", "w4", "big", "distinct"), v.m, v.d, v.tail)
        yield "coarser date", D("year_month", v.y, v.m)
    elif f.kind == "coords":
        yield "other point", (*v[:-1], tuple(L.num(f"{nm}{i}") for i in range(len(v[-1])))) if v[0] is not v[-1] else (v[0], tuple(L.num(f"{nm}{i}") for i in range(len(v[-1]))), *v[2:])
        yield "2d", tuple(x[:2] for x in v)
    elif f.kind == "track":
        yield "one sample less", v[:-1]
        yield "other position", [*v[:-1], TI(v[-1].when, tuple(L.num(f"{nm}{i}") for i in range(len(v[-1].coord))), v[-1].angle)]
        yield "other angle", [*v[:-1], TI(v[-1].when, v[-1].coord, tuple(L.num(f"{nm}{i}") for i in range(3)))]
        yield "other time", [TI(D("datetime", L.sym(nm + ".y", "int", "truthy", "w4", "big", "distinct"), v[0].when.m, v[0].when.d, v[0].when.tail), v[0].coord, v[0].angle), *v[1:]]
    elif f.kind == "obj":
        for k in f.classes:
            if k != v.path:
                yield "a " + k, L.model(k, nm, 0, owner=path, boolean=True)
        for lab, o in variants(L, v, path):
            yield lab, o
    elif f.kind == "list":
        yield "one less", v[:-1]
        yield "one more", [*v, v[0]]
        yield "first replaced", [L.model(v[0].path, nm, 0, owner=path, boolean=True), *v[1:]]
        if len(v) > 1:
            yield "first two swapped", [v[1], v[0], *v[2:]]
        for lab, o in variants(L, v[-1], path):
            yield "last: " + lab, [*v[:-1], o]
            break


def variants(L, m, owner=None):
    """Objects differing from m in one field."""
    for f in CLASSES[m.path].fields:
        if f.name in m.fields:
            for lab, v in other_value(L, m.path, f, m.fields[f.name]):
                if v is None and f.required:
                    continue
                fs = dict(m.fields)
                if v is None:
                    fs.pop(f.name)
                else:
                    fs[f.name] = v
                yield f"{f.name} {lab}", O(m.path, fs)
                break


def flat(m):
    """Coordinates of 2d/3d comparisons need equal dimension; keep models with distinct dates only."""
    return m


REPRESENTATIVE = ("features.Placemark", "containers.Folder", "kml.KML")


def chains(path):
    """Ways of holding an object of the class one or two levels below another object."""
    ups = [(p, f.name) for p, k, f in edges_to(path)]
    out = [[u] for u in ups]
    for u in ups[:1]:
        out += [[(p, f.name), u] for p, k, f in edges_to(u[0])][:1]
    return out


def edges_to(path):
    return [(p, k, f) for p, k, f in fields() if f.kind in ("obj", "list") and path in f.classes and p not in ("geometry.BoundaryIs",)]


def embed(L, ch, m):
    for p, n in reversed(ch):
        f = next(x for x in CLASSES[p].fields if x.name == n)
        m = O(p, {**required(L, p), n: [m] if f.kind == "list" else m})
    return m


@prop("P13")
def p13(c):
    L = c.L
    I = L.I
    c.rule = "Interpret == (both directions) and != on abstract twins: identical models equal; any single differing field, class, id or namespace unequal; foreign operands unequal; never an exception."

    def eq(a, b, want):
        for x, y, d in ((a, b, "a == b"), (b, a, "b == a")):
            r = I.veq(x, y)
            if r is not want:
                return f"{d} is {r}"
            n = I.truth(I.compare(ast.NotEq(), x, y))
            if n is want:
                return f"{d.replace('==', '!=')} is {n}"
        return None

    for path in CLASSES:
        wh = lambda path=path: L.where(path)
        for b in (True, False):
            def same(path=path, b=b):
                m = L.model(path, depth=2, boolean=b)
                a, o = L.make(m), L.make(m)
                r = eq(a, o, True)
                return f"identically built objects: {r}" if r else None
            c.ob(f"{path} equals its twin, booleans {b}", same, wh)

        def empty(path=path):
            m = O(path, required(L, path))
            r = eq(L.make(m), L.make(m), True)
            return f"objects without fields: {r}" if r else None
        c.ob(f"{path} empty equals empty", empty, wh)

        def itself(path=path):
            a = L.make(L.model(path, depth=1, boolean=True))
            r = eq(a, a, True)
            return f"object compared with itself: {r}" if r else None
        c.ob(f"{path} equals itself", itself, wh)

        def foreign(path=path):
            a = L.make(L.model(path, depth=1, boolean=True))
            for o in (None, "text", 0, 1.0, (), VList([]), L.text("t"), I.mkdict([])):
                r = eq(a, o, False)
                if r:
                    return f"compared with {short(o)}: {r}"
            return None
        c.ob(f"{path} differs from foreign values", foreign, wh)

        def namespace(path=path):
            m = L.model(path, depth=0, boolean=True)
            a, b = L.make(m, ns="{urn:a}"), L.make(m, ns="{urn:b}")
            r = eq(a, b, False)
            if r:
                return f"different ns: {r}"
            a, b = (L.make(m, name_spaces=I.mkdict([("x", u)])) for u in ("urn:a", "urn:b"))
            r = eq(a, b, False)
            if r:
                return f"different name_spaces: {r}"
            r = eq(a, L.make(m), False)
            return f"additional name_spaces against none: {r}" if r else None
        c.ob(f"{path} namespaces matter", namespace, wh)

        def extension(path=path):
            m = L.model(path, depth=0, boolean=True)
            for x, y in ((L.text("x"), L.text("y")), (0, 1), (False, None), (0, None), (1.5, 2.5)):
                a, b = (L.make(m, my_extension=v) for v in (x, y))
                r = eq(a, b, False)
                if r:
                    return f"extension keyword {short(x)} against {short(y)}: {r}"
                r = eq(a, L.make(m, my_extension=x), True)
                if r:
                    return f"extension keyword {short(x)} against the same: {r}"
            return None
        c.ob(f"{path} extension keywords matter", extension, wh)

        def extension_later(path=path):
            m = L.model(path, depth=0, boolean=True)
            for x in (L.text("x"), 0, False, 1.5):
                a, b, e = L.make(m), L.make(m, my_extension=x), L.make(m)
                I.setattr(a, "my_extension", x)
                r = eq(a, b, True)
                if r:
                    return f"extension {short(x)} assigned later against given at construction: {r}"
                r = eq(b, e, False)
                if r:
                    return f"extension {short(x)} against none: {r}"
            return None
        c.ob(f"{path} extension fields assigned later", extension_later, wh)
        names = {f.name for f in CLASSES[path].fields}
        for p2 in CLASSES:
            n2 = {f.name for f in CLASSES[p2].fields}
            if p2 != path and (names <= n2 or n2 <= names):
                def cross(path=path, p2=p2, n2=n2, names=names):
                    m = L.model(path, depth=0, boolean=True)
                    kw = {k: v for k, v in m.fields.items() if k in n2}
                    try:
                        a = L.make(O(path, kw))
                        b = L.make(O(p2, {**required(L, p2), **kw}))
                    except AbsExc:
                        raise Skip
                    r = eq(a, b, False)
                    return f"compared with {p2}: {r}" if r else None
                c.ob(f"{path} differs from {p2}", cross, wh)
    for path, k, f in fields():
        wh = lambda path=path, f=f: L.where(path, f.name)
        m0 = L.model(path, depth=1, boolean=True)
        if f.name not in m0.fields:
            continue
        for lab, v in other_value(L, path, f, m0.fields[f.name]):
            if v is None and f.required:
                continue

            def differ(path=path, f=f, v=v, m0=m0):
                fs = dict(m0.fields)
                if v is None:
                    fs.pop(f.name)
                else:
                    fs[f.name] = v
                r = eq(L.make(m0), L.make(O(path, fs)), False)
                return f"objects differing in {f.name}: {r}" if r else None
            c.ob(f"{path}.{f.name} {lab}", differ, wh)

        def alone(path=path, f=f, v=None):
            r = eq(L.make(single(L, path, f, v)), L.make(O(path, {k: x for k, x in required(L, path).items()})), False)
            return f"object with only {f.name} against an empty one: {r}" if r else None
        vs = list(values(L, path, f, distinct=True))
        if f.kind in ("float", "int"):
            vs.append(("zero", 0.0 if f.kind == "float" else 0))
        if not f.required and f.kind not in ("coords",):
            for lab, v in vs:
                if v is not None and v != () and v != []:
                    c.ob(f"{path}.{f.name} alone, {lab}", lambda alone=alone, v=v: alone(v=v), wh)
        # the same differences one and two levels further up
        if f.kind in SIMPLE and not f.required:
            for ch in chains(path):
                for lab, v in vs if ch[0][0] in REPRESENTATIVE or c.thorough else vs[-1:]:
                    def nested(path=path, f=f, v=v, ch=ch):
                        m1, m2 = single(L, path, f, v), O(path, dict(required(L, path)))
                        if not (nonempty(m1) and nonempty(m2)) and any(p in ("data.ExtendedData", "gx.MultiTrack", "data.SchemaData", "data.Schema") for p, _ in ch):
                            # some parents keep no empty member
                            base = {k: x for k, x in L.model(path, depth=1, boolean=True).fields.items() if k != f.name}
                            m1, m2 = ordered(O(path, {**base, f.name: v})), O(path, base)
                            if not (nonempty(m1) and nonempty(m2)):
                                raise Skip
                        a, b = (L.make(embed(L, ch, m)) for m in (m1, m2))
                        r = eq(a, b, False)
                        return f"objects differing in {'/'.join(n for _, n in ch)}/{f.name}: {r}" if r else None
                    c.ob(f"{' -> '.join(f'{p}.{n}' for p, n in ch)} -> {path}.{f.name} {lab}", nested, wh)

        if f.required:
            continue

        def mutated(path=path, f=f, m0=m0):
            a, b = L.make(m0), L.make(m0)
            v = next(x for l, x in other_value(L, path, f, m0.fields[f.name]))
            I.setattr(b, f.name, VList([]) if f.kind in ("list", "track", "coords") else None)
            r = eq(a, b, False)
            return f"objects differing in {f.name} after assignment: {r}" if r else None
        c.ob(f"{path}.{f.name} cleared later", mutated, wh)
        if f.kind == "coords":
            continue
        for lab, v in vs:
            if v is None or v == () or v == []:
                continue

            def assigned(path=path, f=f, v=v):
                m1 = single(L, path, f, v)
                a, b, e = L.make(O(path, dict(required(L, path)))), L.make(m1), L.make(O(path, dict(required(L, path))))
                I.setattr(a, f.name, L.value(m1.fields[f.name]))
                r = eq(a, b, True)
                if r:
                    return f"{f.name} assigned later against given at construction: {r}"
                r = eq(a, e, False)
                return f"{f.name} assigned later against an empty one: {r}" if r else None
            c.ob(f"{path}.{f.name} assigned later, {lab}", assigned, wh)


# ------------------------------------------------------------------- P14
def flatten_repr(L, s):
    """Source text with placeholders for symbols, and the placeholder table."""
    tab = {}

    def tok(x):
        for k, v in tab.items():
            if v == x:
                return k
        k = f"S{len(tab)}_"
        tab[k] = x
        return k

    def go(x):
        x = L.I.resolve(x)
        if isinstance(x, str):
            return x
        if isinstance(x, Unk):
            raise Undecided("repr " + x.why)
        if isinstance(x, Sym):
            if x.op == "cat":
                return "".join(go(a) for a in x.args)
            if L.I.tainted(x):
                raise Undecided("repr " + short(x))
            if x.op in ("repr", "str", "fmt"):
                return tok(x)
            return tok(x)
        raise Undecided("repr part " + short(x))
    return go(s), tab


def node_is(L, node, tab, m, at):
    """Does the expression denote the model value?"""
    src = ast.unparse(node)
    if isinstance(m, O):
        return call_is(L, node, tab, m, at)
    if m is None:
        ok = isinstance(node, ast.Constant) and node.value in (None, "") or isinstance(node, (ast.List, ast.Tuple)) and not node.elts
        return None if ok else f"{at} shows {src} instead of nothing"
    if isinstance(m, E):
        mem = L.enum(m.enum, m.value)
        want = {f"{m.enum}.{mem.attrs.get('_name_')}"}
        return None if src in want else f"{at} shows {src} instead of {sorted(want)[0]}"
    if isinstance(m, D):
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        vals = {short(tab[n]) for n in names if n in tab}
        txt = " ".join(vals)
        want = [m.y] + ([m.m] if m.m is not None else []) + ([m.d] if m.d is not None else [])
        for w in want:
            if w.args[0] not in txt:
                return f"{at} does not show {short(w)}"
        if "resolution" not in src or m.res not in src:
            return f"{at} does not show the resolution {m.res}"
        return None
    if isinstance(m, TI):
        if not isinstance(node, ast.Call):
            return f"{at} shows {src} instead of a track item"
        kw = {k.arg: k.value for k in node.keywords}
        for a in ("when", "coord", "angle"):
            if a not in kw:
                return f"{at} does not show {a}"
        d = node_is(L, kw["when"], tab, m.when, at + ".when")
        if d:
            return d
        cs = [tab.get(x.id) for x in ast.walk(kw["coord"]) if isinstance(x, ast.Name) and x.id in tab]
        return None if len(cs) >= len(m.coord) else f"{at}.coord shows {ast.unparse(kw['coord'])}"
    if isinstance(m, list) or isinstance(m, tuple):
        if not isinstance(node, (ast.List, ast.Tuple)):
            return f"{at} shows {src} instead of {len(m)} members"
        if len(node.elts) != len(m):
            return f"{at} shows {len(node.elts)} members instead of {len(m)}"
        for i, (n, x) in enumerate(zip(node.elts, m)):
            d = node_is(L, n, tab, x, f"{at}[{i}]")
            if d:
                return d
        return None
    m = L.I.resolve(m)
    if isinstance(m, Sym):
        if isinstance(node, ast.Name) and node.id in tab:
            x = tab[node.id]
            if x == m or (isinstance(x, Sym) and x.op in ("repr", "str") and x.args and x.args[0] == m):
                if x.op == "str" and m.ty == "str" or x == m and m.ty == "str":
                    return f"{at} shows text without quotes"
                return None
        return f"{at} shows {short(tab.get(src, src))} instead of {short(m)}"
    try:
        ok = ast.literal_eval(node) == m
    except ValueError:
        ok = False
    return None if ok else f"{at} shows {src} instead of {m!r}"


def call_is(L, node, tab, m, at):
    if not isinstance(node, ast.Call):
        return f"{at} shows {ast.unparse(node)} instead of a {m.path} constructor call"
    want = "fastkml." + m.path
    got = ast.unparse(node.func)
    if got not in (want, want.rsplit(".", 1)[1]):
        return f"{at} shows a call of {got} instead of {want}"
    kw, splat = {}, []
    for k in node.keywords:
        if k.arg is None:
            splat.append(k.value)
        elif k.arg in kw:
            return f"{at} names {k.arg} twice"
        else:
            kw[k.arg] = k.value
    if node.args:
        return f"{at} shows positional arguments"
    for f in CLASSES[m.path].fields:
        v = m.fields.get(f.name)
        if f.name not in kw:
            if v is None:
                continue
            if "geometry" in kw and m.path.startswith("geometry.") and f.name in GEOM_FIELDS:
                want = [x for cs in coords_in(m) for p in cs for x in p]
                toks = sorted((n for n in ast.walk(kw["geometry"]) if isinstance(n, ast.Name) and n.id in tab), key=lambda n: (n.lineno, n.col_offset))
                got = [tab[n.id] for n in toks]
                got = [x.args[0] if isinstance(x, Sym) and x.op in ("repr", "str") else x for x in got]
                if got == want:
                    continue
                return f"{at}.geometry shows {len(got)} coordinate values instead of the {len(want)} of the object" if len(got) != len(want) else f"{at}.geometry shows other coordinates"
            return f"{at} does not show the field {f.name}"
        d = node_is(L, kw[f.name], tab, v, f"{at}.{f.name}")
        if d:
            return d
    for n in ("ns", "name_spaces"):
        if n not in kw:
            return f"{at} does not show {n}"
    return None


GEOM_FIELDS = ("kml_coordinates", "outer_boundary", "inner_boundaries")


def coords_in(m):
    """Coordinate sequences of a geometry model in document order."""
    for f in CLASSES[m.path].fields:
        v = m.fields.get(f.name)
        if f.kind == "coords" and v:
            yield v
        elif isinstance(v, O):
            yield from coords_in(v)
        elif isinstance(v, list) and v and isinstance(v[0], O):
            for x in v:
                yield from coords_in(x)


@prop("P14")
def p14(c):
    L = c.L
    I = L.I
    c.rule = ("Interpret __repr__ on abstract objects; the resulting text (symbols as placeholders) is parsed as an expression and must be a constructor call of the object's class whose keywords "
              "show exactly the fields' values.")

    def shows(m, extra=None, own=None):
        o = L.make(m, **(extra or {}), **(own or {}))
        s = I.call(I.models.builtin("repr")[0], [o], {})
        txt, tab = flatten_repr(L, s)
        try:
            node = ast.parse(txt, mode="eval").body
        except SyntaxError as e:
            return f"the representation is not an expression: {txt[max(0, (e.offset or 1) - 60):(e.offset or 1) + 20]!r}"
        d = call_is(L, node, tab, m, m.path)
        if d:
            return d
        if not extra:
            ns = L.I.getattr(o, "ns")
            kw = {k.arg: k.value for k in node.keywords if k.arg}
            if ast.unparse(kw["ns"]) != repr(ns):
                return f"ns shows {ast.unparse(kw['ns'])} instead of {ns!r}"
            if not isinstance(kw["name_spaces"], ast.Dict):
                return f"name_spaces shows {ast.unparse(kw['name_spaces'])}"
            got = {ast.literal_eval(k): ast.literal_eval(v) for k, v in zip(kw["name_spaces"].keys, kw["name_spaces"].values)}
            want = {k: v for k, v in I.getattr(o, "name_spaces").d.values()}
            given = {k: v for k, v in own["name_spaces"].d.values()} if own and "name_spaces" in own else {}
            if got != want or not given.items() <= got.items():
                return f"name_spaces shows {got} instead of {want}"
        if extra:
            sp = [k.value for k in node.keywords if k.arg is None]
            for k, v in extra.items():
                found = any(isinstance(x, ast.Dict) and any(isinstance(q, ast.Constant) and q.value == k and node_is(L, w, tab, v, k) is None
                                                            for q, w in zip(x.keys, x.values)) for x in sp)
                found = found or any(q.arg == k and node_is(L, q.value, tab, v, k) is None for q in node.keywords)
                if not found:
                    return f"the additional keyword {k} is not shown"
        return None

    for path in CLASSES:
        wh = lambda path=path: L.where(path)
        for b in (True, False):
            c.ob(f"{path} all fields, booleans {b}", lambda path=path, b=b: shows(L.model(path, depth=1, boolean=b)), wh)
        c.ob(f"{path} no fields", lambda path=path: shows(O(path, required(L, path))), wh)
        for lab, x in (("zero", 0), ("false", False), ("fraction", 0.0)):
            c.ob(f"{path} additional keyword, {lab}", lambda path=path, x=x: shows(O(path, required(L, path)), {"my_extension": x}), wh)
        c.ob(f"{path} two additional keywords", lambda path=path: shows(L.model(path, depth=0, boolean=True), {"my_extension": L.text("ext"), "second": 5}), wh)
        for lab, kw in (("ns", {"ns": "{urn:own}"}), ("no ns", {"ns": ""}), ("name_spaces", {"name_spaces": I.mkdict([("x", "{urn:x}")])}), ("kml", {"name_spaces": I.mkdict([("kml", "{urn:k}")])})):
            c.ob(f"{path} own {lab}", lambda path=path, kw=kw: shows(O(path, required(L, path)), None, kw), wh)
        c.ob(f"{path} additional keyword", lambda path=path: shows(O(path, required(L, path)), {"my_extension": L.text("ext")}), wh)
    for path, k, f in fields():
        if (path, f.name) == ("geometry.Polygon", "inner_boundaries"):
            continue  # a polygon without outer boundary has no geometry to show
        for lab, v in values(L, path, f):
            c.ob(f"{path}.{f.name} = {lab}", lambda path=path, f=f, v=v: shows(single(L, path, f, v)), lambda path=path, f=f: L.where(path, f.name))
