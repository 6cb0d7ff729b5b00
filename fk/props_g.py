"""P25-P30: emptiness, tracks, lists, guards, public names, time shortcuts."""
import itertools

from common import *
from props_c import geometries
from props_d import other_value
from props_f import desc, model_desc, same_desc

ABSENT = object()


def excn(e):
    c = getattr(e.val, "cls", None)
    return getattr(c, "name", None) or getattr(c, "__name__", None) or str(c)


def isa(L, e, *names):
    """Is the abstract exception an instance of one of the named classes?"""
    c = e.val.cls
    if isinstance(c, Cls):
        chain = [getattr(k, "name", getattr(k, "__name__", None)) for k in c.mro]
    else:
        chain = [k.__name__ for k in getattr(c, "__mro__", (c,))]
    return any(n in chain for n in names)


# ------------------------------------------------------------------- P25
def options(L, path, f, zero=True):
    """(label, value) a field may hold, including falsy and empty ones."""
    nm = f"o.{f.name}"
    if f.kind == "text":
        yield "text", L.text(nm, False)
        yield "''", ""
    elif f.kind in ("float", "int"):
        yield "any number", L.num(nm, f.kind, False)
        yield "0", 0.0 if f.kind == "float" else 0
    elif f.kind == "bool":
        yield "True", True
        yield "False", False
    elif f.kind == "enum":
        for v in ENUMS[f.enum]:
            yield v, E(f.enum, v)
    elif f.kind == "date":
        yield "date", L.date(nm, "datetime")
        yield "year", L.date(nm, "year")
    elif f.kind == "coords":
        yield "2 points", L.coords(nm, 2, 3, False)
        yield "1 point", L.coords(nm, 1, 2, False)
    elif f.kind == "track":
        yield "1 item", [TI(L.date(nm + ".when", "datetime"), L.coords(nm, 1, 3)[0], L.coords(nm + "a", 1, 3)[0])]
    elif f.kind == "obj":
        for k in f.classes:
            yield k, L.model(k, nm, 0, owner=path, boolean=True)
            if (k in ALL_OF or k in ANY_OF) and path != "styles.Pair":
                yield k + " empty", hollow(L, k, nm)
    elif f.kind == "list":
        for k in f.classes:
            yield "1x" + k, [L.model(k, nm + "[0]", 0, owner=path, boolean=True)]
            if k in ALL_OF or k in ANY_OF:
                e = hollow(L, k, nm + "[e]")
                if path in DEEP:
                    yield "empty " + k, [e]
                yield f"empty and full {k}", [e, L.model(k, nm + "[1]", 0, owner=path, boolean=True)]


def hollow(L, path, nm="h", other=False):
    """An object without its defining content (its other fields and ids set when asked)."""
    need = set(ALL_OF.get(path, ()) or ANY_OF.get(path, ()))
    m = L.model(path, nm, 0, boolean=True)
    keep = {}
    for f in CLASSES[path].fields:
        if f.required or f.name in ("id", "target_id") and f.name in m.fields:
            keep[f.name] = m.fields[f.name]
        elif other and f.name not in need and f.name in m.fields:
            keep[f.name] = m.fields[f.name]
    if other and path in ALL_OF and len(need) > 1:  # all defining fields but one
        for n in sorted(need)[1:]:
            if n in m.fields:
                keep[n] = m.fields[n]
    return ordered(O(path, keep))


@prop("P25")
def p25(c):
    L = c.L
    I = L.I
    c.rule = ("For every class: truth value of the object on every subset and kind of value (zero, False and empty members included) of its defining fields equals the documented content rule; "
              "parents write exactly the non-empty children (schema oracle on the pruned model); the verdict follows later changes of the fields and is not influenced by earlier operations.")

    def verdict(m):
        o = L.make(m)
        for i in range(2):
            b = I.truth(o)
            if b != nonempty(m):
                return f"counts as {'non-' if b else ''}empty with {', '.join(m.fields) or 'nothing'} set"
        return None

    for path, k in CLASSES.items():
        wh = lambda path=path: L.where(path, "__bool__")
        need = ALL_OF.get(path) or ANY_OF.get(path)
        c.ob(f"{path} nothing set", lambda path=path: verdict(O(path, required(L, path))), wh)
        c.ob(f"{path} everything set", lambda path=path: verdict(L.model(path, depth=1, boolean=True)), wh)
        if not need:
            for f in k.fields:
                if not f.required:
                    c.ob(f"{path} only {f.name}", lambda path=path, f=f: verdict(single(L, path, f, next(iter(values(L, path, f, rich=False)))[1])), wh)
            continue
        c.ob(f"{path} ids only", lambda path=path: verdict(hollow(L, path)), wh)
        c.ob(f"{path} other content only", lambda path=path: verdict(hollow(L, path, other=True)), wh)
        fs = [k.field(n) for n in need]
        for r in range(len(fs) + 1):
            for sub in itertools.combinations(fs, r):
                def subset(path=path, sub=sub):
                    v = dict(required(L, path))
                    for f in sub:
                        v[f.name] = next(iter(options(L, path, f)))[1]
                    return verdict(ordered(O(path, v)))
                c.ob(f"{path} {'+'.join(f.name for f in sub)}", subset, wh)
        for f in fs:
            for lab, v in options(L, path, f):
                def one(path=path, f=f, v=v, fs=fs):
                    m = {**required(L, path), **{g.name: next(iter(options(L, path, g)))[1] for g in fs if g is not f} , f.name: v} if path in ALL_OF else {**required(L, path), f.name: v}
                    return verdict(ordered(O(path, m)))
                c.ob(f"{path}.{f.name} = {lab}", one, wh)
            if f.kind in ("float", "int", "bool"):
                def zeros(path=path, fs=fs):
                    v = dict(required(L, path))
                    for g in fs:
                        v[g.name] = {"float": 0.0, "int": 0, "bool": False}.get(g.kind) if g.kind in ("float", "int", "bool") else next(iter(options(L, path, g)))[1]
                    return verdict(ordered(O(path, v)))
                c.ob(f"{path} all zero", zeros, wh)

            def history(path=path, f=f, fs=fs):
                """Unset -> set -> unset again; the verdict and output follow."""
                full = dict(required(L, path))
                for g in fs:
                    if path in ALL_OF or g is f:
                        full[g.name] = next(iter(options(L, path, g)))[1]
                m = ordered(O(path, full))
                rest = ordered(O(path, {n: v for n, v in full.items() if n != f.name}))
                o = L.make(rest)
                for step, (mm, val) in enumerate(((rest, ABSENT), (m, L.value(m.fields[f.name])), (rest, None), (m, L.value(m.fields[f.name])))):
                    if val is not ABSENT:
                        if f.kind in ("list", "track", "coords"):
                            val = VList([]) if val is None else val
                        I.setattr(o, f.name, val)
                    L.element(o)
                    b = I.truth(o)
                    if b != nonempty(mm):
                        return f"counts as {'non-' if b else ''}empty after step {step} (unset, set, unset, set {f.name})"
                return None
            if not (path.startswith("geometry.Coordinates") or f.required):
                c.ob(f"{path}.{f.name} set and unset", history, wh)

    def write(m):
        o = L.make(m)
        return L.xdiff(L.element(o), L.expect_xml(pruned(m)))

    for parent, slot, kid in edges():
        wh = lambda parent=parent, slot=slot: L.where(parent, slot.name)
        base = lambda parent=parent, slot=slot, kid=kid: wrap(L, L.model(kid, "n", 0, owner=parent, boolean=True), [(parent, slot)])
        if kid in ALL_OF or kid in ANY_OF:
            for lab, mk in (("empty", lambda kid=kid: O(kid, required(L, kid))), ("only ids", lambda kid=kid: hollow(L, kid)), ("without defining content", lambda kid=kid: hollow(L, kid, other=True))):
                def empty(base=base, slot=slot, mk=mk, parent=parent, kid=kid):
                    m = base()
                    e = mk()
                    m.fields[slot.name] = [e] if slot.kind == "list" else e
                    return write(m)
                c.ob(f"{parent}.{slot.name} = {kid} {lab}", empty, wh)
            if slot.kind == "list":
                def mixed(parent=parent, slot=slot, kid=kid, base=base):
                    m = base()
                    m.fields[slot.name] = [hollow(L, kid), L.model(kid, "n1", 0, owner=parent, boolean=True), O(kid, required(L, kid)),
                                           L.model(kid, "n2", 0, owner=parent, boolean=True), hollow(L, kid, other=True)]
                    return write(m)
                c.ob(f"{parent}.{slot.name} = {kid} empty and full mixed", mixed, wh)
            need = ALL_OF.get(kid) or ANY_OF.get(kid)
            for n in need:
                f = CLASSES[kid].field(n)
                for lab, v in options(L, kid, f):
                    def content(base=base, slot=slot, kid=kid, f=f, v=v):
                        m = base()
                        fs = dict(required(L, kid))
                        if kid in ALL_OF:
                            fs.update({g: next(iter(options(L, kid, CLASSES[kid].field(g))))[1] for g in ALL_OF[kid]})
                        fs[f.name] = v
                        if v == "":
                            del fs[f.name]
                        e = ordered(O(kid, fs))
                        m.fields[slot.name] = [e] if slot.kind == "list" else e
                        return write(m)
                    if f.kind not in ("coords", "track", "obj", "list") or c.thorough:
                        c.ob(f"{parent}.{slot.name} = {kid} with {f.name} = {lab}", content, wh)
        c.ob(f"{parent}.{slot.name} = {kid} full", lambda base=base: write(base()), wh)


# ------------------------------------------------------------------- P26
def track_model(L, n, dim=3, ang=True, nm="t"):
    return [TI(L.date(f"{nm}[{i}].when", "datetime"), L.coords(f"{nm}[{i}].c", 1, dim)[0], L.coords(f"{nm}[{i}].a", 1, 3)[0] if ang is True or ang and i in ang else None) for i in range(n)]


@prop("P26")
def p26(c):
    L = c.L
    I = L.I
    c.rule = ("Interpret Track construction from items, from parallel lists/tuples/one-shot iterators (0-4 points, 2d/3d, no/some/all angles) and from XML; items, whens, coords, angles, geometry and the written "
              "elements must pair the same provenance symbols; both forms together are rejected; MultiTrack keeps non-empty tracks in order.")
    wh = lambda: L.where("gx.Track")

    def tup(coords):
        return tuple(coords)

    def lists(items, form):
        w = [L.mkdate(x.when) for x in items]
        p = [tup(x.coord) for x in items]
        a = [tup(x.angle) for x in items if x.angle is not None]
        mk = {"list": lambda v: VList(list(v)), "tuple": tuple, "iterator": lambda v: VIter(iter(list(v)))}[form]
        kw = {"whens": mk(w), "coords": mk(p)}
        if a:
            kw["angles"] = mk(a)
        return kw

    def check(o, items, what, any_angle=None):
        d = L.diff(I.getattr(o, "track_items"), items, f"{what} track_items")
        if d:
            return d
        ws = L.seq(I.getattr(o, "whens"))
        if len(ws) != len(items):
            return f"{what} whens has {len(ws)} members instead of {len(items)}"
        for i, (g, w) in enumerate(zip(ws, items)):
            d = L.diff_date(g, w.when, f"{what} whens[{i}]")
            if d:
                return d
        d = L.diff(tuple(L.seq(I.getattr(o, "coords"))), [x.coord for x in items], f"{what} coords")
        if d:
            return d
        if any_angle is not None:
            an = L.seq(I.getattr(o, "angles"))
            d = L.diff(tuple(an), [x.angle or (0.0, 0.0, 0.0) for x in items] if any_angle else [], f"{what} angles")
            if d:
                return d
        if len(items) > 1:
            # pygeoif lines leave out a position equal to the one before it
            pos = [x.coord for i, x in enumerate(items) if not i or x.coord != items[i - 1].coord]
            d = same_desc(desc(L, I.getattr(o, "geometry")), ("LineString", tuple(pos)))
            if d:
                return f"{what} geometry: {d}"
        return None

    def zeroed(items):
        return [TI(x.when, x.coord, x.angle or (0.0, 0.0, 0.0)) for x in items]

    def kids(o, items, ang):
        want = []
        for x in items:
            want.append(L.xml("when", text=L.datetext(x.when)))
        cat = lambda v: I.models.cat([y for j, z in enumerate(v) for y in ([" "] if j else []) + [L.lit(None, z)]])
        for x in items:
            want.append(L.xml("coord", "gx", text=cat(x.coord)))
        if ang:
            for x in items:
                want.append(L.xml("angles", "gx", text=cat(x.angle or (0.0, 0.0, 0.0))))
        return L.xdiff(L.element(o), L.xml("Track", "gx", kids=want))

    ns = (0, 1, 2, 3, 4) if not c.thorough else (0, 1, 2, 3, 4, 5, 7)
    for n in ns:
        for dim in (3, 2):
            # from items
            for lab, ang in (("angles", True), ("no angles", False), ("first angle only", {0}), ("last angle only", {n - 1}), ("middle", {1})):
                if n < 2 and isinstance(ang, set):
                    continue

                def items_(n=n, dim=dim, ang=ang):
                    it = track_model(L, n, dim, ang)
                    has = any(x.angle is not None for x in it)
                    o = L.make(O("gx.Track", {"track_items": it}))
                    got = L.seq(I.getattr(o, "track_items"))
                    for i, (g, x) in enumerate(zip(got, it)):
                        if x.angle is None and I.getattr(g, "angle") is not None:
                            return f"item {i} gained an angle"
                    return check(o, it, "built from items:", has) or kids(o, it, has) or \
                        check(L.read("gx.Track", L.tostr(o)), zeroed(it), "read back:", bool(it))
                c.ob(f"{n} items {dim}d {lab}", items_, wh)
            for form in ("list", "tuple", "iterator"):
                for na in sorted({0, 1, n - 1, n}):
                    if not 0 <= na <= n:
                        continue

                    def par(n=n, dim=dim, form=form, na=na):
                        it = track_model(L, n, dim, set(range(na)))
                        o = I.call(L.name("gx.Track"), [], lists(it, form))
                        return check(o, zeroed(it), "built from lists:", bool(n)) or kids(o, it, bool(n))
                    c.ob(f"{n} points {dim}d from {form}s, {na} angles", par, wh)
            for na in sorted({0, 1, n - 1, n}):
                if not 0 <= na <= n:
                    continue

                def xml(n=n, dim=dim, na=na):
                    it = track_model(L, n, dim, set(range(na)))
                    full = L.expect_xml(O("gx.Track", {"track_items": it}))
                    ks = [k for k in full[4] if not k[1].endswith("}angles")] + [k for k in full[4] if k[1].endswith("}angles")][:na]
                    o = L.read("gx.Track", L.doc((*full[:4], tuple(ks), None)))
                    return check(o, zeroed(it), "read:", bool(n)) or kids(o, it, bool(n))
                c.ob(f"{n} points {dim}d read, {na} angles", xml, wh)

                def inter(n=n, dim=dim, na=na):
                    """The order of different kinds of element does not matter for the pairing."""
                    it = track_model(L, n, dim, set(range(na)))
                    full = L.expect_xml(O("gx.Track", {"track_items": it}))
                    w = [k for k in full[4] if k[1].endswith("}when")]
                    p = [k for k in full[4] if k[1].endswith("}coord")]
                    a = [k for k in full[4] if k[1].endswith("}angles")][:na]
                    ks = []
                    for i in range(n):
                        ks += [w[i], p[i], *a[i:i + 1]]
                    o = L.read("gx.Track", L.doc((*full[:4], tuple(ks), None)))
                    return check(o, zeroed(it), "read interleaved:", bool(n))
                if n:
                    c.ob(f"{n} points {dim}d read interleaved, {na} angles", inter, wh)

    # empty position or angle elements balance the lists
    def balance(tag, text, n, at, strict):
        it = track_model(L, n)
        full = L.expect_xml(O("gx.Track", {"track_items": it}))
        ks, j = [], -1
        for k in full[4]:
            if k[1].endswith("}" + tag):
                j += 1
                if j == at:
                    k = ("elem", k[1], k[2], text, k[4], None)
            ks.append(k)
        o = L.read("gx.Track", L.doc((*full[:4], tuple(ks), None)), strict=strict)
        want = [TI(x.when, x.coord, None if i == at else x.angle) for i, x in enumerate(it)] if tag == "angles" else [x for i, x in enumerate(it) if i != at]
        return check(o, zeroed(want), "read:", True)
    for tag in ("angles", "coord"):
        for lab, text in (("empty", None), ("blank", " \n ")):
            for n, at in ((2, 0), (3, 1), (4, 3)) if text else ((3, 1),):
                for strict in (True, False):
                    c.ob(f"{lab} {tag} element {at} of {n} {'strict' if strict else 'lenient'}", lambda tag=tag, text=text, n=n, at=at, strict=strict: balance(tag, text, n, at, strict), wh)

    # positions or angles holding zeros count like any other
    def zero(form):
        d = [L.mkdate(L.date(f"z{i}", "datetime")) for i in range(3)]
        pts = [(0.0, 0.0, 0.0), (1.0, 2.0, 3.0), (0.0, 0.0, 0.0)]
        an = [(0.0, 0.0, 0.0), (4.0, 5.0, 6.0), (0.0, 0.0, 0.0)]
        o = I.call(L.name("gx.Track"), [], {"whens": VList(list(d)), "coords": VList(list(pts)), "angles": VList(list(an))})
        it = [TI(L.date(f"z{i}", "datetime"), pts[i], an[i]) for i in range(3)]
        if form == "build":
            return check(o, it, "zeros:", True)
        return check(L.read("gx.Track", L.tostr(o)), it, "zeros read back:", True)
    c.ob("zero positions and angles", lambda: zero("build"), wh)
    c.ob("zero positions and angles read back", lambda: zero("read"), wh)

    def other_fields(n):
        m = L.model("gx.Track", depth=1, boolean=True)
        m.fields["track_items"] = track_model(L, n)
        return check_trip(L, m)
    for n in (1, 2, 3):
        c.ob(f"{n} points with all other fields", lambda n=n: other_fields(n), wh)

    # both forms
    for kw in (("whens",), ("coords",), ("whens", "coords"), ("whens", "coords", "angles")):
        def both(kw=kw):
            it = track_model(L, 2)
            ks = lists(it, "list")
            ks = {k: ks[k] for k in kw}
            try:
                I.call(L.name("gx.Track"), [], {"track_items": L.value(track_model(L, 2, nm="u")), **ks})
            except AbsExc as e:
                return None if isa(L, e, "ValueError") else f"raises {excn(e)}"
            return "accepts items together with " + ", ".join(kw)
        c.ob(f"items and {'+'.join(kw)}", both, wh)

    # mutation of the items shows everywhere
    def grow():
        it = track_model(L, 2)
        o = L.make(O("gx.Track", {"track_items": it}))
        check(o, it, "before")
        L.element(o)
        extra = track_model(L, 1, nm="x")[0]
        L.meth(I.getattr(o, "track_items"), "append", L.value(extra))
        it2 = it + [extra]
        return check(o, it2, "after append:", True) or kids(o, it2, True)
    c.ob("appended item", grow, wh)

    def twins(n, k):
        """Equal samples and equal tracks are all kept."""
        it = track_model(L, 1) * k
        o = L.make(O("gx.Track", {"track_items": it}))
        d = check(o, it, "equal samples:", True) or kids(o, it, True)
        if d:
            return d
        r = L.read("gx.Track", L.tostr(o))
        d = check(r, it, "equal samples read back:", True)
        if d:
            return d
        t = O("gx.Track", {"track_items": track_model(L, 2)})
        u = O("gx.Track", {"track_items": track_model(L, 2, nm="u")})
        for pat in ([t] * n, [t, u] * n, [t, t, u, t]):
            o = I.call(L.name("gx.MultiTrack"), [], {"tracks": VList([L.make(x) for x in pat])})
            d = L.diff(I.getattr(o, "tracks"), pat, "equal tracks")
            if d:
                return d
            d = L.xdiff(L.element(o), L.xml("MultiTrack", "gx", kids=[L.expect_xml(x) for x in pat]))
            if d:
                return "equal tracks written " + d
            d = same_desc(desc(L, I.getattr(o, "geometry")), ("MultiLineString", tuple(model_desc(x) for x in pat)))
            if d:
                return "geometry of equal tracks: " + d
            d = L.diff(I.getattr(L.read("gx.MultiTrack", L.tostr(o)), "tracks"), pat, "equal tracks read back")
            if d:
                return d
        return None
    for n, k in ((2, 2), (3, 3), (4, 6)):
        c.ob(f"{n} equal tracks, {k} equal samples", lambda n=n, k=k: twins(n, k), wh)

    # multi-track
    wm = lambda: L.where("gx.MultiTrack")
    for pat in ((), (2,), (2, 3), (2, 0, 3), (0, 2), (2, 0), (0, 0), (2, 2, 2), (0, 2, 0, 3, 0)):
        def multi(pat=pat):
            ts = [O("gx.Track", {"track_items": track_model(L, n, nm=f"m{i}")} if n else {}) for i, n in enumerate(pat)]
            full = [t for t in ts if t.fields]
            o = I.call(L.name("gx.MultiTrack"), [], {"tracks": VList([L.make(t) for t in ts])})
            d = L.diff(I.getattr(o, "tracks"), full, "tracks")
            if d:
                return d
            d = L.xdiff(L.element(o), L.xml("MultiTrack", "gx", kids=[L.expect_xml(t) for t in full]))
            if d:
                return "written " + d
            if not full:
                return None if not I.truth(o) else "a multi-track without samples counts as non-empty"
            d = same_desc(desc(L, I.getattr(o, "geometry")), ("MultiLineString", tuple(model_desc(t) for t in full)))
            if d:
                return "geometry: " + d
            r = L.read("gx.MultiTrack", L.tostr(o))
            return L.diff(I.getattr(r, "tracks"), full, "read back tracks")
        c.ob(f"multi-track of {pat}", multi, wm)


# ------------------------------------------------------------------- P27
@prop("P27")
def p27(c):
    L = c.L
    I = L.I
    c.rule = ("Every list field of every class with 0-5 members (thorough: up to 8), one kind and every mixture of two kinds in both orders, equal and empty members included: the written children are the non-empty members in list order, "
              "each once; strict reading of k members of each kind returns each once, in document order per kind.")

    def trip(path, f, ms, base=None):
        m = O(path, {**required(L, path), **(base or {}), f.name: ms})
        if path == "data.SchemaData":
            m.fields.setdefault("schema_url", L.text("o.schema_url"))
        m = ordered(m)
        o = L.make(m)
        p = pruned(m)
        d = L.xdiff(L.element(o), L.expect_xml(p))
        if d:
            return "written " + d
        if all(nonempty(x) for x in ms):
            d = L.diff(I.getattr(o, f.name), ms, f.name)
            if d:
                return d
        r = L.read(path, L.tostr(o))
        L.grouped = True
        try:
            d = L.diff(r, p, path)
        finally:
            L.grouped = False
        return "read back: " + d if d else None

    mk = lambda k, path, i: L.model(k, f"m{i}", 0, owner=path, boolean=bool(i % 2))
    for path, k, f in fields():
        if f.kind != "list":
            continue
        wh = lambda path=path, f=f: L.where(path, f.name)
        for kid in f.classes:
            for n in ((0, 1, 2, 3, 4, 5) if not c.thorough else (0, 1, 2, 3, 4, 5, 6, 8)):
                c.ob(f"{path}.{f.name} {n}x{kid}", lambda path=path, f=f, kid=kid, n=n: trip(path, f, [mk(kid, path, i) for i in range(n)]), wh)

            def same(path=path, f=f, kid=kid):
                a = mk(kid, path, 1)
                return trip(path, f, [a, a, mk(kid, path, 2), a])
            c.ob(f"{path}.{f.name} equal {kid} members", same, wh)
            if kid in ALL_OF or kid in ANY_OF:
                for pat in ("0", "01", "10", "010", "101", "1001"):
                    c.ob(f"{path}.{f.name} {kid} pattern {pat}",
                         lambda path=path, f=f, kid=kid, pat=pat: trip(path, f, [mk(kid, path, i) if ch == "1" else hollow(L, kid, f"h{i}") for i, ch in enumerate(pat)]), wh)
        for a, b in itertools.permutations(f.classes, 2):
            c.ob(f"{path}.{f.name} {a}, {b}, {a}", lambda path=path, f=f, a=a, b=b: trip(path, f, [mk(x, path, i) for i, x in enumerate((a, b, a))]), wh)
        if len(f.classes) > 1:
            c.ob(f"{path}.{f.name} all kinds twice", lambda path=path, f=f: trip(path, f, [mk(x, path, i) for i, x in enumerate([*reversed(f.classes), *f.classes])]), wh)

        for n in (2, 3):
            def grow(path=path, f=f, n=n):
                """Appending and removing members of the list shows in the next output."""
                ms = [mk(f.classes[i % len(f.classes)], path, i) for i in range(n)]
                m = ordered(O(path, {**required(L, path), **({"schema_url": L.text("u")} if path == "data.SchemaData" else {}), f.name: ms[:-1]}))
                o = L.make(m)
                L.element(o)
                lst = I.getattr(o, f.name)
                if not isinstance(lst, VList):
                    raise Skip()
                L.meth(lst, "append", L.make(ms[-1]))
                d = L.xdiff(L.element(o), L.expect_xml(O(path, {**m.fields, f.name: ms})))
                if d:
                    return "after append: written " + d
                L.meth(lst, "pop", 0)
                d = L.xdiff(L.element(o), L.expect_xml(pruned(ordered(O(path, {**m.fields, f.name: ms[1:]})))))
                return "after removal: written " + d if d else None
            c.ob(f"{path}.{f.name} append and remove at {n}", grow, wh)

    # coordinates
    for path in ("geometry.Coordinates", "geometry.LineString", "geometry.LinearRing"):
        for n in (1, 2, 3, 4, 5, 8):
            for dim in (2, 3):
                def co(path=path, n=n, dim=dim):
                    cs = L.coords("q", n, dim)
                    if path == "geometry.LinearRing":
                        cs = (*cs, cs[0])
                    cm = O("geometry.Coordinates", {"coords": cs})
                    return check_trip(L, cm if path == "geometry.Coordinates" else O(path, {"kml_coordinates": cm}))
                c.ob(f"{path} {n} points {dim}d", co, lambda path=path: L.where(path))

    # append() of the container classes
    for path in ("kml.KML", "containers.Document", "containers.Folder"):
        def app(path=path):
            f = CLASSES[path].field("features")
            ms = [mk(k, path, i) for i, k in enumerate([*f.classes, f.classes[0]])]
            o = L.make(O(path, required(L, path)))
            for x in ms:
                L.meth(o, "append", L.make(x))
            d = L.diff(I.getattr(o, "features"), ms, "features")
            return d or L.xdiff(L.element(o), L.expect_xml(O(path, {**required(L, path), "features": ms})))

        def app_equal(path=path):
            """Equal members, and the very same member again, are kept."""
            f = CLASSES[path].field("features")
            for k in f.classes:
                m = mk(k, path, 0)
                o = L.make(O(path, required(L, path)))
                x = L.make(m)
                for y in (x, L.make(m), x):
                    L.meth(o, "append", y)
                d = L.diff(I.getattr(o, "features"), [m, m, m], "features")
                if d:
                    return f"after appending equal members: {d}"
            return None
        c.ob(f"{path}.append of equal members", app_equal, lambda path=path: L.where(path, "append"))
        c.ob(f"{path}.append keeps the order", app, lambda path=path: L.where(path, "append"))
    for path, name, meth in (("data.Schema", "fields", "append"), ("data.SchemaData", "data", "append_data")):
        def app2(path=path, name=name, meth=meth):
            k = CLASSES[path].field(name).classes[0]
            a, b = mk(k, path, 0), mk(k, path, 1)
            o = L.make(O(path, {**required(L, path), name: [a]}))
            for x in (b, a, a):
                L.meth(o, meth, L.make(x))
            d = L.diff(I.getattr(o, name), [a, b, a, a], name)
            return f"after {meth}: {d}" if d else None
        c.ob(f"{path}.{meth} keeps order and multiplicity", app2, lambda path=path, meth=meth: L.where(path, meth))


# ------------------------------------------------------------------- P28
@prop("P28")
def p28(c):
    L = c.L
    I = L.I
    c.rule = ("Every pair of mutually exclusive arguments, with every kind of geometry and KML form, must end in the documented exception on every path; every other use of the same arguments must not; "
              "coordinates of dimension 0, 1, 4 at any index of any geometry or track must make writing raise; a container cannot be appended to itself.")

    def rejects(fn, *names):
        try:
            r = fn()
        except AbsExc as e:
            return None if isa(L, e, *names) else f"raises {excn(e)} instead of {' / '.join(names)}"
        return f"accepted (gives {short(r)})"

    def accepts(fn):
        fn()
        return None

    G = list(geometries(L))
    forms = {
        "geometry.Point": ("kml_coordinates", "geometry.Coordinates"), "geometry.LineString": ("kml_coordinates", "geometry.Coordinates"),
        "geometry.LinearRing": ("kml_coordinates", "geometry.Coordinates"), "geometry.OuterBoundaryIs": ("kml_geometry", "geometry.LinearRing"),
        "geometry.InnerBoundaryIs": ("kml_geometry", "geometry.LinearRing"), "geometry.Polygon": ("outer_boundary", "geometry.OuterBoundaryIs"),
        "geometry.MultiGeometry": ("kml_geometries", "geometry.Point"),
    }

    def plain(path):
        want = {"geometry.OuterBoundaryIs": "geometry.LinearRing", "geometry.InnerBoundaryIs": "geometry.LinearRing"}.get(path, path)
        return [(lab, g) for lab, g, p in G if p == want]

    for path, (arg, kid) in forms.items():
        wh = lambda path=path: L.where(path)
        for lab, g in plain(path):
            def both(path=path, arg=arg, kid=kid, g=g, extra=False):
                km = L.model(kid, "k", 0, owner=path, boolean=True)
                v = VList([L.make(km)]) if arg.endswith("ies") else L.make(km)
                kw = {"geometry": g(), arg: v}
                if extra:
                    kw.update({f.name: L.value(L.simple(f, "o")) for f in CLASSES[path].fields if f.kind in ("text", "bool", "enum")})
                return rejects(lambda: I.call(L.name(path), [], kw), "GeometryError")
            c.ob(f"{path}: {lab} and {arg}", both, wh)
            c.ob(f"{path}: {lab} and {arg} with other fields", lambda both=both: both(extra=True), wh)
            c.ob(f"{path}: {lab} alone", lambda path=path, g=g: accepts(lambda: I.call(L.name(path), [], {"geometry": g()})), wh)
            if path == "geometry.Polygon":
                for inner in (1, 2):
                    def inn(path=path, g=g, inner=inner, outer=False):
                        kw = {"geometry": g(), "inner_boundaries": VList([L.make(L.model("geometry.InnerBoundaryIs", f"i{i}", 0, boolean=True)) for i in range(inner)])}
                        if outer:
                            kw["outer_boundary"] = L.make(L.model("geometry.OuterBoundaryIs", "x", 0, boolean=True))
                        return rejects(lambda: I.call(L.name(path), [], kw), "GeometryError")
                    c.ob(f"{path}: {lab} and {inner} inner_boundaries", inn, wh)
                    c.ob(f"{path}: {lab} and outer_boundary and {inner} inner_boundaries", lambda inn=inn: inn(outer=True), wh)

    # geometries without content are geometries too
    geo = lambda n: I.import_module("pygeoif.geometry").env.vars[n]
    blank = {"geometry.Point": lambda: I.call(geo("Point"), [float("nan"), float("nan")], {}), "geometry.LineString": lambda: I.call(geo("LineString"), [VList([])], {}),
             "geometry.LinearRing": lambda: I.call(geo("LinearRing"), [VList([])], {}), "geometry.Polygon": lambda: I.call(geo("Polygon"), [VList([])], {}),
             "geometry.MultiGeometry": lambda: I.call(geo("GeometryCollection"), [VList([])], {})}
    for path, (arg, kid) in forms.items():
        wh = lambda path=path: L.where(path)
        g = blank[{"geometry.OuterBoundaryIs": "geometry.LinearRing", "geometry.InnerBoundaryIs": "geometry.LinearRing"}.get(path, path)]
        for filled in (True, False):
            def hollow(path=path, arg=arg, kid=kid, g=g, filled=filled):
                km = L.model(kid, "k", 0, owner=path, boolean=True) if filled else O(kid, dict(required(L, kid)))
                v = VList([L.make(km)]) if arg.endswith("ies") else L.make(km)
                return rejects(lambda: I.call(L.name(path), [], {"geometry": g(), arg: v}), "GeometryError")
            c.ob(f"{path}: empty geometry and {'filled' if filled else 'empty'} {arg}", hollow, wh)
        for lab, g2 in plain(path)[:2]:
            def hollow2(path=path, arg=arg, kid=kid, g2=g2):
                v = L.make(O(kid, dict(required(L, kid))))
                return rejects(lambda: I.call(L.name(path), [], {"geometry": g2(), arg: VList([v]) if arg.endswith("ies") else v}), "GeometryError")
            c.ob(f"{path}: {lab} and empty {arg}", hollow2, wh)
    # placemarks
    wp = lambda: L.where("features.Placemark")
    kgs = CLASSES["features.Placemark"].field("kml_geometry").classes
    for lab, g, _ in G:
        for kid in kgs:
            c.ob(f"Placemark: {lab} and {kid}",
                 lambda g=g, kid=kid: rejects(lambda: I.call(L.name("features.Placemark"), [], {"geometry": g(), "kml_geometry": L.make(L.model(kid, "k", 0, owner="features.Placemark", boolean=True))}), "ValueError", "GeometryError"), wp)
        c.ob(f"Placemark: {lab} alone", lambda g=g: accepts(lambda: I.call(L.name("features.Placemark"), [], {"geometry": g()})), wp)
    for kid in kgs:
        c.ob(f"Placemark: {kid} alone", lambda kid=kid: accepts(lambda: L.make(O("features.Placemark", {"kml_geometry": L.model(kid, "k", 0, owner="features.Placemark", boolean=True)}))), wp)

    # tracks
    wt = lambda: L.where("gx.Track")
    for n in (1, 2, 3):
        for kw in (("whens",), ("coords",), ("whens", "coords"), ("whens", "coords", "angles")):
            for form in ("list", "tuple"):
                def tr(n=n, kw=kw, form=form):
                    it = track_model(L, n)
                    mk = tuple if form == "tuple" else lambda v: VList(list(v))
                    ks = {"whens": mk([L.mkdate(x.when) for x in it]), "coords": mk([x.coord for x in it]), "angles": mk([x.angle for x in it])}
                    return rejects(lambda: I.call(L.name("gx.Track"), [], {"track_items": L.value(track_model(L, 1, nm="u")), **{k: ks[k] for k in kw}}), "ValueError")
                c.ob(f"Track: items and {n} {'+'.join(kw)} as {form}", tr, wt)

    # containers
    for path in ("kml.KML", "containers.Document", "containers.Folder"):
        def self_append(path=path, n=0):
            o = L.make(L.model(path, depth=1 if n else 0, boolean=True))
            before = len(L.seq(I.getattr(o, "features")))
            r = rejects(lambda: L.meth(o, "append", o), "ValueError")
            if r:
                return r
            after = L.seq(I.getattr(o, "features"))
            return None if len(after) == before else "the container holds itself after the rejected append"
        if path != "kml.KML":
            c.ob(f"{path} appended to itself", self_append, lambda path=path: L.where(path, "append"))
            c.ob(f"filled {path} appended to itself", lambda self_append=self_append: self_append(n=1), lambda path=path: L.where(path, "append"))

            def equal_ok(path=path):
                """Only the very same object is refused, an equal one is not."""
                a, b = L.make(O(path, {"id": "x"})), L.make(O(path, {"id": "y"}))
                L.meth(a, "append", b)
                if len(L.seq(I.getattr(a, "features"))) != 1:
                    return "another container is not appended"
                for fl in ({}, {"id": "x"}, {"name": L.text("n")}):
                    a, b = L.make(O(path, dict(fl))), L.make(O(path, dict(fl)))
                    for i in (1, 2):
                        L.meth(a, "append", b)
                        if len(L.seq(I.getattr(a, "features"))) != i or L.seq(I.getattr(a, "features"))[-1] is not b:
                            return "an equal container is not appended"
                return None
            c.ob(f"{path} appended to another", equal_ok, lambda path=path: L.where(path, "append"))

    # schema without id
    ws = lambda: L.where("data.Schema")
    for lab, kw in (("nothing", {}), ("None", {"id": None}), ("empty", {"id": ""}), ("blank", {"id": "   "}), ("white space", {"id": "\n\t"}), ("name only", {"name": "n"}), ("target id only", {"target_id": "t"})):
        c.ob(f"Schema with {lab}", lambda kw=kw: rejects(lambda: I.call(L.name("data.Schema"), [], dict(kw)), "KMLSchemaError"), ws)

    def schema_fields():
        return rejects(lambda: I.call(L.name("data.Schema"), [], {"fields": VList([L.make(L.model("data.SimpleField", "f", 0))])}), "KMLSchemaError")
    c.ob("Schema with fields only", schema_fields, ws)
    c.ob("Schema with id", lambda: accepts(lambda: I.call(L.name("data.Schema"), [], {"id": L.text("i")})), ws)

    # unsupported geometry
    wg = lambda: L.where("geometry.create_kml_geometry")
    for lab, v in (("text", lambda: "POINT (0 0)"), ("None", lambda: None), ("number", lambda: 5), ("list", lambda: VList([(0.0, 0.0)])), ("KML geometry", lambda: L.make(L.model("geometry.Coordinates", "k", 0)))):
        c.ob(f"create_kml_geometry({lab})", lambda v=v: rejects(lambda: I.call(L.name("geometry.create_kml_geometry"), [v()], {}), "KMLWriteError", "AttributeError", "TypeError", "GeometryError", "NotImplementedError"), wg)

    # dimension of written coordinates
    for path in ("geometry.Coordinates", "geometry.Point", "geometry.LineString", "geometry.LinearRing", "geometry.Polygon", "geometry.MultiGeometry", "features.Placemark", "kml.KML"):
        for bad in (1, 4, 0, 5):
            for n in (1, 2, 3):
                for at in range(n):
                    for prec in (None, 2):
                        def dimcheck(path=path, bad=bad, n=n, at=at, prec=prec):
                            cs = [L.coords(f"q{i}", 1, bad if i == at else 3)[0] if bad <= 3 or i != at else tuple(L.num(f"q{i}{j}") for j in range(bad)) for i in range(n)]
                            co = I.call(L.name("geometry.Coordinates"), [], {"coords": VList(cs)})
                            o = co
                            if path in ("geometry.Point", "geometry.LineString", "geometry.LinearRing"):
                                o = I.call(L.name(path), [], {"kml_coordinates": co})
                            elif path != "geometry.Coordinates":
                                if path == "geometry.Polygon":
                                    lr = I.call(L.name("geometry.LinearRing"), [], {"kml_coordinates": co})
                                    o = I.call(L.name(path), [], {"outer_boundary": I.call(L.name("geometry.OuterBoundaryIs"), [], {"kml_geometry": lr})})
                                else:
                                    ls = I.call(L.name("geometry.LineString"), [], {"kml_coordinates": co})
                                    if path == "geometry.MultiGeometry":
                                        o = I.call(L.name(path), [], {"kml_geometries": VList([ls])})
                                    else:
                                        o = I.call(L.name("features.Placemark"), [], {"kml_geometry": ls})
                                        if path == "kml.KML":
                                            o = I.call(L.name(path), [], {"features": VList([o])})
                            if path in ("geometry.Coordinates", "geometry.Point", "geometry.LineString", "geometry.LinearRing"):
                                return rejects(lambda: L.element(o, precision=prec), "KMLWriteError")
                            # a parent may leave the unusable geometry out, but never writes it
                            try:
                                e = snapshot(L.element(o, precision=prec))
                            except AbsExc as x:
                                return None if isa(L, x, "KMLWriteError") else f"raises {excn(x)} instead of KMLWriteError"
                            todo = [e]
                            while todo:
                                x = todo.pop()
                                if x[1].endswith("}coordinates"):
                                    return f"writes coordinates {short(x[3])}"
                                todo += x[4]
                            return None
                        if prec is None or path == "geometry.Coordinates":
                            c.ob(f"{path} {n} points, dimension {bad} at {at}, precision {prec}", dimcheck, lambda path=path: L.where(path))


# ------------------------------------------------------------------- P29
@prop("P29")
def p29(c):
    L = c.L
    I = L.I
    c.rule = ("Module tables of the interpreted package: every documented name is bound in the package, listed and identical with the class of its module; every __all__ entry of every module is bound; every element "
              "class has the tag, namespace and constructor fields of the element it is named after.")
    home = {c_.name: p for p, c_ in CLASSES.items() if c_.mod != "atom"}
    wp = "fastkml/__init__.py"
    pkg = L.mod("fastkml")

    def allof(mod):
        a = mod.env.vars.get("__all__")
        return None if a is None else [I.resolve(x) for x in L.seq(a)]

    for n in spec.PUBLIC:
        def pub(n=n):
            if n not in pkg.env.vars:
                return f"fastkml.{n} does not exist"
            a = allof(pkg)
            if a is not None and n not in a:
                return f"{n} is not listed in fastkml.__all__"
            v = pkg.env.vars[n]
            p = spec.PUBLIC_AS.get(n) or {"Link": "links.Link"}.get(n) or home.get(n)
            if p:
                if v is not L.name(p):
                    return f"fastkml.{n} is {short(v)}, not fastkml.{p}"
            else:
                m = {"KmlDateTime": "times", "create_kml_geometry": "geometry", "find": "utils", "find_all": "utils", "get_schema_parser": "validator", "validate": "validator"}[n]
                if v is not L.name(f"{m}.{n}"):
                    return f"fastkml.{n} is {short(v)}, not fastkml.{m}.{n}"
                if isinstance(v, Fn) and v.name != n:
                    return f"fastkml.{n} is the function {v.name}"
            return None
        c.ob(f"fastkml.{n}", pub, wp)

    def listed(modname):
        m = L.mod(modname)
        a = allof(m)
        if a is None:
            return None
        for n in a:
            if n not in m.env.vars:
                return f"{modname}.__all__ lists {n}, which does not exist"
        if len(set(a)) != len(a):
            return f"{modname}.__all__ lists a name twice"
        return None
    c.ob("fastkml.__all__", lambda: listed("fastkml"), wp)
    mods = sorted({p.rsplit(".", 1)[0] for p in CLASSES} | set("base config enums exceptions geometry gx helpers kml_base mixins registry times types utils validator about".split()))
    for m in mods:
        c.ob(f"fastkml.{m}.__all__", lambda m=m: listed("fastkml." + m), f"fastkml/{m}.py")
    for n in ("config", "enums", "exceptions", "registry", "times", "utils", "validator"):
        pass

    for path, k in CLASSES.items():
        wh = lambda path=path: L.where(path)

        def ident(path=path, k=k):
            cl = L.name(path)
            if cl.name != k.name:
                return f"fastkml.{path} is the class {cl.name}"
            mod = L.mod("fastkml." + k.mod)
            a = allof(mod)
            if a is not None and k.name not in a:
                return f"{k.name} is not listed in fastkml.{k.mod}.__all__"
            t = I.call(I.getattr(cl, "get_tag_name"), [], {})
            if t != k.tag:
                return f"tag is {short(t)} instead of {k.tag}"
            o = L.make(O(path, required(L, path)))
            if I.getattr(o, "ns") != "{%s}" % URI[k.ns] and I.getattr(o, "ns") != URI[k.ns]:
                return f"namespace is {short(I.getattr(o, 'ns'))} instead of {URI[k.ns]}"
            e = L.element(o)
            return None if e.tag == "{%s}%s" % (URI[k.ns], k.tag) else f"element is {short(e.tag)}"
        c.ob(f"{path} tag and namespace", ident, wh)

        def accepted(path=path, k=k):
            m = L.model(path, depth=1, boolean=True)
            return L.diff(L.make(m), m, path)
        c.ob(f"{path} accepts its fields", accepted, wh)

    # enumerations
    for en, vals in ENUMS.items():
        def enum(en=en, vals=vals):
            cl = L.name("enums." + en)
            if not isinstance(cl, Cls) or not cl.enum:
                return f"enums.{en} is no enumeration"
            for v in vals:
                if L.enum(en, v) is None:
                    return f"enums.{en} has no member with value {v}"
            return None
        c.ob(f"enums.{en}", enum, lambda en=en: L.where("enums." + en))
    for en, names in (("Verbosity", ("terse", "normal", "verbose")), ("DateTimeResolution", ("datetime", "date", "year_month", "year"))):
        def mem(en=en, names=names):
            cl = L.name("enums." + en)
            for n in names:
                m = cl.members.get(n)
                if m is None:
                    return f"enums.{en} has no member {n}"
                if m.attrs.get("_name_") != n:
                    return f"enums.{en}.{n} is an alias of {m.attrs.get('_name_')}"
            return None
        c.ob(f"enums.{en}", mem, lambda en=en: L.where("enums." + en))

    # exceptions
    for n, base in (("KMLParseError", "FastKMLError"), ("KMLWriteError", "FastKMLError"), ("KMLSchemaError", "FastKMLError"), ("GeometryError", "FastKMLError")):
        def exc(n=n, base=base):
            cl = L.name("exceptions." + n)
            chain = [getattr(k, "name", getattr(k, "__name__", None)) for k in cl.mro]
            if base not in chain:
                return f"{n} is no {base}"
            return None if cl.name == n else f"exceptions.{n} is {cl.name}"
        c.ob(f"exceptions.{n}", exc, lambda n=n: L.where("exceptions." + n))


# ------------------------------------------------------------------- P30
@prop("P30")
def p30(c):
    L = c.L
    I = L.I
    c.rule = ("For every class with a times slot: time_stamp, begin and end are the provenance symbols of the attached TimeStamp/TimeSpan (each resolution, each subset of begin/end), None otherwise, after construction, "
              "after reading, and after replacing or changing the attached object.")
    hosts = [p for p, k in CLASSES.items() if any(f.name == "times" for f in k.fields)]

    def want(m):
        if m is None:
            return {}
        f = m.fields
        if m.path == "times.TimeStamp":
            return {"time_stamp": f.get("timestamp")}
        return {"begin": f.get("begin"), "end": f.get("end")}

    def look(o, m, what):
        w = want(m)
        for n in ("time_stamp", "begin", "end"):
            d = L.diff(I.getattr(o, n), w.get(n), f"{what}{n}")
            if d:
                return d
        return None

    def stamp(res="datetime", nm="ts"):
        return O("times.TimeStamp", {"timestamp": L.date(nm, res)})

    def span(b="date", e="date", nm="sp"):
        f = {}
        if b:
            f["begin"] = L.date(nm + ".b", b)
        if e:
            f["end"] = L.date(nm + ".e", e)
        return O("times.TimeSpan", f)

    RES_ = ("year", "year_month", "date", "datetime")
    for path in hosts:
        wh = lambda path=path: L.where(path, "times")
        cases = [("nothing", lambda: None)] + [(f"stamp {r}", lambda r=r: stamp(r)) for r in RES_]
        cases += [(f"span {b}-{e}", lambda b=b, e=e: span(b, e)) for b in (None, *RES_) for e in (None, *RES_) if b or e]
        cases += [("empty stamp", lambda: O("times.TimeStamp", {})), ("empty span", lambda: O("times.TimeSpan", {}))]
        for lab, mk in cases:
            def built(path=path, mk=mk):
                t = mk()
                o = L.make(O(path, {"times": t} if t else {}))
                r = look(o, t, "")
                if r:
                    return r
                if t is None or not nonempty(t):
                    return None
                return look(L.read(path, L.tostr(o)), t, "read back: ")
            c.ob(f"{path} {lab}", built, wh)
        for a, b in itertools.permutations((0, 1, 2, 3, 4), 2):
            def change(path=path, a=a, b=b):
                mks = (lambda: None, lambda: stamp(nm="p"), lambda: stamp("date", nm="q"), lambda: span(nm="r"), lambda: span("year", None, nm="s"))
                ta, tb = mks[a](), mks[b]()
                o = L.make(O(path, {"times": ta} if ta else {}))
                r = look(o, ta, "")
                if r:
                    return r
                I.setattr(o, "times", L.value(tb) if tb else None)
                r = look(o, tb, "after replacing: ")
                if r:
                    return r
                I.setattr(o, "times", L.value(ta) if ta else None)
                return look(o, ta, "after restoring: ")
            c.ob(f"{path} times {a} -> {b}", change, wh)

        def inner(path=path):
            o = L.make(O(path, {"times": stamp()}))
            look(o, stamp(), "")
            t2 = stamp("year", "z")
            I.setattr(I.getattr(o, "times"), "timestamp", L.mkdate(t2.fields["timestamp"]))
            r = look(o, t2, "after changing the time stamp: ")
            if r:
                return r
            o = L.make(O(path, {"times": span()}))
            look(o, span(), "")
            s2 = span("year", "datetime", "y")
            for n in ("begin", "end"):
                I.setattr(I.getattr(o, "times"), n, L.mkdate(s2.fields[n]))
            r = look(o, s2, "after changing the time span: ")
            if r:
                return r
            I.setattr(I.getattr(o, "times"), "begin", None)
            return look(o, O("times.TimeSpan", {"end": s2.fields["end"]}), "after clearing begin: ")
        c.ob(f"{path} changed time object", inner, wh)

        def filled(path=path):
            for mk, kind in ((stamp, "times.TimeStamp"), (span, "times.TimeSpan")):
                for how in ("construction", "assignment"):
                    t = L.make(O(kind, {}))
                    if how == "construction":
                        o = I.call(L.name(path), [], {**{n: L.value(v) for n, v in required(L, path).items()}, "times": t})
                    else:
                        o = L.make(O(path, dict(required(L, path))))
                        I.setattr(o, "times", t)
                    r = look(o, None, "empty time object: ")
                    if r:
                        return r
                    m = mk()
                    for n, v in m.fields.items():
                        I.setattr(t, n, L.mkdate(v))
                    r = look(o, m, f"time object attached by {how} and filled later: ")
                    if r:
                        return r
            return None
        c.ob(f"{path} time object filled later", filled, wh)

        def two(path=path):
            a = L.make(O(path, {"times": stamp(nm="one")}))
            b = L.make(O(path, {"times": span(nm="two")}))
            d = L.make(O(path, {}))
            return look(a, stamp(nm="one"), "") or look(b, span(nm="two"), "") or look(d, None, "")
        c.ob(f"{path} independent objects", two, wh)
