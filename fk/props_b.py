"""P04-P07: reading malformed values, spellings, verbosity."""
from common import *


def junk(L, name="junk"):
    return L.sym(name, "str", "truthy", "stripped", "nospace", "nocomma", "garbage", "distinct", "atom")


def num_text(L, name, ty="float"):
    return L.lit(None, L.num(name, ty))


def near_misses(enum, some=None):
    """Texts that resemble a keyword of the enumeration but are none in any letter case."""
    vals = ENUMS[enum]
    low = {x.lower() for x in vals}
    out = []
    for v in some or vals:
        snake = "".join("_" + ch.lower() if ch.isupper() else ch for ch in v)
        out += [v[:-1], v[:3], v + "x", v + "s", "x" + v, v[1:], v[:2] + " " + v[2:], snake, snake.replace("_", "-"), snake.replace("_", " "), v + "_", f"'{v}'", v + "," + v, enum + "." + v]
    out += [x for e in sorted(ENUMS) if e != enum for x in ENUMS[e][:1]]
    return [t for t in dict.fromkeys(out) if t.strip() and t.lower().strip() not in low]


def bad_texts(L, kind, f=None, many=False):
    """(label, text) of non-blank text no conversion of this kind accepts."""
    cat = L.I.models.cat
    yield "junk", junk(L)
    if kind in ("float", "int", "bool"):
        yield "two numbers", cat([num_text(L, "bad1"), " ", num_text(L, "bad2")])
        for t in ("1,5", "12m", "1.2.3", "--1", "+-2", "1e", "0x1F", "ten", "None", "1/2", "1 000", "#5", "1..5", "5%", "(3)", "on", "off", "t"):
            yield repr(t), t
    if kind in ("float", "int"):
        yield "truth value", "true"
    if kind == "int":
        for t in ("1.5", "1.0", "2.", "1e3", ".5", "-0.5", "0.0", "1E0", "inf", "nan"):
            yield repr(t), t
    if kind == "bool":
        for t in ("yes", "no", "y", "n", "truefalse", "tru", "falsee", "true1"):
            yield repr(t), t
    if kind == "enum":
        for t in ("''", "1", "0", "None"):
            yield repr(t), t
        if f is not None:
            ts = near_misses(f.enum)
            top = max(ENUMS[f.enum], key=lambda v: (sum(ch.isupper() for ch in v), len(v)))
            some = near_misses(f.enum, [top])
            for t in ts if many else dict.fromkeys(ts[:3] + some):
                yield repr(t), t
    if kind == "date":
        for t in ("2001-13", "2001-00", "2001-01-32", "2001-02-30", "2001-01-00", "2001-04-31", "0000", "0000-01", "200113"):
            yield repr(t), t
    if kind == "coords":
        a, b = num_text(L, "cx"), num_text(L, "cy")
        yield "junk component", cat([a, ",", junk(L)])
        yield "junk first component", cat([junk(L), ",", b])
        yield "junk altitude", cat([a, ",", b, ",", junk(L)])
        yield "empty component", cat([a, ",,", b])
        yield "trailing comma", cat([a, ",", b, ","])
        yield "leading comma", cat([",", a, ",", b])
        for n in (2, 3, 5, 9):
            for i in sorted({0, n // 2, n - 1}):
                parts = []
                for j in range(n):
                    parts += [" " if j else "", a, ",", junk(L) if i == j else b]
                yield f"junk in tuple {i + 1} of {n}", cat(parts)
        for t in ("1;2", "1,2;3,4", "1,2 3,four", "1.2.3,4", "1,2,3m", "1,2,None", "N50,E10", "1,,3", "10\u00b0,20"):
            yield repr(t), t


def bad_doc(L, m, f, text):
    """Schema-conforming document for model m, with field f's text replaced."""
    def over(mm, ff, v):
        if mm is m and ff is f:
            if ff.place == "attr":
                return "attr", text
            if ff.place == "node":
                return "text", text
            return "kids", [L.xml(ff.xml, uri=None if ff.ns == "kml" and CLASSES[m.path].ns in ("kml", "gx") else URI[ff.ns if ff.ns != "kml" else CLASSES[m.path].ns], text=text)]
        return None
    return over


def sub_doc(L, root, m, f, text):
    return L.doc(L.expect_xml(root, over=bad_doc(L, m, f, text)))


TYPES = ("float", "int", "bool", "enum", "date", "coords")


def full(L, path, f, owner=None):
    m = L.model(path, "n", 0, owner=owner, boolean=True)
    if f.name not in m.fields:
        m.fields[f.name] = next(v for _, v in values(L, path, f))
    return ordered(m)


def must_reject(L, path, doc):
    try:
        r = L.read(path, doc)
    except AbsExc as e:
        n = getattr(e.val.cls, "name", None) or getattr(e.val.cls, "__name__", str(e.val.cls))
        err = L.name("exceptions.KMLParseError")
        if L.I.issub(e.val.cls, err):
            return None
        raise Fail(f"{n} escapes instead of KMLParseError", e.loc)
    return f"strict reading accepts the value, giving {short(r)}"


def track_docs(L, sym):
    """Track XML with one malformed part: yields (label, snapshot, index of the bad sample, part)."""
    for part, tag, i, size in [(p, t, i, z) for p, t in (("when", "when"), ("coord", "coord"), ("angle", "angles")) for z in (1, 3, 7) for i in (range(z) if z < 7 else (2, 6))]:
        its = [TI(L.date(f"t{i}", "datetime"), L.coords(f"t{i}.c", 1, 3)[0], L.coords(f"t{i}.a", 1, 3)[0]) for i in range(size)]
        if True:
            m = O("gx.Track", {"track_items": its})
            s = L.expect_xml(m)
            kids, n = [], -1
            for k in s[4]:
                if k[1].endswith("}" + tag):
                    n += 1
                    if n == i:
                        k = ("elem", k[1], k[2], sym, k[4], None)
                kids.append(k)
            yield part, i, its, (s[0], s[1], s[2], s[3], tuple(kids), None)


def track_texts(L):
    """(part, label, text): texts that are no time, position or angle of a track."""
    cat = L.I.models.cat
    n = lambda k: cat([y for j in range(k) for y in ([" "] if j else []) + [num_text(L, f"tn{j}")]])
    for part, dims in (("coord", (1, 4, 5)), ("angle", (4, 6))):
        for k in dims:
            yield part, f"{k} numbers", n(k)
        yield part, "junk component", cat([n(2), " ", junk(L)])
        yield part, "junk first component", cat([junk(L), " ", n(2)])
        for t in ("1,2,3", "1 2 x", "1.2.3 4 5", "1 2 3m", "None"):
            yield part, repr(t), t
    for _, (lab, t) in zip(range(10), bad_texts(L, "date")):
        yield "when", lab, t


def crowded(L, parent, slot, kid, tf):
    """A parent with all its fields set, whose slot holds kid."""
    m = full(L, kid, tf, parent)
    w = L.model(parent, "w", 1, boolean=True)
    w.fields[slot.name] = [L.model(kid, "m", 0, owner=parent, boolean=True), m] if slot.kind == "list" else m
    return ordered(w), m


@prop("P04")
def p04(c):
    L = c.L
    c.rule = ("Schema-conforming abstract document with one typed value replaced by text that cannot be converted; from_string in strict mode must raise KMLParseError. "
              "Per field at the root, through every parent/child edge, and at the end of a containment chain from the kml root.")
    for path, k, f in fields():
        if f.kind not in TYPES:
            continue
        for lab, text in bad_texts(L, f.kind, f, c.thorough):
            def root(path=path, f=f, text=text):
                m = full(L, path, f, "geometry.LineString")
                return must_reject(L, path, sub_doc(L, m, m, f, text))
            c.ob(f"{path}.{f.name} <- {lab}", root, lambda path=path, f=f: L.where(path, f.name))

        def alone(path=path, f=f):
            m = single(L, path, f, next(v for _, v in values(L, path, f)))
            return must_reject(L, path, sub_doc(L, m, m, f, junk(L)))
        c.ob(f"{path}.{f.name} alone <- junk", alone, lambda path=path, f=f: L.where(path, f.name))
        ch = chain_to(path)
        if ch:
            def deep(path=path, f=f, ch=ch):
                m = full(L, path, f, ch[-1][0])
                return must_reject(L, "kml.KML", sub_doc(L, wrap(L, m, ch), m, f, junk(L)))
            c.ob(f"{path}.{f.name} <- junk below {'/'.join(p for p, _ in ch)}", deep, lambda path=path, f=f: L.where(path, f.name))
    for parent, slot, kid in edges():
        tf = next((f for f in CLASSES[kid].fields if f.kind in TYPES), None)
        if tf is None:
            continue

        def edge(parent=parent, slot=slot, kid=kid, tf=tf):
            m = full(L, kid, tf, parent)
            return must_reject(L, parent, sub_doc(L, wrap(L, m, [(parent, slot)]), m, tf, junk(L)))
        c.ob(f"{parent}.{slot.name} -> {kid}.{tf.name} <- junk", edge, lambda parent=parent, slot=slot: L.where(parent, slot.name))
        c.ob(f"{parent} with all fields, {slot.name} -> {kid}.{tf.name} <- junk",
             lambda parent=parent, slot=slot, kid=kid, tf=tf: (lambda w, m: must_reject(L, parent, sub_doc(L, w, m, tf, junk(L))))(*crowded(L, parent, slot, kid, tf)), lambda parent=parent, slot=slot: L.where(parent, slot.name))
        if slot.kind == "list":
            def second(parent=parent, slot=slot, kid=kid, tf=tf, at=1, n=2):
                m = full(L, kid, tf, parent)
                w = wrap(L, m, [(parent, slot)])
                w.fields[slot.name] = [m if i == at else L.model(kid, f"m{i}", 0, owner=parent, boolean=True) for i in range(n)]
                return must_reject(L, parent, sub_doc(L, w, m, tf, junk(L)))
            for at, n in ((1, 2), (0, 3), (4, 5), (6, 8)):
                c.ob(f"{parent}.{slot.name}[{at}] of {n} -> {kid}.{tf.name} <- junk", lambda second=second, at=at, n=n: second(at=at, n=n), lambda parent=parent, slot=slot: L.where(parent, slot.name))
    for part, i, its, s in track_docs(L, junk(L)):
        c.ob(f"gx.Track {part}[{i}] of {len(its)} <- junk", lambda s=s: must_reject(L, "gx.Track", L.doc(s)), lambda: L.where("gx.Track", "track_items"))
    for tp, lab, text in track_texts(L):
        for part, i, its, s in track_docs(L, text):
            if part == tp and (c.thorough or len(its) == 3 and i == 1):
                c.ob(f"gx.Track {part}[{i}] of {len(its)} <- {lab}", lambda s=s: must_reject(L, "gx.Track", L.doc(s)), lambda: L.where("gx.Track", "track_items"))


def lenient(L, path, doc, expect, logged=True):
    p = L.I.p
    n0 = len(p.log)
    r = L.read(path, doc, strict=False)
    L.grouped = True
    try:
        d = L.diff(r, expect, path)
    finally:
        L.grouped = False
    if d:
        return d
    if logged and not any(x[0] == "log" for x in p.log[n0:]):
        return "the skipped value is not logged"
    return None


@prop("P05")
def p05(c):
    L = c.L
    c.rule = ("Same documents as P04 plus blank and absent values, read with strict=False: no exception on any path, the bad field unset, a log call made, "
              "and every other field equal to the symbol in the document.")

    def without(root, m, f):
        """root's model with m's field f unset."""
        if root is m:
            return O(m.path, {k: v for k, v in m.fields.items() if k != f.name})
        out = {}
        for k, v in root.fields.items():
            if isinstance(v, O):
                v = without(v, m, f)
            elif isinstance(v, list):
                v = [without(x, m, f) if isinstance(x, O) else x for x in v]
            out[k] = v
        return O(root.path, out)

    for path, k, f in fields():
        if f.kind not in TYPES:
            continue
        for lab, text in bad_texts(L, f.kind, f, c.thorough):
            def root(path=path, f=f, text=text):
                m = full(L, path, f, "geometry.LineString")
                return lenient(L, path, sub_doc(L, m, m, f, text), without(m, m, f))
            c.ob(f"{path}.{f.name} <- {lab}", root, lambda path=path, f=f: L.where(path, f.name))
        for lab, text in (("empty", None), ("blank", "  \n ")) if f.place != "attr" else (("empty", ""),):
            for strict in (False, True):
                def blank(path=path, f=f, text=text, strict=strict):
                    m = full(L, path, f, "geometry.LineString")
                    want = without(m, m, f)
                    r = L.read(path, sub_doc(L, m, m, f, text), strict=strict)
                    return L.diff(r, want, path)
                if f.kind == "date" and strict:
                    continue
                c.ob(f"{path}.{f.name} <- {lab} ({'strict' if strict else 'lenient'})", blank, lambda path=path, f=f: L.where(path, f.name))

        def alone(path=path, f=f):
            m = single(L, path, f, next(v for _, v in values(L, path, f)))
            return lenient(L, path, sub_doc(L, m, m, f, junk(L)), without(m, m, f))
        c.ob(f"{path}.{f.name} alone <- junk", alone, lambda path=path, f=f: L.where(path, f.name))
        ch = chain_to(path)
        if ch:
            def deep(path=path, f=f, ch=ch):
                m = full(L, path, f, ch[-1][0])
                w = wrap(L, m, ch)
                return lenient(L, "kml.KML", sub_doc(L, w, m, f, junk(L)), without(w, m, f))
            c.ob(f"{path}.{f.name} <- junk below {'/'.join(p for p, _ in ch)}", deep, lambda path=path, f=f: L.where(path, f.name))
    for parent, slot, kid in edges():
        tf = next((f for f in CLASSES[kid].fields if f.kind in TYPES), None)
        if tf is None:
            continue

        def edge(parent=parent, slot=slot, kid=kid, tf=tf, at=1, n=3):
            m = full(L, kid, tf, parent)
            w = wrap(L, m, [(parent, slot)])
            if slot.kind == "list":
                w.fields[slot.name] = [m if i == at else L.model(kid, f"m{i}", 0, owner=parent, boolean=True) for i in range(n)]
            return lenient(L, parent, sub_doc(L, w, m, tf, junk(L)), without(w, m, tf))
        if slot.kind == "list":
            for at, n in ((0, 1), (1, 2), (4, 5), (0, 6)):
                c.ob(f"{parent}.{slot.name}[{at}] of {n} -> {kid}.{tf.name} <- junk", lambda edge=edge, at=at, n=n: edge(at=at, n=n), lambda parent=parent, slot=slot: L.where(parent, slot.name))
        c.ob(f"{parent}.{slot.name} -> {kid}.{tf.name} <- junk", edge, lambda parent=parent, slot=slot: L.where(parent, slot.name))

        def crowd(parent=parent, slot=slot, kid=kid, tf=tf):
            w, m = crowded(L, parent, slot, kid, tf)
            return lenient(L, parent, sub_doc(L, w, m, tf, junk(L)), without(w, m, tf))
        c.ob(f"{parent} with all fields, {slot.name} -> {kid}.{tf.name} <- junk", crowd, lambda parent=parent, slot=slot: L.where(parent, slot.name))
    # tracks: a bad time or position drops that sample, a bad angle only the angle
    for part, i, its, s in track_docs(L, junk(L)):
        def tr(part=part, i=i, its=its, s=s):
            keep = [TI(x.when, x.coord, (0.0, 0.0, 0.0) if part == "angle" and j == i else x.angle) for j, x in enumerate(its) if part == "angle" or j != i]
            return lenient(L, "gx.Track", L.doc(s), O("gx.Track", {"track_items": keep}))
        c.ob(f"gx.Track {part}[{i}] of {len(its)} <- junk", tr, lambda: L.where("gx.Track", "track_items"))
        for tp, lab, text in track_texts(L):
            if part == tp and (c.thorough or len(its) == 3 and i == 1):
                c.ob(f"gx.Track {part}[{i}] of {len(its)} <- {lab}", lambda tr=tr, text=text, i=i, part=part, n=len(its): tr(s=next(z for p2, j, t2, z in track_docs(L, text) if (p2, j, len(t2)) == (part, i, n))),
                     lambda: L.where("gx.Track", "track_items"))


def spellings(L, path, f, text):
    m = single(L, path, f, next(v for _, v in values(L, path, f)))
    return m, sub_doc(L, m, m, f, text)


@prop("P06")
def p06(c):
    L = c.L
    c.rule = "Every enumeration member and boolean spelling in every field, exact / other case / padded, strict and lenient: the member (value) denoted by the spelling, or the parse error."

    def reads(path, f, text, want, strict):
        m, doc = spellings(L, path, f, text)
        r = L.read(path, doc, strict=strict)
        return L.diff(L.I.getattr(r, f.name), want, f"{path}.{f.name} from {text!r}")

    def rejects(path, f, text):
        m, doc = spellings(L, path, f, text)
        return must_reject(L, path, doc)

    def skips(path, f, text):
        m, doc = spellings(L, path, f, text)
        r = L.read(path, doc, strict=False)
        v = L.I.getattr(r, f.name)
        return None if v is None else f"lenient reading of {text!r} gives {short(v)}"

    for path, k, f in fields():
        wh = lambda path=path, f=f: L.where(path, f.name)
        if f.kind == "enum":
            for v in ENUMS[f.enum]:
                e = E(f.enum, v)
                pads = (v, " " + v, v + "\n", "\n\t" + v + "  ") if f.place != "attr" else (v,)
                for t in pads:
                    for strict in (True, False):
                        c.ob(f"{path}.{f.name} <- {t!r} {'strict' if strict else 'lenient'}", lambda path=path, f=f, t=t, e=e, s=strict: reads(path, f, t, e, s), wh)
                for t in dict.fromkeys((v.upper(), v.lower(), v.capitalize(), v.swapcase())):
                    if t == v:
                        continue
                    other = next((x for x in ENUMS[f.enum] if x == t), None)
                    c.ob(f"{path}.{f.name} <- {t!r} lenient", lambda path=path, f=f, t=t, e=e: reads(path, f, t, e, False), wh)
                    if other is None:
                        c.ob(f"{path}.{f.name} <- {t!r} strict", lambda path=path, f=f, t=t: rejects(path, f, t), wh)
            # a prefix, extension or other form of a spelling is not that spelling
            for t in near_misses(f.enum):
                c.ob(f"{path}.{f.name} <- {t!r} strict", lambda path=path, f=f, t=t: rejects(path, f, t), wh)
                c.ob(f"{path}.{f.name} <- {t!r} lenient", lambda path=path, f=f, t=t: skips(path, f, t), wh)
        if f.kind == "bool":
            for t, b in (("1", True), ("true", True), ("0", False), ("false", False)):
                for pad in (t, " " + t, t + "\n"):
                    for strict in (True, False):
                        c.ob(f"{path}.{f.name} <- {pad!r} {'strict' if strict else 'lenient'}", lambda path=path, f=f, t=pad, b=b, s=strict: reads(path, f, t, b, s), wh)
            for t, b in (("True", True), ("TRUE", True), ("tRuE", True), ("False", False), ("FALSE", False), ("1.0", True), ("2", True), ("-1", True),
                         ("0.5", True), ("0.0", False), ("00", False), ("-0", False)):
                c.ob(f"{path}.{f.name} <- {t!r} lenient", lambda path=path, f=f, t=t, b=b: reads(path, f, t, b, False), wh)
                if f.kind == "bool":
                    c.ob(f"{path}.{f.name} <- {t!r} strict", lambda path=path, f=f, t=t: rejects(path, f, t), wh)


LIBDEFAULT = {("views.Lod", "min_lod_pixels"): 256}  # see known_findings.txt (P10)


def default_of(path, f):
    if (path, f.name) in LIBDEFAULT:
        return LIBDEFAULT[path, f.name]
    if f.default is None:
        return None
    return E(f.enum, f.default) if f.kind == "enum" else f.default


def same_model(a, b):
    if isinstance(a, E) and isinstance(b, E):
        return a.value == b.value
    return type(a) is type(b) and a == b


def at_level(L, m, level):
    """The model whose plain rendering is m's rendering at a verbosity level."""
    out = {}
    for f in CLASSES[m.path].fields:
        v = m.fields.get(f.name)
        d = default_of(m.path, f)
        if isinstance(v, O):
            v = at_level(L, v, level)
        elif isinstance(v, list):
            v = [at_level(L, x, level) if isinstance(x, O) else x for x in v]
        elif d is not None and v is None and level == "verbose":
            v = d
        elif d is not None and level == "terse" and not isinstance(v, (Sym, tuple, D)) and same_model(v, d):
            v = None
        elif d is not None and level == "terse" and isinstance(v, Sym) and not isinstance(d, E) and "distinct" not in v.flags:
            if L.I.veq(v, d):
                v = None
        if v is not None:
            out[f.name] = v
    return O(m.path, out)


LEVELS = ("terse", "normal", "verbose")


@prop("P07")
def p07(c):
    L = c.L
    c.rule = ("For each field: unset, equal to the default, or an arbitrary other value, interpreted at each verbosity; the abstract XML must be the oracle's rendering of the object "
              "with exactly the defaulted fields added (verbose) or left out (terse); the same through every parent/child edge and from the root.")

    def render(m, level, via="etree_element"):
        o = L.make(m)
        e = L.element(o, verbosity=L.verbosity(level))
        return L.xdiff(e, L.expect_xml(at_level(L, m, level)))

    def text(m, level):
        o = L.make(m)
        s = L.tostr(o, verbosity=L.verbosity(level))
        want = L.expect_xml(at_level(L, m, level))
        e = L.I.models.parse_text(s) if hasattr(L.I.models, "parse_text") else None
        if e is None:
            if isinstance(s, Sym) and s.op == "tostring":
                return L.xdiff(s.args[0], want)
            raise Undecided("to_string result " + short(s))
        return L.xdiff(e, want)

    for path in CLASSES:
        for lv in LEVELS:
            wh = lambda path=path: L.where(path)
            c.ob(f"{path} empty, {lv}", lambda path=path, lv=lv: render(O(path, required(L, path)), lv), wh)
            c.ob(f"{path} all fields, {lv}", lambda path=path, lv=lv: render(L.model(path, depth=1, boolean=True), lv), wh)
            c.ob(f"{path} all fields, to_string {lv}", lambda path=path, lv=lv: text(L.model(path, depth=1, boolean=False), lv), wh)

            def defaults(path=path, lv=lv):
                m = L.model(path, depth=0, boolean=True)
                for f in CLASSES[path].fields:
                    if default_of(path, f) is not None:
                        m.fields[f.name] = default_of(path, f)
                return render(ordered(m), lv)
            c.ob(f"{path} all fields at their defaults, {lv}", defaults, wh)
            for what, nsd in NSVAR.items():
                for bare in (True, False):
                    def other(path=path, lv=lv, nsd=nsd, bare=bare):
                        m = O(path, required(L, path)) if bare else L.model(path, depth=1, boolean=False)
                        e = L.element(mkns(L, m, nsd), verbosity=L.verbosity(lv))
                        return L.xdiff(e, expect_ns(L, at_level(L, m, lv), nsd))
                    c.ob(f"{path} {'empty' if bare else 'all fields'}, {lv}, {what} namespace", other, wh)
    for path, k, f in fields():
        wh = lambda path=path, f=f: L.where(path, f.name)
        for lv in LEVELS:
            if f.kind in ("obj", "list"):
                continue
            for lab, v in values(L, path, f):
                c.ob(f"{path}.{f.name} = {lab}, {lv}", lambda path=path, f=f, v=v, lv=lv: render(single(L, path, f, v), lv), wh)
            d = default_of(path, f)
            if d is not None:
                c.ob(f"{path}.{f.name} = default, {lv}", lambda path=path, f=f, d=d, lv=lv: render(single(L, path, f, d), lv), wh)
                z = ZERO.get(f.kind)
                if z is not None:
                    c.ob(f"{path}.{f.name} = {z!r}, {lv}", lambda path=path, f=f, z=z, lv=lv: render(single(L, path, f, z), lv), wh)
    for parent, slot, kid in edges():
        for lv in LEVELS:
            def edge(parent=parent, slot=slot, kid=kid, lv=lv):
                m = L.model(kid, "n", 0, owner=parent, boolean=True)
                for f in list(CLASSES[kid].fields):
                    d = default_of(kid, f)
                    if d is not None and f.name not in KEEP.get(kid, ()):
                        if lv == "verbose":
                            m.fields.pop(f.name, None)
                        else:
                            m.fields[f.name] = d
                return render(wrap(L, ordered(m), [(parent, slot)]), lv)
            c.ob(f"{parent}.{slot.name} -> {kid}, {lv}", edge, lambda parent=parent, slot=slot: L.where(parent, slot.name))
    for path in CLASSES:
        ch = chain_to(path)
        for lv in ("terse", "verbose"):
            if ch and any(default_of(path, f) is not None for f in CLASSES[path].fields):
                def deep(path=path, ch=ch, lv=lv):
                    m = L.model(path, "n", 0, owner=ch[-1][0], boolean=True)
                    for f in CLASSES[path].fields:
                        d = default_of(path, f)
                        if d is not None and f.name not in KEEP.get(path, ()):
                            m.fields.pop(f.name, None) if lv == "verbose" else m.fields.__setitem__(f.name, d)
                    return render(wrap(L, ordered(m), ch), lv)
                c.ob(f"{path} below {'/'.join(p for p, _ in ch)}, {lv}", deep, lambda path=path: L.where(path))


ZERO = {"float": 0.0, "int": 0, "bool": False}
# fields a parent needs to see set before it writes the child at all
KEEP = {"overlays.ViewVolume": ("left_fov", "right_fov", "bottom_fov", "top_fov", "near"), "views.Lod": ("min_lod_pixels",),
        "model.Orientation": ("heading",), "model.Scale": ("x",), "styles.LineStyle": ("width",), "styles.PolyStyle": ("fill",), "styles.LabelStyle": ("scale",),
        "styles.IconStyle": ("scale",)}
