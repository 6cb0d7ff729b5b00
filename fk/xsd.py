"""Reads the bundled XSD files (data, not code) to validate the hand-written oracle in spec.py."""
from __future__ import annotations

import functools
import os
import xml.etree.ElementTree as ET

from lab import REPO
from spec import CLASSES, ENUMS

X = "{http://www.w3.org/2001/XMLSchema}"
FILES = {"kml": "ogckml22.xsd", "gx": "kml22gx.xsd", "atom": "atom-author-link.xsd"}
ENUMTYPE = {
    "AltitudeMode": [("kml", "altitudeModeEnumType"), ("gx", "altitudeModeEnumType")], "ColorMode": [("kml", "colorModeEnumType")],
    "DisplayMode": [("kml", "displayModeEnumType")], "GridOrigin": [("kml", "gridOriginEnumType")], "PairKey": [("kml", "styleStateEnumType")],
    "RefreshMode": [("kml", "refreshModeEnumType")], "Shape": [("kml", "shapeEnumType")], "Units": [("kml", "unitsEnumType")],
    "ViewRefreshMode": [("kml", "viewRefreshModeEnumType")],
}


@functools.lru_cache(None)
def roots():
    return {ns: ET.parse(os.path.join(REPO, "fastkml", "schema", f)).getroot() for ns, f in FILES.items()}


def qn(ref, ns):
    if ":" in ref:
        p, n = ref.split(":")
        return (p, n)
    return (ns, ref)


@functools.lru_cache(None)
def table(kind):
    out = {}
    for ns, r in roots().items():
        for e in r:
            if e.tag == X + kind:
                out[ns, e.get("name")] = e
    return out


def heads(q):
    """q and the substitution groups it belongs to."""
    out = [q]
    while True:
        e = table("element").get(q)
        sg = e.get("substitutionGroup") if e is not None else None
        if not sg:
            return out
        q = qn(sg, q[0])
        out.append(q)


def sequence(node, ns):
    """Flattened list of (ns, name) in document order; choices are merged into one position set."""
    out = []
    for c in node:
        if c.tag == X + "element":
            out.append({qn(c.get("ref"), ns)} if c.get("ref") else {(ns, c.get("name"))})
        elif c.tag == X + "sequence":
            out.extend(sequence(c, ns))
        elif c.tag == X + "choice":
            s = set()
            for x in sequence(c, ns):
                s |= x
            out.append(s)
        elif c.tag == X + "group":
            g = table("group")[qn(c.get("ref"), ns)]
            out.extend(sequence(g, qn(c.get("ref"), ns)[0]))
        elif c.tag in (X + "complexContent", X + "simpleContent"):
            out.extend(sequence(c, ns))
        elif c.tag == X + "extension":
            b = table("complexType").get(qn(c.get("base"), ns))
            if b is not None:
                out.extend(sequence(b, qn(c.get("base"), ns)[0]))
            out.extend(sequence(c, ns))
    return out


def attributes(node, ns):
    out = {}
    for c in node:
        if c.tag == X + "attribute":
            out[c.get("name") or qn(c.get("ref"), ns)[1]] = c
        elif c.tag == X + "attributeGroup":
            out.update(attributes(table("attributeGroup")[qn(c.get("ref"), ns)], ns))
        elif c.tag in (X + "complexContent", X + "simpleContent"):
            out.update(attributes(c, ns))
        elif c.tag == X + "extension":
            b = table("complexType").get(qn(c.get("base"), ns))
            if b is not None:
                out.update(attributes(b, qn(c.get("base"), ns)[0]))
            out.update(attributes(c, ns))
    return out


def ctype(path):
    c = CLASSES[path]
    tag = c.tag
    q = (c.ns, tag)
    e = table("element").get(q)
    if e is None and (c.ns, tag) == ("atom", "contributor"):
        e = table("element").get(("atom", "author"))  # RFC 4287: the same construct
    if e is None:
        return None
    t = e.get("type")
    if t:
        return table("complexType").get(qn(t, c.ns)), qn(t, c.ns)[0]
    for x in e:
        if x.tag == X + "complexType":
            return x, c.ns
    return None


def order_problem(L, path):
    c = CLASSES[path]
    t = ctype(path)
    if t is None or t[0] is None:
        return None
    if path == "gx.Track":
        return None  # interleaved when/coord/angles: checked by the oracle's own order
    seq = sequence(*t)
    attrs = attributes(*t)
    pos = -1
    for f in c.fields:
        if f.place == "attr":
            if f.xml not in attrs:
                return f"attribute {f.xml} is not declared by the schema"
            continue
        if f.place == "node":
            continue
        qs = []
        if f.place == "child":
            for k in f.classes:
                kc = CLASSES[k]
                qs.append((k, heads((kc.ns, kc.tag))))
        else:
            ns = f.ns if f.ns != "kml" else ("kml" if c.ns == "gx" else c.ns)
            qs.append((f.xml, heads((ns, f.xml))))
        at = None
        for k, hs in qs:
            if k == "network_link_control.NetworkLinkControl":
                continue
            p = next((i for i, s in enumerate(seq) if any(h in s for h in hs)), None)
            if p is None:
                return f"{k} is not a child the schema declares"
            at = p if at is None else max(at, p)
        if at is None:
            continue
        if at < pos:
            return f"{f.xml} comes earlier in the schema"
        pos = at
    return None


def norm(f, d):
    if d is None:
        return None
    if f.kind == "bool":
        return {"true": "1", "false": "0"}.get(d, d)
    return d


def default_for(path, f):
    c = CLASSES[path]
    t = ctype(path)
    if f.place == "attr":
        if t is None or t[0] is None:
            return None
        a = attributes(*t).get(f.xml)
        return norm(f, a.get("default")) if a is not None else None
    if f.place == "node":
        return None
    ns = f.ns if f.ns != "kml" else ("kml" if c.ns == "gx" else c.ns)
    e = table("element").get((ns, f.xml))
    return norm(f, e.get("default")) if e is not None else None


def enum_values(name):
    if name not in ENUMTYPE:
        return ENUMS[name]
    out = []
    for q in ENUMTYPE[name]:
        st = table("simpleType")[q]
        out += [e.get("value") for e in st.iter(X + "enumeration")]
    return list(dict.fromkeys(out))


def vocabulary(path, f):
    return enum_values(f.enum)
