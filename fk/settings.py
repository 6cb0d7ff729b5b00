"""Circumstances a user's program may be in when it does what an obligation describes.

None of them may change the outcome, so every obligation is decided again under each."""
from values import AbsExc, VList


def stdlib(L):
    L.I.call(L.name("config.set_etree_implementation"), [L.I.etrees["stdlib"]], {})


def used(L):
    """The library has already read, written, searched and rejected something."""
    from lab import O, E
    from common import NSVAR, mkns
    I = L.I
    pt = O("geometry.Point", {"id": "used", "altitude_mode": E("AltitudeMode", "absolute"), "kml_coordinates": O("geometry.Coordinates", {"coords": ((1.5, 2.5, 3.5),)})})
    pm = O("features.Placemark", {"id": "used", "name": "used", "visibility": False, "description": "used", "kml_geometry": pt})
    doc = O("containers.Document", {"id": "used", "name": "used", "features": [pm, O("containers.Folder", {"id": "u2", "name": "used", "features": [pm]})]})
    m = O("kml.KML", {"features": [doc]})
    k = L.make(m)
    s = L.tostr(k, precision=1, verbosity=L.verbosity("verbose"))
    L.read("kml.KML", s)
    L.tostr(mkns(L, m, NSVAR["own"]), precision=3, verbosity=L.verbosity("terse"))
    bad = L.doc(L.xml("Placemark", kids=[L.xml("visibility", text="maybe"), L.xml("Point", kids=[L.xml("altitudeMode", text="nowhere"), L.xml("coordinates", text="1,2,x")])]))
    L.read("features.Placemark", bad, strict=False)
    try:
        L.read("features.Placemark", bad)
    except AbsExc:
        pass
    try:
        L.read("features.Placemark", L.doc(L.xml("Nothing")))
    except AbsExc:
        pass
    list(I.iterate(I.call(L.name("utils.find_all"), [k], {"name": "used"})))
    I.call(I.getattr(k, "__repr__"), [], {})


SETTINGS = {"ElementTree": stdlib, "after other use": used}
EXCEPT = {"ElementTree": ("P17", "P22"), "after other use": ()}
CAP = 4000  # quick tier: about this many obligations are repeated per setting (thorough: all)
CAPS = {"P15": 1500}
