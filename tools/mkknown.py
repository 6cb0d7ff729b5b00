#!/usr/bin/env python3
"""Writes /verif/known_findings.txt (developer tool; checks only read that file)."""
import json, pathlib, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
FIXED = [
 ("P04", "fix: report malformed integer attributes as parse errors", "ValueError instead of KMLParseError for a malformed maxLines or length attribute; lenient reading failed (also P05)"),
 ("P12", "fix: read list members and link controls of documents without a namespace", "list members, NetworkLinkControl and MultiTrack fields without namespace were not read"),
 ("P18", "fix: print years before 1000 with four digits", "KmlDateTime of a year below 1000 printed fewer than four digits and could not be read back"),
 ("P16", "fix: do not modify the caller's name_spaces in KML.parse", "KML.parse wrote into the name_spaces dictionary passed by the caller (also P15)"),
 ("P25", "fix: write icon styles that have no icon", "an IconStyle with scale/heading/color but no icon was not written by its Style"),
 ("P19", "fix: no geometry instead of TypeError for lines of wrong dimension", "geometry of a LineString/LinearRing with one-dimensional coordinates raised TypeError"),
 ("P12", "fix: pass the namespaces on to the parts of a geometry", "parts built from a plain geometry ignored the given namespaces"),
 ("P04", "fix: report empty time stamps of a track as parse errors", "AttributeError for an empty when element of a track (also P05)"),
 ("P11", "fix: read screen overlays directly below the root element", "a ScreenOverlay below kml was written but not read back"),
 ("P24", "fix: write fields registered for the root element", "fields registered for KML were never written"),
 ("P24", "fix: accept registered extension keywords for overlays", "overlay constructors rejected keywords of registered fields"),
 ("P13", "fix: compare all fields of points, lines and polygons", "geometries differing in altitude mode, ids or class compared equal"),
 ("P22", "fix: no validation verdict after switching to an implementation without schema", "validate() failed after the XML implementation was switched (also P17)"),
 ("P09", "fix: write the schemata of a document before its features", "Document wrote its schemata after its features, against the schema sequence"),
 ("P05", "fix: keep track samples aligned when lenient reading skips a bad value", "a bad time or position in lenient mode shifted or broke the following samples (also P26)"),
 ("P26", "fix: keep angles aligned when some track items have none", "angles of later samples moved to earlier ones when a track item had no angle"),
 ("P16", "fix: copy the coordinates passed to Coordinates", "Coordinates kept the caller's list"),
 ("P28", "fix: check the dimension of every coordinate on writing", "only the first coordinate's dimension was checked, so 1- or 4-dimensional ones later in the list were written"),
 ("P21", "fix: find no style for a URL without fragment", "get_style_by_url of a URL without fragment returned the first style without id"),
 ("P28", "fix: reject inner boundaries given together with a geometry", "Polygon(geometry=..., inner_boundaries=...) silently dropped the inner boundaries"),
 ("P19", "fix: no geometry instead of DimensionError for tracks of mixed dimension", "geometry of a track (or placemark, multi-track) mixing two and three dimensional positions raised DimensionError"),
 ("P04", "fix: report track positions of wrong dimension as parse errors", "TypeError for a gx:coord or gx:angles element with 1 or more than 3 numbers, also in lenient mode (also P05)"),
 ("P28", "fix: reject a schema whose id is blank", "Schema(id='   ') was accepted although the id is blank"),
 ("P13", "fix: compare fields set by keyword and by assignment alike", "an object whose field was assigned after construction could differ from the one built with the keyword"),
 ("P10", "fix: use the default hot spot position of the schema", "HotSpot x/y defaulted to 0.5 instead of the schema's 1.0"),
]
FINDINGS = [
 dict(property="P10", key="views.Lod.min_lod_pixels default", message="verbose output gives minLodPixels = '256', the schema default is 0.0",
      what="Lod.min_lod_pixels uses default 256, the schema says 0 (tests/hypothesis/views_test.py pins the present behaviour)"),
 dict(property="P10", key="views.Lod.min_lod_pixels schema default left out of terse output",
      message="terse output keeps the schema default 0.0: Lod: children ['minLodPixels'] written instead of []",
      what="Lod.min_lod_pixels = 0 is the schema default but kept in terse output"),
 *(dict(property="P26", key=f"empty {tag} element 1 of 3 {mode}", message=m,
        what=f"an empty gx:{tag} element is skipped by {mode} reading, so later samples move up (tests/gx_test.py test_track_from_str pins it for angles; both share get_coord_args)")
   for tag, m in (("angles", "read: track_items[1].angle[0] should be 0.0 but is <t[2].a0x>"), ("coord", "read: track_items[1].when.year should be <t[2].when.year> but is <t[1].when.year>")) for mode in ("strict", "lenient")),
]
exec((root / "tools" / "extra_findings.py").read_text()) if (root / "tools" / "extra_findings.py").exists() else None
out = ["# Defects of cleder/fastkml found by the checks. 'fixed:' entries suppress nothing; 'finding:' entries match one obligation and message exactly."]
for p, subj, what in FIXED:
    out.append(f"fixed: property={p} {log[subj]} {what}")
for f in FINDINGS:
    out.append("finding: " + json.dumps(f))
(root / "known_findings.txt").write_text("\n".join(out) + "\n")
