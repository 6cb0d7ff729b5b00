"""What the KML 2.2 / gx / Atom schemas and the fastkml documentation say about
each element class: written down once, by hand, from the bundled XSD files and
the class documentation.  This is the oracle; nothing here is read from /repo.

Fields are listed in schema order.  Kinds:
  text float int bool date enum:<Enum>   simple values
  obj                                     one nested element (classes)
  list                                    list of nested elements (classes)
  coords                                  coordinate text
Places: sub (child element), attr (XML attribute), node (text of the element),
child (nested element named by its own class).
"""
from __future__ import annotations


class F:
    __slots__ = ("name", "kind", "xml", "place", "ns", "default", "classes", "required", "enum")

    def __init__(self, name, kind, xml=None, place="sub", ns="kml", default=None, classes=(), required=False):
        self.enum = None
        if kind.startswith("enum:"):
            self.enum = kind[5:]
            kind = "enum"
        self.name, self.kind, self.xml, self.place, self.ns = name, kind, xml or name, place, ns
        self.default, self.classes, self.required = default, tuple(classes), required

    def __repr__(self):
        return f"F({self.name})"


class C:
    __slots__ = ("mod", "name", "tag", "ns", "fields", "extra", "feature", "need")

    def __init__(self, path, tag, fields, ns="kml", need=()):
        self.mod, self.name = path.rsplit(".", 1)
        self.tag, self.ns, self.fields = tag, ns, list(fields)
        self.need = tuple(need)  # fields without which the element counts as empty

    @property
    def path(self):
        return self.mod + "." + self.name

    def field(self, n):
        return next(f for f in self.fields if f.name == n)

    def __repr__(self):
        return f"C({self.path})"


def t(n, x=None, **k):
    return F(n, "text", x, **k)


def a(n, x=None, kind="text", **k):
    return F(n, kind, x, place="attr", ns="", **k)


def fl(n, x=None, d=None, **k):
    return F(n, "float", x, default=d, **k)


def it(n, x=None, d=None, **k):
    return F(n, "int", x, default=d, **k)


def bo(n, x=None, d=None, **k):
    return F(n, "bool", x, default=d, **k)


def en(n, e, x=None, d=None, **k):
    return F(n, "enum:" + e, x, default=d, **k)


def ob(n, *cl, **k):
    return F(n, "obj", place="child", classes=cl, **k)


def li(n, *cl, **k):
    return F(n, "list", place="child", classes=cl, **k)


ID = [a("id"), a("target_id", "targetId")]
ALT = en("altitude_mode", "AltitudeMode", "altitudeMode", "clampToGround")
FEATURE = ID + [
    t("name"), bo("visibility", d=True), bo("isopen", "open", d=False),
    ob("atom_author", "atom.Author"), ob("atom_link", "atom.Link"),
    t("address"), t("phone_number", "phoneNumber"), ob("snippet", "features.Snippet"), t("description"),
    ob("view", "views.Camera", "views.LookAt"), ob("times", "times.TimeSpan", "times.TimeStamp"),
    ob("style_url", "styles.StyleUrl"), li("styles", "styles.Style", "styles.StyleMap"),
    ob("region", "views.Region"), ob("extended_data", "data.ExtendedData"),
]
OVERLAY = FEATURE + [t("color", default="ffffffff"), it("draw_order", "drawOrder", 0), ob("icon", "links.Icon")]
COLOR = ID + [t("color", default="ffffffff"), en("color_mode", "ColorMode", "colorMode", "normal")]
LINK = ID + [
    t("href"), en("refresh_mode", "RefreshMode", "refreshMode", "onChange"),
    fl("refresh_interval", "refreshInterval", 4.0),
    en("view_refresh_mode", "ViewRefreshMode", "viewRefreshMode", "never"),
    fl("view_refresh_time", "viewRefreshTime", 4.0), fl("view_bound_scale", "viewBoundScale", 1.0),
    t("view_format", "viewFormat", default="BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]"),
    t("http_query", "httpQuery"),
]
VIEW = ID + [fl(x, d=0.0) for x in ("longitude", "latitude", "altitude", "heading", "tilt")]
BOX = [fl(x) for x in ("north", "south", "east", "west")]
XY = [a("x", kind="float"), a("y", kind="float"), a("x_units", "xunits", "enum:Units", default="fraction"),
      a("y_units", "yunits", "enum:Units", default="fraction")]
PERSON = [t("name", ns="atom"), t("uri", ns="atom"), t("email", ns="atom")]
FEATURES = ("containers.Folder", "features.Placemark", "containers.Document", "overlays.GroundOverlay",
            "overlays.PhotoOverlay", "overlays.ScreenOverlay", "features.NetworkLink")
COORDS = F("kml_coordinates", "obj", "coordinates", place="child", classes=("geometry.Coordinates",))
GEOMS = ("geometry.Point", "geometry.LineString", "geometry.LinearRing", "geometry.Polygon", "geometry.MultiGeometry",
         "model.Model", "gx.MultiTrack", "gx.Track")

_ALL = [
    C("atom.Link", "link", [a("href"), a("rel"), a("type"), a("hreflang"), a("title"), a("length", kind="int")], ns="atom"),
    C("atom.Author", "author", PERSON, ns="atom"),
    C("atom.Contributor", "contributor", PERSON, ns="atom"),
    C("containers.Folder", "Folder", FEATURE + [li("features", *FEATURES)]),
    C("containers.Document", "Document", FEATURE + [li("schemata", "data.Schema"), li("features", *FEATURES)]),
    C("data.SimpleField", "SimpleField", [a("name"), a("type_", "type", "enum:DataType"), t("display_name", "displayName")]),
    C("data.Schema", "Schema", [a("name"), F("id", "text", "id", place="attr", ns="", required=True), li("fields", "data.SimpleField")]),
    C("data.Data", "Data", ID + [a("name"), t("display_name", "displayName"), t("value")]),
    C("data.SimpleData", "SimpleData", [a("name"), F("value", "text", place="node")]),
    C("data.SchemaData", "SchemaData", ID + [a("schema_url", "schemaUrl"), li("data", "data.SimpleData")]),
    C("data.ExtendedData", "ExtendedData", [li("elements", "data.Data", "data.SchemaData")]),
    C("features.Snippet", "Snippet", [F("text", "text", place="node"), a("max_lines", "maxLines", "int", default=2)]),
    C("features.Placemark", "Placemark", FEATURE + [ob("kml_geometry", *GEOMS)]),
    C("features.NetworkLink", "NetworkLink", FEATURE + [
        bo("refresh_visibility", "refreshVisibility", False), bo("fly_to_view", "flyToView", False), ob("link", "links.Link")]),
    C("geometry.Coordinates", "coordinates", [F("coords", "coords", place="node")]),
    C("geometry.Point", "Point", ID + [bo("extrude", d=False), ALT, COORDS]),
    C("geometry.LineString", "LineString", ID + [bo("extrude", d=False), bo("tessellate", d=False), ALT, COORDS]),
    C("geometry.LinearRing", "LinearRing", ID + [bo("extrude", d=False), bo("tessellate", d=False), ALT, COORDS]),
    C("geometry.OuterBoundaryIs", "outerBoundaryIs", [ob("kml_geometry", "geometry.LinearRing")]),
    C("geometry.InnerBoundaryIs", "innerBoundaryIs", [ob("kml_geometry", "geometry.LinearRing")]),
    C("geometry.Polygon", "Polygon", ID + [
        bo("extrude", d=False), bo("tessellate", d=False), ALT, ob("outer_boundary", "geometry.OuterBoundaryIs"),
        li("inner_boundaries", "geometry.InnerBoundaryIs")]),
    C("geometry.MultiGeometry", "MultiGeometry", ID + [
        li("kml_geometries", "geometry.Point", "geometry.LineString", "geometry.Polygon", "geometry.LinearRing", "geometry.MultiGeometry")]),
    C("gx.Track", "Track", ID + [ALT, F("track_items", "track"), ob("extended_data", "data.ExtendedData")], ns="gx"),
    C("gx.MultiTrack", "MultiTrack", ID + [ALT, bo("interpolate", ns="gx"), li("tracks", "gx.Track")], ns="gx"),
    C("kml.KML", "kml", [li("features", *FEATURES, "network_link_control.NetworkLinkControl")]),
    C("links.Link", "Link", LINK),
    C("links.Icon", "Icon", LINK),
    C("model.Location", "Location", [fl("longitude"), fl("latitude"), fl("altitude", d=0.0)]),
    C("model.Orientation", "Orientation", [fl("heading", d=0.0), fl("tilt", d=0.0), fl("roll", d=0.0)]),
    C("model.Scale", "Scale", [fl("x", d=1.0), fl("y", d=1.0), fl("z", d=1.0)]),
    C("model.Alias", "Alias", [t("target_href", "targetHref"), t("source_href", "sourceHref")]),
    C("model.ResourceMap", "ResourceMap", [li("aliases", "model.Alias")]),
    C("model.Model", "Model", ID + [
        ALT, ob("location", "model.Location"), ob("orientation", "model.Orientation"), ob("scale", "model.Scale"),
        ob("link", "links.Link"), ob("resource_map", "model.ResourceMap")]),
    C("network_link_control.NetworkLinkControl", "NetworkLinkControl", [
        fl("min_refresh_period", "minRefreshPeriod", 0.0), fl("max_session_length", "maxSessionLength", -1.0), t("cookie"),
        t("message"), t("link_name", "linkName"), t("link_description", "linkDescription"), t("link_snippet", "linkSnippet"),
        F("expires", "date"), ob("view", "views.Camera", "views.LookAt")]),
    C("overlays.ViewVolume", "ViewVolume", [
        fl("left_fov", "leftFov", 0.0), fl("right_fov", "rightFov", 0.0), fl("bottom_fov", "bottomFov", 0.0),
        fl("top_fov", "topFov", 0.0), fl("near", d=0.0)]),
    C("overlays.ImagePyramid", "ImagePyramid", [
        it("tile_size", "tileSize", 256), it("max_width", "maxWidth"), it("max_height", "maxHeight"),
        en("grid_origin", "GridOrigin", "gridOrigin", "lowerLeft")]),
    C("overlays.PhotoOverlay", "PhotoOverlay", OVERLAY + [
        fl("rotation", d=0.0), ob("view_volume", "overlays.ViewVolume"), ob("image_pyramid", "overlays.ImagePyramid"),
        ob("point", "geometry.Point"), en("shape", "Shape", d="rectangle")]),
    C("overlays.LatLonBox", "LatLonBox", BOX + [fl("rotation", d=0.0)]),
    C("overlays.GroundOverlay", "GroundOverlay", OVERLAY + [fl("altitude", d=0.0), ALT, ob("lat_lon_box", "overlays.LatLonBox")]),
    C("overlays.OverlayXY", "overlayXY", XY),
    C("overlays.ScreenXY", "screenXY", XY),
    C("overlays.RotationXY", "rotationXY", XY),
    C("overlays.Size", "size", XY),
    C("overlays.ScreenOverlay", "ScreenOverlay", OVERLAY + [
        ob("overlay_xy", "overlays.OverlayXY"), ob("screen_xy", "overlays.ScreenXY"), ob("rotation_xy", "overlays.RotationXY"),
        ob("size", "overlays.Size"), fl("rotation", d=0.0)]),
    C("styles.StyleUrl", "styleUrl", [F("url", "text", place="node")]),
    C("styles.HotSpot", "hotSpot", [
        a("x", kind="float", default=1.0), a("y", kind="float", default=1.0), a("xunits", "xunits", "enum:Units", default="fraction"),
        a("yunits", "yunits", "enum:Units", default="fraction")]),
    C("styles.IconStyle", "IconStyle", COLOR + [
        fl("scale", d=1.0), fl("heading", d=0.0), ob("icon", "links.Icon"), ob("hot_spot", "styles.HotSpot")]),
    C("styles.LineStyle", "LineStyle", COLOR + [fl("width", d=1.0)]),
    C("styles.PolyStyle", "PolyStyle", COLOR + [bo("fill", d=True), bo("outline", d=True)]),
    C("styles.LabelStyle", "LabelStyle", COLOR + [fl("scale", d=1.0)]),
    C("styles.BalloonStyle", "BalloonStyle", ID + [
        t("bg_color", "bgColor", default="ffffffff"), t("text_color", "textColor", default="ff000000"), t("text"),
        en("display_mode", "DisplayMode", "displayMode", "default")]),
    C("styles.Style", "Style", ID + [
        li("styles", "styles.IconStyle", "styles.LabelStyle", "styles.LineStyle", "styles.PolyStyle", "styles.BalloonStyle")]),
    C("styles.Pair", "Pair", ID + [en("key", "PairKey"), ob("style", "styles.StyleUrl", "styles.Style")]),
    C("styles.StyleMap", "StyleMap", ID + [li("pairs", "styles.Pair")]),
    C("times.TimeStamp", "TimeStamp", ID + [F("timestamp", "date", "when")]),
    C("times.TimeSpan", "TimeSpan", ID + [F("begin", "date"), F("end", "date")]),
    C("views.Camera", "Camera", VIEW + [fl("roll", d=0.0), ALT]),
    C("views.LookAt", "LookAt", VIEW + [fl("range"), ALT]),
    C("views.LatLonAltBox", "LatLonAltBox", BOX + [
        fl("min_altitude", "minAltitude", 0.0), fl("max_altitude", "maxAltitude", 0.0), ALT]),
    C("views.Lod", "Lod", [
        it("min_lod_pixels", "minLodPixels", 0), it("max_lod_pixels", "maxLodPixels", -1),
        it("min_fade_extent", "minFadeExtent", 0), it("max_fade_extent", "maxFadeExtent", 0)]),
    C("views.Region", "Region", ID + [ob("lat_lon_alt_box", "views.LatLonAltBox"), ob("lod", "views.Lod")]),
]
CLASSES = {c.path: c for c in _ALL}

ENUMS = {
    "AltitudeMode": ["clampToGround", "relativeToGround", "absolute", "clampToSeaFloor", "relativeToSeaFloor"],
    "ColorMode": ["normal", "random"],
    "DisplayMode": ["default", "hide"],
    "GridOrigin": ["lowerLeft", "upperLeft"],
    "PairKey": ["normal", "highlight"],
    "RefreshMode": ["onChange", "onInterval", "onExpire"],
    "Shape": ["rectangle", "cylinder", "sphere"],
    "Units": ["fraction", "pixels", "insetPixels"],
    "ViewRefreshMode": ["never", "onRequest", "onStop", "onRegion"],
    "DataType": ["string", "int", "uint", "short", "ushort", "float", "double", "bool"],
}
GX_ALTITUDE = {"clampToSeaFloor", "relativeToSeaFloor"}
URI = {
    "kml": "http://www.opengis.net/kml/2.2",
    "gx": "http://www.google.com/kml/ext/2.2",
    "atom": "http://www.w3.org/2005/Atom",
    "": "",
}
PUBLIC = """KML Alias AtomAuthor AtomContributor AtomLink BalloonStyle Camera Coordinates Data Document ExtendedData Folder
GroundOverlay HotSpot Icon IconStyle ImagePyramid InnerBoundaryIs KmlDateTime LabelStyle LatLonBox LineString LineStyle
LinearRing Link Location LookAt Model MultiGeometry NetworkLink NetworkLinkControl Orientation OuterBoundaryIs OverlayXY
Pair PhotoOverlay Placemark Point PolyStyle Polygon ResourceMap RotationXY Scale Schema SchemaData ScreenOverlay ScreenXY
SimpleData SimpleField Size Snippet Style StyleMap StyleUrl TimeSpan TimeStamp ViewVolume create_kml_geometry find find_all
get_schema_parser validate""".split()
PUBLIC_AS = {"AtomAuthor": "atom.Author", "AtomContributor": "atom.Contributor", "AtomLink": "atom.Link"}
