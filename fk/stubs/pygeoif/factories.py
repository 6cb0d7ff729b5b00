from pygeoif.geometry import Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection


def _of(gi):
    t = gi["type"]
    if t == "GeometryCollection":
        return GeometryCollection([_of(g) for g in gi["geometries"]])
    c = gi["coordinates"]
    if t == "Point":
        return Point(*c)
    if t == "LineString":
        return LineString(c)
    if t == "LinearRing":
        return LinearRing(c)
    if t == "Polygon":
        if not c:
            return Polygon(shell=(), holes=())
        return Polygon(shell=c[0], holes=c[1:])
    if t == "MultiPoint":
        return MultiPoint(c)
    if t == "MultiLineString":
        return MultiLineString(c)
    if t == "MultiPolygon":
        return MultiPolygon(tuple((p[0], p[1:]) for p in c))
    raise NotImplementedError(t)


def shape(context):
    if isinstance(context, dict):
        return _of(context)
    gi = getattr(context, "__geo_interface__", None)
    if gi is None:
        raise TypeError("Object does not implement __geo_interface__")
    return _of(gi)
