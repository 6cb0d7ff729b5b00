"""Model of pygeoif 1.6 (values and shapes; hull, bounds and WKT are left out).

Simplification: a coordinate that is not a literal NaN is not NaN.
"""
from pygeoif.exceptions import DimensionError


def _nan(c):
    return isinstance(c, float) and c != c


def _cmp(a, b):
    ta = isinstance(a, (tuple, list))
    tb = isinstance(b, (tuple, list))
    if ta != tb:
        return False
    if ta:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not _cmp(x, y):
                return False
        return True
    return a == b


def _known(coords):
    for p in coords:
        for x in p:
            if not fk_concrete(x):
                return False
    return True


def _points(g):
    """All positions of a geometry."""
    if isinstance(g, Point):
        return g.coords
    if isinstance(g, LineString):
        return g.coords
    if isinstance(g, Polygon):
        return g.exterior.coords
    out = []
    for x in g.geoms:
        out.extend(_points(x))
    return tuple(out)


class _Geometry:
    @property
    def bounds(self):
        if self.is_empty:
            return ()
        c = _points(self)
        if _known(c):
            return (min(p[0] for p in c), min(p[1] for p in c), max(p[0] for p in c), max(p[1] for p in c))
        return tuple(fk_number(n, c) for n in ("minx", "miny", "maxx", "maxy"))

    def __setattr__(self, name, value):
        raise AttributeError("Attributes of geometries cannot be changed")

    def __delattr__(self, name):
        raise AttributeError("Attributes of geometries cannot be deleted")

    def __eq__(self, other):
        if self.is_empty:
            return False
        if not isinstance(other, _Geometry):
            return False
        if other.is_empty:
            return False
        if self.geom_type != other.geom_type:
            return False
        return _cmp(self._plain(), other._plain())

    def __str__(self):
        return repr(self)

    def __bool__(self):
        return not self.is_empty

    @property
    def geom_type(self):
        return self.__class__.__name__

    @property
    def __geo_interface__(self):
        if self.is_empty:
            raise AttributeError("Empty Geometry")
        return {"type": self.geom_type, "coordinates": self._plain()}


class Point(_Geometry):
    def __init__(self, x, y, z=None):
        object.__setattr__(self, "_geoms", (x, y, z) if z is not None else (x, y))

    def __repr__(self):
        if self.is_empty:
            return "Point()"
        return f"Point{self._geoms}"

    def _plain(self):
        return self._geoms

    @property
    def is_empty(self):
        return any(c is None or _nan(c) for c in self._geoms)

    @property
    def x(self):
        return self._geoms[0]

    @property
    def y(self):
        return self._geoms[1]

    @property
    def z(self):
        if self.has_z:
            return self._geoms[2]
        raise DimensionError("no z values")

    @property
    def coords(self):
        return () if self.is_empty else (self._geoms,)

    @property
    def has_z(self):
        return len(self._geoms) == 3

    @classmethod
    def from_coordinates(cls, coordinates):
        return cls(*coordinates[0])


class LineString(_Geometry):
    def __init__(self, coordinates):
        object.__setattr__(self, "_geoms", self._set_geoms(coordinates))

    def __repr__(self):
        return f"{self.geom_type}({self.coords})"

    def _plain(self):
        return self.coords

    @property
    def geoms(self):
        return self._geoms

    @property
    def coords(self):
        return tuple(p.coords[0] for p in self._geoms if p.coords)

    @property
    def is_empty(self):
        return len(self._geoms) == 0

    @property
    def has_z(self):
        return self._geoms[0].has_z if self._geoms else None

    @classmethod
    def from_coordinates(cls, coordinates):
        return cls(coordinates)

    @classmethod
    def from_points(cls, *args):
        return cls(tuple(p.coords[0] for p in args if p.coords))

    @staticmethod
    def _set_geoms(coordinates):
        geoms = []
        last = None
        last_len = None
        for coord in coordinates:
            if last is not None and coord == last:
                continue
            last = coord
            if last_len is not None and len(coord) != last_len:
                raise DimensionError("All coordinates must have the same dimension")
            last_len = len(coord)
            point = Point(*coord)
            if point:
                geoms.append(point)
        return tuple(geoms)


class LinearRing(LineString):
    def __init__(self, coordinates):
        super().__init__(coordinates)
        if not self.is_empty and self._geoms[0].coords != self._geoms[-1].coords:
            object.__setattr__(self, "_geoms", (*self._geoms, self._geoms[0]))

    @property
    def is_ccw(self):
        c = self.coords
        if len(c) < 3:
            return True
        if not _known(c):
            return fk_choice("is_ccw", c)
        xs = [p[0] for p in c]
        ys = [p[1] for p in c]
        xs.append(xs[1])
        ys.append(ys[1])
        return sum(xs[i] * (ys[i + 1] - ys[i - 1]) for i in range(1, len(c))) >= 0


class Polygon(_Geometry):
    def __init__(self, shell, holes=None):
        interiors = tuple(LinearRing(h) for h in holes) if holes else ()
        exterior = LinearRing(shell)
        object.__setattr__(self, "_geoms", (exterior, interiors))

    def __repr__(self):
        return f"Polygon{self.coords}"

    def _plain(self):
        return (self.exterior.coords, *tuple(h.coords for h in self.interiors))

    @property
    def exterior(self):
        return self._geoms[0]

    @property
    def interiors(self):
        yield from (i for i in self._geoms[1] if i)

    @property
    def is_empty(self):
        return self._geoms[0].is_empty

    @property
    def coords(self):
        if self._geoms[1]:
            return (self.exterior.coords, tuple(i.coords for i in self.interiors if i))
        return (self.exterior.coords,)

    @property
    def has_z(self):
        return self._geoms[0].has_z

    @classmethod
    def from_coordinates(cls, coordinates):
        return cls(*coordinates)

    @classmethod
    def from_linear_rings(cls, shell, *args):
        return cls(shell=shell.coords, holes=tuple(lr.coords for lr in args))


class _MultiGeometry(_Geometry):
    @property
    def coords(self):
        raise NotImplementedError("Multi-part geometries do not provide a coordinate sequence")

    @property
    def has_z(self):
        return any(g.has_z for g in self.geoms) if self._geoms else None

    @property
    def geoms(self):
        yield from (g for g in self._geoms if not g.is_empty)

    @property
    def is_empty(self):
        return all(g.is_empty for g in self._geoms)

    def __len__(self):
        return len(self._geoms)

    def _plain(self):
        return tuple(g._plain() for g in self.geoms)

    def __repr__(self):
        return f"{self.geom_type}({tuple(self.geoms)})"


def _unique(items, unique):
    """unique=True goes through a set: no duplicates, order not kept."""
    items = tuple(items)
    if not unique:
        return items
    out = []
    for i in items:
        if not any(_cmp(i, o) for o in out):
            out.insert(0, i)
    return tuple(out)


class MultiPoint(_MultiGeometry):
    def __init__(self, points, unique=False):
        points = _unique(points, unique)
        object.__setattr__(self, "_geoms", tuple(Point(*p) for p in points))

    @classmethod
    def from_points(cls, *args, unique=False):
        return cls([p.coords[0] for p in args if p.coords], unique=unique)


class MultiLineString(_MultiGeometry):
    def __init__(self, lines, unique=False):
        lines = _unique(lines, unique)
        object.__setattr__(self, "_geoms", tuple(LineString(l) for l in lines))

    @classmethod
    def from_linestrings(cls, *args, unique=False):
        return cls([l.coords for l in args], unique=unique)


class MultiPolygon(_MultiGeometry):
    def __init__(self, polygons, unique=False):
        polygons = _unique(polygons, unique)
        object.__setattr__(
            self,
            "_geoms",
            tuple(Polygon(shell=p[0], holes=p[1] if len(p) == 2 else None) for p in polygons),
        )

    @classmethod
    def from_polygons(cls, *args, unique=False):
        return cls([p.coords for p in args], unique=unique)


class GeometryCollection(_MultiGeometry):
    def __init__(self, geometries):
        object.__setattr__(self, "_geoms", tuple(g for g in geometries if g))

    def _plain(self):
        return tuple((g.geom_type, g._plain()) for g in self.geoms)

    def __eq__(self, other):
        if self.is_empty:
            return False
        if not isinstance(other, _Geometry) or other.is_empty:
            return False
        if other.geom_type != self.geom_type:
            return False
        a = tuple(self.geoms)
        b = tuple(other.geoms)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not x == y:
                return False
        return True

    @property
    def __geo_interface__(self):
        return {
            "type": "GeometryCollection",
            "geometries": tuple(g.__geo_interface__ for g in self.geoms),
        }


Geometry = Point
