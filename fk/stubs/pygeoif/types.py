from typing import Any
Point2D = Any
Point3D = Any
PointType = Any
LineType = Any
Interiors = Any
PolygonType = Any
MultiGeometryType = Any
Bounds = Any
GeomType = Any
GeomTypeCollection = Any
CoordinatesType = Any
MultiCoordinatesType = Any
GeoInterface = Any
GeoFeatureInterface = Any
GeoFeatureCollectionInterface = Any
GeoCollectionInterface = Any
GeoType = Any
GeoCollectionType = Any
Exteriors = Any
