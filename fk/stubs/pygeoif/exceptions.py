class DimensionError(ValueError):
    pass


class WKTParserError(AttributeError):
    pass


class InvalidGeometryError(ValueError):
    pass
