From d3be650129fceba7797625243d4a39b7db578068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 01/25] fix: report malformed integer attributes as parse
 errors

---
 fastkml/helpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..d059c28 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -884,7 +884,17 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    try:
+        return {kwarg: int(attr)} if attr else {}
+    except ValueError as exc:
+        handle_error(
+            error=exc,
+            strict=strict,
+            element=element,
+            node=element,
+            expected="Integer",
+        )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From 2f7278aa5c92f78426a65856f1a69e713e4dbcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 02/25] fix: read list members and link controls of documents
 without a namespace

---
 fastkml/gx.py                   |  6 +++---
 fastkml/helpers.py              |  2 +-
 fastkml/network_link_control.py | 18 +++++++++---------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..8d6946e 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -558,7 +558,7 @@ class MultiTrack(_Geometry):
 registry.register(
     MultiTrack,
     item=RegistryItem(
-        ns_ids=("gx", "kml"),
+        ns_ids=("gx", "kml", ""),
         classes=(AltitudeMode,),
         attr_name="altitude_mode",
         node_name="altitudeMode",
@@ -570,7 +570,7 @@ registry.register(
 registry.register(
     MultiTrack,
     item=RegistryItem(
-        ns_ids=("gx",),
+        ns_ids=("gx", ""),
         classes=(bool,),
         attr_name="interpolate",
         node_name="interpolate",
@@ -581,7 +581,7 @@ registry.register(
 registry.register(
     MultiTrack,
     item=RegistryItem(
-        ns_ids=("gx",),
+        ns_ids=("gx", ""),
         classes=(Track,),
         attr_name="tracks",
         node_name="gx:Track",
diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index d059c28..68d0def 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1300,4 +1300,4 @@ def xml_subelement_list_kwarg(
                     for subelement in subelements
                 ],
             )
-    return {kwarg: args_list}
+    return {kwarg: args_list} if args_list else {}
diff --git a/fastkml/network_link_control.py b/fastkml/network_link_control.py
index 01d2d06..6285540 100644
--- a/fastkml/network_link_control.py
+++ b/fastkml/network_link_control.py
@@ -158,7 +158,7 @@ class NetworkLinkControl(_XMLObject):
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="min_refresh_period",
         node_name="minRefreshPeriod",
         classes=(float,),
@@ -170,7 +170,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="max_session_length",
         node_name="maxSessionLength",
         classes=(float,),
@@ -182,7 +182,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="cookie",
         node_name="cookie",
         classes=(str,),
@@ -193,7 +193,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="message",
         node_name="message",
         classes=(str,),
@@ -204,7 +204,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_name",
         node_name="linkName",
         classes=(str,),
@@ -215,7 +215,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_description",
         node_name="linkDescription",
         classes=(str,),
@@ -226,7 +226,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_snippet",
         node_name="linkSnippet",
         classes=(str,),
@@ -237,7 +237,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     item=RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         classes=(KmlDateTime,),
         attr_name="expires",
         node_name="expires",
@@ -248,7 +248,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="view",
         node_name="Camera,LookAt",
         classes=(
-- 
2.43.0


From fdc2027777f29cd97995e03b79afa45d93a60bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 03/25] fix: print years before 1000 with four digits

---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..4ae03f2 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04d}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04d}-{self.dt.month:02d}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From 9190fdbd65ab4dedbee242ff1c8982eb656d7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 04/25] fix: do not modify the caller's name_spaces in
 KML.parse

---
 fastkml/kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..4502c1d 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -237,7 +237,7 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = dict(name_spaces) if name_spaces else {}
         if ns:
             name_spaces["kml"] = ns
         name_spaces = {**config.NAME_SPACES, **name_spaces}
-- 
2.43.0


From 57ebaaaac52363f466446d4d3e994dbd5675afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 05/25] fix: write icon styles that have no icon

---
 fastkml/styles.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index b5b9292..76bef91 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -507,15 +507,23 @@ class IconStyle(_ColorStyle):
 
     def __bool__(self) -> bool:
         """
-        Check if the Style has an icon.
+        Check if any of the attributes of the icon style is set.
 
         Returns
         -------
         bool
-            True if the Style has an icon, False otherwise.
+            True if the Style has any content, False otherwise.
 
         """
-        return bool(self.icon)
+        return bool(self.icon) or any(
+            (
+                self.color is not None,
+                self.color_mode is not None,
+                self.scale is not None,
+                self.heading is not None,
+                self.hot_spot is not None,
+            ),
+        )
 
     @property
     def icon_href(self) -> Optional[str]:
-- 
2.43.0


From a79b6f3b2660947585c53d808a969a4d57b869e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 06/25] fix: no geometry instead of TypeError for lines of
 wrong dimension

---
 fastkml/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index bb14f78..be369cf 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -661,7 +661,7 @@ class LineString(_Geometry):
             return None
         try:
             return geo.LineString.from_coordinates(self.kml_coordinates.coords)
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
@@ -801,7 +801,7 @@ class LinearRing(LineString):
                 geo.LinearRing,
                 geo.LinearRing.from_coordinates(self.kml_coordinates.coords),
             )
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
-- 
2.43.0


From ca1b7e6a59d849cfa6f8a2a3ef484cc7c218abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 07/25] fix: pass the namespaces on to the parts of a geometry

---
 fastkml/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index be369cf..0487fe8 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -415,7 +415,11 @@ class Point(_Geometry):
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None and geometry:
             kml_coordinates = (
-                Coordinates(coords=geometry.coords)  # type: ignore[arg-type]
+                Coordinates(
+                    ns=ns,
+                    name_spaces=name_spaces,
+                    coords=geometry.coords,  # type: ignore[arg-type]
+                )
                 if geometry
                 else None
             )
@@ -591,7 +595,11 @@ class LineString(_Geometry):
         if geometry is not None and kml_coordinates is not None:
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None:
-            kml_coordinates = Coordinates(coords=geometry.coords) if geometry else None
+            kml_coordinates = (
+                Coordinates(ns=ns, name_spaces=name_spaces, coords=geometry.coords)
+                if geometry
+                else None
+            )
         self.kml_coordinates = kml_coordinates
         self.extrude = extrude
         self.tessellate = tessellate
@@ -1036,9 +1044,14 @@ class Polygon(_Geometry):
         if outer_boundary is not None and geometry is not None:
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
-            outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
+            outer_boundary = OuterBoundaryIs(
+                ns=ns,
+                name_spaces=name_spaces,
+                geometry=geometry.exterior,
+            )
             inner_boundaries = [
-                InnerBoundaryIs(geometry=interior) for interior in geometry.interiors
+                InnerBoundaryIs(ns=ns, name_spaces=name_spaces, geometry=interior)
+                for interior in geometry.interiors
             ]
         self.outer_boundary = outer_boundary
         self.inner_boundaries = list(inner_boundaries) if inner_boundaries else []
-- 
2.43.0


From 38dc3ef53374a70b2becd0d30764fa4f407591d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 08/25] fix: report empty time stamps of a track as parse
 errors

---
 fastkml/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 68d0def..611e4f2 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1155,7 +1155,9 @@ def datetime_subelement_list_kwarg(
         for subelement in subelements:
             try:
                 args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
+                    cls.parse(  # type: ignore[attr-defined]
+                        subelement.text.strip() if subelement.text else "",
+                    ),
                 )
             except ValueError as exc:  # noqa: PERF203
                 handle_error(
-- 
2.43.0


From ff7f4813906030d5c942f702574e5bb8317948ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 09/25] fix: read screen overlays directly below the root
 element

---
 fastkml/kml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 4502c1d..ca7b9a6 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -54,6 +54,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -66,6 +67,7 @@ kml_children = Union[
     Placemark,
     GroundOverlay,
     PhotoOverlay,
+    ScreenOverlay,
     NetworkLinkControl,
 ]
 
@@ -300,12 +302,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From fbfaa12b629d220bbb33f89e029b3378bff329e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 10/25] fix: write fields registered for the root element

---
 fastkml/kml.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index ca7b9a6..fbc8b62 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -187,15 +187,16 @@ class KML(_XMLObject):
             root = config.etree.Element(
                 f"{self.ns}{self.get_tag_name()}",
             )
-        xml_subelement_list(
-            obj=self,
-            element=root,
-            attr_name="features",
-            node_name="",
-            precision=precision,
-            verbosity=verbosity,
-            default=None,
-        )
+        for item in registry.get(self.__class__):
+            item.set_element(
+                obj=self,
+                element=root,
+                attr_name=item.attr_name,
+                node_name=item.node_name,
+                precision=precision,
+                verbosity=verbosity,
+                default=item.default,
+            )
         return cast(Element, root)
 
     def append(
-- 
2.43.0


From 610ea51141eb9efe6a0b2cf4c86b44286081bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:23 +0000
Subject: [PATCH 11/25] fix: accept registered extension keywords for overlays

---
 fastkml/overlays.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index 48bfcdd..dfee519 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -144,6 +144,7 @@ class _Overlay(_Feature):
         color: Optional[str] = None,
         draw_order: Optional[int] = None,
         icon: Optional[Icon] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize an Overlay object.
@@ -220,6 +221,7 @@ class _Overlay(_Feature):
             styles=styles,
             region=region,
             extended_data=extended_data,
+            **kwargs,
         )
         self.icon = icon
         self.color = clean_string(color)
-- 
2.43.0


From 8bf32170750b8c09c6a73c610ef78cdfda06a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:23 +0000
Subject: [PATCH 12/25] fix: compare all fields of points, lines and polygons

---
 fastkml/geometry.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 0487fe8..1f72e88 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -470,15 +470,16 @@ class Point(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the Point objects are equal."""
-        if isinstance(other, Point):
+        if isinstance(other, Point) and type(self) is type(other):
             return all(
-                getattr(self, attr) == getattr(other, attr)
+                getattr(self, attr, None) == getattr(other, attr, None)
                 for attr in (
                     "extrude",
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
+                    *other._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -641,15 +642,17 @@ class LineString(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
-        if isinstance(other, LineString):
+        if isinstance(other, LineString) and type(self) is type(other):
             return all(
-                getattr(self, attr) == getattr(other, attr)
+                getattr(self, attr, None) == getattr(other, attr, None)
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
+                    *other._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -1130,15 +1133,18 @@ class Polygon(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the Polygon objects are equal."""
-        if isinstance(other, Polygon):
+        if isinstance(other, Polygon) and type(self) is type(other):
             return all(
-                getattr(self, attr) == getattr(other, attr)
+                getattr(self, attr, None) == getattr(other, attr, None)
                 for attr in (
                     "extrude",
                     "tessellate",
-                    "geometry",
+                    "altitude_mode",
+                    "outer_boundary",
+                    "inner_boundaries",
                     *xml_attrs,
                     *self._get_splat(),
+                    *other._get_splat(),
                 )
             )
         return super().__eq__(other)
-- 
2.43.0


From da9da6cfa17e6c60c9fd0c1674a9464cb711033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:23 +0000
Subject: [PATCH 13/25] fix: no validation verdict after switching to an
 implementation without schema

---
 fastkml/validator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..0c60aac 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,10 +130,9 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
-    try:
-        schema_parser = get_schema_parser(schema)
-    except AttributeError:
+    if not hasattr(config.etree, "XMLSchema"):
         return None
+    schema_parser = get_schema_parser(schema)
 
     if file_to_validate is not None:
         element = config.etree.parse(file_to_validate)
-- 
2.43.0


From c0df443bfa8c26f47e3c094727ca8590e4f75125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 14/25] fix: write the schemata of a document before its
 features

---
 fastkml/containers.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 1a3e773..d63ce6c 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -327,7 +327,7 @@ class Document(_Container):
 
 
 registry.register(
-    _Container,
+    Folder,
     RegistryItem(
         ns_ids=("kml", ""),
         attr_name="features",
@@ -359,3 +359,25 @@ registry.register(
         set_element=xml_subelement_list,
     ),
 )
+registry.register(
+    Document,
+    RegistryItem(
+        ns_ids=("kml", ""),
+        attr_name="features",
+        node_name=(
+            "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink"
+        ),
+        classes=(
+            Document,
+            Folder,
+            Placemark,
+            GroundOverlay,
+            PhotoOverlay,
+            ScreenOverlay,
+            NetworkLink,
+        ),
+        get_kwarg=xml_subelement_list_kwarg,
+        set_element=xml_subelement_list,
+    ),
+)
-- 
2.43.0


From 24d2fb33e152fe74358155fec06a1c271cdc4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 15/25] fix: keep track samples aligned when lenient reading
 skips a bad value

---
 fastkml/gx.py      | 1 +
 fastkml/helpers.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 8d6946e..cf2e110 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -267,6 +267,7 @@ class Track(_Geometry):
                     angles,
                     fillvalue=(),
                 )
+                if when and coord
             ]
         self.track_items = list(track_items) if track_items else []
         self.extended_data = extended_data
diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 611e4f2..d3ee8fc 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1167,6 +1167,8 @@ def datetime_subelement_list_kwarg(
                     node=subelement,
                     expected="DateTime",
                 )
+                # keep the position, the values belong to parallel lists
+                args_list.append(cast("KmlDateTime", ()))
     return {kwarg: args_list} if args_list else {}
 
 
@@ -1191,6 +1193,8 @@ def get_coord_args(
                     node=subelement,
                     expected="Coordinates",
                 )
+                # keep the position, the values belong to parallel lists
+                yield cast(PointType, ())
 
 
 def coords_subelement_list_kwarg(
-- 
2.43.0


From 5533454cd736edbae2d71c0eba0ff345b0a5eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:28 +0000
Subject: [PATCH 16/25] fix: keep angles aligned when some track items have
 none

---
 fastkml/gx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index cf2e110..1512c9a 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -357,7 +357,9 @@ class Track(_Geometry):
             The angles of the track items.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
 
     def __bool__(self) -> bool:
         """
-- 
2.43.0


From 68520df32e0ac6154af08cecb0b954a72a82badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:28 +0000
Subject: [PATCH 17/25] fix: copy the coordinates passed to Coordinates

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 1f72e88..62944e8 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -266,7 +266,7 @@ class Coordinates(_XMLObject):
 
         """
         super().__init__(ns=ns, name_spaces=name_spaces, **kwargs)
-        self.coords = coords or []
+        self.coords = list(coords) if coords else []
 
     def __repr__(self) -> str:
         """Create a string (c)representation for Coordinates."""
-- 
2.43.0


From 7fa563e1c7358b5c5e99d29f99eeb90368d5745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:28 +0000
Subject: [PATCH 18/25] fix: use the default hot spot position of the schema

---
 fastkml/styles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index 76bef91..962352e 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -364,7 +364,7 @@ registry.register(
         classes=(float,),
         get_kwarg=attribute_float_kwarg,
         set_element=float_attribute,
-        default=0.5,
+        default=1.0,
     ),
 )
 registry.register(
@@ -376,7 +376,7 @@ registry.register(
         classes=(float,),
         get_kwarg=attribute_float_kwarg,
         set_element=float_attribute,
-        default=0.5,
+        default=1.0,
     ),
 )
 registry.register(
-- 
2.43.0


From 83948f73a9c607acd7666a5b4ffba8514b355fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:56 +0000
Subject: [PATCH 19/25] fix: check the dimension of every coordinate on writing

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 62944e8..d283144 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -164,7 +164,7 @@ def coordinates_subelement(
     """
     if getattr(obj, attr_name, None):
         coords = getattr(obj, attr_name)
-        if not coords or len(coords[0]) not in (2, 3):
+        if any(len(coord) not in (2, 3) for coord in coords):
             msg = f"Invalid dimensions in coordinates '{coords}'"
             raise KMLWriteError(msg)
         if precision is None:
-- 
2.43.0


From 22d9e3ceb37ea06cbbf6866e40d20170018e89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:56 +0000
Subject: [PATCH 20/25] fix: find no style for a URL without fragment

---
 fastkml/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index d63ce6c..4ee855b 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -316,6 +316,8 @@ class Document(_Container):
 
         """
         id_ = urlparse.urlparse(style_url).fragment
+        if not id_:
+            return None
         return next(
             find_all(  # type: ignore[arg-type]
                 self,
-- 
2.43.0


From fa01ba69ebe47ceac48b1ef6c29c978372ec4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:57 +0000
Subject: [PATCH 21/25] fix: reject inner boundaries given together with a
 geometry

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index d283144..82d6e60 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1044,7 +1044,7 @@ class Polygon(_Geometry):
         None
 
         """
-        if outer_boundary is not None and geometry is not None:
+        if geometry is not None and (outer_boundary is not None or inner_boundaries):
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
             outer_boundary = OuterBoundaryIs(
-- 
2.43.0


From a01e4936b08733f60d5668fbb5038c7977c74151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:40 +0000
Subject: [PATCH 22/25] fix: no geometry instead of DimensionError for tracks
 of mixed dimension

---
 fastkml/gx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 1512c9a..1c65f15 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -90,6 +90,7 @@ from typing import Tuple
 from typing import cast
 
 import pygeoif.geometry as geo
+from pygeoif.exceptions import DimensionError
 from pygeoif.types import PointType
 
 from fastkml import config
@@ -314,7 +315,10 @@ class Track(_Geometry):
             The geometry of the track.
 
         """
-        return track_items_to_geometry(self.track_items)
+        try:
+            return track_items_to_geometry(self.track_items)
+        except DimensionError:
+            return None
 
     @property
     def whens(self) -> Tuple[KmlDateTime, ...]:
-- 
2.43.0


From 1e7beaa2688d35ee7b853e8ee40434195b8649f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:40 +0000
Subject: [PATCH 23/25] fix: report track positions of wrong dimension as parse
 errors

---
 fastkml/helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index d3ee8fc..05747b2 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1181,10 +1181,11 @@ def get_coord_args(
     for subelement in subelements:
         if subelement.text:
             try:
-                yield cast(
-                    PointType,
-                    tuple(float(coord) for coord in subelement.text.split()),
-                )
+                coords = tuple(float(coord) for coord in subelement.text.split())
+                if len(coords) not in (0, 2, 3):
+                    msg = f"Invalid dimension {len(coords)} of coordinates"
+                    raise ValueError(msg)  # noqa: TRY301
+                yield cast(PointType, coords)
             except ValueError as exc:
                 handle_error(
                     error=exc,
-- 
2.43.0


From bc407ed1f0da37f778dd93f548587808fb38e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:48 +0000
Subject: [PATCH 24/25] fix: reject a schema whose id is blank

---
 fastkml/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastkml/data.py b/fastkml/data.py
index 573ca07..c6c28ca 100644
--- a/fastkml/data.py
+++ b/fastkml/data.py
@@ -240,6 +240,7 @@ class Schema(_XMLObject):
             If the id is not provided.
 
         """
+        id = clean_string(id)  # noqa: A001
         if not id:
             msg = "Id is required for schema"
             raise KMLSchemaError(msg)
@@ -250,7 +251,7 @@ class Schema(_XMLObject):
         )
         self.name = clean_string(name)
         self.fields = list(fields) if fields else []
-        self.id = clean_string(id)
+        self.id = id
 
     def __repr__(self) -> str:
         """
-- 
2.43.0


From 6243b2633ef9968c0ff2f3e85261cc28321a9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 25/25] fix: compare fields set by keyword and by assignment
 alike

---
 fastkml/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 8fa9d87..ab22666 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -132,7 +132,13 @@ class _XMLObject:
             True if the objects are equal, False otherwise.
 
         """
-        return self.__dict__ == other.__dict__ if type(self) is type(other) else False
+        if type(self) is not type(other):
+            return False
+        # the same fields may be set by keyword, by assignment or not at all
+        attrs = {*self.__dict__, *other.__dict__} - {"_XMLObject__kwarg_keys"}
+        return all(
+            getattr(self, attr, None) == getattr(other, attr, None) for attr in attrs
+        )
 
     def etree_element(
         self,
-- 
2.43.0

