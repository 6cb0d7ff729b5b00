#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["fastkml/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))

ALLM=["atom.py","containers.py","data.py","features.py","geometry.py","gx.py","kml.py","links.py","model.py","network_link_control.py","overlays.py","styles.py","times.py","views.py"]
ENG=["base.py","helpers.py","registry.py"]
p("P01","Populated objects survive a write/read round trip unchanged",
  "For every KML, gx and Atom element class and every field it maps to XML, an object whose field holds a value of the field's type is written by serialisation into exactly one place of the XML, and reading that XML back strictly gives an object whose field holds the same value (text, number, enumeration member, date/time, coordinates, nested object or list of nested objects; a list that mixes several kinds of member comes back complete, with the members of each kind in order). No field is lost, duplicated, truncated, rescaled, swapped with another field or read from another element's data.",
  ["inputs"],"every element class x every mapped field x every value of the field's type, alone and together with all other fields",
  "Tests round-trip hand-picked or randomly sampled objects of some classes; a loss that needs one particular class/field/value combination is not sampled.",
  ENG+ALLM,[("registry items pair one writer with one reader per field","fastkml/registry.py RegistryItem; registry.register(...) calls"),("writers/readers","fastkml/helpers.py"),("element building and keyword collection","fastkml/base.py _XMLObject.etree_element / _get_kwargs")],
  ["to_string/etree_element output","from_string/class_from_element result"])
p("P02","Explicit zero and false values are kept, not treated as missing",
  "An optional numeric or boolean field that was explicitly set to 0, 0.0 or False is written with that value and read back as that value; it is never confused with an unset field. This holds for every numeric and boolean field, sub-element or attribute, in constructors, writers and readers.",
  ["inputs"],"every numeric/boolean field of every class, values 0, 0.0, False, in construction, writing and reading",
  "Truthiness bugs only show on falsy values of a specific field; the suite sets falsy values for a few fields only.",
  ENG+ALLM,[("None-checks instead of truth tests","fastkml/helpers.py *_subelement, *_attribute writers"),("readers return a value for any parsable text","fastkml/helpers.py *_kwarg")])
p("P03","Constructor arguments are stored under the matching attribute",
  "Every documented constructor argument of every element class, including those forwarded through base classes, ends up in the public attribute of the same name with the value that was given (strings trimmed, blank strings becoming empty/None, lists copied), and leaves every other field at its default. No argument is dropped, swapped, or overwritten by another one.",
  ["inputs","programs"],"every class x every constructor parameter x every value, alone and with all other parameters",
  "Constructors forward up to 25 keyword arguments through 3-4 levels; tests assert only some of the pairs.",
  ALLM+["base.py","kml_base.py"],[("__init__ chains","every class __init__ and its super().__init__ forwarding")])
p("P04","Strict reading rejects malformed values with the parse error",
  "When a document is read in strict mode (the default), a sub-element or attribute whose non-blank text is not a valid number, boolean, enumeration value, date/time or list of numeric coordinates for its field makes reading raise the library's parse error, at any nesting depth and for every field. A malformed value is never silently dropped, replaced or turned into some other value, and no foreign exception type escapes for it.",
  ["inputs"],"every typed field of every class at every nesting level, every malformed text",
  "Tests feed malformed text to a few fields; each reader and each registration must do it, and strictness must reach every nested element.",
  ENG+["geometry.py","gx.py","times.py","enums.py"],[("handle_error raises KMLParseError in strict mode","fastkml/helpers.py handle_error"),("strict flag passed to nested readers","fastkml/helpers.py xml_subelement_kwarg, xml_subelement_list_kwarg; base.py")])
p("P05","Lenient reading skips bad values, logs them, and keeps the rest",
  "With strictness off, no malformed, empty or missing value of a typed field makes reading fail: the offending value is left unset, a malformed value is logged, and every other field and sibling element of the document is read exactly as it would have been without the bad value. This holds for every typed field at every nesting depth.",
  ["inputs"],"every typed field of every class at every nesting level; texts: malformed, empty, whitespace-only, absent",
  "Tests cover a handful of fields; robustness must hold for each reader and each registration.",
  ENG+["geometry.py","gx.py","times.py","enums.py"],[("try/except around conversions + handle_error","fastkml/helpers.py readers"),("strict flag propagation","fastkml/base.py, fastkml/helpers.py")])
p("P06","Keyword and boolean spellings: exact in strict mode, any case in lenient",
  "Every enumeration field accepts exactly the schema spelling in strict mode and any letter case in lenient mode, in both cases giving the member whose schema spelling it is; strict mode rejects a wrong-case spelling. Boolean fields accept 1/0/true/false in strict mode and additionally any letter case and numeric text in lenient mode, with 1/true/non-zero meaning true and 0/false/zero meaning false; white space around element text never matters.",
  ["inputs"],"every enumeration field x every member x letter case x padding; every boolean field x every spelling",
  "The product of fields, members and spellings is only sampled.",
  ["helpers.py","enums.py"],[("_get_enum_value, _get_boolean_value","fastkml/helpers.py"),("RelaxedEnum._missing_","fastkml/enums.py")])
p("P07","Verbosity levels only add or omit default values",
  "For every field with a registered (schema) default: normal output contains a field iff it is set; verbose output additionally contains every unset field with its schema default; terse output omits a field iff it is unset or equals its default. No verbosity level changes, drops or adds any other value, and the chosen level applies at every nesting depth.",
  ["inputs","configurations"],"every class x every field x {unset, equal to default, other} x {terse, normal, verbose} x nesting depth",
  "Tests exercise verbosity on a few fields of a few classes.",
  ["helpers.py","base.py","kml.py","enums.py"],[("get_value","fastkml/helpers.py"),("verbosity forwarded to children","fastkml/helpers.py xml_subelement(_list); fastkml/kml.py KML.etree_element")])
p("P08","Precision affects exactly the coordinates, at every depth",
  "When a precision is requested for output, every coordinate (including track points and angles) at every nesting depth is written with exactly that number of decimals, including zero, and when none is requested coordinates are written with their full value. Nothing else in the output (other numbers, text, structure, order, the number of coordinates or their dimension) depends on the precision.",
  ["inputs","configurations"],"every geometry/track class x every coordinate value x every precision x nesting depth",
  "Tests use a few precisions on a few geometries.",
  ["helpers.py","geometry.py","gx.py","base.py","kml.py"],[("coordinates_subelement","fastkml/geometry.py"),("coords_subelement_list","fastkml/helpers.py"),("precision forwarded","fastkml/helpers.py xml_subelement(_list), fastkml/base.py, fastkml/kml.py")])
p("P09","Written elements follow the names and order of the KML schema",
  "Every element and attribute the library writes has the name and namespace the bundled OGC KML 2.2 / gx / Atom schemas define for that parent, and sibling elements of every class are written in the order the schema's sequence prescribes, whichever subset of fields is set (members of one mixed list keep the order the user gave them).",
  ["inputs","programs"],"every class x every subset of its fields",
  "Schema validity is tested for sampled objects; an order or name slip on one pair of fields is invisible unless both are sampled together.",
  ENG+ALLM+["schema/ogckml22.xsd","schema/kml22gx.xsd","schema/atom-author-link.xsd"],[("registration order (base class first)","fastkml/registry.py Registry.get; registry.register(...) calls"),("node names / get_tag_name","all element classes")])
p("P10","Registered defaults and vocabularies agree with the schema",
  "Wherever the library fills in or leaves out a default value (verbose/terse output, implied values), that value is the default of the bundled schema for the element (for the link's view format, the one the KML reference documents); and for every enumeration field the accepted spellings are exactly the schema's enumeration values for that element (plus the documented gx extension values).",
  ["programs","inputs"],"every registered default, every enumeration member",
  "The tests compare against the library's own constants, not against the schema; most defaults are never emitted by a test.",
  ALLM+["enums.py","schema/ogckml22.xsd","schema/kml22gx.xsd"],[("default= in registry items","registry.register(...) calls"),("enum classes","fastkml/enums.py")])
p("P11","Every slot reads back every kind of child it may contain",
  "Wherever an element may hold one of several kinds of child (features in the root, documents and folders; geometries in placemarks and multi-geometries; styles; views; times; extended data; links and icons), each supported kind permitted there by the schema is written when set and is read back as the same kind, directly and at any nesting depth, including children of the same kind as the parent.",
  ["inputs","programs"],"every parent class x child slot x supported child class",
  "Tests cover common parent/child pairs; the table of permitted pairs is large.",
  ["kml.py","containers.py","features.py","geometry.py","gx.py","styles.py","overlays.py","views.py","data.py","model.py","network_link_control.py","helpers.py"],[("classes= tuples in registry items","registry.register(...) calls")])
p("P12","Namespaces are honoured on writing and reading",
  "Every written element carries the namespace of its vocabulary (KML, Atom or gx) taken from the object's own or configured namespaces, also for children the library builds itself. Elements are read completely whatever prefix they use, when the KML namespace is a different version URI given or detected for the document, and, below the root element, when the KML elements carry no namespace at all.",
  ["inputs","configurations"],"every class x fields x namespace configuration (default, custom KML URI, none)",
  "Tests use the default namespace nearly everywhere.",
  ["base.py","helpers.py","config.py","kml.py","geometry.py","gx.py","atom.py"],[("ns_ids fallback list","registry.register(...) calls; fastkml/base.py _get_kwargs"),("get_ns","fastkml/helpers.py"),("KML.parse namespace detection","fastkml/kml.py")])
p("P13","Equality compares every mapped field",
  "Two objects of the same class are equal iff all their mapped fields (recursively, for complete geometries), ids and namespaces are equal: an object equals an identically constructed one, differs as soon as any single field differs, never equals an object of another class, and comparison is symmetric and never raises.",
  ["inputs"],"every class x every field x differing values",
  "Tests compare a few pairs; ignoring one field in one class is invisible to them.",
  ["base.py","geometry.py","times.py","gx.py"]+["features.py","data.py"],[("_XMLObject.__eq__","fastkml/base.py"),("geometry __eq__ overrides","fastkml/geometry.py"),("KmlDateTime.__eq__","fastkml/times.py")])
p("P14","The representation of an object shows every constructor field",
  "For every element class, the representation of an object is a constructor call of its class naming every mapped field with that field's value (lines, rings and polygons may show their geometry instead of its parts) and any additional registered keywords, so that evaluating it rebuilds an equal object; no field is missing, mislabelled or shows another field's value.",
  ["inputs"],"every class x every field",
  "Only sampled objects are evaluated back in tests.",
  ALLM+["kml_base.py","base.py"],[("__repr__ of every class","all element classes")])
p("P15","Writing and querying never change objects, and always show their state",
  "Serialising, printing, comparing, validating, truth-testing, searching and reading properties leave every object, the caller's arguments and the library's shared tables (namespaces, registered fields) unchanged, so repeating them gives the same result. After a field is changed, the next output shows the new value: nothing stale is remembered.",
  ["inputs","histories"],"every class x every read-only operation x every sequence of mutate/read operations",
  "Tests rarely call operations twice or compare state before and after.",
  ENG+["geometry.py","gx.py","kml.py","utils.py","containers.py","styles.py","config.py"],[("pure writers and properties","fastkml/helpers.py, fastkml/base.py, properties of all classes")])
p("P16","Objects share no mutable state with their inputs or each other",
  "Constructing or reading an object never modifies the lists, dictionaries or objects passed in, and list-valued fields and namespace tables are private copies: changing one object (appending a feature, adding a namespace) never changes another object, the caller's collections, or library defaults. Any iterable, including a one-shot iterator, is accepted for a list-valued argument.",
  ["inputs","histories"],"every class x every list/dict argument x later mutations",
  "Aliasing only shows in multi-object histories, which the tests do not build.",
  ALLM+["base.py","config.py"],[("list(...) copies in constructors","every class __init__"),("merged namespace dict","fastkml/base.py")])
p("P17","Results do not depend on the XML implementation in use",
  "With the standard library's ElementTree selected instead of lxml, writing every class produces the same elements, attributes, texts and order, reading gives the same objects and the same errors, and features that need lxml (pretty printing, validation) degrade quietly instead of failing. Switching the implementation takes effect everywhere immediately, also after earlier use.",
  ["configurations","inputs","histories"],"every class x fields under both implementations, and switching between them",
  "Only a few tests run under the second implementation and none switch midway.",
  ["config.py","base.py","kml.py","helpers.py","validator.py"],[("config.etree indirection","fastkml/config.py set_etree_implementation"),("TypeError/AttributeError fallbacks","fastkml/base.py to_string, fastkml/kml.py parse/write, fastkml/validator.py")])
p("P18","Dates and times keep their resolution and value",
  "A KML date/time keeps exactly the resolution given or detected (year, year-month, date, date-time): it prints in that form with four-digit year and two-digit fields for every year from 1 to 9999, reading the printed text gives an equal value with the same resolution, and a finer value given with a coarser resolution is truncated, never rounded or shifted. Values of different resolution or instant are never equal.",
  ["inputs"],"every date, date-time and resolution",
  "Tests sample some dates; years below 1000 and particular months/days are not covered.",
  ["times.py","enums.py"],[("KmlDateTime.parse/__str__/__eq__, adjust_date_to_resolution","fastkml/times.py")])
p("P19","Geometry conversion is faithful in both directions",
  "Creating a KML geometry from any supported geometry object gives the matching KML element, and its geometry property gives back a geometry of the same kind with the same coordinates in the same order, dimension, ring structure and nesting (a collection whose parts are all points, all lines or all polygons is the corresponding multi-geometry); requested extrude/tessellate/altitude settings reach every part. Incomplete or wrongly dimensioned coordinates give no geometry instead of an exception.",
  ["inputs"],"every geometry type, nesting, ring/part count, 2D/3D coordinates",
  "Tests use a few fixed geometries.",
  ["geometry.py","gx.py","features.py"],[("create_kml_geometry, create_multigeometry","fastkml/geometry.py"),("geometry properties","fastkml/geometry.py, fastkml/gx.py, fastkml/features.py")])
p("P20","Searching visits every nested object exactly as filtered",
  "Searching an object tree yields every object reachable through its public fields and lists (the root included), at any depth, that is of the requested type (or any of several) and whose attributes all equal the requested values, parents before their descendants and list members in list order, and nothing else; objects lacking a requested attribute do not match and do not break the search. The single-result search returns the first of these or nothing.",
  ["inputs"],"every tree, type filter and attribute filter",
  "Tests search small fixed trees.",
  ["utils.py"],[("find_all, find, get_all_attrs, has_attribute_values","fastkml/utils.py")])
p("P21","Style lookup and shortcuts return the referenced object",
  "Looking up a style by URL in a document returns the first style or style map whose id is the URL's fragment, wherever it is nested, with or without a file part, and nothing if there is none; a style map's normal and highlight shortcuts return the style of the pair with that key in any order of pairs, and an icon style's address shortcut returns its icon's address.",
  ["inputs"],"every document, style placement, URL form, pair order",
  "Tests use one or two fixed documents.",
  ["containers.py","styles.py","utils.py"],[("Document.get_style_by_url","fastkml/containers.py"),("StyleMap.normal/highlight, IconStyle.icon_href","fastkml/styles.py")])
p("P22","Validation gives the schema's verdict",
  "Validating an element, an object or a file returns true exactly when the chosen schema (by default the bundled KML schema) accepts it, raises the assertion error after logging when the schema rejects it, returns no verdict when the XML implementation cannot validate, and rejects a call with neither or both inputs. Reading a file validates it by default in strict mode, and never when validation is switched off.",
  ["inputs","configurations","histories"],"every element/file/schema argument, implementation and strictness combination, repeated calls",
  "Combinations and repetitions of calls are only sampled.",
  ["validator.py","kml.py","base.py"],[("validate, get_schema_parser","fastkml/validator.py"),("lxml_parse_and_validate","fastkml/kml.py")])
p("P23","Files are written and read completely with the requested options",
  "Writing a document to a file stores exactly its serialisation with the requested pretty-printing, precision and verbosity, UTF-8 encoded; a path ending in .kmz instead gets a zip archive whose single member doc.kml holds that text. Reading a file gives the same object as reading its text, honouring the namespace, strictness and validation arguments.",
  ["inputs","configurations"],"every document, path suffix, option combination",
  "Tests write one small document with few option combinations.",
  ["kml.py","base.py"],[("KML.write, KML.parse","fastkml/kml.py"),("to_string","fastkml/base.py")])
p("P24","Registered extensions apply to a class and all its subclasses only",
  "After a field is registered for a class, at any time, every instance of that class and of its subclasses accepts it as a constructor keyword, writes it after the fields of its base classes in registration order and reads it back, while other classes are unaffected. Earlier registrations are never replaced or reordered, and unset extension fields are harmless.",
  ["histories","inputs"],"every class as registration target, every order of registrations and uses",
  "Tests register one field on one class.",
  ["registry.py","base.py","kml_base.py"]+["overlays.py","kml.py"],[("Registry.register/get","fastkml/registry.py"),("**kwargs forwarding to the root constructor","every class __init__")])
p("P25","Children with content are always written; empty ones never are",
  "An object counts as non-empty exactly when the content that defines its element is set, whatever the value (0 and False count as set): a box needs its four sides, a location latitude and longitude, a link its address, a data item name and value, a geometry usable coordinates, a screen position x and y, a style or time span at least one of its fields, and so on; classes without such a rule are never empty. Parents write every non-empty nested object or list member and no empty one. Whether an object counts as empty depends only on its present content, not on other objects or earlier operations.",
  ["inputs"],"every class that defines emptiness x every subset of its fields",
  "Each class has a hand-written emptiness rule; tests sample few combinations.",
  ["data.py","features.py","geometry.py","gx.py","links.py","model.py","overlays.py","styles.py","times.py","views.py","atom.py","helpers.py"],[("__bool__ of element classes","all element classes"),("truth tests in xml_subelement(_list)","fastkml/helpers.py")])
p("P26","Track points stay aligned in time, position and angle",
  "A track built from parallel lists of times, positions and angles, or read from XML, pairs the n-th time with the n-th position and the n-th angle (missing angles at the end are zero), for lists and one-shot iterators, and exposes and writes them in the same order and number; building a track from both forms at once is rejected. A multi-track keeps its non-empty tracks in order and each track's geometry is the line through its positions.",
  ["inputs"],"every number of points, with or without angles",
  "Tests use a few fixed tracks.",
  ["gx.py","helpers.py"],[("Track.__init__, whens/coords/angles","fastkml/gx.py"),("MultiTrack","fastkml/gx.py")])
p("P27","Lists keep their order and multiplicity",
  "The members of every list-valued field (features, styles, schemata, inner boundaries, geometries, tracks, pairs, fields, data, aliases, coordinates, times) are written in list order, each non-empty member exactly once, and reading gives them back each exactly once, members of the same kind in document order, for any length and any mixture of member kinds.",
  ["inputs"],"every list-valued field, every length and mixture of kinds",
  "Tests use lists of one to three members, mostly of one kind.",
  ["helpers.py","containers.py","kml.py","features.py","geometry.py","gx.py","styles.py","data.py","model.py"],[("xml_subelement_list(_kwarg), coords/datetime list helpers","fastkml/helpers.py")])
p("P28","Contradictory or impossible requests are rejected, never written",
  "Giving both a geometry and its (complete) KML form (for points, lines, rings, boundaries, polygons, multi-geometries, placemarks, tracks), appending a container to itself, creating a schema without id, converting an unsupported geometry, or writing a geometry with any coordinate of a dimension other than two or three raises the documented error before anything is produced, for every combination of values; a parent never writes such coordinates.",
  ["inputs"],"every class with mutually exclusive arguments x every combination",
  "Each guard is tested once or not at all.",
  ["geometry.py","gx.py","features.py","containers.py","data.py"],[("guards in constructors and append","fastkml/geometry.py, fastkml/gx.py, fastkml/features.py, fastkml/containers.py, fastkml/data.py"),("coordinates_subelement","fastkml/geometry.py")])
p("P29","The documented public names exist and denote the documented things",
  "Every documented public class and function can be imported from the package (and its submodules), every name listed as exported exists, and each exported alias denotes the intended class: its tag, its namespace and its accepted fields are those of the element it is named after.",
  ["programs"],"every exported name of every module",
  "Tests import a subset of the names.",
  ["__init__.py"]+ALLM+["utils.py","validator.py"],[("imports and __all__","fastkml/__init__.py and every module")])
p("P30","Time shortcuts reflect the attached time primitive",
  "On every feature and view, the time-stamp shortcut gives the attached time stamp's moment and the begin and end shortcuts give the attached time span's begin and end, each is nothing when the other kind (or none) is attached, and they follow later changes of the attached object.",
  ["inputs","histories"],"every feature/view class x attached time kind x values",
  "Tests check one or two classes.",
  ["mixins.py","features.py","views.py","times.py"],[("TimeMixin properties","fastkml/mixins.py")])
p("P31","Exact decimal text of floating point numbers is preserved",
  "Every finite float printed by the library and read back gives the bit-identical float, on every platform.",
  ["inputs"],"every IEEE double","Tests sample values.",["helpers.py","geometry.py"],[("str()/float()","Python runtime")])
p("P32","Text content is escaped so that output is always well-formed XML",
  "Any text value, including markup characters and CDATA-like sequences, is written so that an XML parser gives back the identical text, and values that cannot be represented in XML are rejected.",
  ["inputs"],"every Unicode string","Tests sample strings.",["helpers.py","base.py"],[("delegated to lxml / ElementTree","third-party code")])
p("P33","Time and memory stay proportional to document size",
  "Reading, writing and searching a document take time and memory bounded by a small multiple of its size, for any nesting.",
  ["inputs"],"every document size and nesting depth","No test measures it.",["base.py","helpers.py","utils.py"],[("single pass over registry items","fastkml/base.py")])
p("P34","Concurrent use of separate objects is safe",
  "Threads that read and write separate documents at the same time get the same results as running one after the other, also while another thread selects the XML implementation or registers fields.",
  ["schedules"],"every interleaving","Tests are single threaded.",["config.py","registry.py","validator.py"],[("module-level state without locks","fastkml/config.py, fastkml/registry.py")])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
