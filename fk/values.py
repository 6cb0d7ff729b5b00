"""Abstract values of the fastkml abstract interpreter.

Concrete Python scalars (None, bool, int, float, str, bytes), tuples and builtin
type objects stand for themselves.  Everything else is one of the classes here.
`Sym` is the interesting one: a *provenance term* standing for every value of a
type ("the value the caller put into field X"), optionally refined by flags.
"""
from __future__ import annotations

import itertools

_counter = itertools.count(1)


def birth() -> int:
    return next(_counter)


class Undecided(Exception):
    """The analysis cannot decide; the obligation is reported as undecided."""


class AbsExc(Exception):
    """A (target-level) exception propagating through the abstract program."""

    def __init__(self, val, loc=None):
        super().__init__(str(val))
        self.val = val
        self.loc = loc


class Heap:
    __slots__ = ("birth",)

    def __init__(self):
        self.birth = birth()


class Sym:
    """Provenance term: op applied to args, with a type tag and flags."""

    __slots__ = ("op", "args", "ty", "flags", "_h")

    def __init__(self, op, args=(), ty="any", flags=()):
        self.op = op
        self.args = tuple(args)
        self.ty = ty
        self.flags = frozenset(flags)
        self._h = hash((op, self.args))

    def __eq__(self, o):
        return isinstance(o, Sym) and self._h == o._h and self.op == o.op and same_args(self.args, o.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == "v":
            return f"<{self.args[0]}>"
        if self.op == "cat":
            return "".join(a if isinstance(a, str) else repr(a) for a in self.args)
        if self.op == "tostring":
            return "<xml text>"
        return f"{self.op}({', '.join(map(short, self.args))})"


def same_args(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is not type(y):
            return False
        if isinstance(x, tuple):
            if not same_args(x, y):
                return False
        elif x != y:
            return False
    return True


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."


class Unk:
    """No information (imprecise)."""

    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"<?{self.why}>"


class VList(Heap):
    __slots__ = ("items", "rep")

    def __init__(self, items=(), rep=False):
        super().__init__()
        self.items = list(items)
        self.rep = rep  # representative of an arbitrary-length list

    def __repr__(self):
        return "[" + ", ".join(map(short, self.items)) + "]"


class VSet(Heap):
    __slots__ = ("d", "frozen")

    def __init__(self, frozen=False):
        super().__init__()
        self.d = {}
        self.frozen = frozen

    def __repr__(self):
        return "{" + ", ".join(map(short, self.d.values())) + "}"


class VDict(Heap):
    __slots__ = ("d", "cls", "factory")

    def __init__(self, cls=dict):
        super().__init__()
        self.d = {}  # hkey -> (key, value)
        self.cls = cls
        self.factory = None

    def __repr__(self):
        return "{" + ", ".join(f"{short(k)}: {short(v)}" for k, v in self.d.values()) + "}"


class VIter(Heap):
    """One-shot iterator around a python generator of abstract values."""

    __slots__ = ("gen", "kind")

    def __init__(self, gen, kind="iterator"):
        super().__init__()
        self.gen = gen
        self.kind = kind

    def __repr__(self):
        return f"<{self.kind}>"


class Env:
    __slots__ = ("vars", "parent", "module", "kind", "globals", "nonlocals", "defcls")

    def __init__(self, parent, module, kind, defcls=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.kind = kind
        self.globals = None
        self.nonlocals = None
        self.defcls = defcls if defcls is not None else (parent.defcls if parent else None)


class Mod(Heap):
    __slots__ = ("name", "path", "env", "tree", "loaded", "src")

    def __init__(self, name, path):
        super().__init__()
        self.name = name
        self.path = path
        self.env = Env(None, self, "module")
        self.tree = None
        self.loaded = False

    def __repr__(self):
        return f"<module {self.name}>"


class Fn(Heap):
    __slots__ = ("node", "env", "module", "defcls", "name", "defaults", "kwdefaults", "isgen", "attrs", "qual")

    def __init__(self, node, env, module, defcls, name):
        super().__init__()
        self.node = node
        self.env = env
        self.module = module
        self.defcls = defcls
        self.name = name
        self.defaults = []
        self.kwdefaults = {}
        self.isgen = False
        self.attrs = {}
        self.qual = f"{defcls.name}.{name}" if defcls is not None else name

    def __repr__(self):
        return f"<function {self.qual}>"

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return f"<bound {self.fn!r}>"


class Native:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Partial:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs)


class Deco:
    """classmethod/staticmethod/property/lru_cache/contextmanager wrapper."""

    __slots__ = ("kind", "fn", "fset", "fdel", "cache")

    def __init__(self, kind, fn):
        self.kind = kind
        self.fn = fn
        self.fset = None
        self.fdel = None
        self.cache = None

    def __repr__(self):
        return f"<{self.kind} {self.fn!r}>"


class Cls(Heap):
    __slots__ = ("name", "bases", "attrs", "module", "node", "mro", "enum", "members", "dataclass", "dcfields", "ann", "namedtuple")

    def __init__(self, name, bases, module, node):
        super().__init__()
        self.name = name
        self.bases = bases
        self.attrs = {}
        self.module = module
        self.node = node
        self.mro = []
        self.enum = False
        self.members = {}
        self.dataclass = None
        self.dcfields = []
        self.ann = []
        self.namedtuple = False

    def __repr__(self):
        return f"<class {self.name}>"

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}" if self.node is not None else "?"


class Inst(Heap):
    __slots__ = ("cls", "attrs", "payload")

    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.attrs = {}
        self.payload = None

    def __repr__(self):
        n = self.cls.name if isinstance(self.cls, Cls) else getattr(self.cls, "__name__", str(self.cls))
        if isinstance(self.cls, Cls) and self.cls.enum:
            return f"{n}.{self.attrs.get('_name_')}"
        if "args" in self.attrs:
            return f"{n}{short(self.attrs['args'])}"
        return f"<{n} object>"


class Ext:
    """An external (unanalysed) module, class or function, by dotted name."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return f"<ext {self.name}>"


class ExtObj(Heap):
    """Instance of a modelled external class (loggers, files, schema, ...)."""

    __slots__ = ("kind", "attrs")

    def __init__(self, kind, **attrs):
        super().__init__()
        self.kind = kind
        self.attrs = attrs

    def __repr__(self):
        return f"<{self.kind}>"


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Etree:
    """The XML implementation module: mode 'lxml' or 'stdlib'."""

    __slots__ = ("mode",)

    def __init__(self, mode):
        self.mode = mode

    def __eq__(self, o):
        return isinstance(o, Etree) and o.mode == self.mode

    def __hash__(self):
        return hash(("Etree", self.mode))

    def __repr__(self):
        return f"<etree {self.mode}>"


class XElem(Heap):
    __slots__ = ("tag", "text", "tail", "attrib", "children", "parent", "mode", "nsmap")

    def __init__(self, tag, mode):
        super().__init__()
        self.tag = tag
        self.text = None
        self.tail = None
        self.attrib = VDict()
        self.children = []
        self.parent = None
        self.mode = mode
        self.nsmap = None

    def __repr__(self):
        return f"<Element {self.tag}>"


class XTree(Heap):
    __slots__ = ("root",)

    def __init__(self, root):
        super().__init__()
        self.root = root


NOTIMPL = Ext("NotImplemented")
ELLIPSIS = Ext("Ellipsis")


def snapshot(e: XElem):
    """Immutable description of an element tree."""
    return (
        "elem",
        e.tag,
        tuple(((k, v)) for k, v in e.attrib.d.values()),
        e.text,
        tuple(snapshot(c) for c in e.children),
        e.tail,
    )


def from_snapshot(s, mode, default_ns=None):
    _, tag, attrs, text, kids, tail = s
    xmlns = [v for k, v in attrs if k == "xmlns"]
    if xmlns and isinstance(xmlns[0], str):
        default_ns = xmlns[0]
    if default_ns and isinstance(tag, str) and not tag.startswith("{"):
        tag = "{" + default_ns + "}" + tag
    e = XElem(tag, mode)
    e.text = None if text == "" else text
    e.tail = tail
    for k, v in attrs:
        if k == "xmlns":
            continue
        e.attrib.d[("c", k) if isinstance(k, str) else ("s", k)] = (k, v)
    for c in kids:
        ce = from_snapshot(c, mode, default_ns)
        ce.parent = e
        e.children.append(ce)
    return e


def dump(e, indent=0):
    """Readable rendering of an abstract element."""
    if isinstance(e, XElem):
        e = snapshot(e)
    _, tag, attrs, text, kids, tail = e
    a = "".join(f" {k}={v!r}" for k, v in attrs)
    s = "  " * indent + f"<{tag}{a}> {'' if text is None else repr(text)}\n"
    for c in kids:
        s += dump(c, indent + 1)
    return s
