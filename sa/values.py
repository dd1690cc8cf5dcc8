"""Structured abstract values used by the front end."""
from . import ir


class PyRaise(Exception):
    """A Python exception the analysed code definitely raises here."""

    def __init__(self, etype, msg=""):
        Exception.__init__(self, "%s: %s" % (etype, msg))
        self.etype = etype
        self.msg = msg


class Budget(Exception):
    pass


class Top:
    __slots__ = ("reason",)

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return "Top(%s)" % self.reason


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class RaiseV:
    __slots__ = ("msg",)

    def __init__(self, msg):
        self.msg = msg

    def __repr__(self):
        return "RaiseV(%s)" % self.msg


class Buf:
    __slots__ = ("elems", "dtype")

    def __init__(self, elems, dtype):
        self.elems = elems
        self.dtype = dtype


class Arr:
    """A (view of a) buffer: idx maps row-major positions to buffer slots."""
    __slots__ = ("buf", "idx", "shape", "series", "matrix")

    def __init__(self, buf, idx, shape, series=False):
        self.buf = buf
        self.idx = idx
        self.shape = shape
        self.series = series

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n

    def __repr__(self):
        return "Arr#%d%s" % (self.buf, self.shape)


class Masked:
    """x[mask] for a symbolic mask: values kept in place with their guard."""
    __slots__ = ("elems", "mask", "dtype")

    def __init__(self, elems, mask, dtype):
        self.elems = elems
        self.mask = mask
        self.dtype = dtype


class Phi:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return "Phi(%r, %r, %r)" % (self.cond, self.a, self.b)


class Lst:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class Dct:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class SetV:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class DF:
    """minimal pandas.DataFrame: heap[id] = {'cols': {name: Arr}, 'n': int}"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class DFLoc:
    """df.iloc / df.iat: positional access"""
    __slots__ = ("df",)

    def __init__(self, df):
        self.df = df


class Inst:
    __slots__ = ("id", "cls")

    def __init__(self, id, cls):
        self.id = id
        self.cls = cls


class Func:
    __slots__ = ("node", "module", "env", "cls", "name", "defaults", "kwdefaults", "kind", "isgen", "attrs")

    def __init__(self, node, module, env, cls, name, defaults, kwdefaults):
        self.node = node
        self.module = module
        self.env = env
        self.cls = cls
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.kind = "plain"
        self.isgen = False
        self.attrs = None

    @property
    def qual(self):
        return "%s.%s" % (self.cls.name, self.name) if self.cls else self.name

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class ClassV:
    __slots__ = ("name", "module", "bases", "id")

    def __init__(self, name, module, bases, id):
        self.name = name
        self.module = module
        self.bases = bases
        self.id = id

    def __repr__(self):
        return "<class %s>" % self.name


class ModuleV:
    """module of the analysed package"""
    __slots__ = ("name", "env", "path")

    def __init__(self, name, env, path):
        self.name = name
        self.env = env
        self.path = path


class Native:
    """dotted name of something outside the analysed package"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<native %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Native) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Method:
    """bound native method obj.name"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Opaque:
    """an object of an external library with no numeric meaning here (figure, axes...)"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<opaque %s>" % self.what


class PartialV:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class CachedV:
    """a function under functools.lru_cache"""
    __slots__ = ("func", "memo")

    def __init__(self, func):
        self.func = func
        self.memo = {}


class Vectorized:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class SliceV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class SuperV:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


def isnum(v):
    return isinstance(v, (ir.Node, int, float, bool, complex))
