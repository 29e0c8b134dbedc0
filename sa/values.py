"""Abstract values. All are immutable and hashable; equality is structural and
class-sensitive (K(True) != K(1))."""
from .linear import Lin, lin


class V:
    __slots__ = ("_h",)
    fields = ()

    def _key(self):
        return tuple(getattr(self, f) for f in self.fields)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self._key() == o._key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__,) + self._key())
            return self._h

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join(repr(getattr(self, f)) for f in self.fields) + ")"


def _mk(name, *flds):
    ns = {"__slots__": flds, "fields": flds}
    args = ", ".join(flds)
    body = "def __init__(self%s):\n" % (", " + args if flds else "")
    body += "".join("    self.%s = %s\n" % (f, f) for f in flds) or "    pass\n"
    d = {}
    exec(body, d)
    ns["__init__"] = d["__init__"]
    return type(name, (V,), ns)


class K(V):
    """A constant of a builtin type."""
    __slots__ = ("v",)
    fields = ("v",)

    def __init__(self, v):
        self.v = v

    def _key(self):
        return (type(self.v).__name__, repr(self.v) if isinstance(self.v, float) else self.v)

    def __repr__(self):
        return "K(%r)" % (self.v,)


I = _mk("I", "e")              # integer, linear expression
Ch = _mk("Ch", "src", "p")     # the (existing) character of source src at position p
Od = _mk("Od", "src", "p")     # its code point
St = _mk("St", "items")        # string, sequence of atoms
Obj = _mk("Obj", "a")          # heap reference
Tup = _mk("Tup", "items")
Fn = _mk("Fn", "node", "mod", "fid", "cls")       # function; fid: defining frame
Bm = _mk("Bm", "self_", "f")                       # bound method
Cl = _mk("Cl", "ci")           # repo class
Md = _mk("Md", "name")         # repo module
Ext = _mk("Ext", "q")          # external thing, by dotted name
BM = _mk("BM", "base", "name")  # method of a builtin-typed value
Sy = _mk("Sy", "t")            # symbolic value
Gen = _mk("Gen", "f", "fid")   # generator object: function and its frame
Src = _mk("Src", "name")       # the whole source text (a str)
Prop = _mk("Prop", "f")        # property
SM = _mk("SM", "f")            # staticmethod
CM = _mk("CM", "f")            # classmethod
CMgr = _mk("CMgr", "f", "fid")  # contextmanager object
Sup = _mk("Sup", "ci", "self_")  # super() object
Part = _mk("Part", "f", "args", "kw")  # functools.partial
Nat = _mk("Nat", "name")       # model-level native callable, by name
CMF = _mk("CMF", "f")          # function decorated with contextlib.contextmanager
Ex = _mk("Ex", "q", "args")    # exception of a builtin/external class
GX = _mk("GX", "kind", "val")  # internal: unwinding a suspended generator
Top = _mk("Top", "why")        # unknown (imprecision)

NONE_ = K(None)
TRUE = K(True)
FALSE = K(False)


def I_(e):
    e = lin(e)
    return K(e.c) if not e.t else I(e)


def as_lin(v):
    """Lin of an integer value or None."""
    if isinstance(v, I):
        return v.e
    if isinstance(v, K) and type(v.v) is int:
        return Lin((), v.v)
    return None


def is_int(v):
    return isinstance(v, I) or (isinstance(v, K) and type(v.v) is int)


def is_str(v):
    return isinstance(v, (St, Ch, Src)) or (isinstance(v, K) and type(v.v) is str)
