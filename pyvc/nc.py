"""Assumed contract of netCDF4: a file as functions of names."""
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_str, const_str, U,
                   Opaque, MapBase, SetOp, Elem, Comp, PV, STR, INT, BOOL,
                   ARR, Unsupported)


class File:
    """Content of an existing file, opened for reading."""

    def __init__(self, I, tag="nc"):
        F = lambda n, *s: z3.Function(f"{tag}_{n}", *s)  # noqa: E731
        self.I = I
        self.var_has = F("var_has", STR, BOOL)
        self.var_data = F("var_data", STR, ARR)
        self.var_type = F("var_type", STR, STR)
        self.var_ndim = F("var_ndim", STR, INT)
        self.var_dim = F("var_dim", STR, INT, STR)
        self.vattr_has = F("vattr_has", STR, STR, BOOL)
        self.vattr = F("vattr", STR, STR, PV)
        self.gattr_has = F("gattr_has", STR, BOOL)
        self.gattr = F("gattr", STR, PV)
        self.dim_has = F("dim_has", STR, BOOL)
        self.dim_size = F("dim_size", STR, INT)
        self.value = Opaque("dataset", self)
        self.vars = I.new("map", base=MapBase(
            self.var_has, lambda k: Opaque("ncvar", k), STR, "variables"))
        self.dims = I.new("map", base=MapBase(
            self.dim_has, lambda k: Opaque("ncdim", k), STR, "dimensions"))
        I.opaque_attrs["dataset"] = self.attr
        I.opaque_methods["dataset"] = self.method
        I.opaque_attrs["ncvar"] = self.vattr_of
        I.opaque_methods["ncvar"] = self.vmethod
        I.opaque_attrs["ncdim"] = lambda I, o, n: self.dim_size(
            lit(o.args[0])) if n == "size" else _unsup(n)

    def names(self, has):
        k = z3.Const(f"name!{next(self.I.facts.count)}", STR)
        self.I.space += 1
        return self.I.new("list", log=[Comp(k, has(k), [Elem(True, k)],
                                            self.I.space)])

    def attr(self, I, o, n):
        from .core import Method
        if n == "variables":
            return self.vars
        if n == "dimensions":
            return self.dims
        if n in ("ncattrs", "getncattr", "close"):
            return Method(o, n)
        # a global attribute
        return self.get(self.gattr_has(lit(n)), self.gattr(lit(n)), n)

    def get(self, has, value, n):
        self.I.raise_if(Not_(has), "AttributeError", n)
        return value

    def method(self, I, o, n, args, kw):
        if n == "ncattrs":
            return self.names(self.gattr_has)
        if n == "getncattr":
            k = lit(args[0])
            return self.get(self.gattr_has(k), self.gattr(k), k)
        if n == "close":
            I.do_io("close", o)
            return None
        raise Unsupported(f"Dataset.{n}")

    def vattr_of(self, I, o, n):
        from .core import Method
        if n in ("ncattrs", "getncattr"):
            return Method(o, n)
        if n == "datatype":
            return self.var_type(lit(o.args[0]))
        if n == "dimensions":
            return self.dims_list(lit(o.args[0]))
        raise Unsupported(f"Variable.{n}")

    def dims_list(self, v):
        """At most four dimensions, named by single letters."""
        I = self.I
        n, d = self.var_ndim(v), [self.var_dim(v, i) for i in range(4)]
        I.facts.fact(And_(n >= 0, n <= 4, *[z3.Length(x) == 1 for x in d]))
        return I.new("list", log=[Elem(n > i, d[i]) for i in range(4)])

    def vmethod(self, I, o, n, args, kw):
        v = lit(o.args[0])
        if n == "ncattrs":
            return self.names(lambda k: self.vattr_has(v, k))
        if n == "getncattr":
            k = lit(args[0])
            return self.get(self.vattr_has(v, k), self.vattr(v, k), k)
        raise Unsupported(f"Variable.{n}")


def _unsup(n):
    raise Unsupported(n)



class OutFile:
    """A file opened for writing: what is done with it is recorded."""

    def __init__(self, I):
        self.I = I
        self.value = Opaque("outfile")
        I.opaque_attrs["outfile"] = self.attr
        I.opaque_methods["outfile"] = self.method
        I.opaque_attrs["outvar"] = self.vattr
        I.opaque_methods["outvar"] = self.vmethod
        I.cms["outfile"] = (lambda I, cm: cm,
                            lambda I, cm: I.do_io("close"))

    def attr(self, I, o, n):
        from .core import Method
        if n in ("createDimension", "setncattr", "createVariable", "close"):
            return Method(o, n)
        raise Unsupported(f"Dataset.{n}")

    def method(self, I, o, n, args, kw):
        if n == "createDimension" and len(args) == 2 and not kw:
            I.do_io("dimension", *args)
            return None
        if n == "setncattr" and len(args) == 2 and not kw:
            I.do_io("gattr", *args)
            return None
        if n == "createVariable" and len(args) >= 3:
            extra = set(kw) - {"zlib", "complevel"}
            if extra or len(args) > 3:
                raise Unsupported("createVariable with " + str(extra))
            from . import nump
            dims = nump.text_elems(I, args[2])
            if dims is None:
                raise Unsupported("dimensions of a variable")
            I.do_io("variable", args[0], args[1], tuple(dims))
            return Opaque("outvar", args[0])
        if n == "close":
            I.do_io("close")
            return None
        raise Unsupported(f"Dataset.{n}")

    def vattr(self, I, o, n):
        from .core import Method
        if n == "setncattr":
            return Method(o, n)
        raise Unsupported(f"Variable.{n}")

    def vmethod(self, I, o, n, args, kw):
        if n == "setncattr" and len(args) == 2 and not kw:
            I.do_io("vattr", o.args[0], *args)
            return None
        raise Unsupported(f"Variable.{n}")
