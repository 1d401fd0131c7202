"""Assumed contract of the file system: text files are opened, read and
written; what is done with them is recorded."""
import z3
from .core import (And_, Or_, Not_, Imp_, Iff_, B, lit, is_z3, is_str, Opaque,
                   Method, PV, STR, BOOL, Unsupported, box, const_str, Rope)


class Files:
    def __init__(self, I, content=None, may_fail=True):
        """content(I, path): what json.load returns"""
        self.I, self.content, self.may_fail = I, content, may_fail
        I.hooks["textfile"] = self
        I.opaque_attrs["textfile"] = self.attr
        I.opaque_methods["textfile"] = self.method
        I.cms["textfile"] = (lambda I, cm: cm,
                             lambda I, cm: I.do_io("close", cm.args[0]))

    def open(self, path, mode="r"):
        if const_str(mode) is None:
            raise Unsupported("mode of a file")
        if self.may_fail:
            self.I.raise_if(self.I.facts.fresh("cannot_open", BOOL),
                            "OSError", "")
        self.I.do_io("open", path, mode)
        return Opaque("textfile", path, mode)

    def attr(self, I, o, n):
        if n in ("write", "read", "readline", "readlines", "close"):
            return Method(o, n)
        raise Unsupported(f"file.{n}")

    def method(self, I, o, n, args, kw):
        if n == "write" and len(args) == 1 and not kw:
            I.do_io("write", o.args[0], args[0])
            return None
        if n == "close":
            I.do_io("close", o.args[0])
            return None
        raise Unsupported(f"file.{n}")


def l_builtins_open(I, path, mode="r", **kw):
    f = I.hooks.get("textfile")
    if f is None or set(kw) - {"encoding", "newline"}:
        raise Unsupported("open()")
    return f.open(path, mode)


def l_json_load(I, f):
    h = I.hooks.get("textfile")
    if h is None or h.content is None or not isinstance(f, Opaque) or \
            f.tag != "textfile":
        raise Unsupported("json.load()")
    return h.content(I, f.args[0])
