"""Contract of updating the catalogue of conventions (C26).

update_conventions is cut at its loop over the published conventions: the body
decides, for an arbitrary convention, what has to be done, and puts the data
into a temporary folder; what follows asks, and applies what was collected.
"""
import ast
import copy
import z3
from .core import (B, And_, Or_, Not_, Imp_, Iff_, lit, is_str, const_str,
                   Method, Elem, Comp, Opaque, Rope, Ref, U, STR, BOOL, Unsupported)
from . import nump as N
from .props import flat_events, subst
from .reading import function
from .verify import END

UC = "sofar.update_conventions."
ret = lambda e: e.kind == "return"  # noqa: E731
F_isdir = z3.Function("is_dir", STR, BOOL)
F_disk = z3.Function("content_of_file", STR, STR)
F_web = z3.Function("content_of_url", STR, STR)
F_glob = z3.Function("file_matches", STR, STR, BOOL)
ANSWER = z3.Const("answer", STR)
F_text_of_int = z3.Function("text_of_float_of_int", z3.IntSort(), STR)


def text(v):
    """Text as a term."""
    if is_str(v):
        return lit(v)
    if isinstance(v, Rope):
        out = []
        for g, x in v.parts:
            if g is not True or not is_str(x):
                raise Unsupported("path")
            out.append(lit(x))
        return z3.Concat(*out) if len(out) > 1 else out[0]
    raise Unsupported("path")


class World:
    """Assumed contracts of the web and the file system."""

    def __init__(self, I):
        self.I = I
        I.hooks["world"] = self
        I.hooks["bytes"] = True
        I.opaque_attrs["response"] = self.response
        I.opaque_attrs["binfile"] = self.attr
        I.opaque_methods["binfile"] = self.method
        I.cms["binfile"] = (lambda I, cm: cm,
                            lambda I, cm: I.do_io("close", cm.args[0]))
        I.hooks["textfile"] = self

        def compiled(I, path=None):
            I.do_io("compile", path)
        self.compiled = compiled

    def open(self, path, mode="r"):
        if const_str(mode) is None:
            raise Unsupported("mode of a file")
        path = text(path)
        self.I.do_io("open", path, mode)
        return Opaque("binfile", path, mode)

    def response(self, I, o, n):
        if n in ("content", "text"):
            return F_web(o.args[0])
        raise Unsupported(f"response.{n}")

    def attr(self, I, o, n):
        if n in ("write", "read", "readlines", "close"):
            return Method(o, n)
        raise Unsupported(f"file.{n}")

    def method(self, I, o, n, args, kw):
        if n == "write" and len(args) == 1 and not kw:
            I.do_io("write", o.args[0], args[0])
            return None
        if n == "read" and not args:
            return F_disk(o.args[0])
        if n == "readlines" and not args:
            return Opaque("lines", F_disk(o.args[0]))
        if n == "close":
            I.do_io("close", o.args[0])
            return None
        raise Unsupported(f"file.{n}")


def world(I):
    w = I.hooks.get("world")
    if w is None:
        raise Unsupported("files")
    return w


def l_os_path_join(I, *a):
    world(I)
    out = []
    for x in a:
        out += [lit("/"), text(x)]
    return z3.Concat(*out[1:])


def l_os_path_isdir(I, p):
    world(I)
    return F_isdir(text(p))


def l_os_mkdir(I, p):
    world(I)
    I.do_io("mkdir", text(p))


def l_os_makedirs(I, p, exist_ok=False):
    world(I)
    I.do_io("mkdir", text(p))


def l_os_remove(I, p):
    world(I)
    I.do_io("remove", text(p))


def l_shutil_copy(I, a, b):
    world(I)
    I.do_io("copy", text(a), text(b))


def l_shutil_rmtree(I, p, *a, **kw):
    world(I)
    I.do_io("remove", text(p))


def l_shutil_move(I, a, b):
    world(I)
    I.do_io("copy", text(a), text(b))
    I.do_io("remove", text(a))


def l_builtins_input(I, *a):
    world(I)
    I.do_io("input")
    return ANSWER


def l_requests_get(I, url):
    world(I)
    u = text(url)
    I.do_io("request", u)
    return Opaque("response", u)


def l_glob_glob(I, pattern):
    world(I)
    p = text(pattern)
    k = z3.Const(f"file!{next(I.facts.count)}", STR)
    I.space += 1
    return I.new("list", log=[Comp(k, F_glob(p, k), [Elem(True, k)],
                                   I.space)])


def l_json_dump(I, value, file, indent=None):
    world(I)
    if not (isinstance(file, Opaque) and file.tag == "binfile"):
        raise Unsupported("json.dump()")
    I.do_io("dump", value, file.args[0])


# ----------------------------------------------------------------- segments
def parts(f):
    body = list(f.node.body)
    w = [i for i, x in enumerate(body) if isinstance(x, ast.With)]
    if len(w) != 1:
        raise Unsupported("segments of update_conventions")
    inner = body[w[0]].body
    # the loop that asks the web for the data
    loops = [i for i, x in enumerate(inner) if isinstance(x, ast.For) and any(
        isinstance(y, ast.Call) and ast.unparse(y.func) == "requests.get"
        for y in ast.walk(x))]
    if len(loops) != 1:
        raise Unsupported("loop of update_conventions")
    i = loops[0]
    loop = inner[i]
    if loop.orelse or not isinstance(loop.target, ast.Name):
        raise Unsupported("loop of update_conventions")
    for x in body[:w[0]]:
        for y in ast.walk(x):
            if isinstance(y, (ast.Return, ast.Raise)):
                raise Unsupported("exit before the loop")
    consts = [x for x in body[:w[0]] if isinstance(x, ast.Assign) and all(
        isinstance(y, (ast.Constant, ast.Tuple, ast.List, ast.expr_context))
        for y in ast.walk(x.value)) and not {y.id for z in x.targets for y in
                                 ast.walk(z) if isinstance(y, ast.Name)}
        & {"updated", "update", "deprecate", "conventions"}]
    if body[w[0] + 1:]:
        raise Unsupported("statements after the loop")
    return loop, inner[i + 1:], consts, body[:w[0]], body[w[0]], inner[:i]


def mentioned(stmts, names):
    """What has to be done is collected in these variables."""
    used = {y.id for x in stmts for y in ast.walk(x) if isinstance(
        y, ast.Name)}
    if set(names) - used:
        raise Unsupported("variables of update_conventions")


class Continue(ast.NodeTransformer):
    """continue in the body of the loop ends the segment"""

    def __init__(self, end):
        self.end = end

    def visit_For(self, n):
        return n
    visit_While = visit_For

    def visit_Continue(self, n):
        return copy.deepcopy(self.end)

    def visit_Break(self, n):
        raise Unsupported("break")


def segment(fn, params, stmts, outs):
    seg = function(fn, params, stmts, outs)
    if outs is not None:
        end = seg.node.body[-1]
        seg.node.body = [Continue(end).visit(copy.deepcopy(x))
                         for x in seg.node.body]
    return seg


P, T, CV = (z3.Const(n, STR) for n in ("catalogue", "temp", "convention"))
S_, D_ = lit("/"), lit("/deprecated/")
U0 = z3.Function("listed_for_update", STR, BOOL)
X0 = z3.Function("listed_for_deprecation", STR, BOOL)
STD = z3.Function("published_as_standardized", STR, BOOL)
UP = z3.Const("updated_before", BOOL)


def names(I, has, n):
    k = z3.Const(n, STR)
    I.space += 1
    return I.new("list", log=[Comp(k, has(k), [Elem(True, k)], I.space)])


def some(I, st, tag, pred=lambda a: True):
    """There is such an event (for events outside of loops)."""
    out = []
    for b, g, a, pos in flat_events(I, st, tag):
        if b:
            raise Unsupported("event in a loop")
        out.append(And_(g, pred(a)))
    return Or_(*out)


def each(I, st, tag, pred):
    return And_(*[Imp_(g, pred(a)) for b, g, a, pos in flat_events(
        I, st, tag)])


def norm(I, x):
    return I.L.s_replace(I, I.L.s_replace(I, x, "\r\n", "\n"), "\t\n", "\n")


def download(p, fn):
    loop, after, consts, *_ = parts(fn)
    params = ["convention", "standardized", "conventions_path", "temp",
              "updated", "update", "deprecate"]
    if loop.target.id != "convention":
        raise Unsupported("loop variable")
    mentioned(loop.body, params[4:])
    seg = segment(fn, params, consts + loop.body,
                  ["updated", "update", "deprecate"])

    def setup(I):
        World(I)
        # names of files: without separators
        I.assume(Not_(z3.Contains(CV, S_)), z3.SuffixOf(lit("csv"), CV),
                 z3.Length(CV) > 4)
        c = (lambda: None)
        for u in ("https://www.sofaconventions.org/conventions/",
                  "https://www.sofaconventions.org/conventions/deprecated/"):
            I.assume(F_web(z3.Concat(lit(u), CV)) == F_web(
                z3.Concat(lit(u), S_, CV)))
        f, d = (N.F_isfile(z3.Concat(P, s, CV)) for s in (S_, D_))
        std = STD(CV)
        c.skip = Or_(*[z3.PrefixOf(lit(x), CV) for x in (
            "General_", "GeneralString_")])
        c.urls = [z3.Concat(lit(u), S_, CV) for u in (
            "https://www.sofaconventions.org/conventions/",
            "https://www.sofaconventions.org/conventions/deprecated/")]
        new = norm(I, If(std, F_web(c.urls[0]), F_web(c.urls[1])))
        c.new = lambda u: norm(I, F_web(u))
        old = lambda s: norm(I, F_disk(z3.Concat(P, s, CV)))  # noqa: E731
        diff = lambda s: If(std, old(s) != c.new(c.urls[0]),  # noqa: E731
                            old(s) != c.new(c.urls[1]))
        ok = Not_(c.skip)
        c.std = And_(ok, std, Or_(Not_(f), diff(S_)))
        c.depr = And_(ok, Not_(std), f)
        c.dep = And_(ok, Not_(std), Not_(f), Or_(Not_(d), diff(D_)))
        c.any = Or_(c.std, c.depr, c.dep)
        return [CV, names(I, STD, "std!0"), P, T, UP, names(I, U0, "up!0"),
                names(I, X0, "de!0")], {}, c

    def lists(I, e, c):
        q = I.facts.fresh("any", STR)
        _, up, u, d = e.value.items
        return And_(
            Iff_(I.L.contains(I, u, q), Or_(
                U0(q), And_(q == CV, c.std), And_(
                    q == z3.Concat(lit("deprecated/"), CV), c.dep))),
            Iff_(I.L.contains(I, d, q), Or_(X0(q), And_(q == CV, c.depr))),
            Iff_(I.truth(up), Or_(UP, c.any)))

    def temporary(I, e, c):
        st = e.state
        a, b = z3.Concat(T, S_, CV), z3.Concat(T, D_, CV)
        out = []
        for t in ("remove", "copy", "mkdir", "compile", "input", "dump"):
            out.append(Not_(some(I, st, t)))
        out.append(each(I, st, "open", lambda x: Or_(
            const_str(x[1]) in ("rb", "r"),
            And_(x[0] == a, c.std), And_(x[0] == b, Or_(c.depr, c.dep)))))
        return And_(*out)

    def content(I, e, c):
        st = e.state
        a, b = z3.Concat(T, S_, CV), z3.Concat(T, D_, CV)
        eq = lambda x, y: I.L.equal(I, x, y)  # noqa: E731
        return And_(
            Imp_(c.std, some(I, st, "write", lambda x: And_(
                x[0] == a, eq(x[1], c.new(c.urls[0]))))),
            Imp_(Or_(c.depr, c.dep), some(I, st, "write", lambda x: And_(
                x[0] == b, eq(x[1], c.new(c.urls[1]))))),
            each(I, st, "write", lambda x: Or_(
                And_(x[0] == a, eq(x[1], c.new(c.urls[0]))),
                And_(x[0] == b, eq(x[1], c.new(c.urls[1]))))))

    def told(I, e, c):
        return Iff_(some(I, e.state, "print"), c.any)
    p.run(seg, setup, [
        ("it is listed for an update or deprecation iff it is new, changed, "
         "or no longer standardised", lists, ret),
        ("files are opened for writing in the temporary folder only; nothing "
         "is removed, copied, or created elsewhere", temporary),
        ("the data is that of the web page, with unix line breaks", content,
         ret),
        ("it is announced iff there is something to do", told, ret),
        ("no exception is raised", lambda I, e, c: e.kind == "return")],
        label="update_conventions: a published convention")


def If(c, a, b):
    return z3.If(c, a, b)


def apply(p, fn):
    loop, after, consts, *_ = parts(fn)
    params = ["updated", "assume_yes", "update", "deprecate",
              "conventions_path", "temp"]
    mentioned(after, params[:4])
    if any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id
           in params for x in after for y in ast.walk(x)):
        raise Unsupported("variables of update_conventions")
    seg = function(fn, params, after, None)
    yes = z3.Const("assume_yes", BOOL)

    def setup(I):
        w = World(I)
        I.contracts[UC + "_compile_conventions"] = w.compiled
        k = z3.Const("uk!0", STR)
        I.facts.fact(Imp_(U0(k), UP), (k,))
        I.facts.fact(Imp_(X0(k), UP), (k,))
        I.facts.fact(Imp_(X0(k), z3.SuffixOf(lit(".csv"), k)), (k,))
        return [UP, yes, names(I, U0, "up!0"), names(I, X0, "de!0"), P,
                T], {}, None
    go = And_(UP, Or_(yes, ANSWER == lit("y")))

    def evs(I, st):
        out = []
        for t in ("copy", "remove", "compile", "open", "mkdir", "write",
                  "dump"):
            out += [(t, b, g, a, pos) for b, g, a, pos in flat_events(
                I, st, t)]
        return out

    def confirmed(I, e, c):
        return And_(*[Imp_(g, go) for t, b, g, a, pos in evs(I, e.state)])

    def asked(I, e, c):
        n = flat_events(I, e.state, "input")
        if any(b for b, *_ in n):
            return False
        return And_(Iff_(Or_(*[g for _, g, _, _ in n]), And_(UP, Not_(yes))),
                    *[Not_(And_(x[1], y[1])) for i, x in enumerate(n)
                      for y in n[:i]])

    def wanted(t, a, k):
        """The event t with arguments a is what has to be done for k"""
        js = z3.Concat(z3.SubString(k, 0, z3.Length(k) - 3), lit("json"))
        if t == "copy":
            return Or_(And_(U0(k), a[0] == z3.Concat(T, S_, k),
                            a[1] == z3.Concat(P, S_, k)),
                       And_(X0(k), a[0] == z3.Concat(T, D_, k),
                            a[1] == z3.Concat(P, D_, k)))
        if t == "remove":
            return And_(X0(k), Or_(a[0] == z3.Concat(P, S_, k),
                                   a[0] == z3.Concat(P, S_, js)))
        return False

    def only(I, e, c):
        out = []
        for t, b, g, a, pos in evs(I, e.state):
            if t == "compile":
                out.append(Imp_(g, a[0] == P if is_str(a[0]) else False))
            elif len(b) == 1:
                k = I.facts.fresh("which", STR)
                pairs = [(b[0][0], k)]
                out.append(Imp_(subst(g, pairs), wanted(t, [
                    subst(x, pairs) for x in a], k)))
            else:
                out.append(Not_(g))
        return And_(*out)

    def all_(I, e, c):
        k = I.facts.fresh("which", STR)
        js = z3.Concat(z3.SubString(k, 0, z3.Length(k) - 3), lit("json"))
        ev = [(t, subst(g, [(b[0][0], k)]), [subst(x, [(b[0][0], k)])
                                             for x in a])
              for t, b, g, a, pos in evs(I, e.state) if len(b) == 1]

        def done(t, *want):
            return Or_(*[And_(g, *[x == y for x, y in zip(a, want)])
                         for tt, g, a in ev if tt == t])
        return And_(
            Imp_(And_(go, U0(k)), done("copy", z3.Concat(T, S_, k),
                                       z3.Concat(P, S_, k))),
            Imp_(And_(go, X0(k)), And_(
                done("copy", z3.Concat(T, D_, k), z3.Concat(P, D_, k)),
                done("remove", z3.Concat(P, S_, k)),
                done("remove", z3.Concat(P, S_, js)))))

    def compiled(I, e, c):
        ev = evs(I, e.state)
        cs = [x for x in ev if x[0] == "compile"]
        rest = [x for x in ev if x[0] != "compile"]
        if any(x[1] for x in cs):
            return False
        return And_(Iff_(Or_(*[x[2] for x in cs]), go), *[
            Imp_(x[2], And_(*[Not_(y[2]) for y in rest if y[4] > x[4]]))
            for x in cs])
    p.run(seg, setup, [
        ("the user is asked once iff something has to be done and "
         "assume_yes is False", asked),
        ("without confirmation, or with nothing to do, no file is copied, "
         "removed, or written", confirmed),
        ("only the files of the listed conventions are copied or removed",
         only),
        ("every listed convention is copied to its place; what is "
         "deprecated is removed from the standardised ones", all_, ret),
        ("the conventions are compiled afterwards iff the update was "
         "confirmed", compiled, ret),
        ("no exception is raised", lambda I, e, c: e.kind == "return")],
        label="update_conventions: after the download")


def begin(p, fn):
    """What precedes the loop."""
    loop, after, consts, before, with_, inner = parts(fn)
    if with_.items[0].optional_vars is None or ast.unparse(
            with_.items[0].optional_vars) != "temp":
        raise Unsupported("temporary folder")
    # directory handling and what is local to the loop: everything after the
    # lists of published conventions
    i = max([n for n, x in enumerate(before) if isinstance(
        x, ast.Assign) and ast.unparse(x.targets[0]) in (
            "standardized", "deprecated", "conventions")], default=-1)
    if i < 0 or any(isinstance(y, ast.Call) and ast.unparse(
            y.func).startswith(("os.", "shutil.")) and ast.unparse(
                y.func) != "os.path.split" for x in before[:i + 1]
            for y in ast.walk(x)):
        raise Unsupported("begin of update_conventions")
    params = ["conventions_path", "temp"]
    seg = function(fn, params, before[i + 1:] + inner,
                   ["updated", "update", "deprecate", "conventions_path"])

    def setup(I):
        World(I)
        return [P, T], {}, None

    def made(I, e, c):
        D = z3.Concat(P, S_, lit("deprecated"))
        out = [each(I, e.state, "mkdir", lambda a: Or_(
            And_(a[0] == P, Not_(F_isdir(P))),
            And_(a[0] == D, Not_(F_isdir(D))),
            a[0] == z3.Concat(T, S_, lit("deprecated"))))]
        for t in ("remove", "copy", "compile", "open"):
            out.append(Not_(some(I, e.state, t)))
        return And_(*out)

    def empty(I, e, c):
        q = I.facts.fresh("any", STR)
        _, up, u, d, path = e.value.items
        return And_(Not_(I.truth(up)), Not_(I.L.contains(I, u, q)),
                    Not_(I.L.contains(I, d, q)), text(path) == P)
    p.run(seg, setup, [
        ("folders are made if they do not exist, nothing else is written",
         made),
        ("nothing is listed, the folder is the given one", empty, ret)],
        label="update_conventions: before the download")


def compiling(p):
    F = z3.Function("is_converted", STR, BOOL)

    def setup(I):
        World(I)

        def convert(I, path):
            return Opaque("converted", text(path))
        I.contracts[UC + "_convention_csv2dict"] = convert
        return [P], {}, None

    def raises(I, e, c):
        if e.kind == "raise":
            return And_(e.value.name == "ValueError", Not_(F_isdir(P)))
        return F_isdir(P)

    def found(k):
        return Or_(F_glob(z3.Concat(P, lit("/*.csv")), k), F_glob(
            z3.Concat(P, lit("/deprecated/*.csv")), k))

    def js(k):
        return z3.Concat(z3.SubString(k, 0, z3.Length(k) - 3), lit("json"))

    def one(b, g, a, k):
        pairs = [(x, k) for x, _ in b]
        return subst(g, pairs), [x if isinstance(x, Opaque) else
                                 subst(x, pairs) for x in a], pairs

    def only(I, e, c):
        out = []
        for t in ("remove", "copy", "mkdir", "write"):
            out += [Not_(g) for b, g, a, pos in flat_events(I, e.state, t)]
        for b, g, a, pos in flat_events(I, e.state, "open"):
            if len(b) != 1:
                return False
            k = I.facts.fresh("which", STR)
            g, a, _ = one(b, g, a, k)
            out.append(Imp_(g, And_(found(k), a[0] == js(k),
                                    const_str(a[1]) == "w")))
        return And_(*out)

    def dumped(I, e, c):
        k = I.facts.fresh("which", STR)
        alts, out = [], []
        for b, g, a, pos in flat_events(I, e.state, "dump"):
            if len(b) != 1 or not isinstance(a[0], Opaque) or \
                    a[0].tag != "converted":
                return False
            g2, a2, pairs = one(b, g, a, k)
            right = And_(subst(a[0].args[0], pairs) == k, a2[1] == js(k))
            out.append(Imp_(g2, right))
            alts.append(And_(g2, right))
        return And_(Imp_(found(k), Or_(*alts)), *out)
    p.run(UC + "_compile_conventions", setup, [
        ("a ValueError is raised iff the folder does not exist", raises),
        ("only the json file beside each csv file of the folder and its "
         "deprecated conventions is written", only),
        ("it holds what the csv file was converted to", dumped, ret)])


def C26(p):
    fn = p.mods.find("sofar.update_conventions.update_conventions")
    for g in (begin, download, apply):
        try:
            if fn is None:
                raise Unsupported("update_conventions does not exist")
            g(p, fn)
        except Unsupported as ex:
            p.add(f"update_conventions: {g.__name__}", "unknown", str(ex))
    compiling(p)


# ------------------------------------------------- rows of the source files
CELLS = [z3.Const(f"cell{i}", STR) for i in range(6)]
FIELDS = ["Default", "Flags", "Dimensions", "Type", "Comment"]
PERMUTED = {
    "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);":
    [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]],
    "permute([0 0 0 1 0 0], [3 1 2]);": [[[0, 0, 0, 1, 0, 0]]],
    "{''}": [""]}


def row_statements(f):
    """The statements that turn the cells of a row into an entry: what follows
    the header line in the loop over the lines."""
    tries = [x.body[0] for x in f.node.body if isinstance(x, ast.For)
             and len(x.body) == 1 and isinstance(x.body[0], ast.Try)]
    if len(tries) != 1:
        raise Unsupported("rows of _convention_csv2dict")
    body = tries[0].body
    at = [i for i, x in enumerate(body) if isinstance(x, ast.If) and any(
        isinstance(y, ast.Name) and y.id == "fields" and isinstance(
            y.ctx, ast.Store) for y in ast.walk(x))]
    if len(at) != 1 or body[at[0]].orelse or not isinstance(
            body[at[0]].body[-1], ast.Continue):
        raise Unsupported("header of _convention_csv2dict")
    # nothing else is done to the rows, before or afterwards
    t = tries[0]
    top = [i for i, x in enumerate(f.node.body) if isinstance(x, ast.For)
           and x.body == [t]]
    if len(top) != 1 or t.orelse or t.finalbody or any(
            not isinstance(x, (ast.For, ast.Assign)) or isinstance(
                x, ast.Assign) and ast.unparse(x.targets[0]) != "line"
            for x in body[:at[0]]) or sum(isinstance(
                x, ast.For) for x in body[:at[0]]) > 1:
        raise Unsupported("rows of _convention_csv2dict")
    for x in f.node.body[top[0] + 1:]:
        for y in ast.walk(x):
            if isinstance(y, (ast.Assign, ast.AugAssign)) and any(
                    isinstance(z, ast.Subscript) and isinstance(
                        z.ctx, ast.Store) for z in ast.walk(y)) and not (
                    isinstance(y.value, ast.Call) and ast.unparse(
                        y.value.func).endswith(".pop")):
                raise Unsupported("end of _convention_csv2dict")
    return body[at[0] + 1:]


def nested(I, v):
    """Python lists of lists."""
    return I.new_list([nested(I, x) for x in v]) if isinstance(
        v, list) else v


def row(p, fn, label, default, length):
    """default(I): the cell of the default and what is expected for it."""
    stmts = row_statements(fn)
    mentioned(stmts, ["line", "fields", "convention"])
    seg = segment(fn, ["line", "fields", "convention", "file", "idl"], stmts,
                  ["convention"])
    other = z3.Const("row_before", STR)

    def setup(I):
        cell, want = default(I)
        c = (lambda: None)
        c.want = want
        # names with a version end with it
        I.assume(Imp_(z3.Contains(CELLS[0], lit("Version")),
                      z3.SuffixOf(lit("Version"), CELLS[0])))
        cells = [CELLS[0], cell] + CELLS[2:length]
        cells[2] = None
        c.cells = cells + [""] * (6 - length)
        before = I.new_map([("default", z3.Const("default_before", STR))])
        c.before = before
        # the names of the rows are different
        I.assume(CELLS[0] != other)
        return [I.new_list(cells), I.new_list(list(FIELDS)),
                I.new_map([(other, before)]), lit("file"),
                z3.Const("idl", z3.IntSort())], {}, c

    def at(I, m, k, pred):
        """m has the key k, with such a value"""
        if isinstance(m, U):
            return And_(*[Imp_(g, at(I, x, k, pred)) for g, x in m.cases])
        if not (isinstance(m, Ref) and I.obj(m).kind == "map"):
            return False
        has, v = I.map_read(m, k)
        if has is False or z3.is_false(z3.simplify(B(has))):
            return False
        return And_(has, Imp_(has, pred(v)))

    def fields(I, got, c):
        if isinstance(got, U):
            return And_(*[Imp_(g, fields(I, x, c)) for g, x in got.cases])
        out = []
        for i, f in enumerate(FIELDS):
            # (a comment that does not exist is missing or empty)
            w = c.cells[i + 1]
            out.append(at(I, got, f.lower(), lambda v: c.want(I, v)
                          if i == 0 else Or_(I.L.equal(I, v, w), Or_(
                              I.L.equal(I, v, None)) if const_str(w) == ""
                              else False)))
        q = I.facts.fresh("field", STR)
        out.append(Iff_(I.L.contains(I, got, q), Or_(*[
            q == lit(f.lower()) for f in FIELDS])))
        return And_(*out)

    def entry(I, e, c):
        return at(I, e.value.items[1], CELLS[0],
                  lambda got: fields(I, got, c))

    def others(I, e, c):
        m = e.value.items[1]
        q = I.facts.fresh("name", STR)
        return And_(
            Iff_(I.L.contains(I, m, q), Or_(q == CELLS[0], q == other)),
            at(I, m, other, lambda v: And_(
                I.L.equal(I, v, c.before, True), at(
                    I, c.before, "default", lambda x: I.L.equal(
                        I, x, z3.Const("default_before", STR))))))
    p.run(seg, setup, [
        ("the entry holds exactly the cells of the row under the names of "
         "the columns", entry, ret),
        ("the other entries are kept", others, ret),
        ("no exception is raised", lambda I, e, c: e.kind == "return")],
        label=f"_convention_csv2dict: a row, {label}, {length} cells")


def cell(p, fn):
    """A cell that is no list: the body of the loop over the cells."""
    loops = [x for x in ast.walk(fn.node) if isinstance(x, ast.For) and
             ast.unparse(x.iter) == "enumerate(line)"]
    if len(loops) != 1 or loops[0].orelse or ast.unparse(
            loops[0].target) not in ("(idc, cell)", "idc, cell"):
        raise Unsupported("cells of _convention_csv2dict")
    seg = segment(fn, ["line", "idc", "cell", "file", "idl"], loops[0].body,
                  ["line"])
    x = z3.Const("cell", STR)

    def setup(I):
        c = (lambda: None)
        c.s = I.L.F_strip(x)
        c.blank = I.L.s_replace(I, x, " ", "") == lit("")
        # text without blanks in it is not empty without those around it
        I.assume(Imp_(Not_(c.blank), z3.Length(c.s) > 0))
        I.assume(Or_(c.blank, Not_(z3.PrefixOf(lit("["), c.s))))
        c.others = [z3.Const(f"other{i}", STR) for i in range(2)]
        return [I.new_list([c.others[0], x, c.others[1]]), 1, x,
                lit("file"), z3.Const("idl", z3.IntSort())], {}, c

    def value(I, e, c):
        xs = I.L.const_items(I, e.value.items[1])
        if xs is None or len(xs) != 3:
            return False
        dot = z3.Contains(c.s, lit("."))
        fl, it = I.L.F_isfloat(c.s), I.L.F_isint(c.s)

        def right(g, v):
            if isinstance(v, U):
                return And_(*[right(And_(g, h), y) for h, y in v.cases])
            if v is None:
                return Imp_(g, c.blank)
            if is_str(v):
                return Imp_(g, And_(Not_(c.blank), lit(v) == c.s, z3.If(
                    dot, Not_(fl), Not_(it))))
            if v is not None and z3.is_expr(v) and v.sort() == z3.RealSort():
                return Imp_(g, And_(Not_(c.blank), dot, fl,
                                    v == I.L.F_float(c.s)))
            if z3.is_expr(v) and v.sort() == z3.IntSort():
                return Imp_(g, And_(Not_(c.blank), Not_(dot), it,
                                    v == I.L.F_int(c.s)))
            return Not_(g)
        return And_(right(True, xs[1]), xs[0] == c.others[0],
                    xs[2] == c.others[1])
    p.run(seg, setup, [
        ("it is None if it is blank, the number it spells, or its text "
         "without blanks around it; the other cells are kept", value, ret),
        ("no exception is raised", lambda I, e, c: e.kind == "return")],
        label="_convention_csv2dict: a cell that is no list")


def rows(p):
    fn = p.mods.find(UC + "_convention_csv2dict")
    D = CELLS[1]
    version = z3.Contains(CELLS[0], lit("Version"))

    def text_(I):
        I.assume(*[D != lit(x) for x in PERMUTED])
        return D, lambda I, v: I.L.equal(I, v, D)

    def missing(I):
        return None, lambda I, v: I.L.equal(I, v, "")

    def decimal(I):
        t = z3.Const("decimal_text", STR)
        x = Opaque("float", z3.Const("decimal", z3.RealSort()), t)
        return x, lambda I, v: I.L.equal(I, v, U([
            (version, t), (Not_(version), x)]))

    def whole(I):
        n = z3.Const("whole", z3.IntSort())
        return n, lambda I, v: I.L.equal(I, v, U([
            (version, F_text_of_int(n)), (Not_(version), n)]))

    def list_(I):
        I.assume(Not_(version))
        xs = [z3.Const(f"element{i}", z3.IntSort()) for i in range(3)]
        x = I.new_list(xs)
        return x, lambda I, v: I.L.equal(I, v, x)

    def special(t):
        def f(I):
            I.assume(Not_(version))
            return lit(t), lambda I, v: I.L.equal(I, v, nested(
                I, PERMUTED[t]))
        return f
    todo = [("text", text_), ("no default", missing), ("decimal", decimal),
            ("integer", whole), ("list", list_)] + [
        (f"special text {i}", special(t)) for i, t in enumerate(PERMUTED)]
    for label, d in todo:
        for n in (5, 6):
            try:
                if fn is None:
                    raise Unsupported("_convention_csv2dict does not exist")
                row(p, fn, label, d, n)
            except Unsupported as ex:
                p.add(f"_convention_csv2dict: {label}", "unknown", str(ex))


def C27(p):
    compiling(p)
    rows(p)
    try:
        fn = p.mods.find(UC + "_convention_csv2dict")
        if fn is None:
            raise Unsupported("_convention_csv2dict does not exist")
        cell(p, fn)
    except Unsupported as ex:
        p.add("_convention_csv2dict: cell", "unknown", str(ex))
