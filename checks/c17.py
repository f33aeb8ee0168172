"""C17: saving and loading.  Any number of saved variables, any receiving model (an arbitrary set of
names), any values; file contents by contract of pickle."""
from types import SimpleNamespace
from pyvc import alg, lib, smt
from pyvc.alg import P, lift, ZERO, ONE, TRUE
from pyvc.values import *
from pyvc.lib import Obj, LibFn
from .common import ret

ASSUMPTIONS = [
    "pickle by contract: loading a file returns a value equal to the one dumped to it; opening for writing truncates",
    "varz by contract: `names` lists all names once; assign overwrites the value of an existing name and keeps its visibility; a getter with an existing name leaves it alone and otherwise creates it with its initial value; a value inside the constraint of a variable is stored exactly",
    "a stored value is an arbitrary value of its name (converting to NumPy and densifying keep it)",
]

KINDS = {"unbounded": "unbounded", "ubnd": "unbounded", "get": "unbounded", "positive": "positive", "pos": "positive", "bounded": "bounded", "bnd": "bounded",
         "lower_triangular": "lower_triangular", "tril": "lower_triangular", "positive_definite": "positive_definite", "pd": "positive_definite", "orthogonal": "orthogonal", "orth": "orthogonal"}


class Names(SSeq):
    has = None


class Saving:
    def __init__(self, pr):
        self.pr, self.I = pr, pr.new()
        I = self.I
        self.N = alg.sym("N", int=True, nonneg=True)
        self.M = alg.sym("M", int=True, nonneg=True)
        self.files, self.log = {}, []
        I.open_fn = LibFn("open", self.open)
        I.libfns[("pickle", "dump")] = LibFn("pickle.dump", self.dump)
        I.libfns[("pickle", "load")] = LibFn("pickle.load", self.load)
        I.libfns[("pickle", "dumps")] = LibFn("pickle.dumps", lambda I, a, k: Opaque("pickled", value=a[0]))
        I.libfns[("pickle", "loads")] = LibFn("pickle.loads", self.loads)
        lib.OPQ_ATTR["lvars"] = self.attr
        lib.OPQ_ATTR["file"] = self.file
        self.src, self.dst = Opaque("lvars", who="s", n=self.N), Opaque("lvars", who="r", n=self.M)
        cls = I.get("model.AbstractGPCM")
        self.A, self.B = Obj(cls, vs=self.src), Obj(cls, vs=self.dst)

    # files
    def open(self, I, a, k):
        return Opaque("file", path=a[0], mode=lib.kwarg(a, k, 1, "mode", "r"))

    def dump(self, I, a, k):
        f = lib.kwarg(a, k, 1, "file")
        if not (isinstance(f, Opaque) and f.tag == "file" and isinstance(f.attrs["mode"], str)):
            raise Unsupported("dump")
        if "b" not in f.attrs["mode"] or "r" in f.attrs["mode"] and "+" not in f.attrs["mode"]:
            raise PyExc("TypeError", ("file is not writable in binary mode",))
        if f.attrs["mode"] not in ("wb", "bw", "wb+", "xb"):
            raise Unsupported("mode of the file")
        if I.locals_:
            raise Unsupported("dump in a loop")
        if self.key(f) in self.files:
            raise Unsupported("second dump")
        self.files[self.key(f)] = a[0]

    def file(self, I, f, n):
        from pyvc.interp import NOCONTRACT
        if n == "write":
            def write(I2, a, k):
                if not (isinstance(a[0], Opaque) and a[0].tag == "pickled"):
                    raise Unsupported("file contents")
                self.dump(I2, [a[0].attrs["value"], f], {})
            return LibFn("file.write", write)
        if n == "read":
            return LibFn("file.read", lambda I2, a, k: Opaque("pickled", value=self.load(I2, [f], {})))
        if n in ("flush", "close"):
            return LibFn("file." + n, lambda I2, a, k: None)
        return NOCONTRACT

    def loads(self, I, a, k):
        if not (isinstance(a[0], Opaque) and a[0].tag == "pickled"):
            raise PyExc("TypeError", ("a bytes-like object is required",))
        return a[0].attrs["value"]

    def key(self, f):
        p = f.attrs["path"]
        if not isinstance(p, SStr):
            raise Unsupported("path")
        return p.p.key

    def load(self, I, a, k):
        f = a[0]
        if not (isinstance(f, Opaque) and f.tag == "file" and f.attrs["mode"] in ("rb", "br")):
            raise PyExc("TypeError", ("file is not readable in binary mode",))
        if self.key(f) not in self.files:
            raise PyExc("FileNotFoundError", ())
        return self.files[self.key(f)]

    # variables
    def has(self, who, p):
        a = p.single()
        if a and not a[1] and len(a[2]) == 1 and a[2][0][0].name == f"name_{who}":
            i = lift(a[2][0][0].args[0])
            c = alg.cand(alg.ge(i, 0), alg.lt(i, self.N if who == "s" else self.M))
            if self.I.implied(c):
                return TRUE
            raise Unsupported("membership")
        return alg.pred(f"has_{who}", p)

    def attr(self, I, v, n):
        who = v.attrs["who"]
        if n == "names":
            at = alg.fresh("i", int=True, nonneg=True)
            s = Names([Seg(((at, v.attrs["n"]),), TRUE, SStr(alg.app(f"name_{who}", P.atom(at))))])
            s.has = lambda x: self.has(who, self.name(x))
            self.query(who)
            return s
        if n == "__contains__":
            def contains(I2, a, k):
                self.query(who)
                return self.has(who, self.name(a[0]))
            return LibFn("Vars.__contains__", contains)
        if n == "__getitem__":
            def get(I2, a, k):
                p = self.name(a[0])
                if not I2.decide(self.has(who, p)):
                    raise PyExc("KeyError", ())
                if self.log:
                    raise Unsupported("reading after writing")
                return alg.app(f"val_{who}", p)
            return LibFn("Vars.get", get)
        if n == "assign":
            def put(I2, a, k):
                p = self.name(lib.kwarg(a, k, 0, "name"))
                if not I2.decide(self.has(who, p)):
                    raise PyExc("KeyError", ())
                self.event(who, "assign", p, lib.kwarg(a, k, 1, "value"))
                return a[1] if len(a) > 1 else k["value"]
            return LibFn("Vars.assign", put)
        if n in KINDS:
            def mk(I2, a, k):
                if "name" not in k or len(a) > 1:
                    raise Unsupported("variable without a name")
                p = self.name(k["name"])
                init = lib.kwarg(a, k, 0, "init")
                if not I2.decide(self.has(who, p)):
                    self.event(who, "create", p, init, kind=KINDS[n], visible=k.get("visible", True))
                    return init
                return alg.app(f"val_{who}", p)
            return LibFn("Vars." + n, mk)
        from pyvc.interp import NOCONTRACT
        return NOCONTRACT

    def name(self, x):
        if not isinstance(x, SStr):
            raise Unsupported("name of a variable")
        return x.p

    def gens(self):
        out = []
        for l in self.I.locals_:
            out += sorted(l.gens, key=lambda a: a.key)
        return tuple(out)

    def query(self, who):
        if any(e.who == who and e.op == "create" and e.gens != self.gens() for e in self.log):
            raise Unsupported("membership after creating variables")

    def event(self, who, op, p, v, **kw):
        self.log.append(SimpleNamespace(who=who, op=op, p=p, v=v, pc=tuple(self.I.pc()), gens=self.gens(), **kw))


def run(pr, tier):
    S = Saving(pr)
    I = S.I
    path = SStr(alg.sym("path"))

    def thunk():
        S.files.clear()
        S.log.clear()
        n0 = len(I.loops)
        I.callm(S.A, "save", path)
        n = len(S.log)
        I.callm(S.B, "load", path)
        return list(S.log[:n]), list(S.log[n:]), dict(S.files), I.loops[n0:], S.A.attrs.get("vs") is S.src and S.B.attrs.get("vs") is S.dst

    def chk(p, nm):
        saved, loaded, files, loops, kept = p.value
        pr.true(nm + ".variables kept", kept, "")
        if any(o[1] != "next" for r in loops for o in r.outs):
            raise Unsupported("loop with an early exit")
        pr.true(nm + ".save writes nothing", not saved, "")
        pr.true(nm + ".saved model untouched", not [e for e in loaded if e.who == "s"], "")
        i = P.atom(alg.fresh("i", int=True, nonneg=True))
        dom = [alg.ge(i, 0), alg.lt(i, S.N)]
        nmi = alg.app("name_s", i)
        conds = []
        for n, e in enumerate(loaded):
            # which saved name
            a = e.p.single()
            ok = a is not None and not a[1] and len(a[2]) == 1 and a[2][0][0].name == "name_s"
            pr.true(f"{nm}.writes{n}.a saved name", ok, repr(e.p))
            if not ok:
                continue
            ix = lift(a[2][0][0].args[0])
            g = ix.single()
            if not (len(e.gens) == 1 and ix.key == P.atom(e.gens[0]).key):
                raise Unsupported("index of the name")
            sub = {e.gens[0]: i}
            pc = [alg.subs_cond(c, sub) for c in e.pc]
            pr.reachable(f"{nm}.writes{n}", pc)
            pr.eq(f"{nm}.writes{n}.value", dom + pc, lift(alg.subs(lift(e.v), sub)), alg.app("val_s", nmi))
            has = alg.pred("has_r", nmi)
            if e.op == "assign":
                pr.holds(f"{nm}.writes{n}.existing", dom + pc, has)
            else:
                pr.true(f"{nm}.writes{n}.invisible", e.visible is False, repr(e.visible))
                pr.true(f"{nm}.writes{n}.unconstrained", e.kind == "unbounded", e.kind)
                pr.holds(f"{nm}.writes{n}.new", dom + pc, alg.cnot(has))
            conds.append(alg.cand(*pc))
        pr.holds(nm + ".every saved name", list(p.pc) + dom, alg.cor(*conds) if conds else alg.FALSE)
    pr.paths("model.AbstractGPCM.save;load", I, thunk, ret(pr, chk))

    # a variable that was saved under a name is stored with the value it had
    def sav(p, nm):
        files, log = p.value
        pr.true(nm + ".one file", list(files) == [path.p.key], "")
        pr.true(nm + ".pure", not log, "")
        d = list(files.values())[0] if files else None
        if isinstance(d, dict) and not d:
            segs = []
        elif isinstance(d, lib.SDict):
            segs = d.seq.segs
        else:
            raise Unsupported("saved data")
        if len(segs) != 1 or len(segs[0].bounds) != 1:
            raise Unsupported("saved data")
        (at, n), = segs[0].bounds
        pr.eq(nm + ".number", p.pc, lift(n), S.N)
        pr.holds(nm + ".all", list(p.pc) + [alg.ge(P.atom(at), 0), alg.lt(P.atom(at), S.N)], segs[0].guard)
        k, v = segs[0].value
        if not isinstance(k, SStr) or not is_num(v):
            raise Unsupported("saved data")
        pr.eq(nm + ".name", p.pc, k.p, alg.app("name_s", P.atom(at)))
        pr.eq(nm + ".value", p.pc, lift(v), alg.app("val_s", alg.app("name_s", P.atom(at))))

    def save():
        S.files.clear()
        S.log.clear()
        I.callm(S.A, "save", path)
        return dict(S.files), list(S.log)
    pr.paths("model.AbstractGPCM.save", I, save, ret(pr, sav))
