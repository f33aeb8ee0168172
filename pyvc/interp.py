"""Symbolic interpreter for the source of /repo: mechanical extraction, all paths, modular contracts."""
import ast
import os
from fractions import Fraction

from . import alg, smt
from .alg import P, Cond, lift, ZERO, ONE, ind, cand, cor, cnot, TRUE, FALSE
from .values import *
from .values import _Inf


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Scope:
    __slots__ = ("vars", "parent", "globs", "nonl")

    def __init__(self, parent=None, globs=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.nonl = set()

    def lookup(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return s.vars[n]
            s = s.parent
        raise KeyError(n)

    def has(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return True
            s = s.parent
        return False

    def assign(self, n, v):
        if n in self.nonl:
            s = self.parent
            while s is not None:
                if n in s.vars:
                    s.vars[n] = v
                    return
                s = s.parent
        self.vars[n] = v


class PyFunc:
    def __init__(self, node, scope, module, qual, interp, cls=None):
        self.node, self.scope, self.module, self.qual, self.cls = node, scope, module, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.anns = [x.annotation for x in a.posonlyargs + a.args]
        self.vararg = a.vararg
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg
        self.defaults = [interp.eval(d, scope) for d in a.defaults]
        self.kwdefaults = {x.arg: (interp.eval(d, scope)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        self.attrs = {}

    def __repr__(self):
        return f"<fn {self.qual}>"


class Multi:
    def __init__(self, name, qual):
        self.name, self.qual, self.fns = name, qual, []

    def __repr__(self):
        return f"<multi {self.qual}>"


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj

    def __repr__(self):
        return f"<bound {self.f} {self.obj!r}>"


class Prop:
    def __init__(self, get=None, set=None, name=None):
        self.get, self.set, self.name = get, set, name


class ClsM:
    def __init__(self, f):
        self.f = f


class StatM:
    def __init__(self, f):
        self.f = f


class PyClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        # C3 is not needed for the single-inheritance code base.
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.ns:
                return c.ns[n]
        return None

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, PyClass)]

    def __repr__(self):
        return f"<class {self.name}>"


class LibMod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<lib {self.name}>"


class LibFn:
    """A function of an external library with a contract (or None: unsupported on use)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<libfn {self.name}>"


class LibType:
    def __init__(self, name, test=None):
        self.name, self.test = name, test

    def __repr__(self):
        return f"<type {self.name}>"


class Dispatcher:
    def __init__(self):
        self.table = {}


class StarSeq:
    """A starred symbolic sequence in a call."""

    def __init__(self, seq):
        self.seq = seq


class Kw:
    """A ** symbolic mapping in a call."""

    def __init__(self, m):
        self.m = m


class Path:
    def __init__(self, kind, value, pc):
        self.kind, self.value, self.pc = kind, value, pc

    def __repr__(self):
        return f"Path({self.kind}, {self.value!r}, {self.pc})"


class Ctx:
    def __init__(self, prefix):
        self.trace = list(prefix)
        self.pos = 0
        self.pc = []
        self.alts = []


class Local:
    def __init__(self, prefix, gens):
        self.trace = list(prefix)
        self.pos = 0
        self.pc = []
        self.alts = []
        self.gens = set(gens)


class LoopRecord:
    def __init__(self, **kw):
        self.__dict__.update(kw)


NOCONTRACT = object()


class Interp:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.modules = {}
        self.contracts = {}
        self.ctx = Ctx([])
        self.locals_ = []
        self.depth = 0
        self.covered = {}
        self.loops = []
        self.obj_fold = {}
        self.while_contracts = {}
        self.attr_hooks = []
        self.uid = 0
        self.trusted_used = set()
        self.contracts_used = set()
        self.active = []
        self.stack = []
        from . import lib
        self.lib = lib
        self.libs = lib.make(self)

    # ------------------------------------------------------------------ paths
    def explore(self, thunk, maxpaths=600):
        out = []
        todo = [[]]
        n = 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > maxpaths:
                raise Unsupported("too many paths")
            self.ctx = Ctx(pre)
            self.locals_ = []
            self.depth = 0
            self.stack = []
            try:
                v = thunk()
                out.append(Path("ret", v, list(self.ctx.pc)))
            except PyExc as e:
                out.append(Path("exc", e, list(self.ctx.pc)))
            except PathDead:
                pass
            todo.extend(self.ctx.alts)
        return out

    def pc(self):
        r = list(self.ctx.pc)
        for l in self.locals_:
            r += l.pc
        return r

    def assume(self, c):
        if c.op == "true":
            return
        if c.op == "false":
            raise PathDead()
        tgt = self._target(c)
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        tgt.pc.append(c)
        # z3 feasibility is checked lazily at decisions

    def _target(self, c):
        for l in reversed(self.locals_):
            if c.leaves & l.gens:
                return l
        return self.ctx

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        pc = self.pc()
        keys = {x.key for x in pc}
        n = cnot(c)
        if c.key in keys:
            return True
        if n.key in keys:
            return False
        rel = smt.relevant(pc, c)
        canf = smt.check(rel + [n], 800) != "unsat"
        if not canf:
            return True
        cant = smt.check(rel + [c], 800) != "unsat"
        if not cant:
            return False
        t = self._target(c)
        if t.pos < len(t.trace):
            v = t.trace[t.pos]
        else:
            t.alts.append(t.trace[: t.pos] + [False])
            t.trace.append(True)
            v = True
        t.pos += 1
        cc = c if v else n
        if cc.op == "and":
            t.pc.extend(cc.args)
        else:
            t.pc.append(cc)
        return v

    def implied(self, c, timeout=1500):
        return smt.implied(self.pc(), c, timeout)

    def nondet(self, tag):
        """Unconstrained choice."""
        self.uid += 1
        return self.decide(alg.pred("choice", tag, P.const(0)))

    def fresh(self, prefix, **flags):
        """Fresh term; depends on the generic indices of enclosing generic bodies."""
        gens = []
        for l in self.locals_:
            gens += sorted(l.gens, key=lambda a: a.key)
        gens = [g for g in gens if g.name in alg.SYMS and alg.SYMS[g.name].get("int")]
        if not gens:
            return P.atom(alg.fresh(prefix, **flags))
        self.uid += 1
        n = f"{prefix}!{alg.fresh(prefix).name}"
        if flags.get("int"):
            alg.INTFUNS.add(n)
        if flags.get("pos"):
            alg.POSFUNS.add(n)
        if flags.get("nonneg"):
            alg.NONNEGFUNS.add(n)
        return alg.app(n, *[P.atom(g) for g in gens])

    # generic bodies -----------------------------------------------------
    def generic(self, gens, assumptions, thunk, maxpaths=64):
        """Run thunk for generic index symbols; list of (local path condition, kind, value)."""
        outs = []
        todo = [[]]
        k = 0
        base = len(self.locals_)
        while todo:
            pre = todo.pop()
            k += 1
            if k > maxpaths:
                raise Unsupported("too many local paths")
            l = Local(pre, gens)
            for a in assumptions:
                if a.op == "false":
                    return []
                if a.op != "true":
                    (l.pc.extend(a.args) if a.op == "and" else l.pc.append(a))
            na = len(l.pc)
            self.locals_.append(l)
            try:
                try:
                    v = thunk()
                    outs.append((l.pc[na:], "ret", v))
                except PyExc as e:
                    outs.append((l.pc[na:], "exc", e))
                except Brk:
                    outs.append((l.pc[na:], "break", None))
                except Ret as r:
                    outs.append((l.pc[na:], "return", r.v))
                except PathDead:
                    pass
            finally:
                del self.locals_[base:]
            todo.extend(l.alts)
        return outs

    def rename_seg(self, seg):
        """Fresh bound symbols."""
        mp = {}
        b = []
        for a, d in seg.bounds:
            n = alg.fresh("i", int=True, nonneg=True)
            d2 = alg.subs(d, mp)
            mp[a] = P.atom(n)
            b.append((n, d2))
        return Seg(b, alg.subs_cond(seg.guard, mp), subs_value(seg.value, mp))

    def seg_assumptions(self, seg):
        out = []
        for a, d in seg.bounds:
            out.append(alg.lt(P.atom(a), d))
            out.append(alg.ge(P.atom(a), 0))
        out.append(seg.guard)
        return out

    def map_seg(self, seg, f, filt=None):
        """Seg of f(value) (kept where filt(value))."""
        if not seg.bounds:
            if seg.guard.op == "true":
                v = seg.value
                if filt is not None:
                    c = self.truth(filt(v))
                    if c is False:
                        return []
                    if c is not True:
                        if self.decide(c):
                            return [Seg((), TRUE, f(v))]
                        return []
                return [Seg((), TRUE, f(v))]
            if not self.decide(seg.guard):
                return []
            return self.map_seg(Seg((), TRUE, seg.value), f, filt)
        seg = self.rename_seg(seg)
        gens = [a for a, _ in seg.bounds]

        def body():
            c = TRUE
            if filt is not None:
                c = self.truth(filt(seg.value))
                c = TRUE if c is True else FALSE if c is False else c
                if c.op == "false":
                    return (c, None)
                if c.op != "true":
                    l = self._target(c)
                    self.locals_[-1].pc.append(c)
            return (c, f(seg.value))

        outs = self.generic(gens, self.seg_assumptions(seg), body)
        excs = [(pc, e) for pc, k, e in outs if k == "exc"]
        if any(k in ("break", "return") for _, k, _ in outs):
            raise Unsupported("control flow out of a comprehension")
        for pc, e in excs:
            # raised if some element satisfies its condition
            c = cand(seg.guard, *pc)
            if self.decide(self.exists(seg.bounds, c)):
                raise e
        rets = [(pc, v) for pc, k, v in outs if k == "ret"]
        res = []
        if not rets:
            return []
        if len(rets) == 1:
            pc, (c, v) = rets[0]
            if c.op == "false":
                return []
            return [Seg(seg.bounds, cand(seg.guard, c), v)]
        # try merging values
        live = [(pc, c, v) for pc, (c, v) in rets if c.op != "false"]
        # the filter condition is recorded in pc as well: drop duplicates
        try:
            vals = [(cand(*pc), v) for pc, c, v in live]
            m = self.merge(vals)
            g = cor(*[cand(*pc) for pc, c, v in live]) if len(live) < len(rets) or any(c.op != "true" for _, c, _ in live) else TRUE
            return [Seg(seg.bounds, cand(seg.guard, g), m)]
        except Unsupported:
            return [Seg(seg.bounds, cand(seg.guard, *pc), v) for pc, c, v in live]

    def merge(self, vals):
        """Merge values under mutually exclusive, exhaustive conditions."""
        v0 = vals[0][1]
        if all(same(v0, v) for _, v in vals):
            return v0
        if all(is_num(v) for _, v in vals):
            r = ZERO
            for c, v in vals:
                r = r + ind(c) * lift(v)
            return norm(r)
        if all(isinstance(v, (bool, Cond)) for _, v in vals):
            return cor(*[cand(c, v if isinstance(v, Cond) else (TRUE if v else FALSE)) for c, v in vals])
        if all(isinstance(v, T) for _, v in vals) and all(same_shape(v0, v) for _, v in vals):
            def fn(*idx):
                r = ZERO
                for c, v in vals:
                    r = r + ind(c) * lift(v.at(*idx))
                return r
            return T(v0.shape, fn)
        if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in vals):
            return tuple(self.merge([(c, v[k]) for c, v in vals]) for k in range(len(v0)))
        if all(isinstance(v, Obj) and v.cls is v0.cls and v.attrs.keys() == v0.attrs.keys() for _, v in vals):
            o = Obj(v0.cls)
            o.attrs = {k: self.merge([(c, v.attrs[k]) for c, v in vals]) for k in v0.attrs}
            return o
        raise Unsupported("cannot merge values of different paths")

    def exists(self, bounds, c):
        """Condition: some assignment of the bounds satisfies c."""
        p = ind(c)
        for a, d in reversed(bounds):
            p = alg.sum_over(a, d, p)
        p = self.simp(p)
        return alg.gt(p, 0)

    def count(self, seq):
        r = ZERO
        for s in seq.segs:
            p = ind(s.guard)
            for a, d in reversed(s.bounds):
                p = alg.sum_over(a, d, p)
            r = r + p
        return norm(self.simp(r))

    def simp(self, p):
        """Hook for domain lemmas (distinct keys)."""
        return p

    # ------------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            path = os.path.join(self.repo, "gpcm", name + ".py")
            with open(path) as f:
                src = f.read()
            m = Scope()
            m.globs = name
            self.modules[name] = m
            m.vars["__name__"] = "gpcm." + name
            m.vars["__all__"] = []
            tree = ast.parse(src)
            for st in tree.body:
                self.exec(st, m)
        return m

    def get(self, dotted):
        """Repo object by name: 'util.autocorr', 'exppoly.Poly.__add__'."""
        parts = dotted.split(".")
        v = self.module(parts[0]).vars.get(parts[1])
        if v is UNKNOWN:
            return self.nondet("unknown")
        if v is None:
            raise KeyError(dotted)
        for p in parts[2:]:
            v = v.find(p)
            if v is None:
                raise KeyError(dotted)
        return v

    def import_repo(self, mod):
        return self.module(mod)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            root = a.name.split(".")[0]
            if a.asname:
                env.assign(a.asname, LibMod(self.lib.canon(a.name)))
            else:
                env.assign(root, LibMod(self.lib.canon(root)))

    def s_ImportFrom(self, st, env):
        if st.level:
            for a in st.names:
                if st.module is None:
                    env.assign(a.asname or a.name, self.module(a.name))
                    continue
                m = self.module(st.module)
                if a.name == "*":
                    for k, v in m.vars.items():
                        if not k.startswith("_"):
                            env.assign(k, v)
                else:
                    if a.name not in m.vars:
                        raise Unsupported(f"import {a.name}")
                    env.assign(a.asname or a.name, m.vars[a.name])
            return
        for a in st.names:
            if st.module.startswith("gpcm"):
                m = self.module(st.module.split(".")[-1])
                env.assign(a.asname or a.name, m.vars[a.name])
            else:
                env.assign(a.asname or a.name, self.getattr(LibMod(self.lib.canon(st.module)), a.name))

    def s_FunctionDef(self, st, env):
        f = self.mkfunc(st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        env.assign(st.name, v)

    def mkfunc(self, node, env):
        qual = self.qualprefix(env) + getattr(node, "name", "<lambda>")
        f = PyFunc(node, env, self.modname(env), qual, self)
        f.cls = env.vars.get("$class") if "$class" in env.vars else None
        return f

    def modname(self, env):
        s = env
        while s.parent is not None:
            s = s.parent
        return s.globs

    def qualprefix(self, env):
        if "$class" in env.vars:
            return f"{self.modname(env)}.{env.vars['$class']}."
        if "$func" in env.vars:
            return f"{env.vars['$func']}.<locals>."
        return f"{self.modname(env)}."

    def s_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        cenv = Scope(env)
        cenv.vars["$class"] = st.name
        self.exec_block(st.body, cenv)
        ns = {k: v for k, v in cenv.vars.items() if k != "$class"}
        c = PyClass(st.name, bases, ns, self.modname(env))
        v = c
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        for x in ns.values():
            self._setcls(x, c)
        env.assign(st.name, v)

    def _setcls(self, x, c):
        if isinstance(x, PyFunc):
            x.cls = c
        elif isinstance(x, Multi):
            for f in x.fns:
                f.cls = c
        elif isinstance(x, Prop):
            self._setcls(x.get, c)
            self._setcls(x.set, c)
        elif isinstance(x, (ClsM, StatM)):
            self._setcls(x.f, c)

    def s_Return(self, st, env):
        raise Ret(self.eval(st.value, env) if st.value is not None else None)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        load = ast.copy_location(_as_load(st.target), st.target)
        old = self.eval(load, env)
        rhs = self.eval(st.value, env)
        if isinstance(old, list) and isinstance(st.op, ast.Add):
            old.extend(self.aslist(rhs))
            self.assign(st.target, old, env)
            return
        if isinstance(old, SSeq) and isinstance(st.op, ast.Add) and old.kind == "list":
            old.segs = old.segs + seq_of(rhs).segs
            return
        if isinstance(old, self.lib.Bag) and isinstance(st.op, ast.Add):
            for x in self.aslist(rhs):
                old.append(x)
            return
        if isinstance(old, T) and not old.np and old.rank >= 1:
            # In place for NumPy arrays, a new array for the other back ends: the same as long as
            # the old array is not used any more.
            was = T(old.shape, old.fn, prov=old.prov, isbool=old.isbool, isint=old.isint)
            v = self.binop(type(st.op).__name__, was, rhs)

            def gone(*ix):
                raise Unsupported("an array is used after an in-place update under another name")
            old.fn, old.memo, old.prov = gone, {}, None
            self.assign(st.target, v, env)
            return
        was = T(old.shape, old.fn, np_=old.np, prov=old.prov, isbool=old.isbool, isint=old.isint) if isinstance(old, T) else old
        v = self.binop(type(st.op).__name__, was, was if rhs is old else rhs)
        if isinstance(old, T) and old.np and isinstance(v, T) and same_shape(old, v):
            new = T(v.shape, v.fn, np_=True)
            old.fn, old.memo, old.prov = new.fn, {}, None
            old.isbool, old.isint = v.isbool, v.isint
            v = old
        self.assign(st.target, v, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.aslist(v)
        if stars:
            k = stars[0]
            n = len(elts) - k - 1
            parts = vals[:k] + [list(vals[k : len(vals) - n])] + (vals[len(vals) - n :] if n else [])
        else:
            parts = vals
        if len(parts) != len(elts):
            raise PyExc("ValueError", ("unpack",))
        for e, x in zip(elts, parts):
            self.assign(e, x, env)

    def aslist(self, v):
        """Concrete list of elements."""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (set, frozenset, range, dict)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, self.lib.LazyIter):
            return self.aslist(v.force())
        if isinstance(v, Obj) and v.cls == "namedtuple":
            return list(v.attrs.values())
        c = seq_of(v).concrete()
        if c is None:
            raise Unsupported("symbolic sequence where a concrete one is needed")
        return c

    def s_If(self, st, env):
        if self.decide_value(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_Assert(self, st, env):
        if not self.decide_value(self.eval(st.test, env)):
            raise PyExc("AssertionError", ())

    def s_Raise(self, st, env):
        if st.exc is None:
            raise env.lookup("$exc")
        v = self.eval(st.exc, env)
        raise self.mkexc(v)

    def mkexc(self, v):
        if isinstance(v, PyExc):
            return v
        if isinstance(v, LibType):
            return PyExc(v.name, ())
        if isinstance(v, PyClass):
            return PyExc(v.name, (), cls=v)
        if isinstance(v, Obj) and isinstance(v.cls, PyClass):
            return PyExc(v.cls.name, tuple(v.attrs.get("args", ())), cls=v.cls, value=v)
        raise Unsupported("raise of an unknown value")

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e, self.eval(h.type, env)):
                        if h.name:
                            env.assign(h.name, e.value if e.value is not None else e)
                        env.vars["$exc"] = e
                        self.exec_block(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(t, PyClass):
            return e.cls is not None and t in e.cls.mro()
        if isinstance(t, LibType):
            if t.name in ("Exception", "BaseException"):
                return True
            if e.name == t.name:
                return True
            return t.name in self.lib.EXC_BASES.get(e.name, ())
        raise Unsupported("exception type")

    def s_With(self, st, env):
        mgrs = []
        for it in st.items:
            m = self.eval(it.context_expr, env)
            v = self.lib.enter(self, m)
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(st.body, env)
        for m in reversed(mgrs):
            self.lib.exit(self, m)

    def s_Break(self, st, env):
        raise Brk()

    def s_Continue(self, st, env):
        raise Cont()

    def s_Global(self, st, env):
        raise Unsupported("global statement")

    def s_Nonlocal(self, st, env):
        env.nonl |= set(st.names)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_While(self, st, env):
        h = None
        for q in reversed(self.stack):
            h = self.while_contracts.get(q)
            if h is not None:
                break
        if h is not None:
            h(self, st, env)
            return
        f = self.counting_while(st, env)
        if f is not None:
            first, loop = f
            if first is None or self.decide_value(self.eval(first, env)):
                self.exec_block(loop, env)
            return
        for _ in range(70):
            if not self.decide_value(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except Brk:
                return
            except Cont:
                pass
        raise Unsupported("while loop without a bound or an invariant")

    def counting_while(self, st, env):
        """A while loop that counts is a for loop: `while A and v < E: ..; v += 1` with an
        integer v that is stored once per iteration and an E that the loop does not change runs
        E - v times unless A ends it earlier (A is then tested at the end of the body and once
        before the loop).  `while len(x) < E: ..; x.append(..)` likewise.  Returns the test
        before the loop and the statements, or None."""
        if st.orelse:
            return None
        parts = st.test.values if isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And) else [st.test]
        stores = {x.id for n in st.body for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        if any(isinstance(x, ast.Continue) for n in st.body for x in ast.walk(n)):
            return None
        for q, c in enumerate(parts):
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
                continue
            l, op, r = c.left, c.ops[0], c.comparators[0]
            if isinstance(op, (ast.Gt, ast.GtE)):
                l, op, r = r, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)](), l
            if not isinstance(op, (ast.Lt, ast.LtE)):
                continue
            if not all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)) for x in ast.walk(r)):
                continue
            if any(isinstance(x, ast.Name) and x.id in stores for x in ast.walk(r)):
                continue
            bump = []
            if isinstance(l, ast.Name):
                for n in st.body:
                    one = lambda e: isinstance(e, ast.Constant) and e.value == 1 and not isinstance(e.value, bool)
                    if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.target.id == l.id and one(n.value):
                        bump.append(n)
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == l.id \
                            and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and isinstance(n.value.left, ast.Name) and n.value.left.id == l.id and one(n.value.right):
                        bump.append(n)
                every = [x for n in st.body for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id == l.id]
                if len(bump) != 1 or len(every) != 1 or not env.has(l.id):
                    continue
                start = env.lookup(l.id)
            elif isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and len(l.args) == 1 and isinstance(l.args[0], ast.Name) and not l.keywords:
                x = l.args[0].id
                if x in stores:
                    continue
                for n in st.body:
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "append" \
                            and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == x:
                        bump.append(n)
                uses = [y for n in st.body for y in ast.walk(n) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == x]
                if len(bump) != 1 or len(uses) != 1 or not isinstance(env.lookup(x), (list, SSeq)):
                    continue
                start = self.eval(l, env)
            else:
                continue
            stop = self.eval(r, env)
            isint = lambda v: not isinstance(v, bool) and (isinstance(v, int) or (isinstance(v, P) and alg._is_int_term(v)))
            if not (isint(start) and isint(stop)):
                continue
            if isinstance(start, int) and isinstance(stop, int) and stop - start < 60:
                return None
            n = norm(lift(stop) - lift(start) + (1 if isinstance(op, ast.LtE) else 0))
            others = parts[:q] + parts[q + 1:]
            rest = None if not others else others[0] if len(others) == 1 else ast.BoolOp(op=ast.And(), values=others)
            k, nn, s0 = f"$k{id(st)}", f"$n{id(st)}", f"$s{id(st)}"
            env.vars[nn], env.vars[s0] = n, start
            name = lambda v, ctx: ast.Name(id=v, ctx=ctx)
            body = list(st.body)
            if isinstance(l, ast.Name):
                body.insert(0, ast.Assign(targets=[name(l.id, ast.Store())], value=ast.BinOp(left=name(s0, ast.Load()), op=ast.Add(), right=name(k, ast.Load()))))
            if rest is not None:
                body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=rest), body=[ast.Break()], orelse=[]))
            if self.implied(alg.ge(n, 0)) is not True and not self.decide(alg.ge(n, 0)):
                env.vars[nn] = 0
            loop = ast.For(target=name(k, ast.Store()), iter=ast.Call(func=name("range", ast.Load()), args=[name(nn, ast.Load())], keywords=[]), body=body, orelse=[])
            ast.fix_missing_locations(ast.copy_location(loop, st))
            return rest, [loop]
        return None

    # ------------------------------------------------------------------ for loops
    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        if isinstance(it, self.lib.LazyIter):
            it = it.force()
        if isinstance(it, Obj) and it.cls == "namedtuple":
            it = list(it.attrs.values())
        if isinstance(it, str):
            it = list(it)
        if isinstance(it, range) and len(it) > 200:
            at = alg.fresh("i", int=True, nonneg=True)
            it = SSeq([Seg(((at, P.const(len(it))),), TRUE, norm(P.const(it.start) + P.atom(at) * it.step))])
        seq = seq_of(it)
        brk = False
        for seg in seq.segs:
            if not seg.bounds:
                if seg.guard.op != "true" and not self.decide(seg.guard):
                    continue
                self.assign(st.target, seg.value, env)
                try:
                    self.exec_block(st.body, env)
                except Brk:
                    brk = True
                    break
                except Cont:
                    pass
            else:
                if self.sym_for(st, seg, env):
                    brk = True
                    break
        if not brk:
            self.exec_block(st.orelse, env)

    def carried_names(self, body, env):
        names = []
        stores = set()
        lists = set()
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    stores.add(x.id)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    stores.add(x.target.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "add", "extend", "insert", "update"):
                    lists.add(x.func.value.id)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    lists.add(x.value.id)
        return stores, lists

    def sym_for(self, st, seg, env):
        """Summarise a loop over symbolically many elements.  Returns True on certain break."""
        seg = self.rename_seg(seg)
        tgt = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
        stores, lists = self.carried_names(st.body, env)
        snapshot = dict(env.vars)
        # Which names exist before the loop?
        pre = {n: env.lookup(n) for n in sorted(stores | lists) if env.has(n) and n not in tgt}
        bags = {}
        init = {}
        for n, v in pre.items():
            if n in lists and isinstance(v, (list, SSeq, set)):
                bags[n] = v
            elif n in lists and isinstance(v, T):
                bags[n] = v
            elif n in lists and isinstance(v, dict):
                bags[n] = v
            elif n in lists and isinstance(v, self.lib.Bag):
                if n in stores or not isinstance(v.init, (list, SSeq)) or getattr(v.init, "kind", "list") != "list":
                    raise Unsupported("collection filled in nested loops")
                bags[n] = v
            elif n in stores:
                init[n] = v
        objattrs = {}          # (objid, attr) -> (obj, attr, init)
        for attempt in range(4):
            res = self._try_loop(st, seg, env, snapshot, init, bags, objattrs)
            if res is not None:
                return res
        raise Unsupported("loop with unstable object state")

    def _reach_objs(self, env):
        out = []
        seen = set()

        def go(v, d):
            if id(v) in seen or d > 4:
                return
            if isinstance(v, Obj):
                seen.add(id(v))
                out.append(v)
                for x in list(v.attrs.values()):
                    go(x, d + 1)
            elif isinstance(v, (list, tuple)):
                for x in v[:20]:
                    go(x, d + 1)

        s = env
        while s is not None and s.parent is not None:
            for v in list(s.vars.values()):
                go(v, 0)
            s = s.parent
        return out

    def placeholder(self, v, tag, i):
        """Arbitrary value of the same kind as v, at iteration i."""
        if isinstance(v, bool):
            raise Unsupported("loop-carried flag")
        if is_num(v):
            n = f"it:{tag}"
            if isinstance(v, int) or (isinstance(v, P) and alg._is_int_term(v)):
                alg.INTFUNS.add(n) if False else None
            return alg.app(n, i)
        if isinstance(v, T):
            n = f"it:{tag}"
            t = T(v.shape, lambda *idx: alg.app(n, i, *idx), np_=v.np)
            return t
        if isinstance(v, (tuple, list)):
            return type(v)(self.placeholder(x, f"{tag}.{k}", i) for k, x in enumerate(v))
        if isinstance(v, Opaque):
            return Opaque(v.tag, id=alg.app(f"it:{tag}", i))
        if isinstance(v, Obj):
            h = self.obj_fold.get(v.cls.name if isinstance(v.cls, PyClass) else v.cls)
            if h is not None:
                return h.placeholder(self, v, f"it:{tag}", i)
        if v is None or isinstance(v, (str, PyFunc, Bound, LibFn)):
            raise Unsupported("loop-carried value of this type")
        raise Unsupported(f"loop-carried {v!r}")

    def _try_loop(self, st, seg, env, snapshot, init, bags, objattrs):
        self.uid += 1
        uid = alg.fresh("loop").name
        gens = [a for a, _ in seg.bounds]
        itvar = P.atom(gens[0]) if len(gens) == 1 else None
        base_i = itvar if itvar is not None else P.atom(alg.fresh("it", int=True, nonneg=True))
        # First find out which carried names are read before written: try without placeholders.
        phs = {}
        for n, v in init.items():
            try:
                phs[n] = self.placeholder(v, f"{uid}:{n}", base_i)
            except Unsupported:
                phs[n] = self.lib.Poison(f"loop-carried {n}")
        ophs = {}
        for k, (o, a, v) in objattrs.items():
            try:
                ophs[k] = self.placeholder(v, f"{uid}:{a}", base_i)
            except Unsupported:
                ophs[k] = self.lib.Poison(f"loop-carried {a}")
        objs = self._reach_objs(env)
        saved = [(o, dict(o.attrs)) for o in objs]
        phatoms = lambda v: {a for a in _apps(v) if a.startswith(f"it:{uid}")}

        def restore():
            env.vars.clear()
            env.vars.update(snapshot)
            for o, at in saved:
                o.attrs.clear()
                o.attrs.update(at)

        results = []
        changed_attrs = {}

        def body():
            restore()
            for n, p in phs.items():
                env.assign(n, p)
            for k, (o, a, v) in objattrs.items():
                o.attrs[a] = ophs[k]
            before = [(o, dict(o.attrs)) for o in objs]
            bg = {}
            for n, v in bags.items():
                bg[n] = self.lib.Bag(v)
                bg[n].lenph = alg.app(f"it:{uid}:#len:{n}", base_i)
                env.assign(n, bg[n])
            self.assign(st.target, seg.value, env)
            kind = "next"
            rv = None
            try:
                self.exec_block(st.body, env)
            except Cont:
                pass
            except Brk:
                kind = "break"
            except Ret as r:
                kind, rv = "return", r.v
            new = {n: env.lookup(n) if env.has(n) else None for n in phs}
            for o, at in before:
                for a, v in o.attrs.items():
                    if a not in at or not (at[a] is v):
                        if (id(o), a) not in objattrs:
                            changed_attrs[(id(o), a)] = (o, a, at.get(a, None), v)
            onew = {k: o.attrs.get(a) for k, (o, a, v) in objattrs.items()}
            allv = dict(env.vars)
            return kind, rv, new, onew, bg, allv

        # decisions on loop-carried values are local as well
        outs = self.generic(gens + [base_i.leaves and next(iter(base_i.leaves))] if itvar is None else gens, self.seg_assumptions(seg), body)
        restore()
        if changed_attrs:
            for k, (o, a, old, new) in changed_attrs.items():
                if old is None and a not in dict(saved[[i for i, (x, _) in enumerate(saved) if x is o][0]][1]):
                    objattrs[k] = (o, a, self.lib.Poison(f"attribute {a} before the loop"))
                else:
                    objattrs[k] = (o, a, old)
            return None
        for pc, kind, v in outs:
            if kind == "exc":
                if _apps_conds(pc, f"it:{uid}"):
                    raise Unsupported("loop that may raise depending on its state")
                if self.decide(self.exists(seg.bounds, cand(seg.guard, *pc))):
                    raise v
        outs = [(pc,) + v for pc, kind, v in outs if kind == "ret"]
        outs = self._closed_forms(outs, seg, uid, phs, init, objattrs, ophs, bags, lambda v: any(a.startswith(f"it:{uid}") for a in _apps(v)))
        nexts = [o for o in outs if o[1] == "next"]
        stops = [o for o in outs if o[1] != "next"]
        rec = LoopRecord(func=self.stack[-1] if self.stack else None, seg=seg, uid=uid, init=dict(init), ph=phs, outs=outs, stack=list(self.stack), objattrs=objattrs, oph=ophs)
        self.loops.append(rec)
        deps = lambda v: any(a.startswith(f"it:{uid}") for a in _apps(v))
        # ---- early exit
        K = None
        if stops:
            bad = any(_apps_conds(pc, f"it:{uid}") for pc, *_ in outs)
            if not bad:
                # search loop: exit condition independent of the state
                ex = cor(*[cand(*o[0]) for o in stops])
                if len(seg.bounds) != 1:
                    raise Unsupported("search over nested bounds")
                if self.decide(self.exists(seg.bounds, cand(seg.guard, ex))):
                    w = self.fresh("w", int=True, nonneg=True)
                    a, d = seg.bounds[0]
                    # first match
                    self.assume(alg.lt(w, d))
                    mp = {a: w}
                    for o in stops:
                        c = alg.subs_cond(cand(seg.guard, *o[0]), mp)
                        if len(stops) == 1 or self.decide(c):
                            self.assume(c)
                            for n, v in o[3].items():
                                if not same(v, phs[n]) and deps(v):
                                    raise Unsupported("search loop with an accumulator")
                            if any(not same(x, phs[n]) for q in nexts for n, x in q[3].items()):
                                raise Unsupported("search loop with an accumulator")
                            if any(b.items for q in nexts for b in q[5].values()):
                                raise Unsupported("search loop that collects")
                            if o[1] == "return":
                                raise Ret(subs_value(o[2], mp))
                            for n, v in o[3].items():
                                if not same(v, phs[n]):
                                    env.assign(n, subs_value(v, mp))
                            for n, v in o[6].items():
                                if n not in snapshot:
                                    env.assign(n, subs_value(v, mp))
                            return True
                    raise PathDead()
                outs = nexts
            else:
                if any(o[1] == "return" for o in stops) or len(seg.bounds) != 1 or seg.guard.op != "true":
                    raise Unsupported("state-dependent return in a loop")
                K = self.fresh("K", int=True, nonneg=True)
                rec.K = K
                self.assume(alg.le(K, seg.bounds[0][1]))
        # ---- summarise each carried variable
        final = {}
        opaque = []
        for n in phs:
            r = self._summ(n, init[n], phs[n], [(o[0], o[3][n]) for o in outs], seg, uid, deps) if K is None else None
            if r is None:
                opaque.append(n)
            else:
                final[n] = r[0]
        ofinal = {}
        oopaque = []
        for k, (o_, a, v) in objattrs.items():
            r = self._summ(a, v, ophs[k], [(o[0], o[4][k]) for o in outs], seg, uid, deps) if K is None else None
            if r is None:
                oopaque.append(k)
            else:
                ofinal[k] = r[0]
        dead = []
        for n in opaque:
            # overwritten before use: the last value
            if not any(deps_on(v, f"it:{uid}:{n}") for o in outs for v in list(o[3].values()) + list(o[4].values()) + [x for b in o[5].values() for x in b.items]) and not any(_apps_conds(o[0], f"it:{uid}:{n}") for o in outs):
                dead.append(n)
        if opaque or oopaque:
            if len(seg.bounds) != 1 or seg.guard.op != "true":
                raise Unsupported("loop summary: no pattern")
            a, d = seg.bounds[0]
            last = K if K is not None else d
            rec.last = last
            for n in opaque:
                v = phs[n]
                if isinstance(v, self.lib.Poison):
                    # only usable if never read; give the last iteration's value if unique
                    vs = [o[3][n] for o in outs]
                    final[n] = self._last(vs, a, d, uid, init[n], n) if K is None else self.lib.Poison(n)
                    continue
                r = self._last([o[3][n] for o in outs], a, d, uid, init[n], n) if K is None else None
                final[n] = r if r is not None and not isinstance(r, self.lib.Poison) else self.at_iter(v, a, last, init[n])
            for k in oopaque:
                o_, at, v0 = objattrs[k]
                v = ophs[k]
                if isinstance(v, self.lib.Poison):
                    vs = [o[4][k] for o in outs]
                    ofinal[k] = self._last(vs, a, d, uid, v0, at) if K is None else self.lib.Poison(at)
                    continue
                r = self._last([o[4][k] for o in outs], a, d, uid, v0, at) if K is None else None
                ofinal[k] = r if r is not None and not isinstance(r, self.lib.Poison) else self.at_iter(v, a, last, v0)
            if d.const_value() is None:
                rec.initfact = True
        # ---- collected elements
        for n, v in bags.items():
            b = [(o[0], o[5][n]) for o in outs]
            if isinstance(v, T):
                env.assign(n, self.lib.scatter(self, v, seg, b))
                v2 = env.lookup(n)
                v.fn, v.memo = v2.fn, {}
                env.assign(n, v)
                continue
            segs = []
            nested = any(self.lib.bagseg(x) for _, bag in b for x in bag.items)
            if len(b) > 1 and all(len(bag.items) == 1 for _, bag in b) and not nested:
                # one element on every path: a single element per iteration
                try:
                    m = self.merge([(cand(*pc), bag.items[0]) for pc, bag in b])
                    pc0, bag0 = b[0]
                    bag0.items = [m]
                    b = [((), bag0)]
                except Unsupported:
                    pass
            for pc, bag in b:
                for x in bag.items:
                    if self.lib.bagseg(x):
                        y = x.segs[0]
                        segs.append(Seg(seg.bounds + y.bounds, cand(seg.guard, *pc, y.guard), y.value))
                    else:
                        segs.append(Seg(seg.bounds, cand(seg.guard, *pc), x))
            if isinstance(v, self.lib.Bag):
                if K is not None or len(segs) > 1:
                    raise Unsupported("collection filled in nested loops")
                v.items += [SSeq([x], "bagseg") for x in segs]
                env.assign(n, v)
                continue
            if nested and (K is not None or len(segs) > 1):
                raise Unsupported("collection filled in nested loops")
            if K is not None and segs:
                segs = [Seg(s.bounds, cand(s.guard, alg.lt(P.atom(s.bounds[0][0]), K)), s.value) for s in segs]
            if not segs:
                continue
            if len([1 for _, bag in b if bag.items]) > 1 or any(len(bag.items) > 1 for _, bag in b):
                # several elements per iteration: order is interleaved
                if isinstance(v, (list, SSeq)) and (not isinstance(v, SSeq) or v.kind == "list"):
                    ordered = False
                else:
                    ordered = True
            else:
                ordered = True
            if isinstance(v, dict):
                pairs = all(isinstance(x.value, tuple) and len(x.value) == 3 and x.value[0] == "set" for x in segs)
                if v or not pairs or not ordered or len(segs) != 1:
                    raise Unsupported("dictionary filled in a symbolic loop")
                env.assign(n, self.lib.SDict(SSeq([Seg(x.bounds, x.guard, x.value[1:]) for x in segs])))
                continue
            s0 = seq_of(v)
            kind = v.kind if isinstance(v, SSeq) else ("set" if isinstance(v, set) else "list")
            s = SSeq(s0.segs + segs, kind)
            s.ordered = ordered and getattr(s0, "ordered", True)
            if isinstance(v, SSeq):
                v.segs = s.segs
                v.ordered = s.ordered
            else:
                env.assign(n, s)
        for n, v in final.items():
            env.assign(n, v)
        for k, (o, a, v) in objattrs.items():
            o.attrs[a] = ofinal[k]
        # names local to the body keep no usable value
        for o in outs:
            for n in o[6]:
                if n not in snapshot and n not in phs:
                    env.vars[n] = self.lib.Poison(n)
        return False

    def _closed_forms(self, outs, seg, uid, phs, init, objattrs, ophs, bags, deps):
        """Replace counters that grow by the same amount in every iteration by their value."""
        if len(seg.bounds) != 1 or seg.guard.op != "true" or not outs:
            return outs
        i = P.atom(seg.bounds[0][0])
        forms = {}

        def add(ph, v0, news):
            if not is_num(ph) or not is_num(v0) or not all(is_num(v) for v in news):
                return
            ds = [lift(v) - ph for v in news]
            if any(d.key != ds[0].key for d in ds) or deps(ds[0]) or seg.bounds[0][0] in ds[0].leaves:
                return
            if ds[0].is_zero() and False:
                return
            s = lift(ph).single()
            forms[s[2][0][0].name] = lift(v0) + ds[0] * i
        for n, ph in phs.items():
            add(ph, init[n], [o[3][n] for o in outs])
        for k, (o_, a, v0) in objattrs.items():
            add(ophs[k], v0, [o[4][k] for o in outs])
        for n, v in bags.items():
            if isinstance(v, (T, dict)):
                continue
            if any(self.lib.bagseg(x) for o in outs for x in o[5][n].items):
                continue
            cnt = {len(o[5][n].items) for o in outs}
            if len(cnt) == 1 and all(o[1] == "next" for o in outs):
                try:
                    l0 = self.call(self.eval(ast.Name("len", ast.Load()), Scope()), [v], {})
                except (Unsupported, KeyError):
                    continue
                forms[f"it:{uid}:#len:{n}"] = lift(l0) + i * cnt.pop()
        if not forms:
            return outs
        a0 = seg.bounds[0][0]

        def f(a):
            if a.kind == "app" and a.name in forms:
                r = forms[a.name]
                return alg.subs(r, {a0: a.args[0]}) if a.args[0].key != i.key else r
            return None
        keep = {n for n, ph in phs.items() if is_num(ph) and lift(ph).single() and lift(ph).single()[2] and lift(ph).single()[2][0][0].name in forms}
        okeep = {k for k, ph in ophs.items() if is_num(ph) and lift(ph).single() and lift(ph).single()[2] and lift(ph).single()[2][0][0].name in forms}
        new = []
        for pc, kind, rv, nv, ov, bg, allv in outs:
            pc2 = [amap_value(c, f) for c in pc]
            pc2 = [c for c in pc2 if c.op != "true"]
            if any(c.op == "false" for c in pc2):
                continue
            for b in bg.values():
                b.items = [amap_value(x, f) for x in b.items]
            new.append((pc2, kind, amap_value(rv, f), {n: v if n in keep else amap_value(v, f) for n, v in nv.items()},
                        {k: v if k in okeep else amap_value(v, f) for k, v in ov.items()}, bg, allv))
        return new

    def _last(self, vs, a, d, uid, init, n):
        if len(vs) == 1 and not isinstance(vs[0], self.lib.Poison) and not any(x.startswith(f"it:{uid}") for x in _apps(vs[0])):
            if isinstance(init, self.lib.Poison):
                if not self.implied(alg.ge(d, 1)):
                    return self.lib.Poison(n)
                return subs_value(vs[0], {a: lift(d) - 1})
            if self.decide(alg.ge(d, 1)):
                return subs_value(vs[0], {a: lift(d) - 1})
            return init
        if len(vs) > 1 and all(same(vs[0], v) for v in vs[1:]):
            return self._last(vs[:1], a, d, uid, init, n)
        return self.lib.Poison(n)

    def at_iter(self, v, a, last, init):
        return subs_value(v, {a: lift(last)})

    def _summ(self, n, v0, ph, news, seg, uid, deps):
        """Value after the loop, or None."""
        if all(same(v, ph) or v is ph for _, v in news):
            return (v0,)
        if isinstance(ph, self.lib.Poison) or isinstance(v0, self.lib.Poison):
            return None
        if isinstance(ph, tuple):
            if not all(isinstance(v, tuple) and len(v) == len(ph) for _, v in news):
                return None
            rs = [self._summ(n, v0[k], ph[k], [(pc, v[k]) for pc, v in news], seg, uid, deps) for k in range(len(ph))]
            return None if any(r is None for r in rs) else (tuple(r[0] for r in rs),)
        stc = any(_apps_conds(pc, f"it:{uid}") for pc, _ in news)
        if is_num(ph) and all(is_num(v) for _, v in news):
            if not stc:
                ds = [(pc, lift(v) - ph) for pc, v in news]
                if not any(deps(d) for _, d in ds):
                    r = lift(v0)
                    for pc, d in ds:
                        r = r + self.big_sum(seg, cand(*pc), d)
                    return (norm(self.simp(r)),)
                rs = []
                ok = True
                for pc, v in news:
                    q = lift(v) / ph
                    if deps(q):
                        ok = False
                        break
                    rs.append((pc, q))
                if ok:
                    return (norm(self.simp(lift(v0) * self.big_prod(seg, rs))),)
                # overwritten on some paths
                ow = [(pc, v) for pc, v in news if not same(v, ph)]
                if self.at_most_one(seg, cor(*[cand(*pc) for pc, _ in ow])):
                    # until the only update the variable keeps its initial value
                    pa = lift(ph).single()[2][0][0]
                    ow = [(pc, norm(alg.amap(lift(v), lambda a: lift(v0) if a.name == pa.name else None))) for pc, v in ow]
                if not any(deps(v) for _, v in ow) and self.at_most_one(seg, cor(*[cand(*pc) for pc, _ in ow])):
                    hit = ZERO
                    tot = ZERO
                    for pc, v in ow:
                        hit = hit + self.big_sum(seg, cand(*pc), ONE)
                        tot = tot + self.big_sum(seg, cand(*pc), lift(v))
                    return (norm(self.simp(lift(v0) * (ONE - hit) + tot)),)
            m = self.lib.max_pattern(self, v0, ph, news, seg, uid)
            if m is not None:
                return (m,)
            return None
        if isinstance(ph, (T,)) or isinstance(v0, T) or any(isinstance(v, T) for _, v in news):
            ref = next((v for _, v in news if isinstance(v, T)), ph)
            if stc or not all(isinstance(v, T) and same_shape(ref, v) for _, v in news):
                return None
            g = gen_index(ref)
            phg = ph.at(*g) if isinstance(ph, T) else ph
            if any(deps(lift(v.at(*g)) - phg) for _, v in news):
                return None
            def fn(*idx):
                r = lift(v0.at(*idx)) if isinstance(v0, T) else lift(v0)
                p0 = ph.at(*idx) if isinstance(ph, T) else ph
                for pc, v in news:
                    r = r + self.big_sum(seg, cand(*pc), lift(v.at(*idx)) - p0)
                return r
            return (T(ref.shape, fn),)
        if isinstance(ph, Obj):
            h = self.obj_fold.get(ph.cls.name if isinstance(ph.cls, PyClass) else ph.cls)
            if h is not None and not stc:
                return h.summarise(self, v0, ph, news, seg, deps)
        return None

    def big_sum(self, seg, c, body):
        p = ind(cand(seg.guard, c)) * body
        for a, d in reversed(seg.bounds):
            p = alg.sum_over(a, d, p)
        return p

    def big_prod(self, seg, rs):
        # rs: [(pc, ratio)]; exponentials add up
        out = ONE
        rest = []
        for pc, q in rs:
            s = q.single()
            c = cand(seg.guard, *pc)
            if s is not None and s[0] == 1 and not s[1] and len(s[2]) == 1 and s[2][0][0].kind == "app" and s[2][0][0].name == "exp" and s[2][0][1] == 1:
                out = out * alg.exp(self.big_sum(seg, cand(*pc), s[2][0][0].args[0]))
            else:
                rest.append((c, q))
        for c, q in rest:
            body = alg.ite(c, q, ONE) if c.op != "true" else q
            if len(seg.bounds) == 1:
                a, d = seg.bounds[0]
                out = out * alg.Prod_over(a, d, body)
            else:
                raise Unsupported("nested product")
        return out

    def at_most_one(self, seg, c):
        """No two different elements satisfy c."""
        if len(seg.bounds) != 1:
            return False
        a, d = seg.bounds[0]
        b = alg.fresh("j", int=True, nonneg=True)
        c1 = cand(seg.guard, c)
        c2 = alg.subs_cond(c1, {a: P.atom(b)})
        h = getattr(self, "distinct_facts", None)
        extra = h(self, seg, a, b) if h else []
        ne = cor(alg.lt(P.atom(a), P.atom(b)), alg.lt(P.atom(b), P.atom(a)))
        if ne.op == "false":
            return False
        return smt.check(self.pc() + [c1, c2, ne, alg.lt(P.atom(a), d), alg.lt(P.atom(b), d)] + extra, 2000) == "unsat"

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """Python truthiness: bool or Cond."""
        if v is UNKNOWN:
            return self.nondet("unknown")
        if isinstance(v, (bool, Cond)):
            return v if not isinstance(v, Cond) else (True if v.op == "true" else False if v.op == "false" else v)
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, P):
            return cnot(alg.eq(v, 0))
        if isinstance(v, (str, list, tuple, dict, set, frozenset, range)):
            return len(v) > 0
        if isinstance(v, SSeq):
            return self.truth(alg.gt(lift(self.count(v)), 0))
        if isinstance(v, SRange):
            return alg.gt(v.n, 0)
        from . import lib
        if isinstance(v, Opaque) and v.tag in lib.OPQ_TRUTH:
            return lib.OPQ_TRUTH[v.tag](self, v)
        if isinstance(v, (PyFunc, LibFn, Bound, PyClass, Multi, Opaque, _Inf)):
            return True
        if isinstance(v, Obj):
            if isinstance(v.cls, PyClass):
                if v.cls.find("__bool__"):
                    return self.truth(self.callm(v, "__bool__"))
                if v.cls.find("__len__"):
                    return self.truth(self.callm(v, "__len__"))
            return True
        if isinstance(v, T):
            if all(isinstance(d, int) and d == 1 for d in v.shape):
                x = v.at(*[ZERO] * v.rank)
                return self.truth(x)
            raise PyExc("ValueError", ("truth value of an array",))
        raise Unsupported(f"truth of {v!r}")

    def decide_value(self, v):
        t = self.truth(v)
        return t if isinstance(t, bool) else self.decide(t)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            f = Fraction(repr(v))
            return FloatConst(f)
        if isinstance(v, complex):
            return self.lib.Cplx(0, Fraction(repr(v.imag)))
        return v

    def e_Name(self, e, env):
        n = e.id
        try:
            v = env.lookup(n)
        except KeyError:
            b = self.lib.BUILTINS.get(n)
            if b is None:
                if n in self.lib.EXCS:
                    return LibType(n)
                raise Unsupported(f"name {n}")
            return b(self) if isinstance(b, self.lib.Lazy) else b
        if isinstance(v, self.lib.Poison):
            raise Unsupported(f"use of {v.why}")
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        r = self.elts(e.elts, env)
        if any(isinstance(x, StarSeq) for x in r):
            segs = []
            for x in r:
                segs += x.seq.segs if isinstance(x, StarSeq) else [Seg((), TRUE, x)]
            return SSeq(segs)
        return r

    def e_Set(self, e, env):
        r = self.elts(e.elts, env)
        if all(isinstance(x, (str, int)) for x in r):
            return set(r)
        return self.lib.mk_set(self, [Seg((), TRUE, x) for x in r])

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, self.lib.LazyIter):
                    v = v.force()
                try:
                    out.extend(self.aslist(v))
                except Unsupported:
                    out.append(StarSeq(seq_of(v)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, env)
                if not isinstance(m, dict):
                    raise Unsupported("dict unpacking")
                d.update(m)
            else:
                kk = self.eval(k, env)
                if not isinstance(kk, (str, int, tuple)):
                    raise Unsupported("dict key")
                d[kk] = self.eval(v, env)
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        conc = True
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            else:
                try:
                    v = self.eval(x.value, env)
                except Unsupported:
                    v = Opaque("unknown")
                if isinstance(v, (str, int)) and not isinstance(v, bool) and x.format_spec is None and x.conversion == -1:
                    parts.append(str(v))
                else:
                    conc = False
                    parts.append(v)
        if conc:
            return "".join(parts)
        return Opaque("fstring", parts=tuple(parts))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else cnot(t)
        if isinstance(v, Obj):
            return self.callm(v, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        return self.lib.unary(self, op, v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        cur = None
        npush = 0
        conds = []
        loc = self.locals_[-1] if self.locals_ else None
        marks = []
        try:
            for k, x in enumerate(e.values):
                v = self.eval(x, env)
                last = k == len(e.values) - 1
                t = self.truth(v) if not (last and not conds) else None
                if last and not conds:
                    return v
                if isinstance(t, bool):
                    if isand and not t:
                        return v if not conds else False
                    if (not isand) and t:
                        return v if not conds else (cor(*conds, TRUE) if all(isinstance(c, Cond) for c in conds) else True)
                    if last:
                        return (cand(*conds) if isand else cor(*conds)) if conds else v
                    continue
                # symbolic
                if not isinstance(v, (Cond, bool)):
                    # value semantics needed: decide
                    d = self.decide(t)
                    if isand and not d:
                        return v
                    if (not isand) and d:
                        return v
                    continue
                conds.append(t)
                a = t if isand else cnot(t)
                tgt = self._target(a)
                n0 = len(tgt.pc)
                (tgt.pc.extend(a.args) if a.op == "and" else tgt.pc.append(a))
                marks.append((tgt, a))
            return cand(*conds) if isand else cor(*conds)
        finally:
            for tgt, a in reversed(marks):
                for y in (a.args if a.op == "and" else (a,)):
                    for i in range(len(tgt.pc) - 1, -1, -1):
                        if tgt.pc[i] is y:
                            del tgt.pc[i]
                            break

    def e_IfExp(self, e, env):
        if self.decide_value(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Compare(self, e, env):
        l = self.eval(e.left, env)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, env)
            c = self.compare(type(op).__name__, l, rv)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            if c is False:
                return False
            if c is not True:
                out.append(c)
            l = rv
        return cand(*out) if out else True

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.index(e.slice, env))

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        return self.eval(s, env)

    # comprehensions -------------------------------------------------------
    def e_ListComp(self, e, env):
        return self.comp(e, env, "list")

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, "list")

    def e_SetComp(self, e, env):
        r = self.comp(e, env, "list")
        return self.call(self.lib.BUILTINS["set"], [r], {})

    def e_DictComp(self, e, env):
        if len(e.generators) != 1:
            raise Unsupported("nested dict comprehension")
        node = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        fake = ast.ListComp(elt=node, generators=e.generators)
        r = self.comp(fake, env, "list")
        c = r if isinstance(r, list) else r.concrete()
        if c is not None and all(isinstance(k, (str, int)) for k, _ in c):
            return {k: v for k, v in c}
        return self.lib.SDict(seq_of(r))

    def comp(self, e, env, kind):
        segs = self.comp_gen(e, list(e.generators), Scope(env), ())
        s = SSeq(segs, kind)
        c = s.concrete()
        return c if c is not None else s

    def comp_gen(self, e, gens, env, outer):
        g = gens[0]
        it = self.eval(g.iter, env)
        if isinstance(it, self.lib.LazyIter):
            it = it.force()
        if isinstance(it, str):
            it = list(it)
        if isinstance(it, Obj) and it.cls == "namedtuple":
            it = list(it.attrs.values())
        seq = seq_of(it)
        out = []
        for seg in seq.segs:
            def bind(v):
                sc = Scope(env)
                self.assign(g.target, v, sc)
                return sc

            def filt(v):
                sc = bind(v)
                c = TRUE
                for x in g.ifs:
                    t = self.truth(self.eval(x, sc))
                    if t is False:
                        return False
                    if t is True:
                        continue
                    c = cand(c, t)
                return True if c.op == "true" else c

            if len(gens) == 1:
                out += self.map_seg(seg, lambda v: self.eval(e.elt, bind(v)), filt if g.ifs else None)
            else:
                inner = self.map_seg(seg, lambda v: SSeq(self.comp_gen(e, gens[1:], bind(v), ())), filt if g.ifs else None)
                for s in inner:
                    for t in s.value.segs:
                        t = self.rename_seg(t)
                        out.append(Seg(s.bounds + t.bounds, cand(s.guard, t.guard), t.value))
        return out

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if o is UNKNOWN:
            return UNKNOWN
        for h in self.attr_hooks:
            r = h(self, o, n)
            if r is not NOCONTRACT:
                return r
        if isinstance(o, Scope):
            if n in o.vars:
                return o.vars[n]
            raise Unsupported(f"module attribute {n}")
        if isinstance(o, LibMod):
            return self.lib.libattr(self, o.name, n)
        if isinstance(o, Obj):
            if n in o.attrs and not (isinstance(o.cls, PyClass) and isinstance(o.cls.find(n), Prop)):
                v = o.attrs[n]
                if isinstance(v, self.lib.Poison):
                    raise Unsupported(f"use of {v.why}")
                return v
            if isinstance(o.cls, PyClass):
                v = o.cls.find(n)
                if v is not None:
                    return self.bind(v, o)
                if n == "__class__":
                    return o.cls
            r = self.lib.objattr(self, o, n)
            if r is not NOCONTRACT:
                return r
            raise PyExc("AttributeError", (n,))
        if isinstance(o, PyClass):
            if n == "__name__":
                return o.name
            v = o.find(n)
            if v is None:
                raise PyExc("AttributeError", (n,))
            if isinstance(v, ClsM):
                return Bound(v.f, o)
            if isinstance(v, StatM):
                return v.f
            return v
        if isinstance(o, PyFunc):
            if n == "__name__":
                return o.name
            if n in o.attrs:
                return o.attrs[n]
        if isinstance(o, Multi):
            if n == "__name__":
                return o.name
            if n == "dispatch":
                return LibFn("dispatch", lambda I, a, k: (o.fns.append(a[0]), o)[1])
        if isinstance(o, Prop):
            if n == "setter":
                return LibFn("setter", lambda I, a, k: Prop(o.get, a[0], o.name))
            if n == "getter":
                return LibFn("getter", lambda I, a, k: Prop(a[0], o.set, o.name))
        if isinstance(o, self.lib.Super):
            for c in o.cls.mro()[1:]:
                if n in c.ns:
                    return self.bind(c.ns[n], o.obj)
            r = self.lib.superattr(self, o, n)
            return r
        return self.lib.valattr(self, o, n)

    def bind(self, v, o):
        if isinstance(v, Prop):
            return self.call(v.get, [o], {})
        if isinstance(v, (PyFunc, Multi)):
            return Bound(v, o)
        if isinstance(v, ClsM):
            return Bound(v.f, o.cls)
        if isinstance(v, StatM):
            return v.f
        if isinstance(v, LibFn) and getattr(v, "ismethod", False):
            return Bound(v, o)
        return v

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, PyClass):
                p = o.cls.find(n)
                if isinstance(p, Prop):
                    if p.set is None:
                        raise PyExc("AttributeError", (n,))
                    self.call(p.set, [o, v], {})
                    return
            o.attrs[n] = v
            return
        if isinstance(o, PyFunc):
            o.attrs[n] = v
            return
        if isinstance(o, PyClass):
            o.ns[n] = v
            return
        raise Unsupported(f"attribute store on {o!r}")

    def callm(self, o, name, *args, **kw):
        return self.call(self.getattr(o, name), list(args), kw)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not env.has("super"):
            s = env
            while "$self" not in s.vars:
                s = s.parent
                if s is None:
                    raise Unsupported("super")
            return self.lib.Super(s.vars["$cls"], s.vars["$self"])
        f = self.eval(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, env)
                if isinstance(m, dict):
                    kw.update(m)
                elif isinstance(m, SMap):
                    kw["**"] = m
                else:
                    raise Unsupported("** of an unknown mapping")
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.f, [f.obj] + args, kw)
        if isinstance(f, LibFn):
            if not f.name.startswith("list.") and (unknown(args) or unknown(kw) or any(isinstance(a, StarSeq) and unknown(a.seq) for a in args)):
                return UNKNOWN
            if f.fn is None:
                raise Unsupported(f"no contract for {f.name}")
            return f.fn(self, args, kw)
        if f is UNKNOWN:
            return UNKNOWN
        if isinstance(f, Multi):
            if f.qual in self.contracts and f.qual not in self.active:
                r = self.apply_contract(f.qual, args, kw)
                if r is not NOCONTRACT:
                    return r
            g = self.dispatch(f, args, kw)
            return self.call_py(g, args, kw)
        if isinstance(f, PyFunc):
            if f.qual in self.contracts and f.qual not in self.active:
                r = self.apply_contract(f.qual, args, kw)
                if r is not NOCONTRACT:
                    return r
            return self.call_py(f, args, kw)
        if isinstance(f, PyClass):
            q = f"{f.module}.{f.name}"
            if q in self.contracts and q not in self.active:
                r = self.apply_contract(q, args, kw)
                if r is not NOCONTRACT:
                    return r
            o = Obj(f)
            init = f.find("__init__")
            if init is not None:
                self.call(init, [o] + args, kw)
            else:
                self.lib.extinit(self, f, o, args, kw)
            return o
        if isinstance(f, LibType):
            return self.lib.calltype(self, f, args, kw)
        if isinstance(f, Dispatcher):
            return self.lib.dispatch_deco(self, f, args, kw)
        if isinstance(f, Obj):
            if isinstance(f.cls, PyClass) and f.cls.find("__call__") is not None:
                return self.callm(f, "__call__", *args, **kw)
            return self.lib.callobj(self, f, args, kw)
        if callable(f) and not isinstance(f, (P, Cond, T, Opaque)):
            return f(self, args, kw)
        if isinstance(f, Opaque):
            return self.lib.callopaque(self, f, args, kw)
        raise Unsupported(f"call of {f!r}")

    def apply_contract(self, q, args, kw):
        r = self.contracts[q](self, args, kw)
        if r is not NOCONTRACT:
            self.contracts_used.add(q)
        return r

    def verify_body(self, f, args, kw=None):
        """Run the body of f although f has a contract (which still serves recursive calls)."""
        kw = kw or {}
        if isinstance(f, Bound):
            return self.verify_body(f.f, [f.obj] + list(args), kw)
        if isinstance(f, Multi):
            g = self.dispatch(f, args, kw)
            return self.call_py(g, list(args), kw)
        if isinstance(f, Prop):
            return self.verify_body(f.get, args, kw)
        if isinstance(f, PyClass):
            o = Obj(f)
            init = f.find("__init__")
            self.verify_body(init, [o] + list(args), kw)
            return o
        return self.call_py(f, list(args), kw)

    def bindargs(self, f, args, kw):
        env = Scope(f.scope)
        kw = dict(kw)
        smap = kw.pop("**", None)
        n = len(f.params)
        flat = []
        star = False
        for a in args:
            if isinstance(a, StarSeq):
                star = True
            flat.append(a)
        pos = flat[:n]
        if any(isinstance(a, StarSeq) for a in pos):
            raise Unsupported("starred symbolic arguments bound to named parameters")
        extra = flat[n:]
        for p, v in zip(f.params, pos):
            env.vars[p] = v
        if extra and f.vararg is None:
            raise PyExc("TypeError", ("too many arguments", f.qual))
        if f.vararg is not None:
            if any(isinstance(a, StarSeq) for a in extra):
                segs = []
                for a in extra:
                    segs += a.seq.segs if isinstance(a, StarSeq) else [Seg((), TRUE, a)]
                env.vars[f.vararg.arg] = SSeq(segs, "tuple")
                if len(extra) == 1:
                    for k in ("ident",):
                        if hasattr(extra[0].seq, k):
                            setattr(env.vars[f.vararg.arg], k, getattr(extra[0].seq, k))
            else:
                env.vars[f.vararg.arg] = tuple(extra)
        for p in f.params[len(pos):]:
            if p in kw:
                env.vars[p] = kw.pop(p)
        for p in list(kw):
            if p in f.params:
                raise PyExc("TypeError", ("multiple values", p))
        nd = len(f.defaults)
        for k, p in enumerate(f.params):
            if p not in env.vars:
                j = k - (n - nd)
                if j >= 0:
                    env.vars[p] = f.defaults[j]
                else:
                    raise PyExc("TypeError", (f"missing argument {p}", f.qual))
        for p in f.kwonly:
            if p in kw:
                env.vars[p] = kw.pop(p)
            elif p in f.kwdefaults:
                env.vars[p] = f.kwdefaults[p]
            else:
                raise PyExc("TypeError", (f"missing keyword {p}", f.qual))
        if f.kwarg is not None:
            if smap is not None:
                if kw:
                    raise Unsupported("mixed keyword mapping")
                env.vars[f.kwarg.arg] = smap
            else:
                env.vars[f.kwarg.arg] = kw
        else:
            if kw:
                raise PyExc("TypeError", (f"unexpected keyword {sorted(kw)[0]}", f.qual))
            if smap is not None:
                raise Unsupported("** into named parameters")
        return env

    def call_py(self, f, args, kw):
        if isinstance(f, (Multi, Bound, LibFn)):
            return self.call(f, args, kw)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion")
        env = self.bindargs(f, args, kw)
        env.vars["$func"] = f.qual
        if f.cls is not None and f.params:
            env.vars["$self"] = env.vars[f.params[0]]
            env.vars["$cls"] = f.cls
        self.covered[f.qual] = self.covered.get(f.qual, 0) + 1
        self.stack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator function")
            try:
                self.exec_block(f.node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    # multiple dispatch ----------------------------------------------------
    def dispatch(self, m, args, kw):
        cands = []
        for f in m.fns:
            ok = self.sig_match(f, args, kw)
            if ok is not None:
                cands.append((ok, f))
        if not cands:
            raise PyExc("NotFoundLookupError", (m.qual, tuple(type(a).__name__ for a in args)))
        cands.sort(key=lambda x: x[0], reverse=True)
        return cands[0][1]

    def sig_match(self, f, args, kw):
        n = len(f.params)
        nreq = n - len(f.defaults)
        npos = len(args)
        if any(isinstance(a, StarSeq) for a in args):
            fixed = [a for a in args if not isinstance(a, StarSeq)]
            if f.vararg is None:
                return None
            if len(fixed) < n or any(isinstance(a, StarSeq) for a in args[:n]):
                return None
            return self._score(f, args[:n]) + (0,) if self._score(f, args[:n]) is not None and self._match_var(f, args[n:]) else None
        if npos > n and f.vararg is None:
            return None
        if npos < nreq and not all(p in kw for p in f.params[npos:nreq]):
            return None
        if npos < nreq:
            # plum dispatches on positional arguments only: missing positional arguments do not match
            return None
        s = self._score(f, args[:n])
        if s is None:
            return None
        if npos > n and not self._match_var(f, args[n:]):
            return None
        return s + ((1 if f.vararg is None else 0),)

    def _match_var(self, f, extra):
        ann = f.vararg.annotation
        if ann is None:
            return True
        for a in extra:
            if isinstance(a, StarSeq):
                for s in a.seq.segs:
                    if self.type_rank(s.value, ann, f) is None:
                        return False
            elif self.type_rank(a, ann, f) is None:
                return False
        return True

    def _score(self, f, args):
        tot = 0
        for a, ann in zip(args, f.anns):
            r = self.type_rank(a, ann, f)
            if r is None:
                return None
            tot += r
        return (tot,)

    def type_rank(self, v, ann, f):
        if ann is None:
            return 0
        t = self.eval_ann(ann, f)
        return self.lib.type_rank(self, v, t)

    def eval_ann(self, ann, f):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            return self.module(f.module).vars[ann.value]
        if isinstance(ann, ast.Constant) and ann.value is None:
            return None
        if isinstance(ann, ast.Subscript):
            base = self.eval(ann.value, f.scope)
            if getattr(base, "name", "") in ("Union", "Optional"):
                els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                r = [self.eval_ann(x, f) for x in els]
                if base.name == "Optional":
                    r.append(None)
                return ("union", r)
            if getattr(base, "name", "") in ("list", "tuple", "dict", "List", "Tuple"):
                return base
        if isinstance(ann, ast.BinOp):
            return ("union", [self.eval_ann(ann.left, f), self.eval_ann(ann.right, f)])
        v = self.eval(ann, f.scope)
        return v

    # ------------------------------------------------------------------ operators
    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def binop(self, op, a, b):
        if a is UNKNOWN or b is UNKNOWN:
            return UNKNOWN
        d = self.DUNDER.get(op)
        if isinstance(a, Obj) and isinstance(a.cls, PyClass) and d:
            f = a.cls.find(f"__{d}__")
            if f is not None:
                return self.call(f, [a, b], {})
        if isinstance(b, Obj) and isinstance(b.cls, PyClass) and d:
            f = b.cls.find(f"__r{d}__")
            if f is not None:
                return self.call(f, [b, a], {})
        return self.lib.binop(self, op, a, b)

    def compare(self, op, a, b):
        if (a is UNKNOWN or b is UNKNOWN) and op not in ("Is", "IsNot"):
            return self.nondet("unknown")
        if op in ("Is", "IsNot"):
            r = self.lib.is_(self, a, b)
            return (not r if isinstance(r, bool) else cnot(r)) if op == "IsNot" else r
        if op in ("In", "NotIn"):
            r = self.lib.contains(self, b, a)
            return (not r if isinstance(r, bool) else cnot(r)) if op == "NotIn" else r
        d = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op]
        for x, y, n in ((a, b, d), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(d, d))):
            if isinstance(x, Obj) and isinstance(x.cls, PyClass):
                f = x.cls.find(f"__{n}__")
                if f is not None:
                    return self.call(f, [x, y], {})
                if n == "ne" and x.cls.find("__eq__") is not None:
                    r = self.truth(self.call(x.cls.find("__eq__"), [x, y], {}))
                    return (not r) if isinstance(r, bool) else cnot(r)
        return self.lib.compare(self, op, a, b)

    def getitem(self, o, i):
        if o is UNKNOWN or i is UNKNOWN:
            return UNKNOWN
        return self.lib.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.lib.setitem(self, o, i, v)


def FloatConst(f):
    return f


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    return t2


def same_shape(a, b):
    return isinstance(a, T) and isinstance(b, T) and a.rank == b.rank and all(dim_eq(x, y) for x, y in zip(a.shape, b.shape))


def _apps(v, out=None):
    """Names of all applications in a value."""
    out = set() if out is None else out

    def goa(a):
        if a.kind == "app":
            out.add(a.name)
        for x in a.args:
            gox(x)

    def gox(x):
        if isinstance(x, P):
            for (b, f), c in x.t.items():
                for a, e in f:
                    goa(a)
                    if isinstance(e, P):
                        gox(e)
                for _, d in b:
                    gox(d)
        elif isinstance(x, Cond):
            for y in x.args:
                gox(y)
        elif isinstance(x, alg.Atom):
            goa(x)
        elif isinstance(x, T):
            gox(x.at(*gen_index(x)))
        elif isinstance(x, (tuple, list)):
            for y in x:
                gox(y)
        elif isinstance(x, dict):
            for y in x.values():
                gox(y)
        elif isinstance(x, (Obj, Opaque)):
            for y in x.attrs.values():
                gox(y)
        elif isinstance(x, SStr):
            gox(x.p)
        elif isinstance(x, SSeq):
            for s in x.segs:
                gox(s.guard)
                gox(s.value)
                for _, d in s.bounds:
                    gox(d)
        elif isinstance(x, Seg):
            gox(x.guard)
            gox(x.value)

    gox(v)
    return out


def _apps_conds(pc, prefix):
    return any(n.startswith(prefix) for c in pc for n in _apps(c))


def deps_on(v, name):
    return any(n == name or n.startswith(name + ".") for n in _apps(v))
