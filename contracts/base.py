"""Views of specs, ghost specs, well-formedness, job context."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import ir, vc, gram, iomode, libspec, loops
import exec as EX
from sx import *
from vc import *
from gram import Tok, Raw, Seq, Each, Opt, Sec

MAXI32 = M31 - 1


class V:
    """view of an object: fields by name, elements by index, scalars as terms (in a given state)"""

    def __init__(s, c, st, root, path=(), ty=None):
        s.__dict__.update(_c=c, _st=st, _root=root, _path=tuple(path), _ty=ty if ty is not None else root.ty)

    def __getattr__(s, name):
        if name.startswith("__"): raise AttributeError(name)
        c = s._c
        k = c.fieldidx(s._ty, name)
        t = s._ty.fields[k][1]
        v = V(c, s._st, s._root, s._path + (("f", k),), t)
        if t.kind in ("int", "fp", "str"): return v.val
        return v

    def __getitem__(s, i):
        t = s._ty.elem
        v = V(s._c, s._st, s._root, s._path + (("e", i),), t)
        if t.kind in ("int", "fp", "str"): return v.val
        return v

    @property
    def ptr(s): return Ptr(s._root, s._path)

    @property
    def size(s): return s._c.ex.read(s._st, s._root, s.ptr.shape() + ("size",), s.ptr.idx())

    @property
    def val(s):
        p = s._c.ex.leafptr(s.ptr)[0]
        return s._c.ex.read(s._st, p.root, p.shape(), p.idx())

    def at(s, st): return V(s._c, st, s._root, s._path, s._ty)


class Ctx:
    """one verification job"""

    def __init__(s, name, ext):
        s.mod = ir.load(ext)
        s.ext = ext
        s.name = name
        s.ex = EX.Exec(s.mod, name)
        s.st = State()
        s.table()

    def ty(s, name): return s.mod.globals["vpt_" + name][0]

    def fieldidx(s, ty, name):
        nm = (ty.name or "").split("::")[-1].split(".")[-1]
        import re
        nm = re.sub(r"\.\d+$", "", nm)
        g = s.mod.globals.get("vpo_%s__%s" % (nm, name))
        if g is None:
            # structs of identical layout share one IR type
            for k, v in s.mod.globals.items():
                if k.startswith("vpo_") and k.endswith("__" + name):
                    t = s.ty(k[4:].split("__")[0])
                    if t is ty or t.name == ty.name or (t.size == ty.size and [(o, x.size, x.kind) for o, x in t.fields] == [(o, x.size, x.kind) for o, x in ty.fields]): g = v
        if g is None: raise Unsupported("field %s of %s" % (name, nm))
        for i, (o, t) in enumerate(ty.fields):
            if o == g[2] and t.size: return i
        raise Unsupported("field %s of %s" % (name, nm))

    def obj(s, name, ty, pol="sym", ro=False):
        r = s.ex.root(name, s.ty(ty), pol, ro)
        return V(s, s.st, r)

    def default(s, name, ty):
        """default constructed object (the real constructor is executed)"""
        v = s.obj(name, ty, "undef")
        F = s.find("mshio::%s::%s()" % (ty, ty))
        outs = s.ex.run_function(F, s.st, [v.ptr])
        if len(outs) != 1 or outs[0][0] != "ret": raise Unsupported("constructor")
        s.st = outs[0][1]
        return v.at(s.st)

    def contract(s, dem, f):
        """use the contract f for calls of dem (if the function is still there; otherwise its replacement is executed in place)"""
        s.ex.contracts[dem] = f

    def table(s):
        """contracts of the element table functions (proved by the job 'element table')"""
        def mk(name):
            def f(ex, st, ins, a, G):
                t = a[0]
                if isinstance(t, (Undef, Maybe)): t = ex.defined(st, t, ins)
                if ex.decide(st, land(tz(t) >= 1, tz(t) <= 31)):
                    v = {"n": ntype, "d": dtype, "a": lambda t: None}[name](t)
                    return [("ret", st, v)]
                return [("throw", st, "UnsupportedFeature")]
            return f
        s.contract("mshio::nodes_per_element(int)", mk("n")); s.contract("mshio::get_element_dim(int)", mk("d")); s.contract("mshio::assert_element_is_supported(int)", mk("a"))

    def find(s, dem, opt=False):
        for f in s.mod.funcs.values():
            if f.dem == dem and f.blocks: return f
        if opt: return None
        raise Unsupported("function %s not found" % dem)

    def assume(s, *cs):
        for c in cs:
            if isinstance(c, QF): s.st.pc.append(c)
            else: s.st.assume(c)

    def run(s, F, args, st=None):
        for k in [k for k in s.ex.roots if k.startswith("Lr")]: del s.ex.roots[k]      # locals of a previous run
        outs = s.ex.run_function(F, st or s.st, args)
        if not any(vc.feasible(o[1].pc) for o in outs): raise Unsupported("no outcome of %s is possible: the contracts contradict each other" % F.dem)
        return outs

    def loop_inv(s, T, path, f):
        """offer f(view of T) as an invariant of every loop that changes the size of the vector T.path"""
        v = T
        for x in path: v = getattr(v, x)
        key = (T._root.name, v.ptr.shape() + ("size",))

        def g(ex, loop, forms):
            if key not in forms: return []
            return [lambda st: f(T.at(st))]
        s.ex.candidates.append(g)

    def ensure(s, st, c, what, kind="post", exact=True, where="exit"):
        s.ex.oblige(st, c, kind, what, where, exact=exact)

    def enc(s, S, version, ft):
        s.assume(eq(S.mesh_format.version, version) if not isinstance(S.mesh_format.version, str) else True)
        s.assume(S.mesh_format.file_type == ft)


    # -------------------------------------------------------- structural comparison
    def fieldnames(s, ty):
        import re
        nm = re.sub(r"\.\d+$", "", (ty.name or "").split("::")[-1].split(".")[-1])
        out = {}
        for i, (o, t) in enumerate(ty.fields):
            for g, v in s.mod.globals.items():
                if g.startswith("vpo_%s__" % nm) and v[2] == o: out[i] = g.split("__", 1)[1]
        return out

    def deep_eq(s, st, A, B, what, skip=()):
        """one obligation per scalar cell: A equals B"""
        t = A._ty
        if t.kind == "struct":
            names = s.fieldnames(t)
            for i, (o, ft) in enumerate(t.fields):
                if not ft.size: continue
                if names.get(i) in skip: continue
                a = V(s, st, A._root, A._path + (("f", i),), ft); b = V(s, st, B._root, B._path + (("f", i),), ft)
                s.deep_eq(st, a, b, what + "." + names.get(i, str(i)), skip)
        elif t.kind == "vec":
            a, b = A.at(st), B.at(st)
            s.ensure(st, eq(a.size, b.size), what + " has the same number of elements")
            st2 = st.copy()
            k = sym("sk!%s!%d" % (what, len(SKN)), "len"); SKN.append(1)
            st2.assume(k < tz(b.size))
            ea = V(s, st2, A._root, A._path + (("e", k),), t.elem); eb = V(s, st2, B._root, B._path + (("e", k),), t.elem)
            s.deep_eq(st2, ea, eb, what + "[]", skip)
        elif t.kind in ("int", "fp", "str"):
            s.ensure(st, eq(A.at(st).val, B.at(st).val), what + " is equal")
        else: raise Unsupported("comparison of " + t.kind)

    def frame(s, st, T, fields, what="other parts of the spec are untouched"):
        """only the given top-level fields of T may differ from its initial value"""
        ok = {s.fieldidx(T._root.ty, f) for f in fields}
        n = 0
        for (r, shape), v in list(st.mem.items()):
            if r != T._root.name or not shape or shape[0] in ok or shape[-1] == "ep": continue
            try: i = s.ex.initval((r, shape))
            except Unsupported: continue
            if v is i or vsame(v, i): continue
            n += 1
            m = s.ex.key_arity((r, shape))
            c = eq(v, i)
            if m:
                ys = [sym("fr!%d" % j, "len") for j in range(m)]
                c = subst(tz(c), list(zip(X, ys)))
            s.ensure(st, c, what)
        if not n: s.ensure(st, True, what)


SKN = []


def skolem(name): return z3.Int("sk!" + name)


def qf(n, f, *hints):
    """forall i in [0,n) f(i)"""
    i = z3.Int("q!%d" % len(QN)); QN.append(1)
    return QF([i], z3.And(i >= 0, i < tz(n)), tz(f(i)), list(hints))


def qf2(n, m, f):
    """forall i in [0,n), j in [0,m(i)) f(i,j)"""
    i = z3.Int("q!%d" % len(QN)); QN.append(1)
    j = z3.Int("q!%d" % len(QN)); QN.append(1)
    return QF([i, j], z3.And(i >= 0, i < tz(n), j >= 0, j < tz(m(i))), tz(f(i, j)))


QN = []


def ntype(t): return sym("NPE", "len", [t])


def dtype(t): return sym("DIM", "i32", [t])


def npe_facts(ap):
    """documented table of nodes per element, as facts about NPE(t)"""
    out = []
    for t in ap.values():
        if t.num_args() == 1 and t.decl().name() == "NPE":
            a = t.arg(0)
            if z3.is_int_value(a):
                if 1 <= a.as_long() <= 31: out.append(t == NPE[a.as_long()])
            else: out.append(z3.And(t >= 1, t <= 56))
        elif t.num_args() == 1 and t.decl().name() == "DIM":
            a = t.arg(0)
            if z3.is_int_value(a) and 1 <= a.as_long() <= 31: out.append(t == DIM[a.as_long()])
            else: out.append(z3.And(t >= 0, t <= 3))
    return out


# Gmsh documentation, element types 1..31: number of nodes, dimension
NPE = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 12: 27, 13: 18, 14: 14, 15: 1, 16: 8, 17: 20, 18: 15, 19: 13,
       20: 9, 21: 10, 22: 12, 23: 15, 24: 15, 25: 21, 26: 4, 27: 5, 28: 6, 29: 20, 30: 35, 31: 56}
DIM = {1: 1, 2: 2, 3: 2, 4: 3, 5: 3, 6: 3, 7: 3, 8: 1, 9: 2, 10: 2, 11: 3, 12: 3, 13: 3, 14: 3, 15: 0, 16: 2, 17: 3, 18: 3, 19: 3,
       20: 2, 21: 2, 22: 2, 23: 2, 24: 2, 25: 2, 26: 1, 27: 1, 28: 1, 29: 3, 30: 3, 31: 3}

vc.LEMMAS.append(npe_facts)
