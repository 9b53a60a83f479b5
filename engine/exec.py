"""Symbolic execution of the LLVM IR of the real code: function by function, with join-point merging,
callee contracts, std contracts (libspec) and loop invariants (loops)."""
import heapq, sys, time
from sx import *
import sx
from vc import *
import vc, ir
from ir import *

sys.setrecursionlimit(20000)


def collapse(st, c, val):
    """a fork decides c: the values that depended on it become plain"""
    n = simp(lnot(c))
    def go(v):
        if isinstance(v, Choice):
            if v.c is c or (z3.is_expr(v.c) and z3.is_expr(c) and v.c.eq(c)): return go(v.a if val else v.b)
            if z3.is_expr(v.c) and z3.is_expr(n) and v.c.eq(n): return go(v.b if val else v.a)
            a, b = go(v.a), go(v.b)
            return v if a is v.a and b is v.b else Choice(v.c, a, b)
        return v
    for d in (st.regs, st.mem):
        for k, v in list(d.items()):
            if isinstance(v, Choice): d[k] = go(v)


ERRCELLS = ("fail", "bad", "eof", "lost", "rerr", "pos", "pend")


def unknown_layout(c):
    """the obligation speaks of a cell that a loop modifies in a way with no form for it: a refutation of it shows nothing.
    (The error state of a stream is arbitrary in fact, not for want of a form.)"""
    return z3.is_expr(c) and any(n.startswith("h!") and n.split("~")[0].rsplit(".", 1)[-1] not in ERRCELLS for n in (a.decl().name() for a in apps(c).values()))


class Obl:
    __slots__ = ("kind", "what", "loc", "status", "exact", "model", "job", "n")


class Exec:
    def __init__(s, mod, name="job"):
        s.mod = mod
        s.name = name
        s.roots = {}
        s.obl = {}          # (kind, loc, what) -> record
        s.kinds = None      # obligation kinds enabled (None: all)
        s.contracts = {}    # demangled name -> python contract
        s.inlined = {}      # functions executed in place
        s.used_contracts = {}
        s.lib_used = set()
        s.mode = None
        s.suppress = 0; s.trial = 0; s.regular = set()      # >0: trial runs; obligations are not recorded
        s.strict_uninit = True
        s.trace = []
        s.loopinfo = {}
        s.loop_log = []
        s.max_paths = 400
        s._lf = {}
        s.callstack = []
        s.streams = {}
        s.fileout = s.filein = None
        s.nopeel = set()
        s.candidates = []; s.norec = None; s.force = None; s.last = False      # loop invariants offered by the contracts, kept where inductive
        s.irregular = set()
        s.approx = False     # some cell was given up in a loop: refuted obligations prove nothing
        s.trialfail = set()  # obligations met in trial runs that are plainly false
        s.check_term = False

    # ------------------------------------------------------------- symbols
    def fresh(s, st, site, kind, extra=()):
        """deterministic fresh symbol: function of the enclosing iteration counters"""
        tag = "%s" % (site,)
        n = st.occ.get(tag, 0)
        st.occ[tag] = n + 1
        args = [t for (_, t) in st.its]
        nm = "v!%s%s%s" % (tag, "" if n == 0 else "#%d" % n, "".join("~" + x for (x, _) in st.its))
        return sym(nm, kind, list(args) + list(extra))

    def fresh_name(s, st, site):
        tag = "%s" % (site,)
        n = st.occ.get(tag, 0)
        st.occ[tag] = n + 1
        return "v!%s%s%s" % (tag, "" if n == 0 else "#%d" % n, "".join("~" + x for (x, _) in st.its)), [t for (_, t) in st.its]

    def root(s, name, ty, pol, ro=False):
        r = s.roots.get(name)
        if r is None:
            r = Root(name, ty, pol, ro); s.roots[name] = r
        return r

    # ------------------------------------------------------------- types
    def step_ty(s, ty, step):
        if ty is None: return None
        if step == "size" or step == "ep": return None
        k = ty.kind
        if k == "struct": return ty.fields[step][1]
        if k in ("vec", "arr", "map", "set"): return ty.elem
        raise Unsupported("step %r in %r" % (step, ty))

    def ty_at(s, root, path):
        t = root.ty
        for x in path:
            if x[0] == "o": return None
            t = s.step_ty(t, x[1] if x[0] == "f" else "*")
        return t

    def leaves(s, ty, pre=()):
        """(shape suffix, leaf type) of every scalar cell in ty"""
        k = ty.kind
        if k == "struct":
            for i, (o, t) in enumerate(ty.fields): yield from s.leaves(t, pre + (i,))
        elif k == "vec":
            yield pre + ("size",), ty
            yield from s.leaves(ty.elem, pre + ("*",))
        elif k == "arr":
            yield from s.leaves(ty.elem, pre + ("*",))
        elif k in ("set",):
            yield pre + ("*",), ty
        elif k == "map":
            yield pre + ("*", "has"), ty
            yield from s.leaves(ty.elem, pre + ("*",))
        else:
            yield pre, ty

    def leafkind(s, root, shape):
        """kind of the values of a cell"""
        if shape and shape[-1] == "size": return "len"
        if shape and shape[-1] == "has": return "bool"
        if shape and shape[-1] == "ep": return "nat"
        t = root.ty
        for x in shape:
            if isinstance(x, tuple): return "u64"
            if x == "cell": return None
            t = s.step_ty(t, x)
            if t is not None and t.kind == "set" : pass
        # path into a set element: membership
        tt = root.ty
        for x in shape:
            if tt.kind == "set": return "bool"
            tt = s.step_ty(tt, x)
        return s.tykind(tt)

    @staticmethod
    def tykind(t):
        if t.kind == "int":
            return {1: "bool", 8: "u8", 32: "i32", 64: "u64"}.get(t.bits, "nat")
        if t.kind == "fp": return "f64"
        if t.kind == "str": return "str"
        return "ptr"

    def key_arity(s, key): return sum(1 for x in key[1] if x == "*")

    def initval(s, key):
        root = s.roots[key[0]]
        n = s.key_arity(key)
        if root.pol == "undef":
            if n == 0: return UNDEF
            k = s.leafkind(root, key[1])
            if k == "ptr": return UNDEF
            if key[1][-1] in ("size", "ep"): return tz(0)
            return sym("undef!" + root.name + "." + ".".join(map(str, key[1])), k or "nat", X[:n])
        k = s.leafkind(root, key[1])
        if k == "ptr": raise Unsupported("symbolic pointer cell %r" % (key,))
        if key[1] and key[1][-1] == "ep": return tz(0)
        return sym(root.name + "." + ".".join(map(str, key[1])), k, X[:n])

    # ------------------------------------------------------------- memory
    def read(s, st, root, shape, idx):
        key = (root.name, shape)
        v = st.mem.get(key)
        if v is None:
            v = s.initval(key)
            st.mem[key] = v
        if idx and not isinstance(v, Undef):
            if not isinstance(v, z3.ExprRef): return v
            v = simp(subst(v, list(zip(X, idx))))
        return v

    def write(s, st, root, shape, idx, val):
        key = (root.name, shape)
        if root.ro: raise Unsupported("write to read-only " + root.name)
        if not idx:
            st.mem[key] = val
            return
        if isinstance(val, (Undef,)):
            val = sym("undefw!", s.leafkind(root, shape), [])
        if isinstance(val, Maybe): val = val.v
        if not isinstance(val, (z3.ExprRef, int, bool, str)):
            raise Unsupported("pointer stored in array cell")
        old = st.mem.get(key)
        if old is None: old = s.initval(key)
        if isinstance(old, Undef): old = sym("undef!" + root.name + "." + ".".join(map(str, shape)), s.leafkind(root, shape), X[:len(idx)])
        g = land(*[simp(X[i] == tz(t)) for i, t in enumerate(idx)])
        val = tz(val)
        old = tz(old)
        st.mem[key] = tz(simp(z3.If(tz(g), val, old)))

    def cell(s, st, root, shape, n):
        """content of an arity-n cell as a term over X"""
        key = (root.name, shape)
        v = st.mem.get(key)
        if v is None:
            v = s.initval(key); st.mem[key] = v
        return v

    def setrange(s, st, root, shape, pre, lo, hi, val):
        """cells [pre..., lo<=x<hi] := val (term over X[len(pre)...])"""
        old = s.cell(st, root, shape, len(pre) + 1)
        n = len(pre)
        g = land(*([simp(X[i] == tz(t)) for i, t in enumerate(pre)] + [simp(X[n] >= tz(lo)), simp(X[n] < tz(hi))]))
        if isinstance(old, Undef): old = sym("undef!" + root.name + "." + ".".join(map(str, shape)), s.leafkind(root, shape), X[:n + 1])
        st.mem[(root.name, shape)] = tz(simp(z3.If(tz(g), tz(val), tz(old))))

    def copy_tree(s, st, dst, src, ty, dst_epoch=True):
        """*dst := *src (type ty)"""
        ds, di = dst.shape(), dst.idx()
        ss, si = src.shape(), src.idx()
        pend = []
        for suf, lt in s.leaves(ty):
            extra = sum(1 for x in suf if x == "*")
            skey = (src.root.name, ss + suf)
            if extra == 0 and not di:
                v = s.read(st, src.root, ss + suf, si)
                pend.append(((dst.root.name, ds + suf), v))
                continue
            sv = st.mem.get(skey)
            if sv is None: sv = s.initval(skey); st.mem[skey] = sv
            if not isinstance(sv, z3.ExprRef):
                if isinstance(sv, (int, bool, str)): sv = tz(sv)
                elif isinstance(sv, Undef): sv = sym("undefw!" + str(lt), s.leafkind(src.root, ss + suf), [])
                elif isinstance(sv, Maybe): sv = tz(sv.v)
                else: raise Unsupported("copy of pointer into array cell")
            ns, nd = len(si), len(di)
            pairs = [(X[i], t) for i, t in enumerate(si)] + [(X[ns + j], X[nd + j]) for j in range(extra)]
            nv = subst(sv, pairs)
            if nd == 0:
                pend.append(((dst.root.name, ds + suf), tz(simp(nv)) if extra else simp(nv)))
            else:
                dkey = (dst.root.name, ds + suf)
                old = st.mem.get(dkey)
                if old is None: old = s.initval(dkey)
                g = land(*[simp(X[i] == tz(t)) for i, t in enumerate(di)])
                pend.append((dkey, tz(simp(z3.If(tz(g), tz(nv), tz(old))))))
        for k, v in pend: st.mem[k] = v

    def init_tree(s, st, dst, ty):
        """value-initialised (zero / empty) object"""
        for suf, lt in s.leaves(ty):
            k = s.leafkind(dst.root, dst.shape() + suf)
            z = {"bool": False, "f64": fpc(0.0), "str": ""}.get(k, 0)
            extra = sum(1 for x in suf if x == "*")
            if extra and not suf[-1] == "has" and not k == "bool" and suf[-1] != "size": continue
            dkey = (dst.root.name, dst.shape() + suf)
            di = dst.idx()
            if extra == 0 and not di: st.mem[dkey] = z
            elif not di: st.mem[dkey] = tz(z)
            else:
                old = st.mem.get(dkey)
                if old is None: old = s.initval(dkey)
                g = land(*[simp(X[i] == tz(t)) for i, t in enumerate(di)])
                st.mem[dkey] = tz(simp(z3.If(tz(g), tz(z), tz(old))))

    # vector helpers
    def vsize(s, st, p): return s.read(st, p.root, p.shape() + ("size",), p.idx())

    def vepoch(s, st, p):
        return s.read(st, p.root, p.shape() + ("ep",), p.idx())

    def bump(s, st, p, site):
        if p.root.pol == "undef" and not p.idx():
            cur = st.mem.get((p.root.name, p.shape() + ("ep",)), 0)
            nv = s.fresh(st, "ep!" + str(site), "nat")
        else:
            nv = s.fresh(st, "ep!" + str(site), "nat")
        s.write(st, p.root, p.shape() + ("ep",), p.idx(), nv)

    def elem(s, st, p, i):
        """pointer to element i of vector at p"""
        return Ptr(p.root, p.path + (("e", i),), p.eps + (s.vepoch(st, p),))

    # ------------------------------------------------------------- addresses
    def strip(s, root, path):
        while path:
            x = path[-1]
            if x[0] == "a" and x[1] == 0: path = path[:-1]; continue
            if x[0] == "f":
                t = s.ty_at(root, path[:-1])
                if t is not None and t.kind == "struct" and t.fields[x[1]][0] == 0:
                    path = path[:-1]; continue
            break
        return path

    def descend(s, p, off):
        """pointer to the byte offset off (constant) inside the object at p"""
        if off == 0: return p
        path = p.path
        t = s.ty_at(p.root, path)
        if t is None:
            o = path[-1][1] if path and path[-1][0] == "o" else 0
            base = path[:-1] if path and path[-1][0] == "o" else path
            return Ptr(p.root, base + (("o", o + off),), p.eps)
        # climb out when offset leaves the object
        while True:
            if t.kind == "struct":
                if off >= t.size or off < 0:
                    break
                for i in reversed(range(len(t.fields))):
                    if t.fields[i][0] <= off and (t.fields[i][1].size > 0):
                        path = path + (("f", i),); off -= t.fields[i][0]; t = t.fields[i][1]
                        break
            elif t.kind == "arr":
                if off >= t.size or off < 0: break
                path = path + (("a", off // t.elem.size),); off = off % t.elem.size; t = t.elem
            else: break
            if off == 0: return Ptr(p.root, s.strip(p.root, path), p.eps)
        # stepping between elements
        for k in reversed(range(len(path))):
            if path[k][0] in "ea":
                et = s.ty_at(p.root, path[:k + 1])
                if et.size and off % et.size == 0 and k == len(path) - 1:
                    n = off // et.size
                    q = path[:k] + ((path[k][0], simp(tz(path[k][1]) + n) if not isinstance(path[k][1], int) else path[k][1] + n),)
                    return Ptr(p.root, s.strip(p.root, q), p.eps[:sum(1 for z in q if z[0] == "e")])
                break
        raise Unsupported("offset %d into %r at %r" % (off, t, p))

    def gep(s, st, p, srcty, idx):
        if isinstance(p, Choice): raise Fork(p.c)
        if not isinstance(p, Ptr): raise Unsupported("gep on %r" % (p,))
        i0 = idx[0]
        # constant tail
        if i0 != 0 if isinstance(i0, int) else True:
            p = s.ptradd(st, p, i0, srcty.size)
        t = srcty
        off = 0
        for i in idx[1:]:
            if t.kind == "struct" or (t.fields and t.kind in ("vec", "str", "ios", "set", "map")):
                if not isinstance(i, int): raise Unsupported("symbolic field")
                off += t.fields[i][0]; t = t.fields[i][1]
            elif t.kind == "arr":
                if isinstance(i, int): off += i * t.elem.size
                else:
                    p = s.descend(p, off); off = 0
                    p = s.ptradd(st, p, i, t.elem.size)
                t = t.elem
            else: raise Unsupported("gep into %r" % t)
        return s.descend(p, off)

    def ptradd(s, st, p, n, size):
        """p + n elements of the given size; n canonical u64 (two's complement)"""
        if isinstance(n, int):
            if n >= M63: n -= M64
            if n == 0: return p
        else:
            if s.prove(st, tz(n) < M63): pass
            else: n = simp(z3.If(n >= M63, n - M64, n))
        path = p.path
        if path and path[-1][0] in "ea":
            et = s.ty_at(p.root, path)
            if et.size == size:
                q = path[:-1] + ((path[-1][0], simp(tz(path[-1][1]) + tz(n))),)
                return Ptr(p.root, s.strip(p.root, q) if q[-1][0] == "a" else q, p.eps)
            if isinstance(n, int): return s.descend(p, n * size)
            if size == 1: 
                d = exact_div(n, et.size)
                if d is not None: return s.ptradd_el(st, p, d)
        # array at offset zero
        t = s.ty_at(p.root, path); q = path
        while t is not None and t.kind in ("struct", "arr"):
            if t.kind == "arr" and t.elem.size == size:
                return Ptr(p.root, s.strip(p.root, q + (("a", n),)), p.eps)
            if t.kind == "struct":
                if not t.fields: break
                q = q + (("f", 0),); t = t.fields[0][1]
            else: q = q + (("a", 0),); t = t.elem
        if isinstance(n, int): return s.descend(p, n * size)
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def ptradd_el(s, st, p, n):
        q = p.path[:-1] + ((p.path[-1][0], simp(tz(p.path[-1][1]) + tz(n))),)
        return Ptr(p.root, q, p.eps)

    def leafptr(s, p, size=None):
        """descend zero offsets to the scalar leaf"""
        path = p.path
        t = s.ty_at(p.root, path)
        if t is None: return p, None
        while t.kind in ("struct", "arr"):
            if t.kind == "struct":
                if not t.fields: return Ptr(p.root, path, p.eps), t
                path = path + (("f", 0),); t = t.fields[0][1]
            else:
                path = path + (("a", 0),); t = t.elem
        return Ptr(p.root, path, p.eps), t

    def objptr(s, p, size):
        """the object of the given byte size at address p"""
        path = p.path; t = s.ty_at(p.root, path)
        if t is None: return p, None
        while t.size != size and t.kind in ("struct", "arr"):
            if t.kind == "struct":
                if not t.fields: break
                path = path + (("f", 0),); t = t.fields[0][1]
            else: path = path + (("a", 0),); t = t.elem
        return Ptr(p.root, path, p.eps), t

    def check_access(s, st, p, ins, what="access"):
        """every vector element step: index in range, storage not reallocated"""
        if isinstance(p, Choice): raise Fork(p.c)
        if isinstance(p, NullP): 
            s.oblige(st, False, "null", "null pointer dereference", ins); raise Unsupported("null")
        if not isinstance(p, Ptr): raise Unsupported("access through %r" % (p,))
        ne = 0
        for k, x in enumerate(p.path):
            if x[0] == "a":
                t = s.ty_at(p.root, p.path[:k])
                i = x[1]
                if isinstance(i, int):
                    if not (0 <= i < t.n): s.oblige(st, False, "bounds", "array index in range", ins)
                else:
                    s.oblige(st, land(tz(i) >= 0, tz(i) < t.n), "bounds", "array index in range", ins)
            if x[0] != "e": continue
            vp = Ptr(p.root, p.path[:k], p.eps[:ne])
            ep = p.eps[ne] if ne < len(p.eps) else None
            ne += 1
            ck = (vp.root.name, vp.path and tuple((y[0], str(y[1])) for y in vp.path), str(x[1]))
            cur = s.vepoch(st, vp)
            key = (ck, str(cur))
            if key in st.checked and (ep is None or same(ep, cur)): continue
            i = x[1]
            sz = s.vsize(st, vp)
            s.oblige(st, land(simp(tz(i) >= 0), simp(tz(i) < tz(sz))), "bounds", "element index in range", ins)
            if ep is not None and not same(ep, cur):
                s.oblige(st, eq(ep, cur), "dangling", "reference still valid (container not reallocated)", ins)
            st.checked = st.checked | {key}

    def load(s, st, p, ty, ins):
        if isinstance(p, Choice): raise Fork(p.c)
        if isinstance(p, FnV): raise Unsupported("load of code")
        if not isinstance(p, Ptr):
            s.oblige(st, False, "null", "valid pointer", ins); raise Unsupported("load through %r" % (p,))
        if p.root.name.startswith("@"): return s.load_global(st, p, ty, ins)
        s.check_access(st, p, ins)
        lp, lt = s.leafptr(p)
        if lt is None:
            v = st.mem.get((lp.root.name, lp.shape()), UNDEF)
        elif lt.size == ty.size or (lt.kind == "ptr" and ty.size <= lt.size):
            v = s.read(st, lp.root, lp.shape(), lp.idx())
            if lt.kind == "int" and ty.kind == "int" and lt.bits != ty.bits:
                raise Unsupported("load of i%d from i%d" % (ty.bits, lt.bits))
        elif ty.size > lt.size:
            return s.load_multi(st, p, ty.size, ins)
        else: raise Unsupported("partial load of %r from %r" % (ty, lt))
        if isinstance(v, Choice): raise Fork(v.c)
        return s.defined(st, v, ins)

    def defined(s, st, v, ins):
        if isinstance(v, Undef):
            s.oblige(st, False, "uninit", "value initialised before use", ins)
            raise Unsupported("uninitialised value")
        if isinstance(v, Maybe):
            s.oblige(st, v.d, "uninit", "value initialised before use", ins)
            return v.v
        return v

    def load_multi(s, st, p, size, ins):
        o, t = s.objptr(p, size)
        if t is None or t.size != size:
            o, t = s.enclosing(p, size)
        items = []
        for suf, lt in s.leaves(t):
            off = s.shape_off(t, suf)
            items.append((off, lt.size, lt, s.read(st, o.root, o.shape() + suf, o.idx())))
        return Agg(items)

    def enclosing(s, p, size):
        path = p.path
        t = s.ty_at(p.root, path)
        q = path
        while t is not None:
            if t.kind == "struct" and t.size == size: return Ptr(p.root, q, p.eps), t
            if t.kind == "struct" and t.fields: q = q + (("f", 0),); t = t.fields[0][1]
            elif t.kind == "arr": q = q + (("a", 0),); t = t.elem
            else: break
        raise Unsupported("object of %d bytes at %r" % (size, p))

    def shape_off(s, t, suf):
        off = 0
        for x in suf:
            if t.kind == "struct": off += t.fields[x][0]; t = t.fields[x][1]
            else: raise Unsupported("flat copy of container")
        return off

    def store(s, st, p, v, ty, ins):
        if isinstance(p, Choice): raise Fork(p.c)
        if not isinstance(p, Ptr):
            s.oblige(st, False, "null", "valid pointer", ins); raise Unsupported("store through %r" % (p,))
        s.check_access(st, p, ins)
        if isinstance(v, Agg):
            size = max(o + sz for o, sz, _, _ in v.items)
            path = p.path; t = s.ty_at(p.root, path); q = path
            # find object at p covering the items
            for o, sz, lt, x in v.items:
                tgt, tt = s.leafptr(s.descend(Ptr(p.root, q, p.eps), o))
                if tt is not None and tt.size != sz: raise Unsupported("aggregate store")
                s.write(st, tgt.root, tgt.shape(), tgt.idx(), x)
            return
        lp, lt = s.leafptr(p)
        if lt is None:
            st.mem[(lp.root.name, lp.shape())] = v
            return
        if lt.size < ty.size and ty.kind == "int":
            raise Unsupported("wide store of %r into %r" % (ty, lt))
        if lt.size != ty.size and lt.kind != "ptr": raise Unsupported("store %r into %r" % (ty, lt))
        if lt.kind in ("vec", "set", "map", "str"): raise Unsupported("store into container")
        if lt.kind == "ios": return
        s.write(st, lp.root, lp.shape(), lp.idx(), v)

    def gconst(s, name):
        return s.mod.globals.get(name)

    def load_global(s, st, p, ty, ins):
        g = s.gconst(p.root.name[1:])
        if not g or not g[1] or g[2] is None: raise Unsupported("mutable global " + p.root.name)
        v = g[2]; t = g[0]
        path = list(p.path)
        # descend
        conds = []
        def go(v, t, path):
            if path:
                x = path[0]
                if x[0] == "f": return go(v[x[1]], t.fields[x[1]][1], path[1:])
                i = x[1]
                if isinstance(i, int):
                    if not 0 <= i < t.n: s.oblige(st, False, "bounds", "table index in range", ins); raise Unsupported("oob")
                    return go(v[i], t.elem, path[1:])
                s.oblige(st, land(tz(i) >= 0, tz(i) < t.n), "bounds", "table index in range", ins)
                if t.n > 300: raise Unsupported("big table")
                r = go(v[t.n - 1], t.elem, path[1:])
                for k in reversed(range(t.n - 1)): r = ite(tz(i) == k, go(v[k], t.elem, path[1:]), r)
                return r
            while t.kind in ("struct", "arr"):
                v = v[0]; t = t.fields[0][1] if t.kind == "struct" else t.elem
            if isinstance(v, float): return fpc(v)
            if v is None: raise Unsupported("global initialiser")
            if isinstance(v, (Glob, GepC, Null)): return s.operand(st, v)
            return v
        return go(v, t, path)

    # ------------------------------------------------------------- obligations
    def prove(s, st, c):
        c = simp(c)
        if c is True or c is False: return c
        return vc.prove(st.pc, c)

    def decide(s, st, c):
        """truth value of c on this path; forks when both are possible"""
        c = simp(c)
        if isinstance(c, bool): return c
        st.symdec = True
        if vc.prove(st.pc, c): return True
        if vc.prove(st.pc, z3.Not(c)): return False
        raise Fork(c)

    def loc(s, ins):
        if ins is None: return "end"
        if isinstance(ins, str): return ins
        f = ins.file or "?"
        cs = [x for x in s.callstack]
        # innermost location inside /repo
        if "engine/stubs" in f or not ins.line:
            for (i2) in reversed(cs):
                if i2 is not None and i2.file and "engine/stubs" not in i2.file and i2.line:
                    return "%s:%d" % (i2.file.replace(ir.REPO + "/", ""), i2.line)
        return "%s:%d" % (f.replace(ir.REPO + "/", ""), ins.line)

    def oblige(s, st, c, kind, what, ins, exact=True, assume=True):
        c = simp(c)
        if s.suppress:
            if c is False:
                s.trialfail.add((kind, s.loc(ins), what)); return
            if assume: st.assume(c)
            return
        key = (kind, s.loc(ins), what)
        r = s.obl.get(key)
        if r is None:
            r = s.obl[key] = {"kind": kind, "loc": s.loc(ins), "what": what, "fn": s.callfn(), "proved": 0, "failed": 0, "unknown": 0, "model": None, "exact": exact}
        t = time.time()
        if c is True:
            r["proved"] += 1
            return
        if not vc.KEEP_SMT2[0] and vc.prove(st.pc, c):
            r["proved"] += 1
        else:
            v, m, smt = vc.prove_model(st.pc, c)
            if v == "proved": r["proved"] += 1
            else:
                r["failed" if v == "refuted" else "unknown"] += 1
                r["exact"] = r["exact"] and exact and not s.approx and not unknown_layout(c)
                if r["model"] is None:
                    r["model"] = (str(m)[:3000] if m is not None else "", (smt or "")[:20000], str(c)[:2000])
        if assume and c is not False: st.assume(c)

    def callfn(s):
        return s.callnames[-1] if getattr(s, "callnames", None) else s.name

    # ------------------------------------------------------------- operands
    def operand(s, st, o):
        if isinstance(o, Loc):
            try: v = st.regs[o.id]
            except KeyError: raise Unsupported("register %s lost at a join" % o.id)
            if isinstance(v, Choice): raise Fork(v.c)
            return v
        if isinstance(o, (bool, int)): return o
        if isinstance(o, FpC): return fpc(o.v)
        if isinstance(o, Null): return NULL
        if isinstance(o, Und): return UNDEF
        if isinstance(o, Glob):
            if o.isfn: return FnV(o.name)
            g = s.gconst(o.name)
            return Ptr(s.root("@" + o.name, g[0] if g else None, "undef", False))
        if isinstance(o, GepC):
            return s.gep(st, s.operand(st, o.base), o.srcty, [s.operand(st, x) for x in o.idx])
        if isinstance(o, AggZ):
            return s.aggz(o)
        raise Unsupported("operand %r" % (o,))

    def aggz(s, o):
        items = []
        def rec(v, t, off):
            if t.kind == "struct":
                for i, (fo, ft) in enumerate(t.fields): rec(v[i] if v is not None else None, ft, off + fo)
            elif t.kind == "arr":
                for i in range(t.n): rec(v[i] if v is not None else None, t.elem, off + i * t.elem.size)
            else:
                x = v
                if x is None: x = 0 if t.kind == "int" else (fpc(0.0) if t.kind == "fp" else NULL)
                if isinstance(x, float): x = fpc(x)
                items.append((off, t.size, t, x))
        rec(o.vals, o.ty, 0)
        return Agg(items)

    def cstr(s, st, p):
        """C string behind a pointer: python str"""
        if isinstance(p, Choice): raise Fork(p.c)
        if isinstance(p, Ptr) and p.root.name.startswith("@"):
            g = s.gconst(p.root.name[1:])
            if g and isinstance(g[2], bytes):
                off = 0
                if p.path:
                    if len(p.path) == 1 and isinstance(p.path[0][1], int): off = p.path[0][1]
                    else: raise Unsupported("string pointer")
                b = g[2][off:]
                return b.split(b"\0")[0].decode("latin1")
            if g and isinstance(g[2], list) or g and g[2] is None: return ""
        if isinstance(p, Ptr) and p.path and p.path[-1] == ("f", "cstr"):
            return s.read(st, p.root, p.shape()[:-1], p.idx())
        raise Unsupported("C string %r" % (p,))

    # ------------------------------------------------------------- integers
    def to_u(s, st, v, bits):
        """unsigned view of canonical value"""
        if bits in (64, 8, 1): return v
        if isinstance(v, int): return v % (1 << bits)
        if s.prove(st, v >= 0): return v
        return simp(z3.If(v < 0, v + (1 << bits), v))

    def to_s(s, st, v, bits):
        if bits == 32: return v
        h = 1 << (bits - 1)
        if isinstance(v, int): return v - (1 << bits) if v >= h else v
        if s.prove(st, v < h): return v
        return simp(z3.If(v >= h, v - (1 << bits), v))

    def canon(s, st, t, bits, lo=None, hi=None):
        """wrap mathematical t to the canonical value of the type"""
        t = simp(t)
        if bits == 32:
            if isinstance(t, int): return ir.sx(t, 32)
            if s.prove(st, z3.And(t >= -M31, t < M31)): return t
            return simp((t + M31) % M32 - M31)
        m = 1 << bits
        if isinstance(t, int): return t % m
        if s.prove(st, z3.And(t >= 0, t < m)): return t
        if lo is not None and lo >= -m and hi is not None and hi < 2 * m:
            return simp(z3.If(t >= m, t - m, z3.If(t < 0, t + m, t)))
        return simp(t % m)

    def binop(s, st, ins, a, b):
        op = ins.op; bits = ins.ty.bits
        if isinstance(a, PInt) and isinstance(b, PInt) and op == "sub":
            pa, pb = s.alike(a.p, b.p)
            if pa.root is pb.root and pa.path and pb.path and pa.path[-1][0] in "ea" and pa.shape() == pb.shape():
                sz = s.ty_at(pa.root, pa.path).size
                ok = land(*[eq(x, y) for x, y in zip(pa.idx()[:-1], pb.idx()[:-1])])
                if not s.prove(st, ok): raise Unsupported("pointer difference")
                return s.canon(st, (tz(pa.path[-1][1]) - tz(pb.path[-1][1])) * sz, 64)
            if pa.root is pb.root and vsame(pa, pb): return 0
            raise Unsupported("pointer difference")
        if isinstance(a, (PInt, Ptr)) or isinstance(b, (PInt, Ptr)): raise Unsupported("pointer arithmetic via integers")
        if bits == 1:
            a_, b_ = (tz(a), tz(b))
            if op == "and": return simp(land(a_, b_))
            if op == "or": return simp(lor(a_, b_))
            if op == "xor": return simp(z3.Xor(a_, b_))
            raise Unsupported("i1 " + op)
        ta, tb = tz(a), tz(b)
        if op in ("add", "sub", "mul"):
            if ins.x and bits == 32:
                r = {"add": ta + tb, "sub": ta - tb, "mul": ta * tb}[op]
                r = simp(r)
                s.oblige(st, land(tz(r) >= -M31, tz(r) < M31), "overflow", "no signed overflow", ins)
                return r if isinstance(r, int) else s.canon(st, r, 32) if s.suppress else r
            if ins.x and bits == 64:
                sa, sb = tz(s.to_s(st, a, 64)), tz(s.to_s(st, b, 64))
                r = simp({"add": sa + sb, "sub": sa - sb, "mul": sa * sb}[op])
                s.oblige(st, land(tz(r) >= -M63, tz(r) < M63), "overflow", "no signed overflow", ins)
                return s.canon(st, r, 64, -M63, M63)
            r = {"add": ta + tb, "sub": ta - tb, "mul": ta * tb}[op]
            return s.canon(st, r, bits, *((-(1 << bits), (2 << bits) - 1) if op != "mul" else (None, None)))
        if op in ("udiv", "urem"):
            ua, ub = s.to_u(st, a, bits), s.to_u(st, b, bits)
            s.oblige(st, tz(ub) != 0, "div0", "divisor is not zero", ins)
            if isinstance(ua, int) and isinstance(ub, int) and ub: return ua // ub if op == "udiv" else ua % ub
            if op == "udiv":
                d = exact_div(ua, ub) if isinstance(ub, int) else None
                if d is not None: return d
                r = simp(tz(ua) / tz(ub))
            else: r = simp(tz(ua) % tz(ub))
            return r if bits != 32 else s.canon(st, r, 32)
        if op in ("sdiv", "srem"):
            sa, sb = s.to_s(st, a, bits), s.to_s(st, b, bits)
            s.oblige(st, tz(sb) != 0, "div0", "divisor is not zero", ins)
            if isinstance(sb, int) and sb > 0 and op == "sdiv":
                d = exact_div(sa, sb)
                if d is not None: return s.canon(st, d, bits)
            if not (isinstance(sb, int) and sb > 0):
                s.oblige(st, z3.Not(z3.And(tz(sa) == -(1 << (bits - 1)), tz(sb) == -1)), "overflow", "no signed overflow", ins)
            A, B = tz(sa), tz(sb)
            absA, absB = z3.If(A < 0, -A, A), z3.If(B < 0, -B, B)
            q = absA / absB
            q = z3.If((A < 0) != (B < 0), -q, q)
            r = q if op == "sdiv" else A - q * B
            return s.canon(st, simp(r), bits)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    y = y % (1 << bits)
                    if y & (y + 1) == 0:
                        r = simp(tz(s.to_u(st, x, bits)) % (y + 1))
                        return r if bits != 32 else s.canon(st, r, 32)
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << bits) - 1
            ua, ub = a & m, b & m
            r = {"and": ua & ub, "or": ua | ub, "xor": ua ^ ub}.get(op)
            if op == "shl": r = ua << ub
            if op == "lshr": r = ua >> ub
            if op == "ashr": r = ir.sx(ua, bits) >> ub
            if r is not None: return ir.sx(r, 32) if bits == 32 else r & m
        if op == "shl" and isinstance(b, int):
            if bits == 32: return s.canon(st, ta * (1 << b), 32)
            return s.canon(st, ta * (1 << b), bits)
        if op == "lshr" and isinstance(b, int):
            return s.canon(st, simp(tz(s.to_u(st, a, bits)) / (1 << b)), bits)
        if op == "ashr" and isinstance(b, int):
            return s.canon(st, simp(tz(s.to_s(st, a, bits)) / (1 << b)), bits)
        # opaque bit operation
        f = sym("bit!%s%d" % (op, bits), s.tykind(ins.ty), [ta, tb])
        return f

    def icmp(s, st, ins, a, b):
        pred, ty = ins.x
        if isinstance(a, (Ptr, NullP, FnV)) or isinstance(b, (Ptr, NullP, FnV)):
            return s.pcmp(st, pred, a, b, ins)
        if isinstance(a, PInt) and isinstance(b, PInt): return s.pcmp(st, pred, a.p, b.p, ins)
        if isinstance(a, PInt) or isinstance(b, PInt): raise Unsupported("pointer compare")
        bits = ty.bits
        if bits == 1:
            r = eq(a, b)
            return simp(r) if pred == "eq" else simp(lnot(r))
        if pred in ("eq", "ne"):
            r = simp(eq(a, b))
            return r if pred == "eq" else simp(lnot(r))
        if pred[0] == "u": x, y = s.to_u(st, a, bits), s.to_u(st, b, bits)
        else: x, y = s.to_s(st, a, bits), s.to_s(st, b, bits)
        if isinstance(x, int) and isinstance(y, int):
            return {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]]
        x, y = tz(x), tz(y)
        return simp({"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]])

    def alike(s, a, b):
        """an array stands for its first element, when it meets a pointer to another element"""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root is b.root and abs(len(a.path) - len(b.path)) == 1:
            p, q = (a, b) if len(a.path) < len(b.path) else (b, a)
            if q.path[-1][0] == "a" and p.shape() == q.shape()[:-1]:
                p = Ptr(p.root, p.path + (("a", 0),), p.eps)
                return (p, q) if len(a.path) < len(b.path) else (q, p)
        return a, b

    def pcmp(s, st, pred, a, b, ins=None):
        if isinstance(a, Choice): raise Fork(a.c)
        if isinstance(b, Choice): raise Fork(b.c)
        if isinstance(a, (NullP, FnV)) or isinstance(b, (NullP, FnV)):
            if pred not in ("eq", "ne"): raise Unsupported("ptr compare")
            e = (isinstance(a, NullP) and isinstance(b, NullP)) or (isinstance(a, FnV) and isinstance(b, FnV) and a.name == b.name)
            return e if pred == "eq" else not e
        a, b = s.alike(a, b)
        if a.root is not b.root:
            if pred == "eq": return False
            if pred == "ne": return True
            raise Unsupported("ptr compare")
        if a.shape() != b.shape():
            # the address of a fixed array is that of its first member
            if len(a.path) == len(b.path) + 1 and a.path[-1][0] == "a" and b.path == a.path[:-1]: b = Ptr(b.root, b.path + (("a", 0),), b.eps)
            elif len(b.path) == len(a.path) + 1 and b.path[-1][0] == "a" and a.path == b.path[:-1]: a = Ptr(a.root, a.path + (("a", 0),), a.eps)
        if a.shape() != b.shape():
            raise Unsupported("ptr compare in different subobjects")
        ia, ib = a.idx(), b.idx()
        if not ia: return pred in ("eq", "uge", "ule", "sge", "sle")
        pre = land(*[eq(x, y) for x, y in zip(ia[:-1], ib[:-1])])
        for p in (a, b):
            i = p.idx()[-1]
            if p.path[-1][0] != "e" or isinstance(i, int) and i == 0: continue
            vp = Ptr(p.root, p.path[:-1], p.eps[:-1])
            if s.ty_at(p.root, vp.path).kind != "vec": continue
            sz = s.vsize(st, vp)
            if same(i, sz): continue
            s.oblige(st, land(tz(i) >= 0, tz(i) <= tz(sz)), "bounds", "iterator stays inside the vector", ins)
        x, y = tz(ia[-1]), tz(ib[-1])
        if pred == "eq": return simp(land(pre, x == y))
        if pred == "ne": return simp(lnot(land(pre, x == y)))
        if not s.prove(st, pre): raise Unsupported("ptr compare")
        return simp({"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]])

    def cast(s, st, ins, v):
        op = ins.op; src = ins.x; dst = ins.ty
        if op == "ptrtoint": return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt): return v.p
            raise Unsupported("inttoptr")
        if op == "bitcast": return v
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext"):
            return sym("conv!%s%s%s" % (op, src, dst), s.tykind(dst), [v])
        if isinstance(v, Agg):
            raise Unsupported("cast of aggregate")
        if op == "zext":
            if src.bits == 1: return (1 if v else 0) if isinstance(v, bool) else simp(z3.If(v, tz(1), tz(0)))
            u = s.to_u(st, v, src.bits)
            return u if dst.bits != 32 else u
        if op == "sext":
            if src.bits == 1: return (-1 if v else 0) if isinstance(v, bool) else simp(z3.If(v, tz(-1 if dst.bits == 32 else (1 << dst.bits) - 1), tz(0)))
            x = s.to_s(st, v, src.bits)
            if dst.bits == 32: return x
            if isinstance(x, int): return x % (1 << dst.bits)
            if s.prove(st, x >= 0): return x
            return simp(z3.If(x < 0, x + (1 << dst.bits), x))
        if op == "trunc":
            if dst.bits == 1:
                if isinstance(v, int): return v % 2 == 1
                if z3.is_app_of(v, z3.Z3_OP_ITE): return simp(v == 1)
                if s.prove(st, z3.And(v >= 0, v <= 1)): return simp(v == 1)
                return simp(v % 2 == 1)
            if isinstance(v, int): return ir.sx(v, 32) if dst.bits == 32 else v % (1 << dst.bits)
            return s.canon(st, v, dst.bits)
        raise Unsupported(op)

    # ------------------------------------------------------------- CFG
    def cfg(s, F):
        if F._cfg is None: F._cfg = CFG(F)
        return F._cfg

    def edge(s, F, st, frm, to):
        """enter block `to` from `frm`: evaluate phis"""
        vals = []
        for i in F.blocks[to]:
            if i.op != "phi": break
            v = i.x[frm]
            vals.append((i.id, st.regs.get(v.id) if isinstance(v, Loc) else s.operand(st, v)))
        for k, v in vals: st.regs[k] = v

    def run_function(s, F, st, args, call=None):
        """-> list of ('ret', st, val) | ('throw', st, exc)"""
        if F.blocks is None: raise Unsupported("no body: " + F.dem)
        if len(s.callstack) > 60: raise Unsupported("call depth / recursion")
        saved = st.regs
        st.regs = dict(zip(F.args, args))
        s.callstack.append(call)
        s.callnames = getattr(s, "callnames", [])
        s.callnames.append(F.dem)
        s.inlined[F.dem] = s.inlined.get(F.dem, 0) + 1
        try:
            outs = s.run_region(F, None, [(F.order[0], st)])
        finally:
            s.callstack.pop(); s.callnames.pop()
        res = []
        for o in outs:
            if o[0] == "edge": raise Unsupported("edge out of function")
            o[1].regs = saved
            s.drop_frame(o[1], F, call)
            res.append(o)
        if len(res) > 1: res = s.merge_rets(res)
        for o in res: o[1].regs = dict(saved)
        return res

    def frame_prefix(s, extra=None):
        cs = s.callstack + ([extra] if extra is not None else [])
        return "/".join("%s" % (c.uid[1] if c is not None and hasattr(c, "uid") else "r") for c in cs)

    def drop_frame(s, st, F, call):
        pre = "L" + "/".join("%s" % (c.uid[1] if c is not None and hasattr(c, "uid") else "r") for c in s.callstack + [call]) + ":"
        for k in [k for k in st.mem if k[0].startswith(pre)]: del st.mem[k]

    def merge_rets(s, res):
        rets = [o for o in res if o[0] == "ret"]; oth = [o for o in res if o[0] != "ret"]
        out = []
        for o in rets:
            done = False
            for j, q in enumerate(out):
                v1, v2 = q[2], o[2]
                q[1].regs = {"!rv": v1} if v1 is not None else {}
                o[1].regs = {"!rv": v2} if v2 is not None else {}
                m = merge_states(s, q[1], o[1])
                if m is not None and (v1 is None or "!rv" in m.regs):
                    out[j] = ("ret", m, m.regs.get("!rv")); done = True; break
            if not done: out.append(o)
        return out + oth

    def run_region(s, F, loop, entries):
        """execute until control leaves the loop body (or function); loop=None: whole function.
        entries: [(block, state)]; outcomes: ('edge', target, st, from) | ('ret', st, v) | ('throw', st, exc)"""
        cfg = s.cfg(F)
        pend = {}
        heap = []
        outs = []
        inside = cfg.loops[loop] if loop is not None else None

        def push(b, st):
            if b not in pend: pend[b] = []; heapq.heappush(heap, (cfg.topo[b], b))
            l = pend[b]
            for j, q in enumerate(l):
                m = merge_states(s, q, st)
                if m is not None:
                    l[j] = m; return
            l.append(st)
            if len(l) > s.max_paths: raise Unsupported("too many paths")
        first = True
        for b, st in entries: push(b, st)
        started = False
        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b)
            if b in cfg.loops and not (b == loop):
                import loops as LP
                for st in sts:
                    for o in LP.summarise(s, F, b, st):
                        if o[0] == "edge":
                            if o[1] == loop or (inside is not None and o[1] not in inside): outs.append(o)
                            else: push(o[1], o[2])
                        else: outs.append(o)
                continue
            for st in sts:
                for o in s.run_block(F, b, st):
                    if o[0] == "edge":
                        t = o[1]
                        if (loop is not None and (t == loop or t not in inside)): outs.append(o)
                        else: push(t, o[2])
                    else: outs.append(o)
        return outs

    def run_block(s, F, b, st):
        work = [(st, 0)]
        outs = []
        blk = F.blocks[b]
        while work:
            st, k = work.pop()
            while k < len(blk):
                ins = blk[k]
                if ins.op == "phi": k += 1; continue
                try:
                    r = s.step(F, b, ins, st)
                except Fork as f:
                    # re-execute the instruction on both sides
                    st2 = st.copy()
                    st.assume(f.cond); st2.assume(lnot(f.cond))
                    collapse(st, f.cond, True); collapse(st2, f.cond, False)
                    st.symdec = st2.symdec = True
                    if vc.feasible(st2.pc): work.append((st2, k))
                    if vc.feasible(st.pc): continue
                    break
                except Dead:
                    if not s.suppress: raise
                    break
                if r is None: k += 1; continue
                if r[0] == "out": outs += r[1]; break
                # several continuation states (and exceptional exits)
                lst, thr = r[1], r[2]
                outs += thr
                k += 1
                if not lst: break
                for x in lst[1:]: work.append((x, k))
                st = lst[0]
            if len(work) > s.max_paths: raise Unsupported("too many paths")
        return outs

    def step(s, F, b, ins, st):
        op = ins.op
        if vc.DEADLINE[0] and time.time() > vc.DEADLINE[0]: raise Timeout("time budget")
        if op == "alloca":
            nm = "L" + s.frame_prefix() + ":%s" % ins.id
            # frame prefix must identify this activation
            r = s.roots.get(nm)
            if r is None: r = s.root(nm, ins.x, "undef")
            for k in [k for k in st.mem if k[0] == nm]: del st.mem[k]
            st.regs[ins.id] = Ptr(r)
            return None
        if op == "load":
            st.regs[ins.id] = s.load(st, s.operand(st, ins.ops[0]), ins.ty, ins); return None
        if op == "store":
            p = s.operand(st, ins.ops[1])
            o = ins.ops[0]
            v = st.regs[o.id] if isinstance(o, Loc) else s.operand(st, o)
            if isinstance(v, Choice): raise Fork(v.c)
            s.store(st, p, v, ins.x, ins); return None
        if op == "gep":
            st.regs[ins.id] = s.gep(st, s.operand(st, ins.ops[0]), ins.x, [s.operand(st, o) for o in ins.ops[1:]]); return None
        if op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            st.regs[ins.id] = s.binop(st, ins, s.operand(st, ins.ops[0]), s.operand(st, ins.ops[1])); return None
        if op == "icmp":
            st.regs[ins.id] = s.icmp(st, ins, s.operand(st, ins.ops[0]), s.operand(st, ins.ops[1])); return None
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext"):
            st.regs[ins.id] = s.cast(st, ins, s.operand(st, ins.ops[0])); return None
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            st.regs[ins.id] = sym("fop!" + op, "f64", [s.operand(st, o) for o in ins.ops]); return None
        if op == "fneg":
            st.regs[ins.id] = sym("fop!fneg", "f64", [s.operand(st, ins.ops[0])]); return None
        if op == "fcmp":
            st.regs[ins.id] = sym("fcmp!%d" % ins.x, "bool", [s.operand(st, o) for o in ins.ops]); return None
        if op == "select":
            c = s.operand(st, ins.ops[0]); a = s.operand(st, ins.ops[1]); bb = s.operand(st, ins.ops[2])
            st.regs[ins.id] = a if c is True else bb if c is False else vmerge(c, a, bb)
            return None
        if op == "freeze":
            st.regs[ins.id] = s.operand(st, ins.ops[0]); return None
        if op == "br":
            if not ins.ops:
                s.edge(F, st, b, ins.x[0]); return "out", [("edge", ins.x[0], st, b)]
            c = s.operand(st, ins.ops[0])
            return "out", s.branch(F, b, st, [(c, ins.x[0]), (lnot(c) if not isinstance(c, (Undef, Maybe)) else c, ins.x[1])])
        if op == "switch":
            v = s.operand(st, ins.ops[0])
            cases, dflt = ins.x
            arms = {}
            for cv, t in cases: arms.setdefault(t, []).append(simp(eq(v, cv)))
            lst = [(simp(lor(*cs)), t) for t, cs in arms.items()]
            lst.append((simp(land(*[lnot(simp(eq(v, cv))) for cv, _ in cases])), dflt))
            return "out", s.branch(F, b, st, lst)
        if op == "ret":
            v = s.operand(st, ins.ops[0]) if ins.ops else None
            return "out", [("ret", st, v)]
        if op == "unreachable": return "out", []
        if op in ("call", "invoke"): return s.call(F, b, ins, st)
        if op == "extractvalue":
            a = s.operand(st, ins.ops[0])
            if isinstance(a, Choice): raise Fork(a.c)
            if not isinstance(a, Agg): raise Unsupported("extractvalue of %r in %s %r" % (a, F.dem, ins))
            if len(ins.x) != 1: raise Unsupported("extractvalue path")
            st.regs[ins.id] = sorted(a.items, key=lambda z: z[0])[ins.x[0]][3]
            return None
        if op == "insertvalue":
            a = s.operand(st, ins.ops[0]); v = s.operand(st, ins.ops[1])
            t = ins.ty
            o, ft = t.fields[ins.x[0]]
            items = [z for z in (a.items if isinstance(a, Agg) else []) if z[0] != o] + [(o, ft.size, ft, v)]
            st.regs[ins.id] = Agg(items); return None
        if op in ("landingpad", "resume"): return "out", []
        raise Unsupported("instruction " + op)

    def branch(s, F, b, st, arms):
        feas = []
        for c, t in arms:
            if isinstance(c, (Undef, Maybe)): raise Unsupported("branch on undefined")
            if c is False: continue
            if c is True:
                feas.append((c, t)); continue
            st.symdec = True
            if vc.prove(st.pc, z3.Not(tz(c)), rl=vc.RL): continue
            feas.append((c, t))
        if not feas: return []
        outs = []
        for n, (c, t) in enumerate(feas):
            st2 = st if n == len(feas) - 1 else st.copy()
            if c is not True: st2.assume(c)
            s.edge(F, st2, b, t)
            outs.append(("edge", t, st2, b))
        return outs

    # ------------------------------------------------------------- calls
    def call(s, F, b, ins, st):
        callee = ins.x["callee"]
        name = None
        if isinstance(callee, Glob): name = callee.name
        else:
            f = s.operand(st, callee)
            if isinstance(f, FnV): name = f.name
            else: raise Unsupported("indirect call")
        args = []
        for a, t in zip(ins.ops, ins.x["argtys"]):
            v = None if a is None else (st.regs[a.id] if isinstance(a, Loc) and a.id in st.regs else s.operand(st, a))
            if isinstance(v, Choice): raise Fork(v.c)
            args.append(v)
        G = s.mod.funcs[name]
        import libspec
        spec = s.contracts.get(G.dem)
        if spec is None and args and isinstance(args[0], Ptr) and args[0].root.name.startswith("exc!") and not name.startswith("__cxa"): spec = libspec.nop_exc
        if spec is None and G.blocks is None or name in libspec.BYNAME:
            spec = libspec.lookup(G)
        if spec is None and G.blocks is None:
            raise Unsupported("external function " + G.dem)
        if spec is not None:
            snap = st.copy()
            try:
                if G.dem in s.contracts: s.used_contracts[G.dem] = s.used_contracts.get(G.dem, 0) + 1
                else: s.lib_used.add(G.dem)
                s.callstack.append(ins)
                try: outs = spec(s, st, ins, args, G)
                finally: s.callstack.pop()
            except Fork as f:
                for k in State.__slots__: setattr(st, k, getattr(snap, k))
                raise
            if outs is None: outs = [("ret", st, None)]
            elif not isinstance(outs, list): outs = [("ret", st, outs[0])]
        else:
            snap = st.copy()
            try:
                outs = s.run_function(G, st, args, ins)
            except Fork as f:
                raise Unsupported("fork escaped a call")
        cont = []; res = []
        for o in outs:
            if o[0] == "ret":
                if o[2] is not None: o[1].regs[ins.id] = o[2]
                cont.append(o[1])
            elif o[0] == "throw":
                if ins.op == "invoke" and s.catches(F, ins): raise Unsupported("exception handler")
                res.append(o)
            else: raise Unsupported("call outcome")
        if ins.op == "invoke":
            for c in cont:
                s.edge(F, c, b, ins.x["normal"])
                res.append(("edge", ins.x["normal"], c, b))
            return "out", res
        if not cont and not res: return "out", []
        return "multi", cont, res

    def catches(s, F, ins):
        lp = [i for i in F.blocks[ins.x["unwind"]] if i.op == "landingpad"]
        if not lp: return True
        n, cleanup = lp[0].x
        if n == 0: return False
        # catch clauses that only rethrow through terminate (noexcept) are harmless: destructors are noexcept
        return True


def exact_div(t, c):
    """t / c when every monomial coefficient is divisible by c"""
    if isinstance(t, int): return t // c if t % c == 0 else None
    t = z3.simplify(t, som=True)
    parts = t.children() if z3.is_add(t) else [t]
    out = []
    for p in parts:
        if z3.is_int_value(p):
            if p.as_long() % c: return None
            out.append(z3.IntVal(p.as_long() // c))
        elif z3.is_mul(p) and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() % c == 0:
            k = p.arg(0).as_long() // c
            r = z3.IntVal(k)
            for x in p.children()[1:]: r = r * x
            out.append(r)
        elif z3.is_app_of(p, z3.Z3_OP_ITE):
            a, b = exact_div(conc(p.arg(1)), c), exact_div(conc(p.arg(2)), c)
            if a is None or b is None: return None
            out.append(z3.If(p.arg(0), tz(a), tz(b)))
        else: return None
    r = out[0]
    for x in out[1:]: r = r + x
    return simp(r)


class CFG:
    def __init__(s, F):
        s.succ = {}
        for b, blk in F.blocks.items():
            t = blk[-1]
            if t.op == "br": s.succ[b] = list(dict.fromkeys(t.x))
            elif t.op == "switch": s.succ[b] = list(dict.fromkeys([c[1] for c in t.x[0]] + [t.x[1]]))
            elif t.op == "invoke": s.succ[b] = [t.x["normal"]]      # exceptional edges end the path
            else: s.succ[b] = []
        entry = F.order[0]
        # DFS postorder
        order = []; seen = set(); back = set(); onst = set()
        stack = [(entry, iter(s.succ[entry]))]; seen.add(entry); onst.add(entry)
        while stack:
            b, it = stack[-1]
            for t in it:
                if t in onst: back.add((b, t)); continue
                if t not in seen:
                    seen.add(t); onst.add(t); stack.append((t, iter(s.succ[t]))); break
            else:
                stack.pop(); onst.discard(b); order.append(b)
        order.reverse()
        s.topo = {b: i for i, b in enumerate(order)}
        s.loops = {}
        pred = {b: [] for b in order}
        for b in order:
            for t in s.succ[b]: pred[t].append(b)
        for (b, h) in back:
            body = s.loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st.extend(pred[x])
        # natural loops with nested order: process headers inside body handled by membership
        s.pred = pred
