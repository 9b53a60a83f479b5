"""Contracts of the standard library members declared (without body) in engine/stubs.

contract(ex, st, ins, args, G) -> None (void) | (value,) | list of ('ret', st, value) / ('throw', st, what)"""
import re
from sx import *
from vc import *
import vc, ir
from ir import *

BYNAME = set(["_ZSt9terminatev"])
EXC = {}


def _method(dem):
    """demangled name -> (class kind, method, argument text)"""
    d = dem
    i = len(d)
    # strip the argument list
    if d.endswith(" const"): d = d[:-6]
    depth = 0
    if d.endswith(")"):
        k = len(d) - 1
        while k >= 0:
            if d[k] == ")": depth += 1
            elif d[k] == "(":
                depth -= 1
                if depth == 0: break
            k -= 1
        args = d[k + 1:-1]; d = d[:k]
    else: args = ""
    # split at the last :: outside <>
    depth = 0; k = len(d) - 1
    while k > 0:
        if d[k] == ">" and not d.endswith("operator>>") : depth += 1
        elif d[k] == "<" and not d.endswith("operator<<"): depth -= 1
        elif depth == 0 and d[k - 1:k + 1] == "::": break
        k -= 1
    if "operator<<" in d or "operator>>" in d:
        k = d.rfind("::operator"); k = k + 1 if k >= 0 else 0
    cls = d[:k - 1] if k > 0 else ""
    m = d[k + 1:] if k > 0 else d
    c = cls.split("<")[0].split("::")
    if c[-1] == "std": c = [""]
    return c[-1] if c else "", m, args


_lk = {}


def lookup(G):
    if G.name in _lk: return _lk[G.name]
    r = _lookup(G)
    _lk[G.name] = r
    return r


def _lookup(G):
    n = G.name; dem = G.dem
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"): return memcpy_
    if n.startswith("llvm.memset"): return memset_
    if n.startswith("llvm.") :
        if "lifetime" in n or "assume" in n or "dbg" in n or "trap" in n: return nop
        m = re.match(r"llvm\.(umax|umin|smax|smin)\.", n)
        if m: return minmax(m.group(1)[1:] == "max")
        return None
    if n == "__cxa_allocate_exception": return alloc_exc
    if n == "__cxa_throw": return throw_
    if n == "__cxa_rethrow": return lambda ex, st, ins, a, G: [("throw", st, "rethrow")]
    if n in ("__cxa_free_exception", "__cxa_end_catch", "__cxa_atexit", "_ZdlPv", "_ZdlPvm"): return nop
    if n == "__cxa_begin_catch": return lambda ex, st, ins, a, G: (NULL,)
    if n == "_ZSt9terminatev": return lambda ex, st, ins, a, G: []
    if n in ("memcpy", "memmove"): return memcpy_
    if n == "__cxa_guard_acquire": return None
    cls, m, args = _method(dem)
    if "vector" == cls: return VEC.get(m)
    if "string" == cls: return STRM.get(m) or (string_ctor if m == "string" else None)
    if cls == "set": return SETM.get(m)
    if cls == "map": return MAPM.get(m)
    base = m.split("<")[0].split("::")[-1]
    mm = re.match(r"^(?:.* )?(?:std::)?(__vp_\w+)", m) or re.match(r"^(?:.* )?(?:std::)?(__vp_\w+)", dem)
    if mm:
        b = mm.group(1)
        if b == "__vp_min": return minmax(False)
        if b == "__vp_max": return minmax(True)
        return FREE.get(b)
    if cls in ("ios", "istream", "ostream", "stringstream", "ifstream", "ofstream", "istringstream") or dem.startswith("std::operator<<") or dem.startswith("std::operator>>") or base in ("endl", "flush", "ws", "getline", "fixed", "scientific", "hex", "dec", "defaultfloat", "boolalpha", "noboolalpha"):
        import iomode
        return iomode.lookup(cls, m, args, dem)
    if dem.startswith("std::operator+"): return str_plus
    if dem.startswith("std::to_string"): return to_string
    if cls in ("runtime_error", "logic_error", "exception", "out_of_range", "invalid_argument") or m.startswith("~"): return nop_exc
    if base in ("isspace", "isdigit", "isalpha", "toupper", "tolower", "abs"):
        return lambda ex, st, ins, a, G: (ex.fresh(st, site(ex, ins), ex.tykind(G.retty)),)
    return None


def site(ex, ins):
    """unique name of an instruction in its calling context"""
    return ".".join("%s" % (c.uid[1] if c is not None and hasattr(c, "uid") else "r") for c in ex.callstack) if ex.callstack else "r"


def nop(ex, st, ins, a, G): return None
def nop_exc(ex, st, ins, a, G): return (NULL,) if G.retty.kind == "ptr" else None


def getp(p):
    if isinstance(p, Choice): raise Fork(p.c)
    if not isinstance(p, Ptr): raise Unsupported("object pointer %r" % (p,))
    return p


def scalar(ex, st, p, ins):
    """value behind a reference to a scalar"""
    p = getp(p)
    ex.check_access(st, p, ins)
    if p.root.name.startswith("@"):
        t = ex.ty_at(p.root, p.path); return ex.load_global(st, p, t, ins)
    lp, lt = ex.leafptr(p)
    v = ex.read(st, lp.root, lp.shape(), lp.idx())
    if isinstance(v, Choice): raise Fork(v.c)
    return ex.defined(st, v, ins)


# ------------------------------------------------------------------ vectors
def vobj(ex, st, p, ins):
    p = getp(p)
    ex.check_access(st, p, ins)
    path = p.path; t = ex.ty_at(p.root, path)
    while t is not None and (t.kind == "struct" and t.fields or t.kind == "arr"):
        if t.kind == "arr": path = path + (("a", 0),); t = t.elem
        else: path = path + (("f", 0),); t = t.fields[0][1]
    if t is None or t.kind not in ("vec", "set", "map"): raise Unsupported("container object at %r" % (p,))
    return Ptr(p.root, path, p.eps)


def v_init(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    ex.write(st, p.root, p.shape() + ("size",), p.idx(), 0)
    if p.root.pol == "undef" and not p.idx():
        # a new vector holds nothing of what an earlier iteration's one held
        sh = p.shape() + ("*",)
        for key in [k for k in st.mem if k[0] == p.root.name and k[1][:len(sh)] == sh]: st.mem[key] = ex.initval(key)


def v_size(ex, st, ins, a, G): return (ex.vsize(st, vobj(ex, st, a[0], ins)),)
def v_reserve(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); ex.bump(st, p, site(ex, ins))


def v_at(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    i = a[1]
    q = ex.elem(st, p, i)
    sz = ex.vsize(st, p)
    ex.oblige(st, simp(tz(i) < tz(sz)), "bounds", "element index in range", ins)
    ck = (p.root.name, p.path and tuple((y[0], str(y[1])) for y in p.path), str(i))
    st.checked = st.checked | {(ck, str(ex.vepoch(st, p)))}
    return (q,)


def v_atc(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    if ex.decide(st, tz(a[1]) < tz(ex.vsize(st, p))): return (ex.elem(st, p, a[1]),)
    return [("throw", st, "out_of_range")]


def v_d(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); return (ex.elem(st, p, 0),)


def v_idx(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); q = getp(a[1])
    if q.root is not p.root or not q.path or q.path[-1][0] != "e": raise Unsupported("foreign iterator")
    return (q.path[-1][1],)


def fillrange(ex, st, p, lo, src):
    """elements lo.. of the vector at p := the object at src (contents beyond the size are unspecified)"""
    et = ex.ty_at(p.root, p.path).elem
    ds = p.shape() + ("*",); di = p.idx(); n = len(di)
    ss, si = src.shape(), src.idx()
    for suf, lt in ex.leaves(et):
        extra = sum(1 for x in suf if x == "*")
        skey = (src.root.name, ss + suf)
        sv = st.mem.get(skey)
        if sv is None:
            if src.root.name.startswith("@"): sv = ex.load_global(st, Ptr(src.root, src.path + tuple(("f", x) for x in suf)), lt, None)
            else: sv = ex.initval(skey)
        if isinstance(sv, Undef):
            if suf and suf[-1] == "ep": continue
            if extra: sv = sym("undefw!x", ex.leafkind(p.root, ds + suf), [])
            else: sv = ex.defined(st, sv, None)
        if isinstance(sv, Maybe): sv = ex.defined(st, sv, None)
        if not isinstance(sv, (z3.ExprRef, int, bool, str)): raise Unsupported("pointer element")
        ns = len(si)
        pairs = [(X[i], t) for i, t in enumerate(si)] + [(X[ns + j], X[n + 1 + j]) for j in range(extra)]
        nv = subst(tz(sv), pairs)
        old = ex.cell(st, p.root, ds + suf, n + 1 + extra)
        if isinstance(old, Undef): old = sym("undef!" + p.root.name + "." + ".".join(map(str, ds + suf)), ex.leafkind(p.root, ds + suf), X[:n + 1 + extra])
        g = land(*([simp(X[i] == tz(t)) for i, t in enumerate(di)] + ([] if lo == 0 else [simp(X[n] >= tz(lo))])))
        st.mem[(p.root.name, ds + suf)] = tz(simp(ite(g, nv, old)))


def v_resize(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    n = a[1]
    src = getp(a[2]); ex.check_access(st, src, ins)
    et = ex.ty_at(p.root, p.path).elem
    # the library throws length_error beyond max_size (permitted outcome: resource exhaustion)
    st.assume(simp(tz(n) < MAXLEN))
    old = ex.vsize(st, p)
    if not same(n, 0): fillrange(ex, st, p, old, src)
    ex.write(st, p.root, p.shape() + ("size",), p.idx(), n)
    ex.bump(st, p, site(ex, ins))


def real_size(t):
    k = t.kind
    if k == "struct": return sum(real_size(f[1]) for f in t.fields) or 1
    if k == "vec": return 24
    if k == "str": return 32
    if k in ("set", "map"): return 48
    return t.size


def v_push(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    src = getp(a[1]); ex.check_access(st, src, ins)
    old = ex.vsize(st, p)
    et = ex.ty_at(p.root, p.path).elem
    st.assume(simp(tz(old) + 1 < MAXLEN))
    store_elem(ex, st, p, old, src, ins)
    ex.write(st, p.root, p.shape() + ("size",), p.idx(), simp(tz(old) + 1))
    ex.bump(st, p, site(ex, ins))


def store_elem(ex, st, p, i, src, ins):
    et = ex.ty_at(p.root, p.path).elem
    dst = Ptr(p.root, p.path + (("e", i),), p.eps + (None,))
    if src.root.name.startswith("@"):
        v = ex.load_global(st, src, et, ins)
        ex.write(st, dst.root, dst.shape(), dst.idx(), v); return
    s2, t2 = ex.objptr(src, et.size)
    for suf, lt in ex.leaves(et):
        if any(x == "*" for x in suf): continue
        v = st.mem.get((s2.root.name, s2.shape() + suf))
        if v is None: v = ex.initval((s2.root.name, s2.shape() + suf))
        if isinstance(v, (Undef, Maybe)):
            v = ex.defined(st, v, ins)
            st.mem[(s2.root.name, s2.shape() + suf)] = v
        if isinstance(v, Choice): raise Fork(v.c)
    ex.copy_tree(st, dst, s2, et)


def v_insert(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    at = a[1]; f = getp(a[2]); l = getp(a[3])
    if f.root is not l.root or f.shape() != l.shape(): raise Unsupported("insert range")
    if not (f.path and f.path[-1][0] in "ea"):
        # range over a plain array starting at its first element
        raise Unsupported("insert from %r" % (f,))
    n = simp(tz(l.path[-1][1]) - tz(f.path[-1][1]))
    for x, y in zip(f.idx()[:-1], l.idx()[:-1]):
        if not same(simp(tz(x)), simp(tz(y))): raise Unsupported("insert range")
    f0 = f.path[-1][1]
    if f.path[-1][0] == "e":
        vp = Ptr(f.root, f.path[:-1], f.eps[:-1]); ex.check_access(st, vp, ins)
        fs = ex.vsize(st, vp)
        ep = f.eps[-1] if f.eps else None
        cur = ex.vepoch(st, vp)
        if ep is not None and not same(ep, cur): ex.oblige(st, eq(ep, cur), "dangling", "iterator still valid", ins, exact=False)
    else:
        fs = ex.ty_at(f.root, f.path[:-1]).n
    ex.oblige(st, land(tz(n) >= 0, z3.Or(tz(n) == 0, land(tz(f0) >= 0, tz(f0) + tz(n) <= tz(fs)))), "bounds", "copied range lies in the container", ins)
    old = ex.vsize(st, p)
    ex.oblige(st, simp(tz(at) <= tz(old)), "bounds", "insert position in range", ins)
    et = ex.ty_at(p.root, p.path).elem
    st.assume(simp(tz(old) + tz(n) < MAXLEN))
    di = p.idx(); k = len(di); ds = p.shape() + ("*",)
    ss = f.shape(); si = f.idx()[:-1]
    end = same(simp(tz(at)), simp(tz(old)))
    pend = []
    for suf, lt in ex.leaves(et):
        extra = sum(1 for x in suf if x == "*")
        skey = (f.root.name, ss + suf)
        sv = st.mem.get(skey)
        if sv is None: sv = ex.initval(skey)
        if not isinstance(sv, z3.ExprRef): sv = tz(sv) if isinstance(sv, (int, bool, str)) else sym("undefw!x", ex.leafkind(p.root, ds + suf), [])
        ns = len(si)
        pairs = [(X[i], t) for i, t in enumerate(si)] + [(X[ns], simp(X[k] - tz(at) + tz(f0)))] + [(X[ns + 1 + j], X[k + 1 + j]) for j in range(extra)]
        nv = subst(sv, pairs)
        o = ex.cell(st, p.root, ds + suf, k + 1 + extra)
        if isinstance(o, Undef): o = sym("undef!" + p.root.name + "." + ".".join(map(str, ds + suf)), ex.leafkind(p.root, ds + suf), X[:k + 1 + extra])
        pre = [simp(X[i] == tz(t)) for i, t in enumerate(di)]
        if end:
            r = ite(land(*(pre + ([] if same(at, 0) else [simp(X[k] >= tz(at))]))), nv, o)
        else:
            sh = subst(o, [(X[k], simp(X[k] - tz(n)))])
            r = ite(land(*(pre + [X[k] >= tz(at)])), ite(X[k] < tz(at) + tz(n), nv, sh), o)
        pend.append(((p.root.name, ds + suf), tz(simp(r))))
    for kk, v in pend: st.mem[kk] = v
    ex.write(st, p.root, p.shape() + ("size",), p.idx(), simp(tz(old) + tz(n)))
    ex.bump(st, p, site(ex, ins))


def v_insert1(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    old = ex.vsize(st, p)
    if same(simp(tz(a[1])), simp(tz(old))) or ex.prove(st, eq(a[1], old)):
        return v_push(ex, st, ins, [a[0], a[2]], G)
    src = getp(a[2])
    if src.root is p.root: raise Unsupported("insertion of an own element in the middle")
    at = a[1]
    ex.oblige(st, simp(tz(at) <= tz(old)), "bounds", "insert position in range", ins)
    et = ex.ty_at(p.root, p.path).elem
    di = p.idx(); k = len(di); ds = p.shape() + ("*",)
    pend = []
    for suf, lt in ex.leaves(et):
        extra = sum(1 for x in suf if x == "*")
        o = ex.cell(st, p.root, ds + suf, k + 1 + extra)
        if isinstance(o, Undef): o = sym("undef!" + p.root.name + "." + ".".join(map(str, ds + suf)), ex.leafkind(p.root, ds + suf), X[:k + 1 + extra])
        pre = [simp(X[i] == tz(t)) for i, t in enumerate(di)]
        pend.append(((p.root.name, ds + suf), tz(simp(ite(land(*(pre + [X[k] > tz(at)])), subst(o, [(X[k], simp(X[k] - 1))]), o)))))
    for kk, v in pend: st.mem[kk] = v
    ex.write(st, p.root, p.shape() + ("size",), p.idx(), simp(tz(old) + 1))
    ex.bump(st, p, site(ex, ins))
    ex.copy_tree(st, Ptr(p.root, p.path + (("e", at),), p.eps), src, et)


def v_clear(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    ex.write(st, p.root, p.shape() + ("size",), p.idx(), 0); ex.bump(st, p, site(ex, ins))


def v_pop(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    n = ex.vsize(st, p)
    ex.oblige(st, simp(tz(n) > 0), "bounds", "pop_back on a non-empty vector", ins)
    ex.write(st, p.root, p.shape() + ("size",), p.idx(), simp(tz(n) - 1))


def v_assign(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); q = vobj(ex, st, a[1], ins)
    if p.root is q.root and p.path == q.path: return
    ex.copy_tree(st, p, q, ex.ty_at(p.root, p.path)); ex.bump(st, p, site(ex, ins))


def v_take(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); q = vobj(ex, st, a[1], ins)
    ex.copy_tree(st, p, q, ex.ty_at(p.root, p.path)); ex.bump(st, p, site(ex, ins))
    ex.write(st, q.root, q.shape() + ("size",), q.idx(), 0)
    ex.bump(st, q, site(ex, ins) + "s")


def v_swap(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); q = vobj(ex, st, a[1], ins)
    t = ex.ty_at(p.root, p.path)
    tmp = Ptr(ex.root("swap!" + site(ex, ins), t, "undef"))
    for k in [k for k in st.mem if k[0] == tmp.root.name]: del st.mem[k]
    ex.copy_tree(st, tmp, p, t); ex.copy_tree(st, p, q, t); ex.copy_tree(st, q, tmp, t)
    ex.bump(st, p, site(ex, ins)); ex.bump(st, q, site(ex, ins) + "s")
    for k in [k for k in st.mem if k[0] == tmp.root.name]: del st.mem[k]


VEC = {"__init": v_init, "size": v_size, "reserve": v_reserve, "__at": v_at, "__at_checked": v_atc, "__d": v_d, "__idx": v_idx,
       "__resize": v_resize, "__push": v_push, "__insert": v_insert, "__insert1": v_insert1, "clear": v_clear, "pop_back": v_pop,
       "__assign": v_assign, "__take": v_take, "swap": v_swap}


# ------------------------------------------------------------------ algorithms
def minmax(mx):
    def c(ex, st, ins, a, G):
        x, y = a[0], a[1]
        if isinstance(x, int) and isinstance(y, int): return (max(x, y) if mx else min(x, y),)
        if x is y: return (x,)
        if G.argtys[0].kind == "fp": return (sym("fp!max" if mx else "fp!min", "f64", [x, y]),)
        x, y = tz(x), tz(y)
        return (simp(z3.If(x >= y, x, y) if mx else z3.If(x <= y, x, y)),)
    return c


def rng(ex, st, f, l, ins):
    f, l = getp(f), getp(l)
    f, l = ex.alike(f, l)
    if f.root is not l.root or f.shape() != l.shape() or not f.path or f.path[-1][0] not in "ea": raise Unsupported("range")
    for x, y in zip(f.idx()[:-1], l.idx()[:-1]):
        if not same(simp(tz(x)), simp(tz(y))): raise Unsupported("range")
    lo, hi = f.path[-1][1], l.path[-1][1]
    if f.path[-1][0] == "e":
        vp = Ptr(f.root, f.path[:-1], f.eps[:-1]); ex.check_access(st, vp, ins); fs = ex.vsize(st, vp)
    else: fs = ex.ty_at(f.root, f.path[:-1]).n
    ex.oblige(st, z3.Or(tz(lo) == tz(hi), land(tz(lo) >= 0, tz(lo) <= tz(hi), tz(hi) <= tz(fs))), "bounds", "range lies in the container", ins)
    return f, lo, hi


def argm(mx):
    def c(ex, st, ins, a, G):
        f, lo, hi = rng(ex, st, a[0], a[1], ins)
        lp, lt = ex.leafptr(f)
        n = simp(tz(hi) - tz(lo))
        r = ex.fresh(st, site(ex, ins), "len")
        st.assume(z3.Implies(tz(n) > 0, z3.And(r >= 0, r < tz(n))))
        st.assume(z3.Implies(tz(n) <= 0, r == 0))
        k = z3.Int("q!arg")
        at = lambda i: tz(ex.read(st, lp.root, lp.shape(), lp.idx()[:-1] + [simp(tz(lo) + i)]))
        b = at(k) <= at(r) if mx else at(k) >= at(r)
        st.pc.append(QF([k], z3.And(k >= 0, k < tz(n)), b, [(0,)]))
        st.gh["arg"] = st.gh.get("arg", ()) + ((str(r), lp.root.name, lp.shape()),) if False else st.gh.get("arg")
        return (r,)
    return c


def vp_copy(ex, st, ins, a, G):
    f, lo, hi = rng(ex, st, a[0], a[1], ins)
    o = getp(a[2])
    n = simp(tz(hi) - tz(lo))
    if isinstance(lo, int) and isinstance(hi, int) and 0 <= n <= 8 and o.path and o.path[-1][0] in "ea":
        # a few elements: one after the other
        at = lambda p, x: Ptr(p.root, p.path[:-1] + ((p.path[-1][0], x),), p.eps)
        for j in range(n):
            v = scalar(ex, st, at(f, lo + j), ins); q = at(o, simp(tz(o.path[-1][1]) + j))
            lp, lt = ex.leafptr(q); ex.check_access(st, q, ins); ex.write(st, lp.root, lp.shape(), lp.idx(), v)
        return
    if not o.path or o.path[-1][0] not in "ea":
        raise Unsupported("copy destination")
    if o.path[-1][0] == "e":
        vp = Ptr(o.root, o.path[:-1], o.eps[:-1]); ex.check_access(st, vp, ins); fs = ex.vsize(st, vp)
    else: fs = ex.ty_at(o.root, o.path[:-1]).n
    o0 = o.path[-1][1]
    ex.oblige(st, z3.Or(tz(n) == 0, land(tz(o0) >= 0, tz(o0) + tz(n) <= tz(fs))), "bounds", "copy destination large enough", ins)
    lp, lt = ex.leafptr(f); op, ot = ex.leafptr(o)
    if lt.kind != ot.kind or lt.size != ot.size: raise Unsupported("converting copy")
    sv = ex.cell(st, lp.root, lp.shape(), len(lp.idx()))
    if not isinstance(sv, z3.ExprRef): sv = tz(sv)
    k = len(op.idx()) - 1
    pairs = list(zip(X, lp.idx()[:-1])) + [(X[len(lp.idx()) - 1], simp(X[k] - tz(o0) + tz(lo)))]
    ex.setrange(st, op.root, op.shape(), op.idx()[:-1], o0, simp(tz(o0) + tz(n)), subst(sv, pairs))


def vp_fill(ex, st, ins, a, G):
    f, lo, hi = rng(ex, st, a[0], a[1], ins)
    v = scalar(ex, st, a[2], ins)
    lp, lt = ex.leafptr(f)
    ex.setrange(st, lp.root, lp.shape(), lp.idx()[:-1], lo, hi, tz(v))


def quoted_out(ex, st, ins, a, G):
    import iomode
    return iomode.op_out(ex, st, ins, a[0], "quoted", strval(ex, st, a[1], ins))


def quoted_in(ex, st, ins, a, G):
    import iomode
    return iomode.op_in(ex, st, ins, a[0], "quoted", a[1])


FREE = {"__vp_argmin": argm(False), "__vp_argmax": argm(True), "__vp_copy": vp_copy, "__vp_fill": vp_fill,
        "__vp_quoted_out": quoted_out, "__vp_quoted_in": quoted_in}


# ------------------------------------------------------------------ strings
def strobj(ex, st, p, ins):
    p = getp(p)
    ex.check_access(st, p, ins)
    path = p.path; t = ex.ty_at(p.root, path)
    while t is not None and t.kind in ("struct", "arr") and (t.kind == "arr" or t.fields):
        path = path + ((("f", 0) if t.kind == "struct" else ("a", 0)),); t = t.fields[0][1] if t.kind == "struct" else t.elem
    if t is None or t.kind != "str": raise Unsupported("string object at %r" % (p,))
    return Ptr(p.root, path, p.eps)


def strval(ex, st, p, ins):
    p = strobj(ex, st, p, ins)
    v = ex.read(st, p.root, p.shape(), p.idx())
    if isinstance(v, Choice): raise Fork(v.c)
    return ex.defined(st, v, ins)


def strset(ex, st, p, v, ins):
    p = strobj(ex, st, p, ins)
    ex.write(st, p.root, p.shape(), p.idx(), v)


def pystr(v):
    if isinstance(v, str): return v
    if isinstance(v, z3.ExprRef) and v.num_args() == 0 and v.decl().name().startswith("str!"): return v.decl().name()[4:]
    return None


def slen(v):
    p = pystr(v)
    return len(p) if p is not None else sym("strlen", "len", [v])


def scat(a, b):
    pa, pb = pystr(a), pystr(b)
    if pa is not None and pb is not None: return pa + pb
    return sym("strcat", "str", [a, b])


def string_ctor(ex, st, ins, a, G):
    cls, m, args = _method(G.dem)
    if len(a) == 1: v = ""
    elif "char const*" in args and len(a) == 2: v = ex.cstr(st, a[1])
    elif "string" in args and len(a) == 2: v = strval(ex, st, a[1], ins)
    else: v = ex.fresh(st, site(ex, ins), "str")
    strset(ex, st, a[0], v, ins)


def cval(ex, st, a, args, ins):
    """char const* | string const& argument"""
    if "char const*" in args: return ex.cstr(st, a)
    if "string" in args: return strval(ex, st, a, ins)
    if isinstance(a, int): return chr(a)
    return sym("chr2str", "str", [a])


def str_assign(ex, st, ins, a, G):
    args = _method(G.dem)[2]
    strset(ex, st, a[0], cval(ex, st, a[1], args, ins), ins); return (a[0],)


def str_append(ex, st, ins, a, G):
    args = _method(G.dem)[2]
    strset(ex, st, a[0], scat(strval(ex, st, a[0], ins), cval(ex, st, a[1], args, ins)), ins); return (a[0],)


def str_plus(ex, st, ins, a, G):
    args = _method(G.dem)[2]
    l, r = args.rsplit(", ", 1) if ", " in args else (args, args)
    v = scat(cval(ex, st, a[1], l, ins), cval(ex, st, a[2], r, ins))
    strset(ex, st, a[0], v, ins)


def to_string(ex, st, ins, a, G):
    v = a[1]
    strset(ex, st, a[0], str(v) if isinstance(v, int) else sym("tostr", "str", [v]), ins)


def str_size(ex, st, ins, a, G): return (slen(strval(ex, st, a[0], ins)),)


def str_index(ex, st, ins, a, G):
    v = strval(ex, st, a[0], ins); i = a[1]
    ex.oblige(st, simp(tz(i) <= tz(slen(v))), "bounds", "character index in range", ins)
    p = pystr(v)
    if p is not None and isinstance(i, int): c = ord(p[i]) if i < len(p) else 0
    else: c = sym("strch", "u8", [v, i])
    nm = "chr!" + site(ex, ins)
    r = ex.root(nm, I8, "undef")
    st.mem[(nm, ())] = c
    return (Ptr(r),)


def str_substr(ex, st, ins, a, G):
    # (sret, this, pos, n)
    v = strval(ex, st, a[1], ins); pos, n = a[2], a[3]
    p = pystr(v)
    if p is not None and isinstance(pos, int) and isinstance(n, int):
        if pos > len(p): return [("throw", st, "out_of_range")]
        strset(ex, st, a[0], p[pos:pos + n], ins); return
    if not ex.decide(st, tz(pos) <= tz(slen(v))): return [("throw", st, "out_of_range")]
    if not isinstance(n, int) and ex.prove(st, tz(n) >= tz(slen(v)) - tz(pos)): n = M64 - 1
    if pos == 0 and n == 1 and not isinstance(v, str):
        for ch in "$":
            if ex.prove(st, z3.And(slen(v) >= 1, tz(eq(sym("strch", "u8", [v, 0]), ord(ch))))):
                strset(ex, st, a[0], ch, ins); return
    strset(ex, st, a[0], sym("strsub", "str", [v, pos, n]), ins)


def str_eq(ex, st, ins, a, G):
    return (simp(seq(strval(ex, st, a[0], ins), strval(ex, st, a[1], ins))),)


def seq(a, b):
    pa, pb = pystr(a), pystr(b)
    if pa is not None and pb is not None: return pa == pb
    return eq(a, b)


def str_eqc(ex, st, ins, a, G):
    return (simp(seq(strval(ex, st, a[0], ins), ex.cstr(st, a[1]))),)


def str_lt(ex, st, ins, a, G):
    x, y = strval(ex, st, a[0], ins), strval(ex, st, a[1], ins)
    if pystr(x) is not None and pystr(y) is not None: return (pystr(x) < pystr(y),)
    return (sym("strlt", "bool", [x, y]),)


def str_cstr(ex, st, ins, a, G):
    p = strobj(ex, st, a[0], ins)
    return (Ptr(p.root, p.path + (("f", "cstr"),), p.eps),)


def str_clear(ex, st, ins, a, G): strset(ex, st, a[0], "", ins)


def str_compare(ex, st, ins, a, G):
    args = _method(G.dem)[2]
    x = strval(ex, st, a[0], ins)
    if len(a) == 2:
        y = strval(ex, st, a[1], ins)
        e = simp(seq(x, y))
        c = sym("strcmp", "i32", [x, y])
        st.assume(simp(eq(c == 0, e)))
        return (c,)
    pos, n = a[1], a[2]
    y = cval(ex, st, a[3], args, ins)
    px, py = pystr(x), pystr(y)
    if px is not None and py is not None and isinstance(pos, int) and isinstance(n, int):
        if pos > len(px): return [("throw", st, "out_of_range")]
        z = px[pos:pos + n]
        return ((z > py) - (z < py),)
    if not ex.decide(st, tz(pos) <= tz(slen(x))): return [("throw", st, "out_of_range")]
    return (sym("strcmp4", "i32", [x, pos, n, y]),)


def str_find(ex, st, ins, a, G):
    args = _method(G.dem)[2]
    x = strval(ex, st, a[0], ins); y = cval(ex, st, a[1], args, ins)
    px, py = pystr(x), pystr(y)
    rev = "rfind" in G.dem
    if px is not None and py is not None and isinstance(a[2], int):
        r = px.rfind(py, 0, min(a[2], len(px)) + len(py)) if rev else px.find(py, a[2])
        return (r if r >= 0 else M64 - 1,)
    return (sym("strrfind" if rev else "strfind", "u64", [x, y, a[2]]),)


def str_swap(ex, st, ins, a, G):
    x, y = strval(ex, st, a[0], ins), strval(ex, st, a[1], ins)
    strset(ex, st, a[0], y, ins); strset(ex, st, a[1], x, ins)


STRM = {"operator=": str_assign, "operator+=": str_append, "clear": str_clear, "size": str_size, "operator[]": str_index,
        "substr": str_substr, "__eq": str_eq, "__eqc": str_eqc, "__lt": str_lt, "c_str": str_cstr, "compare": str_compare,
        "find": str_find, "rfind": str_find, "swap": str_swap}


# ------------------------------------------------------------------ memory blocks
def memcpy_(ex, st, ins, a, G):
    d, s_, n = getp(a[0]), a[1], a[2]
    if not isinstance(n, int): raise Unsupported("memcpy size")
    s_ = getp(s_)
    ex.check_access(st, d, ins); ex.check_access(st, s_, ins)
    dp, dt = ex.objptr(d, n)
    if dt is None or dt.size != n: dp, dt = ex.enclosing(d, n)
    if s_.root.name.startswith("@"):
        g = ex.gconst(s_.root.name[1:])
        if not g or g[0].size != n: raise Unsupported("memcpy from global")
        agg = ex.aggz(AggZ(g[2], g[0]))
        for o, sz, lt, v in agg.items:
            tgt, tt = ex.leafptr(ex.descend(dp, o))
            ex.write(st, tgt.root, tgt.shape(), tgt.idx(), v)
        return
    sp, t2 = ex.objptr(s_, n)
    if t2 is None or t2.size != n: sp, t2 = ex.enclosing(s_, n)
    if dt.kind != t2.kind:
        if dt.kind in ("int", "fp") and t2.kind in ("int", "fp") and dt.kind != t2.kind: raise Unsupported("bit cast")
        raise Unsupported("memcpy between types")
    ex.copy_tree(st, dp, sp, dt)


def memset_(ex, st, ins, a, G):
    d, v, n = getp(a[0]), a[1], a[2]
    if v != 0 or not isinstance(n, int): raise Unsupported("memset")
    t = ex.ty_at(d.root, d.path)
    done = 0
    # cover the objects of [0, n)
    p, t = ex.objptr(d, n)
    if t is None: raise Unsupported("memset")
    if t.size == n:
        zero_tree(ex, st, p, t); return
    # a prefix of the object (several leading members)
    path = d.path; t = ex.ty_at(d.root, path)
    if t.kind == "struct" and n < t.size:
        for i, (o, ft) in enumerate(t.fields):
            if o >= n: break
            if ft.size == 0: continue
            if o + ft.size > n: raise Unsupported("memset prefix")
            zero_tree(ex, st, Ptr(d.root, path + (("f", i),), d.eps), ft)
        return
    try:
        q, t = ex.enclosing(d, n); zero_tree(ex, st, q, t)
    except Unsupported:
        # a run of members starting inside a struct
        p2, t2 = d, ex.ty_at(d.root, d.path)
        off = 0
        while off < n:
            x, lt = ex.leafptr(ex.descend(d, off))
            if lt is None or lt.size == 0: raise
            ex.write(st, x.root, x.shape(), x.idx(), zero(lt)); off += lt.size


def zero(t): return {"fp": fpc(0.0), "ptr": NULL}.get(t.kind, False if t.kind == "int" and t.bits == 1 else 0)


def zero_tree(ex, st, p, t):
    if t.kind == "struct":
        for i, (o, ft) in enumerate(t.fields):
            if ft.size: zero_tree(ex, st, Ptr(p.root, p.path + (("f", i),), p.eps), ft)
    elif t.kind == "arr":
        if t.n > 64: raise Unsupported("big array")
        for i in range(t.n): zero_tree(ex, st, Ptr(p.root, p.path + (("a", i),), p.eps), t.elem)
    elif t.kind == "vec": ex.write(st, p.root, p.shape() + ("size",), p.idx(), 0)
    elif t.kind in ("str",): ex.write(st, p.root, p.shape(), p.idx(), "")
    elif t.kind in ("set", "map"): ex.init_tree(st, p, t)
    elif t.kind == "ios": pass
    else:
        x = p
        while x.path and x.path[-1] == ("f", 0) and False: pass
        q, lt = ex.leafptr(p)
        ex.write(st, q.root, q.shape(), q.idx(), zero(t))


# ------------------------------------------------------------------ exceptions
def alloc_exc(ex, st, ins, a, G):
    r = ex.root("exc!" + site(ex, ins), None, "undef")
    return (Ptr(r),)


def throw_(ex, st, ins, a, G):
    o = ins.ops[1]
    nm = o.name if isinstance(o, Glob) else repr(o)
    m = re.match(r"_ZTI(?:N?(?:5mshio|St))?(\d+)(\w+)", nm)
    what = nm
    if m:
        k = int(m.group(1)); what = m.group(2)[:k]
    return [("throw", st, what)]


# ------------------------------------------------------------------ sets and maps of integers (ordered)
# ghost cells: member(x) ; size ; enumeration via rank/nth functions constrained on use
def s_init(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); ex.init_tree(st, p, ex.ty_at(p.root, p.path))


def has_key(ex, p):
    t = ex.ty_at(p.root, p.path)
    return p.shape() + (("*",) if t.kind == "set" else ("*", "has"))


def s_hast(ex, st, p, k): return ex.read(st, p.root, has_key(ex, p), p.idx() + [k])


def s_ins(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); k = scalar(ex, st, a[1], ins)
    was = s_hast(ex, st, p, k)
    ex.write(st, p.root, has_key(ex, p), p.idx() + [k], True)
    return (simp(lnot(was)),)


def s_has(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); return (s_hast(ex, st, p, scalar(ex, st, a[1], ins)),)


def s_clear(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); ex.init_tree(st, p, ex.ty_at(p.root, p.path))


def s_assign(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); q = vobj(ex, st, a[1], ins)
    ex.copy_tree(st, p, q, ex.ty_at(p.root, p.path))


def enum_of(ex, st, p, ins):
    """(n, nth) : strictly increasing enumeration of the members of the set/map at p"""
    key = has_key(ex, p); idx = p.idx(); n = len(idx)
    memb = ex.cell(st, p.root, key, n + 1)
    if not isinstance(memb, z3.ExprRef): memb = tz(memb)
    memb = simp(subst(memb, list(zip(X, idx))))
    memb = tz(memb)
    # name determined by the membership term: same set, same enumeration
    import hashlib
    free = [t for t in apps(memb).values() if t.num_args() == 0 and t.sort() == INT and t.get_id() != X[n].get_id()]
    free = sorted({t.get_id(): t for t in free}.values(), key=lambda t: str(t))
    free = [t for t in free if any(t.eq(i) for (_, i) in st.its) or contains_any(idx, t)]
    cm = subst(memb, [(t, z3.Int("E!%d" % i)) for i, t in enumerate(free)] + [(X[n], z3.Int("E!x"))])
    h = hashlib.sha1(cm.sexpr().encode()).hexdigest()[:10]
    N = sym("card!" + h, "len", free)
    nth = lambda i: sym("nth!" + h, "i32", free + [tz(i)])
    i = z3.Int("q!ei"); x = z3.Int("q!ex")
    rank = lambda v: sym("rank!" + h, "len", free + [tz(v)])
    mem = lambda v: tz(simp(subst(memb, [(X[n], tz(v))])))
    if ("enum", h, tuple(str(t) for t in free)) not in st.gh:
        st.gh[("enum", h, tuple(str(t) for t in free))] = True
        st.pc.append(QF([i], z3.And(i >= 0, i < N), z3.And(mem(nth(i)), rank(nth(i)) == i)))
        st.pc.append(QF([x], z3.And(x >= -M31, x < M31, mem(x)), z3.And(rank(x) >= 0, rank(x) < N, nth(rank(x)) == x)))
        j = z3.Int("q!ej")
        st.pc.append(QF([i, j], z3.And(0 <= i, i < j, j < N), nth(i) < nth(j)))
    return N, nth, rank


def contains_any(idx, t):
    return any(isinstance(i, z3.ExprRef) and t.get_id() in apps(i) for i in idx)


def s_size(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); return (enum_of(ex, st, p, ins)[0],)


def s_nth(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    N, nth, rank = enum_of(ex, st, p, ins)
    ex.oblige(st, land(tz(a[1]) >= 0, tz(a[1]) < N), "bounds", "iterator dereferenceable", ins)
    nm = "key!" + site(ex, ins)
    r = ex.root(nm, I32, "undef")
    v = nth(a[1])
    # the position find() returned: the key looked for
    i = a[1]
    if z3.is_app_of(i, z3.Z3_OP_ITE) if isinstance(i, z3.ExprRef) else False: i = i.arg(1)
    if isinstance(i, z3.ExprRef) and z3.is_app(i) and i.decl().name().startswith("rank!"):
        x = i.arg(i.num_args() - 1)
        if same(simp(rank(x)), i) and ex.prove(st, eq(v, x)): v = x
    st.mem[(nm, ())] = v
    return (Ptr(r),)


def s_rank(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins)
    return (enum_of(ex, st, p, ins)[2](scalar(ex, st, a[1], ins)),)


def m_val(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); k = scalar(ex, st, a[1], ins)
    return (Ptr(p.root, p.path + (("m", k),), p.eps),)


def m_add(ex, st, ins, a, G):
    p = vobj(ex, st, a[0], ins); k = scalar(ex, st, a[1], ins)
    was = s_hast(ex, st, p, k)
    if was is not False and not ex.prove(st, lnot(was)):
        if ex.decide(st, was): return (False,)
    ex.write(st, p.root, has_key(ex, p), p.idx() + [k], True)
    vt = ex.ty_at(p.root, p.path).elem
    ex.copy_tree(st, Ptr(p.root, p.path + (("m", k),), p.eps), getp(a[2]), vt)
    return (True,)


SETM = {"__init": s_init, "__ins": s_ins, "__has": s_has, "clear": s_clear, "size": s_size, "__assign": s_assign, "__nth": s_nth, "__rank": s_rank}
MAPM = {"__init": s_init, "__has": s_has, "clear": s_clear, "size": s_size, "__assign": s_assign, "__nthkey": s_nth, "__rank": s_rank, "__val": m_val, "__add": m_add}
