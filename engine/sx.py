"""Symbolic state: typed memory, values, merging."""
from vc import *
import vc
from ir import Ty, I1, I8, I32, I64, DBL, PTR


class Fork(Exception):
    def __init__(s, cond): s.cond = cond


class Root:
    __slots__ = ("name", "ty", "pol", "size", "ro")
    def __init__(s, name, ty, pol, ro=False):
        s.name, s.ty, s.pol, s.ro = name, ty, pol, ro
    def __repr__(s): return s.name


class Ptr:
    """root + path; path steps ('f',i) inline field, ('a',t) inline array element, ('e',t) vector element, ('o',n) untyped offset,
    ('m',t) map value.  eps: epochs recorded for the 'e' steps."""
    __slots__ = ("root", "path", "eps")

    def __init__(s, root, path=(), eps=()):
        s.root, s.path, s.eps = root, path, eps

    def __repr__(s): return "&%s%s" % (s.root, "".join("." + str(x[1]) if x[0] in "fo" else "[%s]" % (x[1],) for x in s.path))

    def shape(s): return tuple(x[1] if x[0] == "f" else (("o", x[1]) if x[0] == "o" else "*") for x in s.path)
    def idx(s): return [x[1] for x in s.path if x[0] in "aem"]

    def with_idx(s, idx, eps=None):
        it = iter(idx)
        return Ptr(s.root, tuple((x[0], next(it)) if x[0] in "aem" else x for x in s.path), s.eps if eps is None else tuple(eps))


class FnV:
    """pointer to a function"""
    def __init__(s, name): s.name = name
    def __repr__(s): return "fn " + s.name


class NullP:
    def __repr__(s): return "null"


NULL = NullP()


class Undef:
    def __repr__(s): return "undef"


UNDEF = Undef()


class Maybe:
    """value that is only defined when d holds"""
    __slots__ = ("v", "d")
    def __init__(s, v, d): s.v, s.d = v, d
    def __repr__(s): return "maybe(%s)" % (s.d,)


class Choice:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b


class Agg:
    """first class aggregate / several leaves moved by one access: list of (offset, size, ty, value)"""
    __slots__ = ("items",)
    def __init__(s, items): s.items = items


class PInt:
    """ptrtoint"""
    __slots__ = ("p",)
    def __init__(s, p): s.p = p


def maybe(v, d):
    if d is True: return v
    if d is False: return UNDEF
    if isinstance(v, Undef): return UNDEF
    if isinstance(v, Maybe): return Maybe(v.v, land(v.d, d))
    return Maybe(v, d)


# value <-> (shape, terms)
def decompose(v):
    if isinstance(v, (z3.ExprRef, int, bool, str)): return ("t",), [v]
    if isinstance(v, Ptr): return ("p", v.root.name, tuple((x[0], None) if x[0] in "aem" else x for x in v.path), len(v.eps)), v.idx() + list(v.eps)
    if isinstance(v, Maybe):
        s, t = decompose(v.v); return ("m", s), t + [v.d]
    if hasattr(v, "decompose"): return v.decompose()
    if isinstance(v, Agg):
        ss = []; tt = []
        for o, sz, ty, x in v.items:
            s, t = decompose(x); ss.append((o, sz, s, len(t))); tt += t
        return ("agg", tuple(ss)), tt
    return ("o", id(v)), []


def recompose(v, terms):
    if isinstance(v, (z3.ExprRef, int, bool, str)): return terms[0]
    if isinstance(v, Ptr):
        n = len(v.idx()); return v.with_idx(terms[:n], terms[n:])
    if isinstance(v, Maybe): return maybe(recompose(v.v, terms[:-1]), terms[-1])
    if hasattr(v, "recompose"): return v.recompose(terms)
    if isinstance(v, Agg):
        out = []; k = 0
        for o, sz, ty, x in v.items:
            s, t = decompose(x)
            out.append((o, sz, ty, recompose(x, terms[k:k + len(t)]))); k += len(t)
        return Agg(out)
    return v


def vsame(a, b):
    if a is b: return True
    sa, ta = decompose(a); sb, tb = decompose(b)
    return sa == sb and len(ta) == len(tb) and all(same(x, y) for x, y in zip(ta, tb))


def vsubst(v, pairs):
    if v is None or isinstance(v, (int, bool, str)): return v
    if isinstance(v, z3.ExprRef): return simp(subst(v, pairs))
    if isinstance(v, Choice): return Choice(subst(v.c, pairs), vsubst(v.a, pairs), vsubst(v.b, pairs))
    s, t = decompose(v)
    if not t: return v
    return recompose(v, [simp(subst(x, pairs)) if isinstance(x, z3.ExprRef) else x for x in t])


def vmerge(c, a, b):
    """ite(c,a,b) on values; None if impossible"""
    if vsame(a, b): return a
    if isinstance(a, Choice) or isinstance(b, Choice): return Choice(c, a, b)
    if isinstance(a, Undef) or isinstance(b, Undef) or isinstance(a, Maybe) or isinstance(b, Maybe):
        da = False if isinstance(a, Undef) else (a.d if isinstance(a, Maybe) else True)
        db = False if isinstance(b, Undef) else (b.d if isinstance(b, Maybe) else True)
        va = a.v if isinstance(a, Maybe) else a
        vb = b.v if isinstance(b, Maybe) else b
        if isinstance(va, Undef): va = vb
        if isinstance(vb, Undef): vb = va
        v = vmerge(c, va, vb)
        if isinstance(v, Choice): return Choice(c, a, b)
        return maybe(v, simp(ite(c, da, db)))
    sa, ta = decompose(a); sb, tb = decompose(b)
    if sa == sb and len(ta) == len(tb) and sa[0] != "o":
        try:
            return recompose(a, [x if same(x, y) else simp(ite(c, x, y)) for x, y in zip(ta, tb)])
        except z3.Z3Exception:
            return Choice(c, a, b)
    if hasattr(a, "nomerge") or hasattr(b, "nomerge"): return None
    return Choice(c, a, b)


class State:
    __slots__ = ("mem", "pc", "regs", "its", "occ", "symdec", "checked", "gh")

    def __init__(s):
        s.mem = {}; s.pc = []; s.regs = {}; s.its = (); s.occ = {}; s.symdec = False
        s.checked = frozenset(); s.gh = {}

    def copy(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.pc = list(s.pc); n.regs = dict(s.regs); n.its = s.its; n.occ = dict(s.occ)
        n.symdec = s.symdec; n.checked = s.checked; n.gh = dict(s.gh)
        return n

    def assume(s, c):
        c = simp(c) if not isinstance(c, QF) else c
        if c is True: return
        if isinstance(c, z3.ExprRef) and z3.is_and(c):
            for x in c.children(): s.pc.append(x)
            return
        s.pc.append(c)


def pcsame(a, b):
    if a is b: return True
    return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)


def merge_states(ex, a, b):
    """join of two states at the same program point, or None"""
    n = 0
    while n < len(a.pc) and n < len(b.pc) and pcsame(a.pc[n], b.pc[n]): n += 1
    ra, rb = a.pc[n:], b.pc[n:]
    fa = [x for x in ra if not isinstance(x, QF)]; fb = [x for x in rb if not isinstance(x, QF)]
    qa = [x for x in ra if isinstance(x, QF)]; qb = [x for x in rb if isinstance(x, QF)]
    if any(x is False for x in fa): return b
    if any(x is False for x in fb): return a
    if not fa or not fb:
        return None if (a.mem != b.mem) else None
    # selector: first plain facts that exclude each other
    sel = None
    if simp(lnot(fa[0])) is not None and pcsame(tz(simp(lnot(fa[0]))), tz(simp(fb[0]))): sel = fa[0]
    else: sel = land(*fa) if len(fa) < 6 else land(*fa)
    m = State()
    for k in set(a.gh) | set(b.gh):
        va, vb = a.gh.get(k), b.gh.get(k)
        if va is vb or va == vb: m.gh[k] = va
        elif k[0] == "enum": pass          # facts about an enumeration: stated again when needed
        else: return None
    mem = {}
    for k in set(a.mem) | set(b.mem):
        va = a.mem.get(k); vb = b.mem.get(k)
        if va is None or vb is None:
            if ex.roots[k[0]].pol == "undef":
                va = UNDEF if va is None else va
                vb = UNDEF if vb is None else vb
                if ex.key_arity(k) > 0: continue
            else:
                va = ex.initval(k) if va is None else va
                vb = ex.initval(k) if vb is None else vb
        v = vmerge(sel, va, vb)
        if v is None and k[1] == ("cur",):
            import gram
            v = vmerge(sel, gram.settle(ex, a, va), gram.settle(ex, b, vb))
        if v is None: return None
        mem[k] = v
    m.mem = mem
    for k in a.regs:
        if k in b.regs:
            va, vb = a.regs[k], b.regs[k]
            v = va if va is vb else vmerge(sel, va, vb)
            if v is not None: m.regs[k] = v
    m.pc = list(a.pc[:n])
    d = simp(lor(land(*fa), land(*fb)))
    if d is not True: m.pc.append(tz(d))
    for q in qa: m.pc.append(q if any(q is y for y in qb) else q.guarded(tz(sel)))
    for q in qb:
        if not any(q is y for y in qa): m.pc.append(q.guarded(tz(simp(lnot(sel)))))
    m.its = a.its
    m.occ = {k: max(a.occ.get(k, 0), b.occ.get(k, 0)) for k in set(a.occ) | set(b.occ)}
    m.symdec = a.symdec or b.symdec
    m.checked = a.checked & b.checked
    return m
