"""Contracts of the stream operations, by kind of stream:
  Sink      output is not looked at                 Writer  output compared with a grammar (ghost content)
  Havoc     input is an arbitrary byte sequence     Reader  input is a grammar's ghost content
  FileIn / FileOut  file streams whose opening and writing may fail"""
from sx import *
from vc import *
import vc, gram
from ir import *


def lookup(cls, m, args, dem):
    """contract of a member of ios/istream/ostream..., or of a free stream function"""
    base = m.split("::")[-1]
    if base.startswith("operator<<") or "operator<<" in dem.split("(")[0]:
        a = (args.split(", ")[-1] if not cls else args)
        if not cls: a = dem[dem.index("(") + 1:dem.rindex(")")].split(", ")[-1]
        k = {"int": "i32", "unsigned long": "u64", "unsigned int": "u32", "long": "i64", "double": "f64", "char const*": "lit", "char": "chr",
             "std::string const&": "str", "bool": "bool", "unsigned long long": "u64", "long long": "i64", "unsigned": "u32"}.get(a)
        if k is None: return None
        def c(ex, st, ins, ar, G):
            import libspec
            v = ar[1]
            if k == "lit": v = ex.cstr(st, v)
            elif k == "str": v = libspec.strval(ex, st, v, ins)
            elif k == "chr":
                if z3.is_expr(v): v = simp(v)
                while z3.is_expr(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
                    v = v.arg(1) if ex.decide(st, v.arg(0)) else v.arg(2)
                    v = simp(v)
                if z3.is_expr(v) and z3.is_int_value(v): v = v.as_long()
                if not isinstance(v, int): return op_out(ex, st, ins, ar[0], "anychar", v)
                v = chr(v)
            if isinstance(v, (Undef, Maybe)): v = ex.defined(st, v, ins)
            return op_out(ex, st, ins, ar[0], k, v)
        return c
    if base.startswith("operator>>") or "operator>>" in dem.split("(")[0]:
        a = args if cls else dem[dem.index("(") + 1:dem.rindex(")")].split(", ")[-1]
        k = {"int&": "i32", "unsigned long&": "u64", "unsigned int&": "u32", "long&": "i64", "double&": "f64", "std::string&": "str", "char&": "chr",
             "unsigned long long&": "u64", "long long&": "i64", "unsigned&": "u32"}.get(a)
        if k is None: return None
        return lambda ex, st, ins, ar, G: op_in(ex, st, ins, ar[0], k, ar[1])
    if base == "endl": return lambda ex, st, ins, ar, G: op_out(ex, st, ins, ar[0], "lit", "\n")
    if base == "flush": return lambda ex, st, ins, ar, G: call(ex, st, ins, ar[0], "flush", [], ar[0])
    if base in ("fixed", "scientific", "hex", "dec", "defaultfloat", "boolalpha", "noboolalpha"):
        return lambda ex, st, ins, ar, G: call(ex, st, ins, ar[0], "manip", [base], ar[0])
    if base == "ws": return lambda ex, st, ins, ar, G: call(ex, st, ins, ar[0], "ws", [], ar[0])
    if cls in ("ios", "istream", "ostream", "ifstream", "ofstream", "stringstream", "istringstream"):
        if base == cls: return lambda ex, st, ins, ar, G: ctor(ex, st, ins, cls, ar, args)
        if base == "str" and len(args) == 0:
            def s_(ex, st, ins, ar, G):
                import libspec
                h = handler(ex, ar[1])
                libspec.strset(ex, st, ar[0], ex.fresh(st, libspec.site(ex, ins), "str"), ins)
            return s_
        return lambda ex, st, ins, ar, G: member(ex, st, ins, base, ar, G)
    return None


def sroot(p):
    if isinstance(p, Choice): raise Fork(p.c)
    if not isinstance(p, Ptr): raise Unsupported("stream %r" % (p,))
    return p.root.name


def handler(ex, p):
    n = sroot(p)
    h = ex.streams.get(n)
    if h is None:
        if n.startswith("@") and ("cerr" in n or "cout" in n or "clog" in n): h = Sink(n)
        else: raise Unsupported("stream " + n)
        ex.streams[n] = h
    return h


def ctor(ex, st, ins, cls, ar, args):
    n = sroot(ar[0])
    if cls == "stringstream": ex.streams[n] = Sink(n)
    elif cls in ("ofstream", "ifstream") and (ex.fileout if cls == "ofstream" else ex.filein) is not None:
        h = ex.streams[n] = (ex.fileout if cls == "ofstream" else ex.filein)("file!" + n)
        if len(ar) > 1: h.open(ex, st, ins, *ar[1:])
        else: h.init(st, opened=False)
    else: raise Unsupported("stream constructor " + cls)


def op_out(ex, st, ins, p, kind, v):
    h = handler(ex, p)
    r = h.out(ex, st, ins, kind, v)
    return (p,) if r is None else r


def op_in(ex, st, ins, p, kind, dst):
    h = handler(ex, p)
    r = h.inp(ex, st, ins, kind, dst)
    return (p,) if r is None else r


def call(ex, st, ins, p, name, a, ret):
    h = handler(ex, p)
    f = getattr(h, name, None)
    if f is None: raise Unsupported("stream operation " + name)
    f(ex, st, ins, *a)
    return (ret,)


def member(ex, st, ins, name, ar, G):
    h = handler(ex, ar[0])
    f = getattr(h, {"get": "get", "fail": "fail", "good": "good", "eof": "eof", "bad": "bad"}.get(name, name), None)
    if f is None: raise Unsupported("stream member " + name)
    r = f(ex, st, ins, *ar[1:])
    if G.retty.kind == "void": return None
    if G.retty.kind == "ptr": return (ar[0],)
    return (r,)


def site(ex, ins):
    import libspec
    return libspec.site(ex, ins)


class Sink:
    """output stream whose content is irrelevant to the property"""
    def __init__(s, n): s.n = n
    def out(s, ex, st, ins, kind, v): return None
    def write(s, ex, st, ins, p, n): rawsrc(ex, st, ins, p, n)
    def put(s, ex, st, ins, c): pass
    def flush(s, ex, st, ins): pass
    def manip(s, ex, st, ins, w): pass
    def precision(s, ex, st, ins, *n): return ex.fresh(st, "prec" + site(ex, ins), "i32")
    def width(s, ex, st, ins, *n): return 0
    def setf(s, ex, st, ins, *n): return 0
    def flags(s, ex, st, ins, *n): return 0
    def unsetf(s, ex, st, ins, *n): return 0
    def fill(s, ex, st, ins, *n): return 32
    def fail(s, ex, st, ins): return ex.fresh(st, "fail" + site(ex, ins), "bool")
    def good(s, ex, st, ins): return ex.fresh(st, "good" + site(ex, ins), "bool")
    def bad(s, ex, st, ins): return ex.fresh(st, "bad" + site(ex, ins), "bool")
    def eof(s, ex, st, ins): return ex.fresh(st, "eof" + site(ex, ins), "bool")


def rawspan(ex, st, ins, p, n, what):
    """(leaf ptr, leaf type, element count) of n bytes at p; bounds obligation"""
    if isinstance(p, Choice): raise Fork(p.c)
    if not isinstance(p, Ptr): raise Unsupported("raw access through %r" % (p,))
    if isinstance(n, int) and n >= M63: n -= M64
    lp, lt = ex.leafptr(p)
    if lt is None or lt.kind not in ("int", "fp"): raise Unsupported("raw access to %r" % (lt,))
    w = lt.size
    k = vc_div(ex, st, n, w)
    # element run inside a vector / array, or a single object
    if lp.path and lp.path[-1][0] == "e":
        vp = Ptr(lp.root, lp.path[:-1], lp.eps[:-1])
        ex.check_access(st, vp, ins)
        sz = ex.vsize(st, vp)
        i = lp.path[-1][1]
        ex.oblige(st, z3.Or(tz(k) <= 0, land(tz(i) >= 0, tz(i) + tz(k) <= tz(sz))), "bounds", what + " stays inside the vector", ins)
        ep = lp.eps[-1] if lp.eps else None
        cur = ex.vepoch(st, vp)
        if ep is not None and not same(ep, cur): ex.oblige(st, eq(ep, cur), "dangling", "pointer still valid", ins, exact=False)
        return lp, lt, k
    if lp.path and lp.path[-1][0] == "a":
        at = ex.ty_at(lp.root, lp.path[:-1]); i = lp.path[-1][1]
        ex.check_access(st, Ptr(lp.root, lp.path[:-1], lp.eps), ins)
        if isinstance(k, int) and k == 1: 
            ex.check_access(st, lp, ins); return lp, lt, k
        ex.oblige(st, z3.Or(tz(k) <= 0, land(tz(i) >= 0, tz(i) + tz(k) <= at.n)), "bounds", what + " stays inside the array", ins)
        return lp, lt, k
    if isinstance(k, int) and k > 1 or not isinstance(k, int):
        # array object whose index was stripped, or several members
        t = ex.ty_at(p.root, p.path)
        path = p.path
        while t is not None and t.kind == "struct" and t.fields: path = path + (("f", 0),); t = t.fields[0][1]
        if t is not None and t.kind == "arr":
            ex.check_access(st, Ptr(p.root, path, p.eps), ins)
            ex.oblige(st, tz(k) <= t.n, "bounds", what + " stays inside the array", ins)
            return Ptr(p.root, path + (("a", 0),), p.eps), lt, k
        # consecutive members
        if isinstance(k, int) and k <= 16: return p, lt, k
        ex.oblige(st, tz(k) <= 1, "bounds", what + " stays inside the object", ins)
        return lp, lt, 1
    ex.check_access(st, lp, ins)
    return lp, lt, k


def vc_div(ex, st, n, w):
    import exec as E
    if isinstance(n, int):
        if n % w: raise Unsupported("partial object access")
        return n // w
    d = E.exact_div(n, w)
    if d is None: raise Unsupported("byte count %s" % (n,))
    return d


def members(ex, p, k, w):
    """k consecutive leaves of width w starting at p"""
    out = []; off = 0
    for j in range(k):
        q = ex.leafptr(ex.descend(p, off))[0]
        t = ex.leafptr(ex.descend(p, off))[1]
        if t.size != w: raise Unsupported("mixed members")
        out.append(q); off += w
    return out


def rawsrc(ex, st, ins, p, n):
    """read access to n bytes at p -> list of (term fn i->value, count, kind)"""
    lp, lt, k = rawspan(ex, st, ins, p, n, "write")
    return lp, lt, k


def rawkind(ex, lt): return {("int", 4): "i32", ("int", 8): "u64", ("fp", 8): "f64", ("int", 1): "u8"}.get((lt.kind, lt.size))


# ------------------------------------------------------------------ output against a grammar
class Writer:
    """cells: cur (grammar position), ws (0 start/after raw, 1 just after a token, 2 token + one line break, 3 other white space), prec"""
    def __init__(s, n): s.n = n

    def init(s, st, g, ws=0, prec=17):
        st.mem[(s.n, ("cur",))] = gram.start(g); st.mem[(s.n, ("ws",))] = ws; st.mem[(s.n, ("prec",))] = prec

    def cur(s, ex, st): return gram.settle(ex, st, st.mem[(s.n, ("cur",))])

    def get(s, st, k): return st.mem[(s.n, (k,))]
    def set(s, st, k, v): st.mem[(s.n, (k,))] = v

    def out(s, ex, st, ins, kind, v):
        if kind in ("lit", "chr") and v.strip(" \t\r\n") == "": return s.space(ex, st, v)
        if kind in ("lit", "chr"):
            # split at white space
            import re
            for part in re.findall(r"[ \t\r\n]+|[^ \t\r\n]+", v):
                if part.strip() == "": s.space(ex, st, part)
                else: s.token(ex, st, ins, "lit", part)
            return
        s.token(ex, st, ins, kind, v)

    def space(s, ex, st, t):
        w = s.get(st, "ws")
        if t == "": return
        for c in t:
            if c == "\n": w = simp(ite(eq(w, 1), 2, 3))
            else: w = 3
        s.set(st, "ws", w)

    def token(s, ex, st, ins, kind, v):
        w = s.get(st, "ws")
        it, fr = gram.next_item(ex, st, s.cur(ex, st))
        if it is None:
            ex.oblige(st, False, "layout", "nothing may be written here", ins); raise Unsupported("output after the end")
        g = s.cur(ex, st).g
        if isinstance(it, gram.Raw):
            ex.oblige(st, False, "layout", "raw field %s expected, text written" % it.name, ins); raise Unsupported("layout")
        ex.oblige(st, simp(lnot(eq(w, 1))), "layout", "tokens are separated", ins)
        if it.kind in ("f64",):
            if kind != "f64": ex.oblige(st, False, "layout", "floating point field %s expected" % it.name, ins); raise Unsupported("layout")
            p = s.get(st, "prec")
            ex.oblige(st, simp(tz(p) >= 17), "layout", "doubles are written with 17 significant digits", ins)
            ex.oblige(st, simp(eq(v, it.v)), "layout", "field %s has the value of the spec" % it.name, ins)
        elif it.kind == "int":
            if kind not in ("i32", "u64", "i64", "u32"): ex.oblige(st, False, "layout", "integer field %s expected" % it.name, ins); raise Unsupported("layout")
            if kind == "i64" and not isinstance(v, int): v = ex.to_s(st, v, 64)
            if kind == "u32": v = ex.to_u(st, v, 32)
            ex.oblige(st, simp(eq(v, it.v)), "layout", "field %s has the value of the spec" % it.name, ins)
        elif it.kind == "quoted":
            if kind != "quoted": ex.oblige(st, False, "layout", "quoted string %s expected" % it.name, ins); raise Unsupported("layout")
            ex.oblige(st, simp(eq(v, it.v)), "layout", "field %s has the value of the spec" % it.name, ins)
        elif it.kind in ("lit", "str"):
            if kind not in ("lit", "str", "chr"): ex.oblige(st, False, "layout", "%s expected" % it.v, ins); raise Unsupported("layout")
            import libspec
            ex.oblige(st, simp(libspec.seq(v, it.v)), "layout", "%s expected" % (it.v if it.kind == "lit" else it.name), ins)
        else: raise Unsupported("token kind " + it.kind)
        s.set(st, "cur", gram.Cur(g, gram.advance(g, fr)))
        s.set(st, "ws", 1)

    def rawone(s, ex, st, ins, kind, v):
        it, fr = gram.next_item(ex, st, s.cur(ex, st))
        g = s.cur(ex, st).g
        if it is None or not isinstance(it, gram.Raw):
            ex.oblige(st, False, "layout", "text expected, raw bytes written", ins); raise Unsupported("layout")
        w = s.get(st, "ws")
        ex.oblige(st, simp(z3.Or(tz(w) == 0, tz(w) == 2)), "layout", "exactly one line break between text and raw bytes", ins)
        if it.kind != kind:
            ex.oblige(st, False, "layout", "field %s has width and type %s" % (it.name, it.kind), ins); raise Unsupported("layout")
        ex.oblige(st, simp(eq(v, it.v)), "layout", "field %s has the value of the spec" % it.name, ins)
        s.set(st, "cur", gram.Cur(g, gram.advance(g, fr)))
        s.set(st, "ws", 0)

    def write(s, ex, st, ins, p, n):
        lp, lt, k = rawspan(ex, st, ins, p, n, "write")
        kind = rawkind(ex, lt)
        if isinstance(k, int) and k <= 40:
            if lp.path and lp.path[-1][0] in "ea":
                for j in range(k):
                    q = ex.ptradd_el(st, lp, j)
                    s.rawone(ex, st, ins, kind, ex.defined(st, ex.read(st, q.root, q.shape(), q.idx()), ins))
            elif k == 1:
                s.rawone(ex, st, ins, kind, ex.defined(st, ex.read(st, lp.root, lp.shape(), lp.idx()), ins))
            else:
                for q in members(ex, lp, k, lt.size): s.rawone(ex, st, ins, kind, ex.defined(st, ex.read(st, q.root, q.shape(), q.idx()), ins))
            return
        if not (lp.path and lp.path[-1][0] in "ea"): raise Unsupported("raw write")
        # a run of k equal-typed fields: the grammar must hold nested repetitions of them
        s.run(ex, st, ins, kind, lp, k)

    def run(s, ex, st, ins, kind, lp, k):
        c = s.cur(ex, st)
        i0 = lp.path[-1][1]
        val = lambda j: ex.read(st, lp.root, lp.shape(), lp.idx()[:-1] + [simp(tz(i0) + tz(j))])
        r = run_pieces(ex, st, c, k, kind)
        if r is None and ex.decide(st, tz(k) <= 0): return
        w = s.get(st, "ws")
        ex.oblige(st, simp(z3.Or(tz(k) <= 0, tz(w) == 0, tz(w) == 2)), "layout", "exactly one line break between text and raw bytes", ins)
        if r is None:
            # refute or give up: the number of remaining raw fields differs from the number written
            ex.oblige(st, False, "layout", "run of raw fields matches the format", ins, exact=False); raise Unsupported("raw run does not match the grammar")
        pieces, cur2 = r
        # values equal position by position
        for vs, dom, flat, want, off, total, t0 in pieces:
            st2 = st.copy(); st2.assume(dom)
            ex.oblige(st2, simp(eq(val(simp(tz(off) + tz(flat))), want)), "layout", "raw run has the values of the spec", ins)
        s.set(st, "cur", cur2); s.set(st, "ws", simp(ite(simp(tz(k) > 0), 0, w)))

    def flush(s, ex, st, ins): pass
    def put(s, ex, st, ins, c):
        if not isinstance(c, int): raise Unsupported("put")
        s.out(ex, st, ins, "chr", chr(c))
    def precision(s, ex, st, ins, *n):
        old = s.get(st, "prec")
        if n:
            v = n[0]
            s.set(st, "prec", ex.to_s(st, v, 64) if not isinstance(v, int) else (v if v < M63 else v - M64))
        return old if not isinstance(old, int) else old % M64
    def manip(s, ex, st, ins, w): raise Unsupported("manipulator " + w)
    def fail(s, ex, st, ins): return ex.fresh(st, "fail" + site(ex, ins), "bool")
    good = bad = eof = fail


def flat_items(node):
    """items of a body that is a fixed sequence of raw fields, or None"""
    if isinstance(node, gram.Raw): return [node]
    if isinstance(node, gram.Seq):
        out = []
        for c in node.ch:
            r = flat_items(c)
            if r is None: return None
            out += r
        return out
    return None


def run_pieces(ex, st, c, k, kind):
    """the next k fields from position c are repetitions of raw fields of one kind and single fields of that kind:
    -> (list of (vars, domain, flat index, expected value, offset, length, first index), position after)"""
    out = []; off = 0
    for n in range(24):
        if n and ex.prove(st, tz(off) == tz(k)): return out, c
        rest = simp(tz(k) - tz(off))
        r = run_grammar(ex, st, c, rest, kind)
        if r is not None:
            vs, dom, flat, want, cur2, total, t0 = r
            return out + [(vs, dom, flat, want, off, rest, t0)], cur2
        if not ex.prove(st, tz(off) < tz(k)): 
            return None
        r = run_grammar(ex, st, c, rest, kind, True)
        if r is not None:
            vs, dom, flat, want, c, total, t0 = r
            out.append((vs, dom, flat, want, off, total, t0)); off = simp(tz(off) + tz(total)); continue
        it, fr = gram.next_item(ex, st, c)
        if not isinstance(it, gram.Raw) or it.kind != kind: return None
        out.append(([], z3.BoolVal(True), 0, it.v, off, 1, 0)); off = simp(tz(off) + 1)
        c = gram.Cur(c.g, gram.advance(c.g, fr))
    return None


def run_grammar(ex, st, c, k, kind, part=False):
    """the next k fields (with part: the next fields, no more than k) from position c are exactly one (possibly nested) repetition of
    raw fields of one kind: -> (vars, domain, flat index, expected value, position after, length, first index)"""
    fits = (lambda total: ex.prove(st, tz(total) <= tz(k))) if part else (lambda total: ex.prove(st, tz(k) == tz(total)))
    g, fr = c.g, c.fr
    while fr is not None:
        e = gram.at_each(g, fr)
        if e is not None: break
        n = gram.node_at(g, fr)
        if isinstance(n, gram.Opt):
            fr = gram.canon(g, fr + (("o",),)) if ex.decide(st, tz(n.cond)) else gram.advance(g, fr); continue
        if isinstance(n, gram.Sec): fr = gram.canon(g, fr + (("c",),)); continue
        if isinstance(n, gram.Seq): fr = gram.canon(g, fr); continue
        return None
    if fr is None: return None
    # candidates: the Each at this position, or enclosing/inner ones
    t = fr[-1][1]
    e = gram.at_each(g, fr)
    begun = not (isinstance(t, int) and t == 0) and not same(simp(tz(t)), 0)
    uid = "rg!%d" % len(fr)
    i = z3.Int(uid + "i")
    body = e.body(i)
    items = flat_items(body)
    if items is not None:
        if any(x.kind != kind for x in items): return None
        m = len(items)
        if begun and m > 1: return None
        total = simp((tz(e.count) - tz(t)) * m)
        if begun and not ex.prove(st, tz(total) >= 0): return None
        if not fits(total): return None
        # position j = i*m + r: check each r separately by a combined value
        if m == 1: return ([i], z3.And(i >= tz(t), i < tz(e.count)), simp(i - tz(t)), items[0].v, gram.Cur(g, gram.advance(g, fr[:-1])), total, t)
        r = z3.Int(uid + "r")
        want = items[m - 1].v
        for x in reversed(range(m - 1)): want = ite(r == x, items[x].v, want)
        return ([i, r], z3.And(i >= 0, i < tz(e.count), r >= 0, r < m), simp(i * m + r), want, gram.Cur(g, gram.advance(g, fr[:-1])), total, 0)
    if begun: return None
    # rows: fixed items and one inner repetition  [a..., Each(w, x)]
    if isinstance(body, gram.Seq):
        ch = body.ch
    else: ch = [body]
    inner = [x for x in ch if isinstance(x, gram.Each)]
    opts = [x for x in ch if isinstance(x, gram.Opt)]
    if len(inner) == 1 and not opts:
        pos = ch.index(inner[0])
        pre = sum((flat_items(x) or [None] for x in ch[:pos]), [])
        post = sum((flat_items(x) or [None] for x in ch[pos + 1:]), [])
        if any(x is None or x.kind != kind for x in pre + post): return None
        j = z3.Int(uid + "j")
        ii = flat_items(inner[0].body(j))
        if ii is None or len(ii) != 1 or ii[0].kind != kind: return None
        w = inner[0].count
        if isinstance(w, z3.ExprRef) and i.get_id() in apps(w): return None
        width = simp(tz(w) + len(pre) + len(post))
        total = simp(tz(e.count) * tz(width))
        if not fits(total): return None
        r = z3.Int(uid + "r")
        iv = subst(tz(ii[0].v), [(j, simp(r - len(pre)))])
        want = iv
        for x in range(len(pre)): want = ite(r == x, pre[x].v, want)
        for x in range(len(post)): want = ite(r == tz(w) + len(pre) + x, post[x].v, want)
        return ([i, r], z3.And(i >= 0, i < tz(e.count), r >= 0, r < tz(width)), simp(i * tz(width) + r), want, gram.Cur(g, gram.advance(g, fr[:-1])), total, 0)
    return None


# ------------------------------------------------------------------ arbitrary input
class Havoc:
    """cells: fail, eof, lost (some read so far did not deliver its value), pos"""
    def __init__(s, n, strings=False): s.n = n

    def init(s, st, fail=False, eof=False, lost=False, pos=0):
        for k, v in (("fail", fail), ("eof", eof), ("lost", lost), ("pos", pos)): st.mem[(s.n, (k,))] = v

    def g(s, st, k): return st.mem[(s.n, (k,))]
    def set(s, st, k, v): st.mem[(s.n, (k,))] = v

    def attempt(s, ex, st, ins, sentry=True):
        """-> (tried, ok): tried = the operation got past the sentry with something to read; ok = it delivered"""
        k = site(ex, ins)
        bad = simp(lor(s.g(st, "fail"), s.g(st, "eof")))
        a = ex.fresh(st, k + "a", "bool"); o = ex.fresh(st, k + "o", "bool"); e = ex.fresh(st, k + "e", "bool")
        tried = simp(land(lnot(bad), a)); ok = simp(land(lnot(bad), a, o))
        s.set(st, "fail", simp(lor(s.g(st, "fail"), lnot(ok))))
        s.set(st, "lost", simp(lor(s.g(st, "lost"), lnot(ok))))
        s.set(st, "eof", simp(lor(s.g(st, "eof"), land(lnot(bad), e))))
        return tried, ok

    def advance(s, ex, st, ins, ok, least):
        k = site(ex, ins)
        d = ex.fresh(st, k + "d", "len")
        pos = s.g(st, "pos")
        np = simp(tz(pos) + d)
        LEN = sym("LEN!" + s.n, "len")
        st.assume(z3.Implies(tz(pos) <= LEN, np <= LEN))
        if ok is not False: st.assume(simp(z3.Implies(tz(ok), d >= tz(least))))
        s.set(st, "pos", np)

    def inp(s, ex, st, ins, kind, dst):
        import libspec
        tried, ok = s.attempt(ex, st, ins)
        s.advance(ex, st, ins, ok, 1)
        if kind in ("str", "quoted"):
            p = libspec.strobj(ex, st, dst, ins)
            v = ex.fresh(st, site(ex, ins) + "v", "str")
            st.assume(simp(z3.Implies(tz(ok), tz(libspec.slen(v)) >= (1 if kind == "str" else 0))))
        else:
            if isinstance(dst, Choice): raise Fork(dst.c)
            p, lt = ex.leafptr(dst); ex.check_access(st, dst, ins)
            v = ex.fresh(st, site(ex, ins) + "v", ex.tykind(lt))
        s.put_(ex, st, p, v, tried)

    def put_(s, ex, st, p, v, cond):
        old = ex.read(st, p.root, p.shape(), p.idx())
        if isinstance(old, Choice): raise Fork(old.c)
        if isinstance(old, (Undef, Maybe)):
            if isinstance(old, Undef): nv = maybe(v, cond)
            else: nv = maybe(simp(ite(cond, v, old.v)), simp(lor(cond, old.d)))
        else: nv = v          # delivered, or unchanged: any value of the type
        ex.write(st, p.root, p.shape(), p.idx(), nv)

    def read(s, ex, st, ins, p, n):
        lp, lt, k = rawspan(ex, st, ins, p, n, "read")
        bad0 = simp(lor(s.g(st, "fail"), s.g(st, "eof")))
        tried, ok = s.attempt(ex, st, ins)
        if isinstance(k, int) and k == 0: pass
        s.advance(ex, st, ins, ok, simp(tz(k) * lt.size) if not isinstance(k, int) else k * lt.size)
        kind = ex.tykind(lt)
        if lp.path and lp.path[-1][0] in "ea" and not (isinstance(k, int) and k == 1):
            i0 = lp.path[-1][1]; pre = lp.idx()[:-1]; m = len(pre)
            nm, args = ex.fresh_name(st, site(ex, ins) + "r")
            v = sym(nm, kind, list(args) + [simp(X[m] - tz(i0))])
            old = ex.cell(st, lp.root, lp.shape(), m + 1)
            if isinstance(old, Undef): raise Unsupported("raw read into uninitialised array")
            ex.setrange(st, lp.root, lp.shape(), pre, i0, simp(tz(i0) + tz(k)), v)       # delivered, or unchanged: any value
            return
        tgt = [lp] if (isinstance(k, int) and k == 1) else members(ex, lp, k, lt.size)
        for j, q in enumerate(tgt):
            v = ex.fresh(st, site(ex, ins) + "r%d" % j, kind)
            old = ex.read(st, q.root, q.shape(), q.idx())
            if isinstance(old, (Undef, Maybe)): s.put_(ex, st, q, v, ok)
            else: s.put_(ex, st, q, v, tried)

    def peek(s, ex, st, ins):
        k = site(ex, ins)
        bad = simp(lor(s.g(st, "fail"), s.g(st, "eof")))
        v = ex.fresh(st, k + "p", "i32"); st.assume(z3.And(v >= -1, v <= 255))
        st.assume(simp(z3.Implies(tz(bad), v == -1)))
        s.set(st, "eof", simp(lor(s.g(st, "eof"), land(lnot(bad), v == -1))))
        s.set(st, "fail", simp(lor(s.g(st, "fail"), bad)))
        return v

    def get(s, ex, st, ins, *a):
        if a: raise Unsupported("get(char&)")
        tried, ok = s.attempt_get(ex, st, ins)
        v = ex.fresh(st, site(ex, ins) + "c", "i32"); st.assume(z3.And(v >= -1, v <= 255)); st.assume(simp(z3.Implies(tz(ok), v >= 0)))
        return v

    def ignore(s, ex, st, ins, n=1, d=-1):
        """one character is skipped; at the end of the input only eof is set"""
        if n != 1 or d != -1: raise Unsupported("ignore(n)")
        bad = simp(lor(s.g(st, "fail"), s.g(st, "eof"))); e = ex.fresh(st, site(ex, ins) + "e", "bool")
        s.set(st, "fail", simp(lor(s.g(st, "fail"), bad))); s.set(st, "eof", simp(lor(s.g(st, "eof"), land(lnot(bad), e))))
        s.advance(ex, st, ins, simp(land(lnot(bad), lnot(e))), 1)

    def attempt_get(s, ex, st, ins):
        lost = s.g(st, "lost")
        r = s.attempt(ex, st, ins); s.set(st, "lost", lost)
        s.advance(ex, st, ins, r[1], 1)
        return r

    def ws(s, ex, st, ins):
        lost = s.g(st, "lost"); k = site(ex, ins)
        bad = simp(lor(s.g(st, "fail"), s.g(st, "eof")))
        e = ex.fresh(st, k + "e", "bool")
        s.set(st, "fail", simp(lor(s.g(st, "fail"), bad))); s.set(st, "eof", simp(lor(s.g(st, "eof"), land(lnot(bad), e))))
        s.advance(ex, st, ins, False, 0)

    def clear(s, ex, st, ins, *a):
        if a and a[0] != 0: raise Unsupported("clear(state)")
        ex.oblige(st, lnot(s.g(st, "fail")), "ioerr", "the error state of a failed stream is not cleared", ins, exact=False, assume=False)
        s.set(st, "fail", False); s.set(st, "eof", False)
    def setstate(s, ex, st, ins, *a): s.set(st, "fail", ex.fresh(st, site(ex, ins) + "ss", "bool"))

    def fail(s, ex, st, ins): return s.g(st, "fail")
    def good(s, ex, st, ins): return simp(lnot(lor(s.g(st, "fail"), s.g(st, "eof"))))
    def eof(s, ex, st, ins): return s.g(st, "eof")
    def bad(s, ex, st, ins):
        b = ex.fresh(st, "bad" + site(ex, ins), "bool"); st.assume(z3.Implies(b, tz(s.g(st, "fail")))); return b


# ------------------------------------------------------------------ streams of files: opening, reading and writing may fail
class FileOut:
    """cells: fail, lost (some byte was not accepted), pend (bytes still in the buffer of the stream), opened"""
    def __init__(s, n): s.n = n
    def g(s, st, k): return st.mem[(s.n, (k,))]
    def set(s, st, **kv):
        for k, v in kv.items(): st.mem[(s.n, (k,))] = simp(v)

    def init(s, st, **kv): s.set(st, **dict(dict(fail=False, lost=False, pend=False, opened=True), **kv))

    def open(s, ex, st, ins, *a):
        ex.fileopen(st, ins, a, s)
        o = ex.fresh(st, site(ex, ins) + "open", "bool")
        s.set(st, opened=o, fail=lnot(o), lost=False, pend=False)

    def out(s, ex, st, ins, kind, v):
        if kind == "lit" and v == "": return
        s.emit(ex, st, ins)
        if kind == "lit" and v == "\n": pass

    def emit(s, ex, st, ins):
        w = ex.fresh(st, site(ex, ins) + "w", "bool")          # accepted (into the buffer, or beyond)
        ok = land(lnot(s.g(st, "fail")), w)
        s.set(st, fail=lnot(ok), lost=lor(s.g(st, "lost"), lnot(ok)), pend=lor(s.g(st, "pend"), ok))

    def write(s, ex, st, ins, p, n):
        rawsrc(ex, st, ins, p, n)
        if ex.decide(st, tz(n) > 0): s.emit(ex, st, ins)

    def put(s, ex, st, ins, c): s.emit(ex, st, ins)

    def clear(s, ex, st, ins, *a):
        if a and a[0] != 0: raise Unsupported("clear(state)")
        s.set(st, fail=False)

    def flush(s, ex, st, ins):
        if not ex.decide(st, land(lnot(s.g(st, "fail")), s.g(st, "pend"))): return
        w = ex.fresh(st, site(ex, ins) + "f", "bool")
        s.set(st, fail=lnot(w), lost=lor(s.g(st, "lost"), lnot(w)), pend=False)

    def close(s, ex, st, ins):
        w = ex.fresh(st, site(ex, ins) + "c", "bool")
        f = land(s.g(st, "pend"), lnot(w))                     # what is left in the buffer is written out, or lost
        s.set(st, fail=lor(s.g(st, "fail"), f, lnot(s.g(st, "opened"))), lost=lor(s.g(st, "lost"), f), pend=False, opened=False)

    def is_open(s, ex, st, ins): return s.g(st, "opened")
    def manip(s, ex, st, ins, w): pass
    def precision(s, ex, st, ins, *n): return ex.fresh(st, "prec" + site(ex, ins), "i32")
    def width(s, ex, st, ins, *n): return 0
    def setf(s, ex, st, ins, *n): return 0
    def flags(s, ex, st, ins, *n): return 0
    def unsetf(s, ex, st, ins, *n): return 0
    def fill(s, ex, st, ins, *n): return 32
    def fail(s, ex, st, ins): return s.g(st, "fail")
    def good(s, ex, st, ins):
        e = ex.fresh(st, site(ex, ins) + "ne", "bool"); return simp(land(lnot(s.g(st, "fail")), e)) if False else simp(lnot(s.g(st, "fail")))
    def bad(s, ex, st, ins):
        b = ex.fresh(st, "bad" + site(ex, ins), "bool"); st.assume(z3.Implies(b, tz(s.g(st, "fail")))); return b
    def eof(s, ex, st, ins): return False


class FileIn(Havoc):
    """Havoc, with cells: opened, bad, rerr (a read error has occurred)"""
    def init(s, st, **kv):
        Havoc.init(s, st, **{k: v for k, v in kv.items() if k not in ("opened", "bad", "rerr")})
        for k, d in (("opened", True), ("bad", False), ("rerr", False)): s.set(st, k, kv.get(k, d))

    def open(s, ex, st, ins, *a):
        ex.fileopen(st, ins, a, s)
        o = ex.fresh(st, site(ex, ins) + "open", "bool")
        s.init(st, fail=lnot(o), opened=o)

    def attempt(s, ex, st, ins, sentry=True):
        fail0 = s.g(st, "fail")
        t, ok = Havoc.attempt(s, ex, st, ins, sentry)
        e = ex.fresh(st, site(ex, ins) + "io", "bool")
        r = simp(land(lnot(fail0), lnot(ok), e))
        s.set(st, "bad", simp(lor(s.g(st, "bad"), r))); s.set(st, "rerr", simp(lor(s.g(st, "rerr"), r)))
        return t, ok

    def clear(s, ex, st, ins, *a):
        if a and a[0] != 0: raise Unsupported("clear(state)")
        s.set(st, "fail", False); s.set(st, "eof", False); s.set(st, "bad", False)
    def peek(s, ex, st, ins): raise Unsupported("peek")
    def ws(s, ex, st, ins): raise Unsupported("ws")
    def ignore(s, ex, st, ins, *a): raise Unsupported("ignore")
    def close(s, ex, st, ins): s.set(st, "opened", False)
    def is_open(s, ex, st, ins): return s.g(st, "opened")
    def bad(s, ex, st, ins): return s.g(st, "bad")


# ------------------------------------------------------------------ input with ghost content
class Reader:
    """cells: cur, nl (1: the line break after the last token is still unread), fail (only at the end of the content)"""
    def __init__(s, n): s.n = n

    def init(s, st, g, nl=0):
        st.mem[(s.n, ("cur",))] = gram.start(g); st.mem[(s.n, ("nl",))] = nl; st.mem[(s.n, ("fail",))] = False

    def get_(s, st, k): return st.mem[(s.n, (k,))]
    def set(s, st, k, v): st.mem[(s.n, (k,))] = v
    def cur(s, ex, st): return gram.settle(ex, st, s.get_(st, "cur"))

    def inp(s, ex, st, ins, kind, dst):
        import libspec
        if s.get_(st, "fail") is not False: raise Unsupported("read after failure")
        c = s.cur(ex, st)
        it, fr = gram.next_item(ex, st, c)
        if it is None:
            s.set(st, "fail", True); return      # end of the content: nothing delivered
        if isinstance(it, gram.Raw):
            ex.oblige(st, False, "sync", "field %s is raw, read as text" % it.name, ins); raise Unsupported("sync")
        v = it.v
        if kind == "str":
            if it.kind not in ("lit", "str"):
                if it.kind == "quoted": ex.oblige(st, False, "sync", "%s is quoted" % it.name, ins); raise Unsupported("sync")
                v = sym("text!" + it.kind, "str", [v])
            p = libspec.strobj(ex, st, dst, ins)
        elif kind == "quoted":
            if it.kind != "quoted": ex.oblige(st, False, "sync", "%s is not a quoted string" % it.name, ins); raise Unsupported("sync")
            p = libspec.strobj(ex, st, dst, ins)
        else:
            if isinstance(dst, Choice): raise Fork(dst.c)
            p, lt = ex.leafptr(dst); ex.check_access(st, dst, ins)
            if kind == "f64":
                if it.kind == "int": v = sym("i2f", "f64", [v])
                elif it.kind != "f64": ex.oblige(st, False, "sync", "%s is not a number" % it.name, ins); raise Unsupported("sync")
            elif kind in ("i32", "u64", "i64", "u32"):
                if it.kind != "int": ex.oblige(st, False, "sync", "%s is not an integer" % it.name, ins); raise Unsupported("sync")
                rg = {"i32": (-M31, M31), "u64": (0, M64), "i64": (-M63, M63), "u32": (0, M32)}[kind]
                ex.oblige(st, land(tz(v) >= rg[0], tz(v) < rg[1]), "sync", "field %s fits its variable" % it.name, ins)
                if kind == "i64": v = simp(z3.If(tz(v) < 0, tz(v) + M64, tz(v)))
                if kind == "u32" : v = simp(z3.If(tz(v) >= M31, tz(v) - M32, tz(v)))
            else: raise Unsupported("read of " + kind)
        ex.write(st, p.root, p.shape(), p.idx(), v)
        s.set(st, "cur", gram.Cur(c.g, gram.advance(c.g, fr)))
        s.set(st, "nl", 1)

    def read(s, ex, st, ins, p, n):
        if s.get_(st, "fail") is not False: raise Unsupported("read after failure")
        lp, lt, k = rawspan(ex, st, ins, p, n, "read")
        kind = rawkind(ex, lt)
        if isinstance(k, int) and k <= 40:
            if lp.path and lp.path[-1][0] in "ea": tg = [ex.ptradd_el(st, lp, j) for j in range(k)]
            elif k == 1: tg = [lp]
            else: tg = members(ex, lp, k, lt.size)
            for q in tg: ex.write(st, q.root, q.shape(), q.idx(), s.rawone(ex, st, ins, kind))
            return
        c = s.cur(ex, st)
        nl = s.get_(st, "nl")
        r = run_pieces(ex, st, c, k, kind)
        if r is None and ex.decide(st, tz(k) <= 0): return
        ex.oblige(st, simp(lor(tz(k) <= 0, eq(nl, 0))), "sync", "the line break before the raw bytes was consumed", ins)
        if r is None:
            ex.oblige(st, False, "sync", "run of raw fields matches the format", ins, exact=False); raise Unsupported("raw run")
        pieces, cur2 = r
        i0 = lp.path[-1][1]; m = len(lp.idx()) - 1
        for vs, dom, flat, want, off, total, t0 in pieces:
            b0 = simp(tz(i0) + tz(off))
            if not vs:
                ex.write(st, lp.root, lp.shape(), lp.idx()[:-1] + [b0], want); continue
            rel = simp(X[m] - tz(b0))
            if len(vs) == 1: val = subst(tz(want), [(vs[0], tz(simp(rel + tz(t0))))])
            else:
                # flat = i*w + r
                w = simp(flat - vs[1]); w = simp(subst(tz(w), [(vs[0], z3.IntVal(1))]))
                val = subst(tz(want), [(vs[0], tz(rel) / tz(w)), (vs[1], tz(rel) % tz(w))])
            ex.setrange(st, lp.root, lp.shape(), lp.idx()[:-1], b0, simp(tz(b0) + tz(total)), simp(val))
        s.set(st, "cur", cur2)

    def rawone(s, ex, st, ins, kind):
        c = s.cur(ex, st)
        it, fr = gram.next_item(ex, st, c)
        if it is None or not isinstance(it, gram.Raw):
            ex.oblige(st, False, "sync", "text read as raw bytes", ins); raise Dead("sync")
        nl = s.get_(st, "nl")
        ex.oblige(st, simp(eq(nl, 0)), "sync", "the line break before the raw bytes was consumed", ins)
        if it.kind != kind:
            w = {"i32": 4, "u64": 8, "f64": 8, "u8": 1}
            ex.oblige(st, False, "sync", "field %s has type %s, read as %s" % (it.name, it.kind, kind), ins); raise Unsupported("sync")
        s.set(st, "cur", gram.Cur(c.g, gram.advance(c.g, fr)))
        return it.v

    def peek(s, ex, st, ins):
        nl = s.get_(st, "nl")
        if ex.decide(st, eq(nl, 1)): return 10
        it, fr = gram.next_item(ex, st, s.cur(ex, st))
        if isinstance(it, gram.Raw) and isinstance(it.v, int): return it.v & 255
        if isinstance(it, gram.Tok) and it.kind == "lit": return ord(it.v[0])
        v = ex.fresh(st, site(ex, ins) + "p", "i32"); st.assume(z3.And(v >= -1, v <= 255))
        if it is None: st.assume(v == -1)
        elif getattr(it, "nows", False): st.assume(z3.And(v >= 0, v != 9, v != 10, v != 13, v != 32))
        elif isinstance(it, gram.Tok): st.assume(v > 32)       # a token never starts with white space
        return v

    def get(s, ex, st, ins, *a):
        if a: raise Unsupported("get(char&)")
        nl = s.get_(st, "nl")
        c = s.cur(ex, st)
        ex.oblige(st, simp(eq(nl, 1)), "sync", "only the one line break before raw bytes is consumed", ins)
        s.set(st, "nl", 0)
        return 10

    def ignore(s, ex, st, ins, n=1, d=-1):
        if n != 1 or d != -1: raise Unsupported("ignore(n)")
        s.get(ex, st, ins)

    def ws(s, ex, st, ins):
        it, fr = gram.next_item(ex, st, s.cur(ex, st))
        if it is None or isinstance(it, gram.Raw):
            ex.oblige(st, it is None, "sync", "no raw byte is skipped as white space", ins)
        s.set(st, "nl", 0)

    def fail(s, ex, st, ins): return s.get_(st, "fail")
    def good(s, ex, st, ins): return simp(lnot(s.get_(st, "fail")))
    def eof(s, ex, st, ins): return s.get_(st, "fail")
    def bad(s, ex, st, ins): return False


# ------------------------------------------------------------------ a file seen as a sequence of units
class Phase:
    """0: before the first word of a unit; 1: after its opening word; 2: after its reader ran.  name: known name, or None (any other word)"""
    nomerge = True
    def __init__(s, ph, name=None): s.ph = ph; s.name = name
    def decompose(s): return ("phase", s.ph, s.name), []
    def recompose(s, t): return s
    def __repr__(s): return "Phase(%d,%s)" % (s.ph, s.name)


class Units:
    """n units, each a known section, an unknown section or a stray word.
    cells: k (unit), cur (phase), j (words of its content consumed), fail"""
    def __init__(s, n, names): s.n = n; s.names = names

    def init(s, st, ptr):
        s.ptr = ptr
        for k, v in (("k", 0), ("ph", Phase(0)), ("j", 0), ("fail", False)): st.mem[(s.n, (k,))] = v

    def g(s, st, k): return st.mem[(s.n, (k,))]
    def set(s, st, **kv):
        for k, v in kv.items(): st.mem[(s.n, (k,))] = v

    def count(s): return sym("UNITS!" + s.n, "len")

    def word(s, k): return sym("WORD!" + s.n, "str", [k])

    def inp(s, ex, st, ins, kind, dst):
        import libspec
        if kind != "str": raise Unsupported("the driver reads a " + kind)
        p = libspec.strobj(ex, st, dst, ins)
        if ex.decide(st, tz(s.g(st, "fail"))): return
        k = s.g(st, "k"); ph = s.g(st, "ph"); N = len(s.names)
        if not isinstance(ph, Phase): raise Unsupported("position in the file")
        if ph.ph == 0:
            if not ex.decide(st, tz(k) < s.count()):
                s.set(st, fail=True); return
            cls = sym("CLASS!" + s.n, "i32", [k])
            outs = []
            for c in range(N + 2):
                t = st.copy(); t.symdec = True
                t.assume(cls == c)
                if c < N: v = "$" + s.names[c]
                else:
                    v = s.word(k)
                    c0 = sym("strch", "u8", [v, 0])
                    t.assume(tz(libspec.slen(v)) >= 1); t.assume(c0 == 36 if c == N else c0 != 36)
                    for nm in s.names: t.assume(lnot(libspec.seq(v, "$" + nm)))
                if c > N: s.set(t, k=simp(tz(k) + 1))
                else: s.set(t, ph=Phase(1, s.names[c] if c < N else None), j=0)
                ex.write(t, p.root, p.shape(), p.idx(), v)
                outs.append(("ret", t, s.ptr))
            return outs
        j = s.g(st, "j")
        end = "$End" + ph.name if ph.name else libspec.scat("$End", sym("strsub", "str", [s.word(k), 1, M64 - 1]))
        if ph.ph != 2 and ex.decide(st, tz(j) < sym("WORDS!" + s.n, "len", [k])):
            v = sym("CONTENT!" + s.n, "str", [k, j])
            st.assume(tz(libspec.slen(v)) >= 1); st.assume(lnot(libspec.seq(v, end)))
            s.set(st, j=simp(tz(j) + 1))
        else:
            if ph.name: ex.oblige(st, ph.ph == 2, "dispatch", "a known section is read by its reader", ins)
            v = end
            s.set(st, k=simp(tz(k) + 1), ph=Phase(0), j=0)
        ex.write(st, p.root, p.shape(), p.idx(), v)

    def section(s, ex, st, ins, nm):
        """the reader of section nm is called"""
        ph = s.g(st, "ph")
        if not isinstance(ph, Phase): raise Unsupported("position in the file")
        ex.oblige(st, simp(land(ph.name == nm and ph.ph == 1, tz(s.g(st, "j")) == 0)), "dispatch", "the reader of %s is called at the start of such a section" % nm, ins)
        s.set(st, ph=Phase(2, nm))

    def fail(s, ex, st, ins): return s.g(st, "fail")
    def good(s, ex, st, ins): return simp(lnot(s.g(st, "fail")))
    def eof(s, ex, st, ins): return s.g(st, "fail")
    def bad(s, ex, st, ins): return False
