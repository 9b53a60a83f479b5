"""Writers against the format; readers against the format: per section, version and encoding."""
from spec import *

JOBS = []
SAVE = "mshio::%s(std::ostream&, mshio::MshSpec const&)"
LOAD = "mshio::%s(std::istream&, mshio::MshSpec&)"


def job(name, props, exts=(False,), budget=240):
    def d(f):
        JOBS.append({"name": name, "props": props, "exts": exts, "fn": f, "budget": budget})
        return f
    return d


def stream(c, name, cls, g, **k):
    r = c.ex.root(name, None, "undef")
    h = cls(name); c.ex.streams[name] = h
    h.init(c.st, g, **k)
    return Ptr(r), h


def finished(c, st, h, what, want):
    cur = h.cur(c.ex, st)
    c.ensure(st, bool(want(cur)), what)


def writer(c, S, fn, g, throws=False):
    """the writer produces exactly the grammar's content"""
    out, h = stream(c, "out", iomode.Writer, g, ws=2)
    outs = c.run(c.find(SAVE % fn), [out, S.ptr])
    for o in outs:
        if o[0] == "ret":
            finished(c, o[1], h, "the whole section has been written", lambda cur: cur.fr is None)
            c.ensure(o[1], simp(z3.And(tz(h.get(o[1], "ws")) >= 2)), "the section ends its line", kind="layout")
        else: c.ensure(o[1], False, "a well-formed spec is written without an exception")
    if not any(o[0] == "ret" for o in outs): c.ensure(c.st, False, "the writer can finish")
    return outs


def reader(c, T, fn, g, endmark, check, frame):
    """the reader delivers the ghost content"""
    inp, h = stream(c, "in", iomode.Reader, Seq([g, lit(endmark)]), nl=1)
    c.ex.check_term = False
    outs = c.run(c.find(LOAD % fn), [inp, T.ptr])
    for o in outs:
        if o[0] == "ret":
            finished(c, o[1], h, "the reader stops before the end marker", lambda cur: cur.fr is not None and cur.fr == (("s", 1),))
            c.ensure(o[1], lnot(h.fail(c.ex, o[1], None)), "no read failed")
            check(o[1], T.at(o[1]))
            c.frame(o[1], T, frame)
        else: c.ensure(o[1], False, "a file in the format is read without an exception")
    if not any(o[0] == "ret" for o in outs): c.ensure(c.st, False, "the reader can finish")
    return outs


def reader_spec(c, version, ascii):
    """the spec being loaded: header already read, everything else arbitrary"""
    T = c.obj("T", "MshSpec")
    c.assume(*wf_format(T, version, ascii))
    return T


def reset(c, T, field):
    """the section has not been loaded yet: it has the value the constructor gives it"""
    D = c.default("D", "MshSpec")
    a = getattr(T.at(c.st), field); b = getattr(D.at(c.st), field)
    c.ex.copy_tree(c.st, a.ptr, b.ptr, a._ty)


def w(name, ver, asc, field, fn, grammar, wf, sec, props, exts=(False,)):
    @job("save %s %s %s" % (sec, ver, "text" if asc else "binary"), props, exts)
    def f(c):
        S = c.obj("S", "MshSpec", ro=True)
        c.assume(*wf_format(S, ver, asc)); c.assume(*wf(S))
        writer(c, S, fn, framed(sec, grammar(S)))


def r(name, ver, asc, field, fn, grammar, wf, sec, props, exts=(False,), skip=()):
    @job("load %s %s %s" % (sec, ver, "text" if asc else "binary"), props, exts)
    def f(c):
        S = c.obj("S", "MshSpec", ro=True)
        T = reader_spec(c, ver, asc)
        reset(c, T, field)
        c.assume(*wf(S))
        def check(st, Q): c.deep_eq(st, getattr(Q, field), getattr(S, field), sec)
        reader(c, T, fn, grammar(S), "$End" + sec, check, [field])


def rw(ver, asc, field, name, grammar, wf, sec, props, exts=(False,)):
    lp = {p: ("layout", "post", "bounds") if p != "C06" else ("layout",) for p in props}
    if "C06" not in lp: lp["C06"] = ("layout", "post")
    w(name, ver, asc, field, "save_" + name, grammar, wf, sec, lp, exts)
    r(name, ver, asc, field, "load_" + name, grammar, wf, sec, {p: None for p in props}, exts)


for asc in (False, True):
    P = ["C02" if asc else "C01"]
    rw("4.1", asc, "nodes", "nodes", lambda S, e=E(asc): g_nodes41(e, S), wf_nodes, "Nodes", P)
    rw("4.1", asc, "elements", "elements", lambda S, e=E(asc): g_elements41(e, S), wf_elements, "Elements", P)
    rw("4.1", asc, "entities", "entities", lambda S, e=E(asc): g_entities(e, S), lambda S: [], "Entities", P)
    for ver in ("4.1", "2.2"):
        PV = P if ver == "4.1" else ["C03"]
        rw(ver, asc, "physical_groups", "physical_groups", g_groups, wf_groups, "PhysicalNames", PV)
        for field, sec in (("node_data", "NodeData"), ("element_data", "ElementData"), ("element_node_data", "ElementNodeData")):
            en = field == "element_node_data"

            @job("save %s %s %s" % (sec, ver, "text" if asc else "binary"), {"C04": None, "C06": ("layout", "post")})
            def wd(c, field=field, sec=sec, en=en, ver=ver, asc=asc):
                S = c.obj("S", "MshSpec", ro=True)
                c.assume(*wf_format(S, ver, asc))
                D = getattr(S, field)
                # every data set of the list is well formed
                d = z3.Int("q!d")
                for f in wf_data(D[d], en, asc):
                    if isinstance(f, QF): c.assume(QF([d] + f.vs, z3.And(d >= 0, d < tz(D.size), tz(f.guard)), f.body))
                    else: c.assume(QF([d], z3.And(d >= 0, d < tz(D.size)), tz(f)))
                g = Each(D.size, lambda i: framed(sec, g_data(E(asc), D[i], en)))
                writer(c, S, "save_" + field, g)

            @job("load %s %s %s" % (sec, ver, "text" if asc else "binary"), {"C04": None})
            def rd(c, field=field, sec=sec, en=en, ver=ver, asc=asc):
                T = reader_spec(c, ver, asc)
                D = c.obj("D", "Data", ro=True)
                c.assume(*wf_data(D, en, asc))
                n = getattr(T, field).size

                def check(st, Q):
                    q = getattr(Q, field)
                    c.ensure(st, eq(q.size, simp(tz(n) + 1)), "one data set is appended")
                    c.deep_eq(st, q[n], D, sec, () if en else ("num_nodes_per_element",))
                    # the data sets loaded before stay
                    k = sym("sk!old", "len")
                    st2 = st.copy(); st2.assume(k < tz(n))
                    c.deep_eq(st2, q[k].at(st2), getattr(T.at(c.st0), field)[k], "earlier " + sec)
                c.st0 = c.st.copy()
                reader(c, T, "load_" + field, g_data(E(asc), D, en), "$End" + sec, check, [field])
    for field, name, sec in (("curves", "curves", "Curves"), ("patches", "patches", "Patches")):
        rw("4.1", asc, field, name, lambda S, e=E(asc), field=field: g_splines(e, getattr(S, field), field == "patches"),
           lambda S, field=field: wf_splines(getattr(S, field), field == "patches"), sec, ["C05"], (True,))


@job("save NanoSplineFormat", {"C05": None, "C06": ("layout", "post")}, (True,))
def wn(c):
    S = c.obj("S", "MshSpec", ro=True)
    writer(c, S, "save_nanospline_format", framed("NanoSplineFormat", Tok("str", S.nanospline_format.version, "version")))


@job("load NanoSplineFormat", {"C05": None}, (True,))
def rn(c):
    S = c.obj("S", "MshSpec", ro=True)
    T = c.obj("T", "MshSpec")
    reader(c, T, "load_nanospline_format", Tok("str", S.nanospline_format.version, "version"), "$EndNanoSplineFormat",
           lambda st, Q: c.deep_eq(st, Q.nanospline_format, S.nanospline_format, "NanoSplineFormat"), ["nanospline_format"])


for asc in (False, True):
    for ver in ("4.1", "2.2"):
        P = ("C02" if asc else "C01") if ver == "4.1" else "C03"

        @job("save MeshFormat %s %s" % (ver, "text" if asc else "binary"), {P: None, "C06": ("layout", "post")})
        def wf_(c, ver=ver, asc=asc):
            S = c.obj("S", "MshSpec", ro=True)
            c.assume(*wf_format(S, ver, asc))
            writer(c, S, "save_mesh_format", framed("MeshFormat", g_format(S, asc)))

        @job("load MeshFormat %s %s" % (ver, "text" if asc else "binary"), {P: None})
        def rf_(c, ver=ver, asc=asc):
            S = c.obj("S", "MshSpec", ro=True)
            c.assume(*wf_format(S, ver, asc))
            T = c.obj("T", "MshSpec")
            reader(c, T, "load_mesh_format", g_format(S, asc), "$EndMeshFormat",
                   lambda st, Q: c.deep_eq(st, Q.mesh_format, S.mesh_format, "MeshFormat"), ["mesh_format"])

        if ver == "2.2":
            @job("save Nodes 2.2 %s" % ("text" if asc else "binary"), {"C03": None, "C06": ("layout", "post")})
            def wn22(c, asc=asc):
                S = c.obj("S", "MshSpec", ro=True)
                c.assume(*wf_format(S, "2.2", asc)); c.assume(*wf_nodes22(S, asc))
                writer(c, S, "save_nodes", framed("Nodes", g_nodes22(E(asc), S)))

            @job("save Elements 2.2 %s" % ("text" if asc else "binary"), {"C03": None, "C06": ("layout", "post")})
            def we22(c, asc=asc):
                S = c.obj("S", "MshSpec", ro=True)
                c.assume(*wf_format(S, "2.2", asc)); c.assume(*wf_elements22(S, asc))
                writer(c, S, "save_elements", framed("Elements", g_elements22(S, asc)))
