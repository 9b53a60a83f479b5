"""Element table, validation, header, format dispatch, drivers, arbitrary input."""
from jobs_io import *
import jobs_io

JOBS = []


def job(name, props, exts=(False,), budget=240):
    def d(f):
        JOBS.append({"name": name, "props": props, "exts": exts, "fn": f, "budget": budget})
        return f
    return d


# ------------------------------------------------------------------ element table
@job("element table", {"C13": None, "C01": None, "C02": None, "C03": None, "C07": None, "C11": None, "C12": None})
def table(c):
    c.ex.contracts.clear()
    for fn, T, lim in (("mshio::nodes_per_element(int)", NPE, None), ("mshio::get_element_dim(int)", DIM, None), ("mshio::assert_element_is_supported(int)", None, None)):
        st = c.st.copy()
        t = sym("t", "i32")
        ok = land(t >= 1, t <= 31)
        outs = c.run(c.find(fn), [t], st)
        c.ensure(c.st, any(o[0] == "throw" for o in outs), "%s can throw" % fn[7:-5])
        for o in outs:
            if o[0] == "ret":
                c.ensure(o[1], ok, "%s returns for supported types only" % fn[7:-5])
                if T is None: continue
                for k in range(1, 32):
                    c.ensure(o[1], simp(z3.Implies(t == k, tz(o[2]) == T[k])), "%s(%d) = %d" % (fn[7:-5], k, T[k]))
            else:
                c.ensure(o[1], lnot(ok), "%s throws for unsupported types only" % fn[7:-5])
                c.ensure(o[1], o[2] == "UnsupportedFeature", "%s throws UnsupportedFeature" % fn[7:-5])


# ------------------------------------------------------------------ arbitrary input
SAFE = ("bounds", "dangling", "null", "uninit", "overflow", "div0", "pre")


def inv_nodes(c, T):
    n = T.nodes
    return [eq(n.entity_blocks.size, n.num_entity_blocks),
            qf(n.num_entity_blocks, lambda i: (lambda b: land(eq(b.tags.size, b.num_nodes_in_block),
               z3.Implies(tz(b.parametric) == 1, land(tz(b.entity_dim) >= 0, tz(b.entity_dim) <= 3)),
               eq(b.data.size, simp(tz(b.num_nodes_in_block) * epn(b)))))(n.entity_blocks[i]))]


def inv_elements(c, T):
    n = T.elements
    return [eq(n.entity_blocks.size, n.num_entity_blocks),
            qf(n.num_entity_blocks, lambda i: (lambda b: land(tz(b.element_type) >= 1, tz(b.element_type) <= 31,
               eq(b.data.size, simp(tz(b.num_elements_in_block) * (ntype(b.element_type) + 1)))))(n.entity_blocks[i]))]


def inv_data(D, elnode):
    """one list of data sections"""
    d = z3.Int("q!%d" % len(QN)); QN.append(1)
    i = z3.Int("q!%d" % len(QN)); QN.append(1)
    h = D[d].header
    x = D[d].entries[i]
    per = simp(tz(h.int_tags[1]) * tz(x.num_nodes_per_element)) if elnode else h.int_tags[1]
    return [QF([d], z3.And(d >= 0, d < tz(D.size)), tz(land(tz(h.int_tags.size) >= 3, eq(h.int_tags[2], D[d].entries.size)))),
            QF([d, i], z3.And(d >= 0, d < tz(D.size), i >= 0, i < tz(D[d].entries.size)), tz(land(tz(x.num_nodes_per_element) >= 0 if elnode else True, eq(x.data.size, per))))]


def elem_ok(T):
    n = T.elements
    return qf(n.entity_blocks.size, lambda i: (lambda b: land(tz(b.element_type) >= 1, tz(b.element_type) <= 31,
               eq(b.data.size, simp(tz(b.num_elements_in_block) * (ntype(b.element_type) + 1)))))(n.entity_blocks[i]))


INV = {"nodes": inv_nodes, "elements": inv_elements, "node_data": lambda c, T: inv_data(T.node_data, False),
       "element_data": lambda c, T: inv_data(T.element_data, False), "element_node_data": lambda c, T: inv_data(T.element_node_data, True)}


def ensure_inv(c, st, f, T):
    for n, p in enumerate(INV[f](c, T.at(st))):
        if isinstance(p, QF):
            st2 = st.copy()
            sk = [(v, sym("sk!inv%s%d_%d" % (f, n, k), "len")) for k, v in enumerate(p.vs)]
            st2.assume(subst(tz(p.guard), sk))
            b = subst(tz(p.body), sk)
            parts = b.children() if z3.is_and(b) else [b]
            for k, q in enumerate(parts): c.ensure(st2, simp(q), "loaded %s are consistent (%d.%d)" % (f, n, k), kind="inv")
        else: c.ensure(st, p, "loaded %s are consistent (%d)" % (f, n), kind="inv")


def havoc_job(name, fn, fields, ver, asc, exts=(False,), extra={}):
    if not (fn == "load_elements" and ver == "2.2" and not asc): extra = dict(extra, C18=("ioerr",))
    @job("any input: %s" % name, dict({"C07": SAFE, "C08": ("terminates",), "C09": ("lost", "ioerr"), "C10": ("inv",)}, **extra), exts)
    def f(c):
        T = c.obj("T", "MshSpec")
        if ver is not None: c.assume(eq(T.mesh_format.version, ver), (tz(T.mesh_format.file_type) == 0) if asc else (tz(T.mesh_format.file_type) != 0))
        for x in fields:
            if x in INV: c.assume(*INV[x](c, T))
        h = iomode.Havoc("in"); r = c.ex.root("in", None, "undef"); c.ex.streams["in"] = h
        h.init(c.st, fail=False, eof=sym("eof0", "bool"), lost=False, pos=sym("pos0", "len"))
        c.assume(sym("pos0", "len") <= sym("LEN!in", "len"))
        c.ex.check_term = True
        if ver == "2.2" and "elements" in fields: c.loop_inv(T, ("elements", "entity_blocks"), elem_ok)
        outs = c.run(c.find(LOAD % fn), [Ptr(r), T.ptr])
        for o in outs:
            if o[0] == "ret":
                st = o[1]
                c.ensure(st, simp(z3.Implies(tz(h.g(st, "lost")), tz(h.g(st, "fail")))), "a failed read leaves the stream failed", kind="lost")
                for x in fields:
                    if x in INV: ensure_inv(c, st, x, T)
                c.frame(st, T, fields)
        if not outs: c.ensure(c.st, True, "throws")


for ver, asc in (("4.1", True), ("4.1", False), ("2.2", True), ("2.2", False)):
    t = "%s %s" % (ver, "text" if asc else "binary")
    havoc_job("load Nodes " + t, "load_nodes", ["nodes"], ver, asc)
    havoc_job("load Elements " + t, "load_elements", ["elements"] if ver == "4.1" else ["elements", "entities"], ver, asc)
    if ver == "4.1": havoc_job("load Entities " + t, "load_entities", ["entities"], ver, asc)
    for x, y in (("node_data", "NodeData"), ("element_data", "ElementData"), ("element_node_data", "ElementNodeData")):
        havoc_job("load %s %s" % (y, t), "load_" + x, [x], ver, asc)
    if ver == "4.1":
        havoc_job("load Curves " + t, "load_curves", ["curves"], ver, asc, (True,))
        havoc_job("load Patches " + t, "load_patches", ["patches"], ver, asc, (True,))
havoc_job("load PhysicalNames", "load_physical_groups", ["physical_groups"], None, None)
havoc_job("load MeshFormat", "load_mesh_format", ["mesh_format"], None, None)
havoc_job("load NanoSplineFormat", "load_nanospline_format", ["nanospline_format"], None, None, (True,))


# ------------------------------------------------------------------ validation
def valid_nodes(S):
    n = S.nodes; b = lambda i: n.entity_blocks[i]
    return [eq(n.num_entity_blocks, n.entity_blocks.size), simp(tz(n.min_node_tag) <= tz(n.max_node_tag)),
            qf(n.entity_blocks.size, lambda i: land(eq(b(i).tags.size, b(i).num_nodes_in_block),
               eq(b(i).data.size, simp(tz(b(i).num_nodes_in_block) * (3 + tz(ite(simp(tz(b(i).parametric) > 0), b(i).entity_dim, 0))))))),
            qf2(n.entity_blocks.size, lambda i: b(i).num_nodes_in_block, lambda i, j: land(tz(b(i).tags[j]) >= tz(n.min_node_tag), tz(b(i).tags[j]) <= tz(n.max_node_tag)))]


def valid_elements(S):
    n = S.elements; m = S.nodes; b = lambda i: n.entity_blocks[i]
    per = lambda i: simp(tz(b(i).data.size) / tz(b(i).num_elements_in_block))

    def entry(i, j):
        v = tz(b(i).data[j])
        return tz(ite(simp(tz(j) % tz(per(i)) == 0), land(v >= tz(n.min_element_tag), v <= tz(n.max_element_tag)), land(v >= tz(m.min_node_tag), v <= tz(m.max_node_tag))))
    return [eq(n.num_entity_blocks, n.entity_blocks.size), simp(tz(n.min_element_tag) <= tz(n.max_element_tag)),
            qf(n.entity_blocks.size, lambda i: simp(tz(b(i).data.size) % tz(b(i).num_elements_in_block) == 0)),
            qf2(n.entity_blocks.size, lambda i: b(i).data.size, entry)]


@job("validate_spec", {"C11": None, "C12": None})
def validate(c):
    S = c.obj("S", "MshSpec", ro=True)
    n = S.nodes; e = S.elements
    c.assume(qf(n.entity_blocks.size, lambda i: land(tz(n.entity_blocks[i].entity_dim) >= 0, tz(n.entity_blocks[i].entity_dim) <= 3)))
    # outside the recorded findings: blocks that declare no element, or fewer entries than elements, or a fractional width that divides the size
    def region(i):
        b = e.entity_blocks[i]; sz, k = tz(b.data.size), tz(b.num_elements_in_block)
        return land(k > 0, sz >= k, z3.Or(sz % k == 0, sz % (sz / k) != 0))
    c.assume(qf(e.entity_blocks.size, region))
    V = valid_nodes(S) + valid_elements(S)
    outs = c.run(c.find("mshio::validate_spec(mshio::MshSpec const&)"), [S.ptr])
    for o in outs:
        st = o[1]
        if o[0] == "ret":
            for k, p in enumerate(V):
                if isinstance(p, QF):
                    st2 = st.copy()
                    sk = [(v, sym("sk!v%d_%d" % (k, m), "len")) for m, v in enumerate(p.vs)]
                    st2.assume(subst(tz(p.guard), sk))
                    c.ensure(st2, subst(tz(p.body), sk), "an accepted spec is consistent (%d)" % k)
                else: c.ensure(st, p, "an accepted spec is consistent (%d)" % k)
        else:
            c.ensure(st, o[2] == "CorruptData", "rejection throws CorruptData")
            st2 = st.copy()
            for p in V:
                if isinstance(p, QF): st2.pc.append(p)
                else: st2.assume(p)
            c.ensure(st2, False, "a consistent spec is not rejected")
    for k in ("ret", "throw"): c.ensure(c.st, any(o[0] == k for o in outs), "validation can " + k)


# ------------------------------------------------------------------ writers on validated specs
WRITERS = [("MeshFormat", "save_mesh_format", False), ("PhysicalNames", "save_physical_groups", False), ("Entities", "save_entities", False), ("Nodes", "save_nodes", False),
           ("Elements", "save_elements", False), ("NodeData", "save_node_data", False), ("ElementData", "save_element_data", False), ("ElementNodeData", "save_element_node_data", False)]


def validated(c, S):
    """what C12 assumes: accepted by validation, supported types, consistent element data, dimensions 0..3"""
    n = S.nodes; e = S.elements
    c.assume(*valid_nodes(S)); c.assume(*valid_elements(S))
    c.assume(qf(n.entity_blocks.size, lambda i: land(tz(n.entity_blocks[i].entity_dim) >= 0, tz(n.entity_blocks[i].entity_dim) <= 3)))
    c.assume(qf(e.entity_blocks.size, lambda i: (lambda b: land(tz(b.element_type) >= 1, tz(b.element_type) <= 31,
               eq(b.data.size, simp(tz(b.num_elements_in_block) * (ntype(b.element_type) + 1)))))(e.entity_blocks[i])))


for _sec, _fn, _ext in WRITERS:
    @job("validated: save " + _sec, {"C12": SAFE + ("post",)}, (False, True) if _sec == "MeshFormat" else (False,))
    def sv(c, fn=_fn):
        S = c.obj("S", "MshSpec", ro=True)
        validated(c, S)
        r = c.ex.root("out", None, "undef"); c.ex.streams["out"] = iomode.Sink("out")
        outs = c.run(c.find(SAVE % fn), [Ptr(r), S.ptr])
        for o in outs:
            if o[0] != "ret": c.ensure(o[1], o[2] in LIBEXC, "a library exception is thrown")


LIBEXC = ("InvalidFormat", "UnsupportedFeature", "CorruptData")


# ------------------------------------------------------------------ header
@job("load MeshFormat (any header)", {"C14": None})
def hdr(c):
    H = c.obj("H", "MshSpec", ro=True); f = H.mesh_format
    T = c.obj("T", "MshSpec")
    mark = sym("mark", "i32")
    mk = Raw("i32", mark, "byte order mark"); mk.nows = True       # extra white space before the mark is skipped: a mark starting with it is another file
    g = Seq([Tok("str", f.version, "version"), Tok("int", f.file_type, "file type"), Tok("int", f.data_size, "data size"), Opt(simp(tz(f.file_type) != 0), mk)])
    inp, h = stream(c, "in", iomode.Reader, Seq([g, lit("$EndMeshFormat")]), nl=1)
    is41 = eq(f.version, "4.1")
    good = land(lor(is41, eq(f.version, "2.2")), lor(lnot(is41), simp(tz(f.data_size) == 8)), lor(simp(tz(f.file_type) == 0), simp(mark == 1)))
    outs = c.run(c.find(LOAD % "load_mesh_format"), [inp, T.ptr])
    for o in outs:
        if o[0] == "ret":
            c.ensure(o[1], good, "only a supported header is accepted")
            c.deep_eq(o[1], T.mesh_format, H.mesh_format, "MeshFormat")
        else:
            c.ensure(o[1], lnot(good), "a supported header is not refused")
            c.ensure(o[1], o[2] == "UnsupportedFeature", "refusal throws UnsupportedFeature")


@job("load MeshFormat (damaged header)", {"C14": None})
def hdr2(c):
    T = c.obj("T", "MshSpec"); f = T.mesh_format
    h = iomode.Havoc("in"); r = c.ex.root("in", None, "undef"); c.ex.streams["in"] = h
    h.init(c.st, fail=False, eof=False, lost=False, pos=0)
    for o in c.run(c.find(LOAD % "load_mesh_format"), [Ptr(r), T.ptr]):
        if o[0] == "ret":
            f = T.at(o[1]).mesh_format
            is41 = eq(f.version, "4.1")
            c.ensure(o[1], lor(is41, eq(f.version, "2.2")), "only a supported version is accepted")
            c.ensure(o[1], lor(lnot(is41), simp(tz(f.data_size) == 8)), "only the native data size is accepted")
        else: c.ensure(o[1], o[2] == "UnsupportedFeature", "refusal throws UnsupportedFeature")


@job("save_msh (unsupported version)", {"C14": None}, (False, True))
def badver(c):
    S = c.obj("S", "MshSpec", ro=True)
    c.assume(lnot(eq(S.mesh_format.version, "4.1")), lnot(eq(S.mesh_format.version, "2.2")))
    r = c.ex.root("out", None, "undef"); c.ex.streams["out"] = iomode.Sink("out")
    outs = c.run(c.find("mshio::save_msh(std::ostream&, mshio::MshSpec const&)"), [Ptr(r), S.ptr])
    for o in outs:
        c.ensure(o[1], o[0] == "throw", "an unsupported version is not written")
        if o[0] == "throw": c.ensure(o[1], o[2] == "UnsupportedFeature", "refusal throws UnsupportedFeature")


# ------------------------------------------------------------------ the section loop of load_msh
SECTIONS = [("MeshFormat", "load_mesh_format"), ("Entities", "load_entities"), ("PhysicalNames", "load_physical_groups"), ("Nodes", "load_nodes"), ("Elements", "load_elements"),
            ("NodeData", "load_node_data"), ("ElementData", "load_element_data"), ("ElementNodeData", "load_element_node_data"),
            ("NanoSplineFormat", "load_nanospline_format"), ("Curves", "load_curves"), ("Patches", "load_patches")]
POST = "mshio::load_msh_post_process(mshio::MshSpec&)"


def same_ptr(p, root, path=()): return isinstance(p, Ptr) and p.root is root and p.path == tuple(path)


def post_contract(c, R, throws):
    def f(ex, st, ins, a, G):
        ex.oblige(st, same_ptr(a[0], R), "dispatch", "the loaded spec is post-processed", ins)
        ex.oblige(st, eq(st.mem[("!pp", ())], 0), "dispatch", "post-processing happens once", ins)
        st.mem[("!pp", ())] = 1
        st.mem[("!ppk", ())] = ex.streams["in"].g(st, "k") if isinstance(ex.streams["in"], iomode.Units) else 0
        if not throws: return [("ret", st, None)]
        t = st.copy()
        return [("ret", st, None), ("throw", t, "InvalidFormat")]
    return f


@job("driver: load_msh", {"C17": None, "C01": None, "C02": None, "C03": None, "C04": None, "C05": None}, (False, True))
def drv(c):
    r = c.ex.root("in", None, "undef"); h = iomode.Units("in", [n for n, _ in SECTIONS]); c.ex.streams["in"] = h
    h.init(c.st, Ptr(r))
    D = c.default("D", "MshSpec")
    c.st.mem[("!pp", ())] = 0; c.st.mem[("!ppk", ())] = 0
    R = c.obj("R", "MshSpec", "undef")
    for nm, fn in SECTIONS:
        def f(ex, st, ins, a, G, nm=nm):
            ex.oblige(st, same_ptr(a[0], r), "dispatch", "the reader is given the input", ins)
            ex.oblige(st, same_ptr(a[1], R._root), "dispatch", "the reader is given the spec being loaded", ins)
            h.section(ex, st, ins, nm)
            return [("ret", st, None)]
        c.contract(LOAD % fn, f)
    c.contract(POST, post_contract(c, R._root, False))
    outs = c.run(c.find("mshio::load_msh(std::istream&)"), [R.ptr, Ptr(r)])
    for o in outs:
        if o[0] == "ret":
            c.ensure(o[1], eq(h.g(o[1], "k"), h.count()), "every section is consumed")
            c.ensure(o[1], land(eq(o[1].mem[("!pp", ())], 1), eq(o[1].mem[("!ppk", ())], h.count())), "post-processing follows the last section")
            c.deep_eq(o[1], R.at(o[1]), D.at(o[1]), "the driver itself changes nothing: spec")
        else: c.ensure(o[1], False, "a well-formed file is loaded without an exception")
    if not any(o[0] == "ret" for o in outs): c.ensure(c.st, False, "loading can finish")


@job("any input: load_msh", {"C07": SAFE, "C08": ("terminates",), "C09": ("lost", "ioerr"), "C10": ("inv",)}, (False, True))
def drv2(c):
    r = c.ex.root("in", None, "undef"); h = iomode.Havoc("in"); c.ex.streams["in"] = h
    h.init(c.st, fail=sym("fail0", "bool"), eof=sym("eof0", "bool"), lost=False, pos=sym("pos0", "len"))
    c.assume(sym("pos0", "len") <= sym("LEN!in", "len"))
    c.ex.check_term = True
    D = c.default("D", "MshSpec")
    c.st.mem[("!pp", ())] = 0; c.st.mem[("!ppk", ())] = 0; c.st.mem[("!sl", ())] = False
    R = c.obj("R", "MshSpec", "undef")
    def cand(ex, loop, forms):
        if ("in", ("fail",)) not in forms: return []
        return [lambda st: lnot(st.mem[("!sl", ())]), lambda st: simp(z3.Implies(tz(st.mem[("!sl", ())]), tz(h.g(st, "fail"))))]
    c.ex.candidates.append(cand)
    for nm, fn in SECTIONS:
        def f(ex, st, ins, a, G):
            k = iomode.site(ex, ins)
            lost = ex.fresh(st, k + "lost", "bool"); fail = ex.fresh(st, k + "fail", "bool")
            st.assume(simp(z3.Implies(lor(lost, h.g(st, "fail")), fail)))
            h.advance(ex, st, ins, False, 0)
            h.set(st, "fail", fail); h.set(st, "eof", ex.fresh(st, k + "eof", "bool"))
            st.mem[("!sl", ())] = simp(lor(st.mem[("!sl", ())], lost))
            t = st.copy()
            return [("ret", st, None), ("throw", t, "InvalidFormat")]
        c.contract(LOAD % fn, f)
    c.contract(POST, post_contract(c, R._root, True))
    for o in c.run(c.find("mshio::load_msh(std::istream&)"), [R.ptr, Ptr(r)]):
        if o[0] == "ret":
            c.ensure(o[1], lnot(o[1].mem[("!sl", ())]), "no section that could not be read is returned", kind="lost")
            c.ensure(o[1], eq(o[1].mem[("!pp", ())], 1), "post-processing happens before the spec is returned", kind="inv")
            for x in INV: ensure_inv(c, o[1], x, D)


# ------------------------------------------------------------------ save_msh: the sections of a file
def file_grammar(S, ver, asc, ext):
    e = E(asc); n = S.nodes; m = S.elements; en = S.entities
    is41 = ver == "4.1"
    anyent = simp(tz(en.points.size) + tz(en.curves.size) + tz(en.surfaces.size) + tz(en.volumes.size) > 0)
    def sec(name, cond, *body): return Opt(simp(cond), Sec(name, body[0] if body else Seq([])))
    def data(field, nm):
        D = getattr(S, field)
        return sec(nm, tz(D.size) > 0, Each(D.size, lambda i: framed(nm, g_data(e, D[i], field == "element_node_data"))))
    def one(nm, g): return framed(nm, g)
    L = [Sec("MeshFormat", one("MeshFormat", g_format(S, asc))), sec("PhysicalNames", tz(S.physical_groups.size) > 0, one("PhysicalNames", g_groups(S)))]
    if is41: L.append(sec("Entities", anyent, one("Entities", g_entities(e, S))))
    L.append(sec("Nodes", tz(n.num_nodes) > 0, one("Nodes", g_nodes41(e, S) if is41 else g_nodes22(e, S))))
    L.append(sec("Elements", tz(m.num_elements) > 0, one("Elements", g_elements41(e, S) if is41 else g_elements22(S, asc))))
    L += [data("node_data", "NodeData"), data("element_data", "ElementData"), data("element_node_data", "ElementNodeData")]
    if ext:
        L.append(Sec("NanoSplineFormat", one("NanoSplineFormat", Tok("str", S.nanospline_format.version, "version"))))
        L += [sec("Curves", tz(S.curves.size) > 0, one("Curves", g_splines(e, S.curves, False))), sec("Patches", tz(S.patches.size) > 0, one("Patches", g_splines(e, S.patches, True)))]
    return Seq(L)


SAVERS = [("MeshFormat", "save_mesh_format"), ("PhysicalNames", "save_physical_groups"), ("Entities", "save_entities"), ("Nodes", "save_nodes"), ("Elements", "save_elements"),
          ("NodeData", "save_node_data"), ("ElementData", "save_element_data"), ("ElementNodeData", "save_element_node_data"),
          ("NanoSplineFormat", "save_nanospline_format"), ("Curves", "save_curves"), ("Patches", "save_patches")]
LISTS = {"NodeData": "node_data", "ElementData": "element_data", "ElementNodeData": "element_node_data"}


def whole(c, ver, asc, ext):
    S = c.obj("S", "MshSpec", ro=True)
    c.assume(*wf_format(S, ver, asc))
    n = S.nodes; m = S.elements
    # a section whose total count is zero is empty (and the other way round)
    c.assume(eq(n.entity_blocks.size, n.num_entity_blocks), eq(m.entity_blocks.size, m.num_entity_blocks),
             simp((tz(n.num_nodes) > 0) == (tz(n.num_entity_blocks) > 0)), simp((tz(m.num_elements) > 0) == (tz(m.num_entity_blocks) > 0)))
    out, h = stream(c, "out", iomode.Writer, file_grammar(S, ver, asc, ext), prec=6)
    for nm, fn in SAVERS:
        if nm == "Entities" and ver == "2.2": f = lambda ex, st, ins, a, G: [("ret", st, None)]       # proved by the job "save Entities 2.2"
        else:
            def f(ex, st, ins, a, G, nm=nm):
                ex.oblige(st, same_ptr(a[0], out.root) and same_ptr(a[1], S._root), "layout", "the writer is given the stream and the spec", ins)
                if nm in LISTS and not ex.decide(st, tz(getattr(S, LISTS[nm]).size) > 0): return [("ret", st, None)]       # an empty list writes nothing
                it, fr = gram.next_item(ex, st, h.cur(ex, st), True)
                if not isinstance(it, Sec) or it.name != nm:
                    ex.oblige(st, False, "layout", "the section %s is written in its place" % nm, ins); raise Unsupported("layout")
                ex.oblige(st, simp(lnot(eq(h.get(st, "ws"), 1))), "layout", "sections are separated", ins)
                if nm not in ("MeshFormat", "PhysicalNames", "NanoSplineFormat"):
                    ex.oblige(st, simp(tz(h.get(st, "prec")) >= 17), "layout", "doubles are written with 17 significant digits", ins)
                g = h.cur(ex, st).g
                h.set(st, "cur", gram.Cur(g, gram.advance(g, fr))); h.set(st, "ws", 2)
                return [("ret", st, None)]
        c.contract(SAVE % fn, f)
    outs = c.run(c.find("mshio::save_msh(std::ostream&, mshio::MshSpec const&)"), [out, S.ptr])
    for o in outs:
        if o[0] == "ret":
            def done(cur):
                it, _ = gram.next_item(c.ex, o[1], cur, True); return it is None
            try: finished(c, o[1], h, "every section has been written", done)
            except EX.Fork: c.ensure(o[1], False, "every section has been written")
        else: c.ensure(o[1], False, "a well-formed spec is saved without an exception")
    if not outs: c.ensure(c.st, False, "saving can finish")


for asc in (False, True):
    for ver in ("4.1", "2.2"):
        for ext in (False, True):
            P = {"C06": None, "C04": None, ("C02" if asc else "C01") if ver == "4.1" else "C03": None}
            if ext: P["C05"] = None
            @job("save_msh %s %s%s" % (ver, "text" if asc else "binary", " +NanoSpline" if ext else ""), P, (ext,))
            def svm(c, ver=ver, asc=asc, ext=ext): whole(c, ver, asc, ext)


@job("save Entities 2.2", {"C03": None, "C06": ("layout", "post")})
def ent22(c):
    S = c.obj("S", "MshSpec", ro=True)
    c.assume(eq(S.mesh_format.version, "2.2"))
    out, h = stream(c, "out", iomode.Writer, Seq([Opt(sym("never", "bool"), lit("x"))]))
    c.assume(lnot(sym("never", "bool")))
    for o in c.run(c.find(SAVE % "save_entities"), [out, S.ptr]): c.ensure(o[1], o[0] == "ret", "nothing is written")


# ------------------------------------------------------------------ files
IO = ("ioerr", "post")
FNAME = "std::string const&"




def strtype(c):
    t = c.ty("MshSpec").fields[c.fieldidx(c.ty("MshSpec"), "mesh_format")][1]
    return t.fields[c.fieldidx(t, "version")][1]


def named_path(c):
    r = c.ex.root("fname", strtype(c), "sym", True)
    name = c.ex.read(c.st, r, (), ())
    def opened(st, ins, a, h):
        v = a[0]
        import libspec
        k = c.ex.cstr(st, v) if isinstance(v, Ptr) and v.path and v.path[-1] == ("f", "cstr") else libspec.strval(c.ex, st, v, ins) if isinstance(v, Ptr) else v
        c.ex.oblige(st, simp(libspec.seq(k, name)), "ioerr", "the named file is opened", ins)
    c.ex.fileopen = opened
    return Ptr(r)


@job("file: save_msh", {"C18": IO}, (False, True))
def fsave(c):
    S = c.obj("S", "MshSpec", ro=True)
    p = named_path(c)
    c.ex.fileout = iomode.FileOut
    H = []
    def f(ex, st, ins, a, G):
        h = iomode.handler(ex, a[0]); H.append(h)
        ex.oblige(st, isinstance(h, iomode.FileOut) and same_ptr(a[1], S._root), "ioerr", "the spec is written to the file", ins)
        k = iomode.site(ex, ins)
        # contract of save_msh(ostream): a failure stays visible in the state of the stream
        fl = ex.fresh(st, k + "fail", "bool"); lo = ex.fresh(st, k + "lost", "bool")
        st.assume(simp(z3.Implies(lor(lo, h.g(st, "lost"), h.g(st, "fail")), fl)))
        st.assume(simp(z3.Implies(tz(h.g(st, "fail")), lo)))          # it writes something
        h.set(st, fail=fl, lost=lor(lo, h.g(st, "lost")), pend=True)
        st.mem[("!sv", ())] = 1
        return [("ret", st, None), ("throw", st.copy(), "UnsupportedFeature")]
    c.contract("mshio::save_msh(std::ostream&, mshio::MshSpec const&)", f)
    c.st.mem[("!sv", ())] = 0
    outs = c.run(c.find("mshio::save_msh(std::string const&, mshio::MshSpec const&)"), [p, S.ptr])
    c.ensure(c.st, any(o[0] == "ret" for o in outs) and any(o[0] == "throw" for o in outs), "saving can succeed and fail")
    for o in outs:
        st = o[1]
        if o[0] == "ret":
            c.ensure(st, eq(st.mem[("!sv", ())], 1), "the spec is written")
            for h in {h.n: h for h in H}.values():
                c.ensure(st, lnot(h.g(st, "lost")), "every byte was accepted by the stream")
                c.ensure(st, lnot(h.g(st, "pend")), "no byte is left to the destructor, whose failure nobody sees")


@job("file: load_msh", {"C18": IO}, (False, True))
def fload(c):
    p = named_path(c)
    c.ex.filein = iomode.FileIn
    H = []
    R = c.obj("R", "MshSpec", "undef")
    def f(ex, st, ins, a, G):
        h = iomode.handler(ex, a[1]); H.append(h)
        ex.oblige(st, isinstance(h, iomode.FileIn), "ioerr", "the file is read", ins)
        st.mem[("!ld", ())] = simp(ite(h.g(st, "opened"), 1, 0))
        # contract of load_msh(istream): returns only if no read failed with an error
        return [("ret", st, None), ("throw", st.copy(), "runtime_error")]
    c.contract("mshio::load_msh(std::istream&)", f)
    c.st.mem[("!ld", ())] = 0
    outs = c.run(c.find("mshio::load_msh(std::string const&)"), [R.ptr, p])
    c.ensure(c.st, any(o[0] == "ret" for o in outs) and any(o[0] == "throw" for o in outs), "loading can succeed and fail")
    for o in outs:
        if o[0] == "ret": c.ensure(o[1], eq(o[1].mem[("!ld", ())], 1), "the file has been loaded")


@job("read errors: load_msh", {"C18": IO}, (False, True))
def rerr(c):
    r = c.ex.root("in", None, "undef"); h = iomode.FileIn("in"); c.ex.streams["in"] = h
    h.init(c.st, fail=sym("fail0", "bool"), eof=sym("eof0", "bool"), lost=False, pos=sym("pos0", "len"), bad=sym("bad0", "bool"), rerr=sym("bad0", "bool"))
    c.assume(sym("pos0", "len") <= sym("LEN!in", "len"), simp(z3.Implies(sym("bad0", "bool"), sym("fail0", "bool"))))
    R = c.obj("R", "MshSpec", "undef")
    for nm, fn in SECTIONS:
        def f(ex, st, ins, a, G):
            k = iomode.site(ex, ins)
            # contract of the readers: the error state of a failed stream is not cleared
            e = ex.fresh(st, k + "rerr", "bool"); fail = ex.fresh(st, k + "fail", "bool")
            st.assume(simp(z3.Implies(lor(e, h.g(st, "fail")), fail)))
            h.advance(ex, st, ins, False, 0)
            h.set(st, "fail", fail); h.set(st, "eof", ex.fresh(st, k + "eof", "bool"))
            h.set(st, "rerr", simp(lor(h.g(st, "rerr"), e))); h.set(st, "bad", simp(lor(h.g(st, "bad"), e)))
            return [("ret", st, None), ("throw", st.copy(), "InvalidFormat")]
        c.contract(LOAD % fn, f)
    c.contract(POST, lambda ex, st, ins, a, G: [("ret", st, None), ("throw", st.copy(), "InvalidFormat")])
    outs = c.run(c.find("mshio::load_msh(std::istream&)"), [R.ptr, Ptr(r)])
    for o in outs:
        if o[0] == "ret": c.ensure(o[1], lnot(h.g(o[1], "rerr")), "a read error is not taken for the end of the file")
    c.ensure(c.st, any(o[0] == "ret" for o in outs) and any(o[0] == "throw" for o in outs), "loading can succeed and fail")


def outerr(c, S, fn, setup=None):
    h = iomode.FileOut("out"); r = c.ex.root("out", None, "undef"); c.ex.streams["out"] = h
    h.init(c.st, fail=sym("fail0", "bool"), lost=sym("lost0", "bool"), pend=sym("pend0", "bool"))
    c.assume(simp(z3.Implies(sym("lost0", "bool"), sym("fail0", "bool"))))
    if setup: setup(h)
    for o in c.run(c.find(fn), [Ptr(r), S.ptr]):
        if o[0] == "ret":
            c.ensure(o[1], simp(z3.Implies(lor(h.g(o[1], "lost"), sym("fail0", "bool")), tz(h.g(o[1], "fail")))), "a write that failed leaves the stream failed")


for _nm, _fn in SAVERS:
    @job("write errors: save " + _nm, {"C18": IO}, (True,) if _nm in ("Curves", "Patches", "NanoSplineFormat") else (False,))
    def werr(c, fn=_fn):
        S = c.obj("S", "MshSpec", ro=True)
        validated(c, S); c.assume(*wf_splines(S.curves, False) if "curves" in fn else wf_splines(S.patches, True) if "patches" in fn else [])
        outerr(c, S, SAVE % fn)


@job("write errors: save_msh", {"C18": IO}, (False, True))
def werr2(c):
    S = c.obj("S", "MshSpec", ro=True)
    def setup(h):
        for nm, fn in SAVERS:
            def f(ex, st, ins, a, G):
                k = iomode.site(ex, ins)
                fl = ex.fresh(st, k + "fail", "bool"); lo = ex.fresh(st, k + "lost", "bool")
                st.assume(simp(z3.Implies(lor(lo, h.g(st, "lost"), h.g(st, "fail")), fl)))
                h.set(st, fail=fl, lost=lor(lo, h.g(st, "lost")), pend=True)
                return [("ret", st, None), ("throw", st.copy(), "UnsupportedFeature")]
            c.contract(SAVE % fn, f)
    outerr(c, S, "mshio::save_msh(std::ostream&, mshio::MshSpec const&)", setup)
