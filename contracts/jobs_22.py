"""2.2 files: reading the flat lists, entities from tags, regrouping."""
from jobs_io import *

JOBS = []


def job(name, props, exts=(False,), budget=240):
    def d(f):
        JOBS.append({"name": name, "props": props, "exts": exts, "fn": f, "budget": budget})
        return f
    return d


POS = lambda v: land(tz(v) >= 1, tz(v) < M31)


# ------------------------------------------------------------------ nodes
def nodes_file(c, asc):
    """ghost: one block with the file's nodes"""
    S = c.obj("S", "MshSpec", ro=True)
    n = S.nodes; b = n.entity_blocks[0]
    c.assume(eq(n.num_entity_blocks, 1), eq(n.entity_blocks.size, 1), eq(n.num_nodes, b.num_nodes_in_block), eq(b.tags.size, n.num_nodes), eq(b.data.size, simp(3 * tz(n.num_nodes))),
             eq(b.entity_dim, 0), eq(b.entity_tag, 0), eq(b.parametric, 0))
    c.assume(qf(n.num_nodes, lambda i: POS(b.tags[i])))
    e = E(asc)
    g = Seq([Tok("int", n.num_nodes, "node count"), Each(n.num_nodes, lambda j: Seq([e.i(b.tags[j], "node tag")] + [e.d(b.data[simp(3 * tz(j) + k)], "node coordinate") for k in range(3)]))])
    return S, g


for asc in (True, False):
    @job("load Nodes 2.2 %s" % ("text" if asc else "binary"), {"C03": None, "C16": None})
    def ln(c, asc=asc):
        S, g = nodes_file(c, asc)
        T = reader_spec(c, "2.2", asc); reset(c, T, "nodes")
        def check(st, Q):
            c.deep_eq(st, Q.nodes, S.nodes, "Nodes", ("min_node_tag", "max_node_tag"))
            n = Q.nodes; m = S.nodes; b = m.entity_blocks[0]
            k = sym("sk!nt", "len"); s2 = st.copy(); s2.assume(k < tz(m.num_nodes))
            c.ensure(s2, land(tz(n.min_node_tag) <= tz(b.tags[k]), tz(b.tags[k]) <= tz(n.max_node_tag)), "every node tag is within the bounds")
            s3 = st.copy(); s3.assume(tz(m.num_nodes) > 0)
            for f in ("min_node_tag", "max_node_tag"):
                # attained: it is not the case that every tag differs from it
                s4 = s3.copy(); s4.pc.append(qf(m.num_nodes, lambda i: lnot(eq(b.tags[i], getattr(n, f)))))
                c.ensure(s4, False, "the %s is attained" % f, exact=False)
        reader(c, T, "load_nodes", g, "$EndNodes", check, ["nodes"])


# ------------------------------------------------------------------ elements: ghost functions of the position in the file
class EL:
    """element k of the file"""
    def __init__(s, pre=""): s.pre = pre
    N = property(lambda s: sym("F!N" + s.pre, "len"))
    def num(s, k): return sym("F!num", "i32", [k])
    def typ(s, k): return sym("F!typ", "i32", [k])
    def nt(s, k): return sym("F!nt", "i32", [k])
    def tag(s, k, j): return sym("F!tag", "i32", [k, j])
    def node(s, k, j): return sym("F!node", "i32", [k, j])
    def owner(s, k): return simp(ite(simp(tz(s.nt(k)) > 1), s.tag(k, 1), ite(simp(tz(s.nt(k)) > 0), s.tag(k, 0), 1)))

    def wf(s):
        i = z3.Int("q!f"); j = z3.Int("q!g")
        return [QF([i], z3.And(i >= 0, i < s.N), z3.And(s.num(i) >= 1, s.typ(i) >= 1, s.typ(i) <= 31, s.nt(i) >= 0, s.nt(i) < M31 - 1)),
                QF([i, j], z3.And(i >= 0, i < s.N, j >= 0, j < ntype(s.typ(i))), s.node(i, j) >= 1)]

    def g_text(s):
        return Seq([Tok("int", s.N, "element count"), Each(s.N, lambda k: Seq([
            Tok("int", s.num(k), "element number"), Tok("int", s.typ(k), "element type"), Tok("int", s.nt(k), "tag count"),
            Each(s.nt(k), lambda j: Tok("int", s.tag(k, j), "element tag")), Each(ntype(s.typ(k)), lambda j: Tok("int", s.node(k, j), "node tag"))]))])


def same_elements(c, st, Q, F):
    """one block per element of the file, in order"""
    m = Q.elements
    c.ensure(st, eq(m.num_elements, F.N), "as many elements as in the file"); c.ensure(st, eq(m.num_entity_blocks, F.N), "as many blocks as elements"); c.ensure(st, eq(m.entity_blocks.size, F.N), "one block per element")
    k = sym("sk!el", "len"); s2 = st.copy(); s2.assume(k < F.N)
    b = m.entity_blocks[k].at(s2)
    c.ensure(s2, eq(b.num_elements_in_block, 1), "one element per block")
    c.ensure(s2, eq(b.element_type, F.typ(k)), "element type")
    c.ensure(s2, eq(b.entity_dim, dtype(F.typ(k))), "dimension of the type")
    c.ensure(s2, eq(b.entity_tag, F.owner(k)), "owner: second tag, else first, else 1")
    c.ensure(s2, eq(b.data.size, simp(ntype(F.typ(k)) + 1)), "element number and node tags")
    c.ensure(s2, eq(b.data[0], F.num(k)), "element number")
    j = sym("sk!en", "len"); s3 = s2.copy(); s3.assume(j < ntype(F.typ(k)))
    c.ensure(s3, eq(b.at(s3).data[simp(j + 1)], F.node(k, j)), "node tags")


def tag_bounds(c, st, m, N, tag):
    k = sym("sk!eb", "len"); s2 = st.copy(); s2.assume(k < tz(N))
    c.ensure(s2, land(tz(m.min_element_tag) <= tz(tag(k)), tz(tag(k)) <= tz(m.max_element_tag)), "every element tag is within the bounds")
    for f in ("min_element_tag", "max_element_tag"):
        s4 = st.copy(); s4.assume(tz(N) > 0); s4.assume(tz(getattr(m, f)) >= 0); s4.pc.append(qf(N, lambda i: lnot(eq(tag(i), getattr(m, f)))))
        c.ensure(s4, False, "the %s is attained" % f, exact=False)


def entities_of(c, st, Q, F):
    """the entities are the enumeration of the second tags per dimension, their physical groups the first tags"""
    E = Q.entities
    for e, L in enumerate((E.points, E.curves, E.surfaces, E.volumes)):
        w = " (dimension %d)" % e
        tag = lambda k: L[k].tag
        k = sym("sk!ent%d" % e, "len"); i = sym("sk!elt%d" % e, "len")
        mine = lambda x: land(tz(F.nt(x)) > 1, eq(dtype(F.typ(x)), e))
        s2 = st.copy(); s2.assume(simp(k + 1) < tz(L.size))
        c.ensure(s2, tz(L[k].at(s2).tag) < tz(L[simp(k + 1)].at(s2).tag), "increasing entity tags" + w)
        s3 = st.copy(); s3.assume(k < tz(L.size)); t = sym("sk!tag%d" % e, "i32"); s3.assume(eq(L[k].at(s3).tag, t))
        s4 = s3.copy(); s4.pc.append(qf(F.N, lambda x: lnot(land(mine(x), eq(F.tag(x, 1), t)))))
        c.ensure(s4, False, "every entity is the second tag of an element" + w, exact=False)
        s5 = st.copy(); s5.assume(i < F.N); s5.assume(mine(i)); s6 = s5.copy()
        s6.pc.append(qf(L.size, lambda x: lnot(eq(L[x].at(s5).tag, F.tag(i, 1)))))
        c.ensure(s6, False, "every second tag of an element is an entity" + w, exact=False)
        P = L[k].at(s3).physical_group_tags
        p = sym("sk!pg%d" % e, "len"); q = sym("sk!ph%d" % e, "len")
        s7 = s3.copy(); s7.assume(p < q); s7.assume(q < tz(P.size))
        c.ensure(s7, lnot(eq(P.at(s7)[p], P.at(s7)[q])), "no physical group twice" + w, exact=False)
        s8 = s3.copy(); s8.assume(p < tz(P.size)); v = sym("sk!grp%d" % e, "i32"); s8.assume(eq(P.at(s8)[p], v))
        s8.pc.append(qf(F.N, lambda x: lnot(land(mine(x), eq(F.tag(x, 1), t), eq(F.tag(x, 0), v)))))
        c.ensure(s8, False, "every physical group is the first tag of an element of the entity" + w, exact=False)
        s9 = s3.copy(); s9.assume(i < F.N); s9.assume(mine(i)); s9.assume(eq(F.tag(i, 1), t)); s10 = s9.copy()
        s10.pc.append(qf(P.size, lambda x: lnot(eq(P.at(s9)[x], F.tag(i, 0)))))
        c.ensure(s10, False, "the first tag of every element of the entity is a physical group" + w, exact=False)


@job("load Elements 2.2 text", {"C03": None, "C15": None, "C16": None})
def le22(c):
    F = EL(); c.assume(*F.wf())
    T = reader_spec(c, "2.2", True); reset(c, T, "elements"); reset(c, T, "entities")
    def check(st, Q):
        same_elements(c, st, Q, F)
        tag_bounds(c, st, Q.elements, F.N, F.num)
        entities_of(c, st, Q, F)
    reader(c, T, "load_elements", F.g_text(), "$EndElements", check, ["elements", "entities"])


def induct(c, N, P, what):
    """P(0), ..., P(N) hold: by induction"""
    def goal(st, q):
        sk = [(v, z3.Int("sk!ind!%s" % v)) for v in q.vs]
        st.assume(subst(tz(q.guard), sk)); c.ensure(st, subst(tz(q.body), sk), what, kind="lemma")
    goal(c.st.copy(), P(0))
    s2 = c.st.copy(); k = sym("sk!ind", "len"); s2.assume(k < tz(N)); h = P(k)
    if h.vs: s2.pc.append(h)
    else: s2.assume(h.body)
    goal(s2, P(simp(k + 1)))


class EB(EL):
    """a binary file: the elements lie in blocks; block b holds the elements off(b) .. off(b+1)-1"""
    B = property(lambda s: sym("F!B", "len"))
    def off(s, b): return sym("F!off", "len", [b])
    def btyp(s, b): return sym("F!btyp", "i32", [b])
    def bnt(s, b): return sym("F!bnt", "i32", [b])
    def mn(s, k): return sym("H!mn", "i32", [k])            # least and greatest number of the first k elements
    def mx(s, k): return sym("H!mx", "i32", [k])
    def mine(s, k, d, x): return land(tz(s.nt(k)) > 1, eq(dtype(s.typ(k)), d), eq(s.tag(k, 1), x))
    def has(s, k, d, x): return sym("H!has", "bool", [k, d, x])             # one of the first k elements has dimension d and second tag x
    def hasw(s, k, d, x): return sym("H!hasw", "i32", [k, d, x])            # ... the last such element
    def grp(s, k, d, x, y): return sym("H!grp", "bool", [k, d, x, y])       # ... and first tag y
    def grpw(s, k, d, x, y): return sym("H!grpw", "i32", [k, d, x, y])

    def wf(s):
        b = z3.Int("q!bb"); i = z3.Int("q!bi"); k = z3.Int("q!bk"); d = z3.Int("q!bd"); x = z3.Int("q!bx"); y = z3.Int("q!by")
        N = s.N
        bnd = z3.And(b >= 0, b < s.B); kn = z3.And(k >= 0, k < N)
        same = land(s.mine(k, d, x), eq(s.tag(k, 0), y))
        return EL.wf(s) + [eq(s.off(0), 0), eq(s.off(s.B), N),
            QF([b], bnd, z3.And(s.off(b) < s.off(b + 1), s.off(b + 1) <= N, s.off(b + 1) - s.off(b) < M31, s.btyp(b) >= 1, s.btyp(b) <= 31, s.bnt(b) >= 0, s.bnt(b) < M31 - 1)),
            QF([b, i], z3.And(bnd, s.off(b) <= i, i < s.off(b + 1)), z3.And(s.typ(i) == s.btyp(b), s.nt(i) == s.bnt(b))),
            # the ghost functions, by recursion on the number of elements
            eq(s.mn(0), M31 - 1), eq(s.mx(0), 0), QF([d, x], z3.BoolVal(True), z3.Not(s.has(0, d, x))), QF([d, x, y], z3.BoolVal(True), z3.Not(s.grp(0, d, x, y))),
            QF([k], kn, tz(land(eq(s.mn(k + 1), ite(simp(s.num(k) < s.mn(k)), s.num(k), s.mn(k))), eq(s.mx(k + 1), ite(simp(s.num(k) > s.mx(k)), s.num(k), s.mx(k)))))),
            QF([k, d, x], kn, tz(land(eq(s.has(k + 1, d, x), lor(s.has(k, d, x), s.mine(k, d, x))), eq(s.hasw(k + 1, d, x), ite(s.mine(k, d, x), k, s.hasw(k, d, x)))))),
            QF([k, d, x, y], kn, tz(land(eq(s.grp(k + 1, d, x, y), lor(s.grp(k, d, x, y), same)), eq(s.grpw(k + 1, d, x, y), ite(same, k, s.grpw(k, d, x, y))))))]

    def lemmas(s):
        """by induction on k"""
        j = z3.Int("q!lj"); d = z3.Int("q!ld"); x = z3.Int("q!lx"); y = z3.Int("q!ly"); tr = z3.BoolVal(True)
        jn = lambda k: z3.And(j >= 0, j < tz(k))
        return {"the bounds of the element numbers are positive": lambda k: QF([], tr, tz(land(s.mn(k) >= 1, s.mx(k) >= 0))),
                "a physical group belongs to an entity": lambda k: QF([d, x, y], tz(s.grp(k, d, x, y)), tz(s.has(k, d, x))),
                "the bounds of the element numbers hold": lambda k: QF([j], jn(k), z3.And(s.mn(k) <= s.num(j), s.num(j) <= s.mx(k))),
                "an entity has an element": lambda k: QF([d, x], tz(s.has(k, d, x)), tz(land(s.hasw(k, d, x) >= 0, s.hasw(k, d, x) < k, s.mine(s.hasw(k, d, x), d, x)))),
                "a physical group has an element": lambda k: QF([d, x, y], tz(s.grp(k, d, x, y)), tz(land(s.grpw(k, d, x, y) >= 0, s.grpw(k, d, x, y) < k, s.mine(s.grpw(k, d, x, y), d, x), eq(s.tag(s.grpw(k, d, x, y), 0), y)))),
                "an element with two tags has an entity": lambda k: QF([j], z3.And(jn(k), tz(s.nt(j)) > 1), tz(s.has(k, dtype(s.typ(j)), s.tag(j, 1)))),
                "an element with two tags has a physical group": lambda k: QF([j], z3.And(jn(k), tz(s.nt(j)) > 1), tz(s.grp(k, dtype(s.typ(j)), s.tag(j, 1), s.tag(j, 0))))}

    def g_bin(s):
        def blk(b):
            at = lambda i: simp(s.off(b) + tz(i)); cnt = simp(s.off(b + 1) - s.off(b))
            return Seq([Raw("i32", s.btyp(b), "element type"), Raw("i32", cnt, "elements in the block"), Raw("i32", s.bnt(b), "tag count"),
                Each(cnt, lambda i: Seq([Raw("i32", s.num(at(i)), "element number"), Each(s.bnt(b), lambda j: Raw("i32", s.tag(at(i), j), "element tag")), Each(ntype(s.btyp(b)), lambda j: Raw("i32", s.node(at(i), j), "node tag"))]))])
        return Seq([Tok("int", s.N, "element count"), Each(s.B, blk)])


@job("load Elements 2.2 binary", {"C03": None, "C15": None, "C16": None})
def le22b(c):
    F = EB(); c.assume(*F.wf())
    L = F.lemmas()
    for what, P in L.items(): induct(c, F.N, P, what)
    for what in ("the bounds of the element numbers are positive", "a physical group belongs to an entity"):
        k = z3.Int("q!lk"); q = L[what](k)
        c.assume(QF([k] + q.vs, z3.And(k >= 0, k <= F.N, q.guard), q.body))
    T = reader_spec(c, "2.2", False); reset(c, T, "elements"); reset(c, T, "entities")
    c.ex.approx = True
    iscell = lambda k: k[0] == T._root.name and k[1][:2] == (c.fieldidx(T._ty, "elements"), c.fieldidx(T.elements._ty, "entity_blocks"))
    fn = lambda loop: loop.F.dem.startswith("mshio::v22::load_elements_binary")
    ck = ("in", ("cur",))
    def level(loop):
        """1: over the blocks of the file, 2: over the elements of a block"""
        if not fn(loop) or ck not in loop.mod: return 0
        return len([f for f in loop.entry(ck).fr or () if f[0] == "i"])
    def flat(st):
        """number of elements before the reading position"""
        i = [f[1] for f in st.mem[ck].fr or () if f[0] == "i"]
        return F.N if not i else F.off(i[0]) if len(i) == 1 else simp(F.off(i[0]) + tz(i[1]))
    def force(loop, k):
        d = level(loop)
        loc = k[0].startswith("L") and not (k[0] in c.ex.roots and c.ex.roots[k[0]].ty is not None and c.ex.roots[k[0]].ty.kind == "vec")
        return k[1][-1:] != ("ep",) and (d == 1 and (iscell(k) or loc) or d == 2 and loc)
    c.ex.force = force
    def cand(ex, loop, forms):
        d = level(loop)
        if d not in (1, 2): return []
        outer = d == 1
        out = []
        for k, f in forms.items():
            if f.kind != "havoc" or k[0] in ex.streams: continue
            n = loop.arity(k)
            if n == 0:
                for g in (lambda p: p, F.mn, F.mx): out.append((lambda k, g: lambda st, it: eq(st.mem[k], g(flat(st))))(k, g))
            elif not iscell(k):
                r = ex.roots[k[0]]; vs = [z3.Int("q!c%d" % i) for i in range(n)]
                if n not in (2, 3): continue
                g = F.has if n == 2 else F.grp
                cell = (lambda k, vs: lambda st: simp(subst(tz(ex.cell(st, ex.roots[k[0]], k[1], len(vs))), list(zip(X, vs)))))(k, vs)
                out.append((lambda g, vs, cell: lambda st, it: QF(vs, z3.And(vs[0] >= 0, vs[0] < 4), tz(cell(st)) == tz(g(flat(st), *vs))))(g, vs, cell))
        if outer and any(iscell(k) for k in forms):
            b = lambda st, i: T.at(st).elements.entity_blocks[i]
            out += [lambda st, it: qf(flat(st), lambda i: land(eq(b(st, i).num_elements_in_block, 1), eq(b(st, i).element_type, F.typ(i)), eq(b(st, i).entity_dim, dtype(F.typ(i))), eq(b(st, i).entity_tag, F.owner(i)))),
                    lambda st, it: qf(flat(st), lambda i: land(eq(b(st, i).data.size, simp(ntype(F.typ(i)) + 1)), eq(b(st, i).data[0], F.num(i)))),
                    lambda st, it: qf2(flat(st), lambda i: ntype(F.typ(i)), lambda i, j: eq(b(st, i).data[simp(j + 1)], F.node(i, j)))]
        return [loops.Indexed(f) for f in out]
    c.ex.candidates.append(cand)
    def check(st, Q):
        st.pc += [P(F.N) for P in L.values()]
        same_elements(c, st, Q, F)
        m = Q.elements
        c.ensure(st, eq(m.min_element_tag, ite(simp(F.N == 0), M31 - 1, F.mn(F.N))), "the least element number"); c.ensure(st, eq(m.max_element_tag, F.mx(F.N)), "the greatest element number")
        entities_of(c, st, Q, F)
    reader(c, T, "load_elements", F.g_bin(), "$EndElements", check, ["elements", "entities"])


# ------------------------------------------------------------------ regrouping
import jobs_more
from jobs_more import INV, SAFE, POST, ensure_inv


class Vec:
    """view of a local vector by its root"""
    def __init__(s, c, root): s.c, s.root = c, root
    def at(s, st): return V(s.c, st, s.root)


def local_vecs(c, ex, forms, elem):
    """roots of local vectors of elem whose size changes in the loop"""
    out = []
    for k in forms:
        if k[1] == ("size",) and k[0] in ex.roots:
            r = ex.roots[k[0]]
            if r.ty.kind == "vec" and r.ty.elem is elem: out.append(r)
    return out


def described(c, elem):
    """loops that build a local vector of elem are described by the invariants offered by the job"""
    isv = lambda k: k[0] in c.ex.roots and k[0].startswith("L") and c.ex.roots[k[0]].ty.kind == "vec" and c.ex.roots[k[0]].ty.elem is elem
    c.ex.norec = lambda loop, k: isv(k) or (k[0].startswith("L") and any(isv(q) and q[1] == ("size",) for q in loop.mod))


ANY = {"C07": SAFE, "C08": ("terminates",), "C09": None, "C10": ("inv",)}


def regroup_any(what, keep, it_nonempty, same):
    """any spec that loading can produce (consistent nodes and elements of any version)"""
    @job("any input: regroup %s" % what, {k: v for k, v in ANY.items() if v})
    def f(c):
        T = c.obj("T", "MshSpec")
        c.assume(*INV["nodes"](c, T)); c.assume(*INV["elements"](c, T))
        e = T.elements.entity_blocks; k = sym("sk!le", "len"); s2 = c.st.copy(); s2.assume(k < tz(T.elements.num_entity_blocks))
        c.ensure(s2, tz(e[k].num_elements_in_block) <= tz(e[k].data.size), "a block has no more elements than entries")
        c.assume(qf(T.elements.num_entity_blocks, lambda i: tz(e[i].num_elements_in_block) <= tz(e[i].data.size)))
        c.ex.check_term = True
        E = getattr(T, what).entity_blocks._ty.elem
        c.ex.norec = lambda loop, k: k[0].startswith("L")
        def cand(ex, loop, forms):
            out = []
            for r in local_vecs(c, ex, forms, E):
                A = Vec(c, r).at
                out += [(lambda A, k: lambda st: qf(A(st).size, lambda i: k(A(st)[i])))(A, k) for k in keep]
                if it_nonempty: out += [loops.Indexed(lambda st, it: simp(z3.Implies(tz(it) > 0, tz(A(st).size) > 0)))]
                for k, f in forms.items():
                    if f.kind == "havoc" and not loop.arity(k) and k[1] != ("size",) and isinstance(f.v0, (int, z3.ExprRef)):
                        out.append((lambda A, k, f: lambda st: simp(z3.Implies(tz(A(st).size) == 0, tz(st.mem[k]) == tz(f.v0))))(A, k, f))
                        for fld in same:
                            for h in (u64, lambda x: x): out.append((lambda A, k, fld, h: lambda st: simp(z3.Implies(tz(A(st).size) > 0, tz(st.mem[k]) == tz(h(getattr(A(st)[simp(tz(A(st).size) - 1)], fld))))))(A, k, fld, h))
            return out
        c.ex.candidates.append(cand)
        for o in c.run(c.find("mshio::v22::regroup_%s_into_blocks(mshio::MshSpec&)" % what), [T.ptr]):
            if o[0] == "ret":
                ensure_inv(c, o[1], what, T)
                c.frame(o[1], T, [what])


regroup_any("nodes", (lambda x: eq(x.parametric, 0), lambda x: eq(x.data.size, simp(3 * tz(x.tags.size)))), False, ())
regroup_any("elements", (lambda x: land(tz(x.element_type) >= 1, tz(x.element_type) <= 31), lambda x: eq(x.data.size, simp(tz(x.num_elements_in_block) * (ntype(x.element_type) + 1))), lambda x: tz(x.num_elements_in_block) <= tz(x.data.size)), True, ("element_type",))


class NO:
    """the owner of node i of the file, and its place among the blocks: o(i)-th block, position p(i) in it"""
    def __init__(s, F, n, tag, node, dim, own): s.F, s.n, s.tag, s.node, s.edim, s.eown = F, n, tag, node, dim, own
    def used(s, i): return sym("G!used", "bool", [i])
    def last(s, i): return sym("G!last", "len", [i])
    def lj(s, i): return sym("G!lj", "len", [i])
    def dim(s, i): return sym("G!dim", "i32", [i])
    def own(s, i): return sym("G!own", "i32", [i])
    def o(s, i): return sym("G!o", "len", [i])
    def p(s, i): return sym("G!p", "len", [i])
    def ch(s, i): return lor(lnot(eq(s.dim(simp(tz(i) + 1)), s.dim(i))), lnot(eq(s.own(simp(tz(i) + 1)), s.own(i))))

    def wf(s):
        F = s.F; k = z3.Int("q!nk"); j = z3.Int("q!nj"); i = z3.Int("q!ni")
        return [qf(s.n, lambda i: z3.Implies(tz(s.used(i)), land(s.last(i) < F.N, s.lj(i) < ntype(F.typ(s.last(i))), eq(s.node(s.last(i), s.lj(i)), s.tag(i))))),
                QF([i, k, j], z3.And(i >= 0, i < tz(s.n), k >= 0, k < F.N, j >= 0, j < ntype(F.typ(k)), tz(s.node(k, j)) == tz(s.tag(i))), z3.And(s.used(i), k <= s.last(i))),
                qf(s.n, lambda i: land(eq(s.dim(i), ite(s.used(i), s.edim(s.last(i)), 0)), eq(s.own(i), ite(s.used(i), s.eown(s.last(i)), 0)))),
                eq(s.o(0), 0), eq(s.p(0), 0),
                qf(s.n, lambda i: land(eq(s.o(simp(i + 1)), simp(s.o(i) + tz(ite(s.ch(i), 1, 0)))), eq(s.p(simp(i + 1)), ite(s.ch(i), 0, simp(s.p(i) + 1)))))]


def flat_elements(c, T, F):
    """what loading the elements of a 2.2 file has established"""
    m = T.elements; b = lambda k: m.entity_blocks[k]
    c.assume(*F.wf())
    c.assume(eq(m.num_elements, F.N), eq(m.num_entity_blocks, F.N), eq(m.entity_blocks.size, F.N),
             qf(F.N, lambda k: land(eq(b(k).num_elements_in_block, 1), eq(b(k).element_type, F.typ(k)), eq(b(k).entity_dim, dtype(F.typ(k))), eq(b(k).entity_tag, F.owner(k)),
                eq(b(k).data.size, simp(ntype(F.typ(k)) + 1)), eq(b(k).data[0], F.num(k)))),
             qf2(F.N, lambda k: ntype(F.typ(k)), lambda k, j: eq(b(k).data[simp(j + 1)], F.node(k, j))))


def u64(x): return simp(ite(simp(tz(x) >= 0), x, simp(tz(x) + M64)))


@job("regroup nodes", {"C16": None, "C03": None})
def regn(c):
    T = c.obj("T", "MshSpec"); F = EL()
    c.assume(eq(T.mesh_format.version, "2.2"))
    flat_elements(c, T, F)
    N = T.nodes; b0 = N.entity_blocks[0]; n = N.num_nodes
    t = lambda i: b0.tags[i]; d = lambda i, k: b0.data[simp(3 * tz(i) + k)]
    c.assume(eq(N.num_entity_blocks, 1), eq(N.entity_blocks.size, 1), eq(n, b0.num_nodes_in_block), eq(b0.tags.size, n), eq(b0.data.size, simp(3 * tz(n))), eq(b0.parametric, 0))
    c.assume(qf(n, lambda i: land(POS(t(i)), tz(N.min_node_tag) <= tz(t(i)), tz(t(i)) <= tz(N.max_node_tag))))
    c.assume(simp(z3.Implies(tz(n) > 0, z3.And(tz(N.min_node_tag) >= 1, tz(N.max_node_tag) < M31))), simp(z3.Implies(tz(n) == 0, F.N == 0)), qf2(F.N, lambda k: ntype(F.typ(k)), lambda k, j: land(F.node(k, j) >= tz(N.min_node_tag), F.node(k, j) <= tz(N.max_node_tag))))
    eb = lambda k: T.elements.entity_blocks[k]
    G = NO(F, n, t, lambda k, j: eb(k).data[simp(tz(j) + 1)], lambda k: eb(k).entity_dim, lambda k: eb(k).entity_tag)
    c.assume(*G.wf())
    NB = N.entity_blocks._ty.elem; c.ex.last = True
    described(c, NB)
    def cand(ex, loop, forms):
        vs = local_vecs(c, ex, forms, NB)
        if not vs: return []
        out = []
        for r in vs:
            A = Vec(c, r)
            B = A.at
            out += [lambda st, it: eq(B(st).size, ite(simp(it == 0), 0, simp(G.o(simp(it - 1)) + 1))),
                    lambda st, it: (lambda x, p: simp(z3.Implies(it > 0, land(eq(x.tags.size, simp(p + 1)), eq(x.data.size, simp(3 * (p + 1)))))))(B(st)[G.o(simp(it - 1))], G.p(simp(it - 1))),
                    lambda st, it: qf(it, lambda k: (lambda x: land(eq(x.entity_dim, G.dim(k)), eq(x.entity_tag, G.own(k)), eq(x.parametric, 0)))(B(st)[G.o(k)])),
                    lambda st, it: qf(it, lambda k: (lambda x: land(eq(x.tags[G.p(k)], t(k)), *[eq(x.data[simp(3 * G.p(k) + m)], d(k, m)) for m in range(3)]))(B(st)[G.o(k)])),
                    lambda st, it: qf(simp(it - 1), lambda k: (lambda x: tz(z3.Implies(tz(G.ch(k)), land(eq(x.tags.size, simp(G.p(k) + 1)), eq(x.data.size, simp(3 * (G.p(k) + 1)))))))(B(st)[G.o(k)])),
                    lambda st, it: (lambda prev: qf(it, lambda k: land(G.o(k) <= G.o(prev), z3.Implies(G.o(k) == G.o(prev), G.p(k) <= G.p(prev)), z3.Implies(k < prev, z3.Or(G.o(k) < G.o(prev), G.p(k) < G.p(prev))))))(simp(it - 1))]
        for k, f in forms.items():
            if f.kind == "havoc" and not loop.arity(k) and k[1] != ("size",) and isinstance(f.v0, (int, z3.ExprRef)):
                for g in (G.dim, G.own): out.append((lambda k, g, f: lambda st, it: eq(st.mem[k], ite(simp(it == 0), f.v0, u64(g(simp(it - 1))))))(k, g, f))
        return [loops.Indexed(f) for f in out]
    c.ex.candidates.append(cand)
    for o in c.run(c.find("mshio::v22::regroup_nodes_into_blocks(mshio::MshSpec&)"), [T.ptr]):
        if o[0] != "ret": c.ensure(o[1], False, "the nodes of a file are regrouped without an exception"); continue
        st = o[1]; Q = T.at(st).nodes; B = Q.entity_blocks
        c.ensure(st, eq(Q.num_entity_blocks, B.size), "the number of blocks is stated")
        c.ensure(st, eq(B.size, ite(simp(tz(n) == 0), 0, simp(G.o(simp(tz(n) - 1)) + 1))), "as many blocks as runs of nodes with the same owner")
        k = sym("sk!nk", "len"); s2 = st.copy(); s2.assume(k < tz(n)); x = B[G.o(k)].at(s2)
        c.ensure(s2, eq(x.entity_dim, G.dim(k)), "dimension of the owner"); c.ensure(s2, eq(x.entity_tag, G.own(k)), "tag of the owner"); c.ensure(s2, eq(x.parametric, 0), "no parameters")
        c.ensure(s2, eq(x.tags[G.p(k)], t(k)), "node tags in order")
        for m in range(3): c.ensure(s2, eq(x.data[simp(3 * G.p(k) + m)], d(k, m)), "coordinates in order")
        c.ensure(s2, eq(x.num_nodes_in_block, x.tags.size), "nodes per block")
        s3 = s2.copy(); s3.assume(lor(simp(k + 1 == tz(n)), G.ch(k))); x = B[G.o(k)].at(s3)
        c.ensure(s3, eq(x.tags.size, simp(G.p(k) + 1)), "a block ends where the owner changes"); c.ensure(s3, eq(x.data.size, simp(3 * (G.p(k) + 1))), "three coordinates per node")
        c.frame(st, T, ["nodes"])
        for f in ("num_nodes", "min_node_tag", "max_node_tag"): c.ensure(st, eq(getattr(Q, f), getattr(N, f)), "%s is kept" % f)


class EO:
    """place of element k among the blocks: o(k)-th block, position p(k) in it, its entries start at q(k)"""
    def __init__(s, F): s.F = F
    def o(s, i): return sym("H!o", "len", [i])
    def p(s, i): return sym("H!p", "len", [i])
    def q(s, i): return sym("H!q", "len", [i])
    def ch(s, i):
        F = s.F; n = simp(tz(i) + 1)
        return lor(lnot(eq(F.typ(n), F.typ(i))), lnot(eq(F.owner(n), F.owner(i))))

    def wf(s):
        F = s.F
        return [eq(s.o(0), 0), eq(s.p(0), 0), eq(s.q(0), 0),
                qf(F.N, lambda i: (lambda n: land(eq(s.o(n), simp(s.o(i) + tz(ite(s.ch(i), 1, 0)))), eq(s.p(n), ite(s.ch(i), 0, simp(s.p(i) + 1))), eq(s.q(n), ite(s.ch(i), 0, simp(s.q(i) + ntype(F.typ(i)) + 1)))))(simp(i + 1)))]


@job("regroup elements", {"C16": None, "C03": None})
def rege(c):
    T = c.obj("T", "MshSpec"); F = EL()
    c.assume(eq(T.mesh_format.version, "2.2"))
    flat_elements(c, T, F)
    G = EO(F); c.assume(*G.wf())
    M = T.elements; EB = M.entity_blocks._ty.elem
    described(c, EB)
    w = lambda k: simp(ntype(F.typ(k)) + 1)
    def cand(ex, loop, forms):
        out = []
        for r in local_vecs(c, ex, forms, EB):
            B = Vec(c, r).at
            out += [lambda st, it: eq(B(st).size, ite(simp(it == 0), 0, simp(G.o(simp(it - 1)) + 1))),
                    lambda st, it: (lambda x, p: simp(z3.Implies(it > 0, land(eq(x.num_elements_in_block, simp(G.p(p) + 1)), eq(x.data.size, simp(G.q(p) + tz(w(p))))))))(B(st)[G.o(simp(it - 1))], simp(it - 1)),
                    lambda st, it: qf(it, lambda k: (lambda x: land(eq(x.element_type, F.typ(k)), eq(x.entity_dim, dtype(F.typ(k))), eq(x.entity_tag, F.owner(k))))(B(st)[G.o(k)])),
                    lambda st, it: qf(it, lambda k: eq(B(st)[G.o(k)].data[G.q(k)], F.num(k))),
                    lambda st, it: qf2(it, lambda k: ntype(F.typ(k)), lambda k, j: eq(B(st)[G.o(k)].data[simp(G.q(k) + j + 1)], F.node(k, j))),
                    lambda st, it: qf(simp(it - 1), lambda k: (lambda x: tz(z3.Implies(tz(G.ch(k)), land(eq(x.num_elements_in_block, simp(G.p(k) + 1)), eq(x.data.size, simp(G.q(k) + tz(w(k))))))))(B(st)[G.o(k)])),
                    lambda st, it: (lambda prev: qf(it, lambda k: land(G.o(k) <= G.o(prev), z3.Implies(G.o(k) == G.o(prev), G.q(k) <= G.q(prev)), z3.Implies(k < prev, z3.Or(G.o(k) < G.o(prev), G.q(k) + tz(w(k)) <= G.q(prev))))))(simp(it - 1))]
        for k, f in forms.items():
            if f.kind == "havoc" and not loop.arity(k) and k[1] != ("size",) and isinstance(f.v0, (int, z3.ExprRef)):
                for g in (F.typ, lambda i: dtype(F.typ(i)), F.owner):
                    for h in (u64, lambda x: x): out.append((lambda k, g, h, f: lambda st, it: eq(st.mem[k], ite(simp(it == 0), f.v0, h(g(simp(it - 1))))))(k, g, h, f))
        return [loops.Indexed(f) for f in out]
    c.ex.candidates.append(cand)
    for o in c.run(c.find("mshio::v22::regroup_elements_into_blocks(mshio::MshSpec&)"), [T.ptr]):
        if o[0] != "ret": c.ensure(o[1], False, "the elements of a file are regrouped without an exception"); continue
        st = o[1]; Q = T.at(st).elements; B = Q.entity_blocks
        c.ensure(st, eq(Q.num_entity_blocks, B.size), "the number of blocks is stated")
        c.ensure(st, eq(B.size, ite(simp(F.N == 0), 0, simp(G.o(simp(F.N - 1)) + 1))), "as many blocks as runs of elements of one type and entity")
        k = sym("sk!ek", "len"); s2 = st.copy(); s2.assume(k < F.N); x = B[G.o(k)].at(s2)
        c.ensure(s2, eq(x.element_type, F.typ(k)), "type of the block"); c.ensure(s2, eq(x.entity_dim, dtype(F.typ(k))), "dimension of the block"); c.ensure(s2, eq(x.entity_tag, F.owner(k)), "entity of the block")
        c.ensure(s2, eq(x.data[G.q(k)], F.num(k)), "element numbers in order")
        j = sym("sk!ej", "len"); s4 = s2.copy(); s4.assume(j < ntype(F.typ(k)))
        c.ensure(s4, eq(x.at(s4).data[simp(G.q(k) + j + 1)], F.node(k, j)), "node tags in order")
        s3 = s2.copy(); s3.assume(lor(simp(k + 1 == F.N), G.ch(k))); x = B[G.o(k)].at(s3)
        c.ensure(s3, eq(x.num_elements_in_block, simp(G.p(k) + 1)), "a block ends where type or entity changes"); c.ensure(s3, eq(x.data.size, simp(G.q(k) + tz(w(k)))), "entries per block")
        c.frame(st, T, ["elements"])
        for f in ("num_elements", "min_element_tag", "max_element_tag"): c.ensure(st, eq(getattr(Q, f), getattr(M, f)), "%s is kept" % f)


@job("regrouping of a loaded file", {"C16": None, "C03": None, "C15": None, "C07": SAFE, "C08": ("terminates",), "C10": ("dispatch", "post")})
def pp(c):
    """2.2: nodes (against the elements as they are in the file), then elements; nothing for the other versions"""
    T = c.obj("T", "MshSpec")
    for f, n in (("nodes", "!rn"), ("elements", "!re")): c.st.mem[(n, ())] = 0
    def mk(n):
        def f(ex, st, ins, a, G):
            ex.oblige(st, jobs_more.same_ptr(a[0], T._root), "dispatch", "the loaded spec is regrouped", ins)
            ex.oblige(st, eq(st.mem[("!re", ())], 0), "dispatch", "owners come from the elements of the file", ins)
            st.mem[(n, ())] = simp(tz(st.mem[(n, ())]) + 1)
            return [("ret", st, None)]
        return f
    c.contract("mshio::v22::regroup_nodes_into_blocks(mshio::MshSpec&)", mk("!rn")); c.contract("mshio::v22::regroup_elements_into_blocks(mshio::MshSpec&)", mk("!re"))
    c.find("mshio::v22::regroup_nodes_into_blocks(mshio::MshSpec&)"); c.find("mshio::v22::regroup_elements_into_blocks(mshio::MshSpec&)")
    for o in c.run(c.find(POST), [T.ptr]):
        if o[0] != "ret": c.ensure(o[1], False, "regrouping does not throw by itself"); continue
        w = ite(eq(T.mesh_format.version, "2.2"), 1, 0)
        for n in ("!rn", "!re"): c.ensure(o[1], eq(o[1].mem[(n, ())], w), "2.2 files are regrouped once, others never")
        c.frame(o[1], T, [])
