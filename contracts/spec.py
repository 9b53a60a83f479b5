"""The format (ghost content) of every section and the well-formedness of a spec, over ghost specs."""
from base import *


class E:
    """field encoding: text tokens or little endian fields"""
    def __init__(s, ascii): s.ascii = ascii
    def i(s, v, n="field"): return Tok("int", v, n) if s.ascii else Raw("i32", v, n)
    def u(s, v, n="field"): return Tok("int", v, n) if s.ascii else Raw("u64", v, n)
    def d(s, v, n="field"): return Tok("f64", v, n) if s.ascii else Raw("f64", v, n)


TXT = E(True)


def lit(s): return Tok("lit", s, s)


def framed(name, body): return Seq([lit("$" + name), body, lit("$End" + name)])


def ib(t, w=32): return land(tz(t) >= 0, tz(t) < (1 << (w - 1)))


# ------------------------------------------------------------------ header
def wf_format(S, version, ascii):
    f = S.mesh_format
    out = [eq(f.version, version), (tz(f.file_type) == 0) if ascii else (tz(f.file_type) == 1)]
    if version == "4.1": out.append(tz(f.data_size) == 8)
    return out


def g_format(S, ascii):
    f = S.mesh_format
    return Seq([Tok("str", f.version, "version"), Tok("int", f.file_type, "file type"), Tok("int", f.data_size, "data size"),
                None if ascii else Raw("i32", 1, "endianness mark")])


# ------------------------------------------------------------------ physical names
def wf_groups(S): return [tz(S.physical_groups.size) < M31]


def g_groups(S):
    g = S.physical_groups
    return Seq([Tok("int", g.size, "group count"), Each(g.size, lambda i: Seq([
        Tok("int", g[i].dim, "group dimension"), Tok("int", g[i].tag, "group tag"), Tok("quoted", g[i].name, "group name")]))])


# ------------------------------------------------------------------ nodes
def epn(b): return simp(3 + tz(ite(simp(tz(b.parametric) == 1), b.entity_dim, 0)))


def wf_nodes(S):
    n = S.nodes
    return [eq(n.entity_blocks.size, n.num_entity_blocks),
            qf(n.num_entity_blocks, lambda i: (lambda b: land(
                tz(b.entity_dim) >= 0, tz(b.entity_dim) <= 3,
                eq(b.tags.size, b.num_nodes_in_block),
                eq(b.data.size, simp(tz(b.num_nodes_in_block) * epn(b)))))(n.entity_blocks[i]))]


def g_nodes41(e, S):
    n = S.nodes

    def blk(i):
        b = n.entity_blocks[i]
        return Seq([e.i(b.entity_dim, "block dimension"), e.i(b.entity_tag, "block tag"), e.i(b.parametric, "parametric flag"),
                    e.u(b.num_nodes_in_block, "block node count"),
                    Each(b.num_nodes_in_block, lambda j: e.u(b.tags[j], "node tag")),
                    Each(b.data.size, lambda k: e.d(b.data[k], "node coordinate"))])
    return Seq([e.u(n.num_entity_blocks, "node block count"), e.u(n.num_nodes, "node count"), e.u(n.min_node_tag, "smallest node tag"),
                e.u(n.max_node_tag, "largest node tag"), Each(n.num_entity_blocks, blk)])


# ------------------------------------------------------------------ elements
def wf_elements(S):
    n = S.elements
    return [eq(n.entity_blocks.size, n.num_entity_blocks),
            qf(n.num_entity_blocks, lambda i: (lambda b: land(
                tz(b.element_type) >= 1, tz(b.element_type) <= 31,
                eq(b.data.size, simp(tz(b.num_elements_in_block) * (ntype(b.element_type) + 1)))))(n.entity_blocks[i]))]


def g_elements41(e, S):
    n = S.elements

    def blk(i):
        b = n.entity_blocks[i]
        return Seq([e.i(b.entity_dim, "block dimension"), e.i(b.entity_tag, "block tag"), e.i(b.element_type, "element type"),
                    e.u(b.num_elements_in_block, "block element count"),
                    Each(b.data.size, lambda k: e.u(b.data[k], "element tag or node tag"))])
    return Seq([e.u(n.num_entity_blocks, "element block count"), e.u(n.num_elements, "element count"), e.u(n.min_element_tag, "smallest element tag"),
                e.u(n.max_element_tag, "largest element tag"), Each(n.num_entity_blocks, blk)])


# ------------------------------------------------------------------ entities
ENT = (("points", "boundary", None), ("curves", "curve", "boundary_point_tags"), ("surfaces", "surface", "boundary_curve_tags"),
       ("volumes", "volume", "boundary_surface_tags"))


def g_entities(e, S):
    n = S.entities
    ch = [e.u(getattr(n, k[0]).size, k[0] + " count") for k in ENT]

    def tags(v, what): return [e.u(v.size, what + " count"), Each(v.size, lambda j: e.i(v[j], what))]

    def ent(vec, bnd):
        def f(i):
            p = vec[i]
            c = [e.i(p.tag, "entity tag")]
            c += [e.d(getattr(p, x), "entity " + x) for x in (("x", "y", "z") if bnd is None else ("min_x", "min_y", "min_z", "max_x", "max_y", "max_z"))]
            c += tags(p.physical_group_tags, "physical group tag")
            if bnd: c += tags(getattr(p, bnd), "boundary tag")
            return Seq(c)
        return f
    for name, _, bnd in ENT:
        v = getattr(n, name)
        ch.append(Each(v.size, ent(v, bnd)))
    return Seq(ch)


# ------------------------------------------------------------------ data sections
def wf_data(D, elnode, ascii):
    h = D.header
    out = [tz(h.int_tags.size) >= 3, tz(h.int_tags[1]) >= 0, eq(h.int_tags[2], D.entries.size)]
    out.append(qf(D.entries.size, lambda i: (lambda x: land(
        tz(x.num_nodes_per_element) >= 0 if elnode else True,
        eq(x.data.size, simp(tz(h.int_tags[1]) * tz(x.num_nodes_per_element)) if elnode else h.int_tags[1]),
        True if ascii else tz(x.tag) < M31))(D.entries[i])))
    return out


def g_data(e, D, elnode):
    h = D.header

    def ent(i):
        x = D.entries[i]
        return Seq([e.i(x.tag, "entry tag"), e.i(x.num_nodes_per_element, "entry node count") if elnode else None,
                    Each(x.data.size, lambda k: e.d(x.data[k], "entry value"))])
    return Seq([Tok("int", h.string_tags.size, "string tag count"), Each(h.string_tags.size, lambda i: Tok("quoted", h.string_tags[i], "string tag")),
                Tok("int", h.real_tags.size, "real tag count"), Each(h.real_tags.size, lambda i: Tok("f64", h.real_tags[i], "real tag")),
                Tok("int", h.int_tags.size, "integer tag count"), Each(h.int_tags.size, lambda i: Tok("int", h.int_tags[i], "integer tag")),
                Each(D.entries.size, ent)])


# ------------------------------------------------------------------ NanoSpline sections
def dimw(c): return ite(simp(tz(c.with_weights) > 0), 4, 3)


CF = ("curve_tag", "curve_type", "curve_degree", "num_control_points", "num_knots", "with_weights")
PF = ("patch_tag", "patch_type", "degree_u", "degree_v", "num_control_points", "num_u_knots", "num_v_knots", "with_weights")


def knots(c, patch): return simp(tz(c.num_u_knots) + tz(c.num_v_knots)) if patch else c.num_knots


def wf_splines(vec, patch):
    return [qf(vec.size, lambda i: eq(vec[i].data.size, simp(tz(vec[i].num_control_points) * tz(dimw(vec[i])) + tz(knots(vec[i], patch)))))]


def g_splines(e, vec, patch):
    def one(i):
        c = vec[i]
        return Seq([Tok("int", getattr(c, f), f) for f in (PF if patch else CF)] + [Each(c.data.size, lambda k: e.d(c.data[k], "spline value"))])
    return Seq([Tok("int", vec.size, "count"), Each(vec.size, one)])


# ------------------------------------------------------------------ 2.2
def g_nodes22(e, S):
    """as written: the nodes of all blocks in order"""
    n = S.nodes

    def node(b):
        w = epn(b)
        return lambda j: Seq([e.i(b.tags[j], "node tag")] + [e.d(b.data[simp(tz(j) * tz(w) + k)], "node coordinate") for k in range(3)])
    return Seq([Tok("int", n.num_nodes, "node count"), Each(n.num_entity_blocks, lambda i: (lambda b: Each(b.num_nodes_in_block, node(b)))(n.entity_blocks[i]))])


def g_elements22(S, ascii):
    n = S.elements

    def blk(i):
        b = n.entity_blocks[i]; w = simp(ntype(b.element_type) + 1)

        def el(j):
            base = simp(tz(j) * tz(w))
            if ascii:
                return Seq([Tok("int", b.data[base], "element number"), Tok("int", b.element_type, "element type"), Tok("int", 1, "tag count"),
                            Tok("int", b.entity_tag, "element tag"),
                            Each(simp(tz(w) - 1), lambda k: Tok("int", b.data[simp(tz(base) + 1 + tz(k))], "node tag"))])
            return Seq([Raw("i32", b.data[base], "element number"), Raw("i32", b.entity_tag, "element tag"),
                        Each(simp(tz(w) - 1), lambda k: Raw("i32", b.data[simp(tz(base) + 1 + tz(k))], "node tag"))])
        body = Each(b.num_elements_in_block, el)
        if ascii: return body
        return Opt(simp(tz(b.num_elements_in_block) > 0), Seq([Raw("i32", b.element_type, "element type"), Raw("i32", b.num_elements_in_block, "element count"), Raw("i32", 1, "tag count"), body]))
    return Seq([Tok("int", n.num_elements, "element count"), Each(n.num_entity_blocks, blk)])


def wf_nodes22(S, ascii):
    """tags are positive 32-bit numbers"""
    n = S.nodes
    return wf_nodes(S) + [qf2(n.num_entity_blocks, lambda i: n.entity_blocks[i].num_nodes_in_block, lambda i, j: tz(n.entity_blocks[i].tags[j]) < M31)]


def wf_elements22(S, ascii):
    n = S.elements
    return wf_elements(S) + [qf2(n.num_entity_blocks, lambda i: n.entity_blocks[i].data.size, lambda i, j: tz(n.entity_blocks[i].data[j]) < M31),
                             qf(n.num_entity_blocks, lambda i: tz(n.entity_blocks[i].num_elements_in_block) < M31)]
