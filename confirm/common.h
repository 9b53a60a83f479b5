// Shared parts of the confirmer: generators and independent oracles for the real library.
#pragma once
#include <mshio/mshio.h>
#include <mshio/exception.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace mshio;
typedef std::string Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a) + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---- the documented element table (MSH file format documentation, types 1..31)
static const int DOC_NODES[32] = {0, 2, 3, 4, 4, 8, 6, 5, 3, 6, 9, 10, 27, 18, 14, 1, 8, 20, 15, 13, 9, 10, 12, 15, 15, 21, 4, 5, 6, 20, 35, 56};
static const int DOC_DIM[32] = {0, 1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3, 0, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 3, 3, 3};

inline double rnd_double(Rng& r, bool finite)
{
    static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3, 4.9406564584124654e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 123456789.123456789, 1e-7, 1e22, 3.0000000000000004, 0.30000000000000004, 1e100};
    static const unsigned char ws[] = {9, 10, 13, 32, 36, 34};
    if (r.chance(40)) return sp[r.below(sizeof(sp) / sizeof(sp[0]))];
    if (r.chance(12)) { double d = 1.0 + (double)r.below(1000) / 7; unsigned char c[8]; memcpy(c, &d, 8); for (int i = 0, n = r.chance(70) ? 1 : 4; i < n; i++) c[i] = ws[r.below(6)]; memcpy(&d, c, 8); return d; }   // raw bytes that look like white space
    if (!finite && r.chance(10)) return r.chance(50) ? NAN : INFINITY;
    if (r.chance(50)) return (double)(int64_t)r.next() / 9.2e18 * (r.chance(50) ? 1 : 1000);
    for (;;) {
        uint64_t u = r.next(); double d; memcpy(&d, &u, 8);
        if (!finite || std::isfinite(d)) return d;
    }
}
inline std::string rnd_string(Rng& r)
{
    static const std::vector<std::string> sp = {"", "a", "A scalar view", "with \"quotes\"", "back\\slash", " lead", "trail ", "new\nline", "$EndNodes", "$Nodes", "tab\t", "\"", "\\", "0", "-1", "\\\"", "$EndPhysicalNames $EndNodeData"};
    if (r.chance(60)) return r.pick(sp);
    std::string s; int n = r.range(0, 12);
    for (int i = 0; i < n; i++) s += r.chance(70) ? (char)r.range('a', 'z') : (char)r.range(1, 255);
    return s;
}
inline size_t rnd_tag(Rng& r, bool small)
{
    if (small) return r.chance(85) ? 1 + r.below(40) : 1 + r.below(3000);
    switch (r.below(8)) {
    case 0: return (size_t)-1;
    case 1: return 0;
    case 2: return r.next();
    case 3: return 0x0a0a0a0a0a0a0a0aull;
    case 4: return 10;
    case 5: return 13;
    default: return 1 + r.below(100);
    }
}
inline int rnd_int(Rng& r)
{
    switch (r.below(8)) {
    case 0: return -1;
    case 1: return 0x7fffffff;
    case 2: return -0x7fffffff - 1;
    case 3: return 10;
    case 4: return (int)r.next();
    default: return r.range(0, 50);
    }
}

struct SpecOpts {
    std::string version = "4.1";
    bool binary = false;
    bool ext = false;
    bool data = true;      // post-processing data
    int big = 3;           // scale
};

inline Data rnd_data(Rng& r, bool elnode, bool finite)
{
    Data d;
    int n = r.range(0, 3);
    for (int i = 0; i < n; i++) d.header.string_tags.push_back(rnd_string(r));
    n = r.range(0, 3);
    for (int i = 0; i < n; i++) d.header.real_tags.push_back(rnd_double(r, true));
    int fields = r.chance(50) ? r.range(0, 4) : r.pick(std::vector<int>{1, 3, 9, 10, 13, 32});
    int entries = r.chance(15) ? 0 : r.range(1, 5);
    d.header.int_tags = {rnd_int(r), fields, entries};
    n = r.range(0, 2);
    for (int i = 0; i < n; i++) d.header.int_tags.push_back(rnd_int(r));
    for (int i = 0; i < entries; i++) {
        DataEntry e;
        e.tag = r.chance(20) ? r.below(0x80000000ull) : r.below(100);
        size_t c = (size_t)fields;
        if (elnode) { e.num_nodes_per_element = r.chance(20) ? 0 : r.range(1, 6); c *= (size_t)e.num_nodes_per_element; }
        for (size_t k = 0; k < c; k++) e.data.push_back(rnd_double(r, finite));
        d.entries.push_back(e);
    }
    return d;
}
template <class E> void rnd_entity_tags(Rng& r, E& e) { int n = r.chance(50) ? 0 : r.range(1, 4); for (int i = 0; i < n; i++) e.push_back(rnd_int(r)); }
template <class E> void rnd_box(Rng& r, E& e, bool fin)
{
    e.tag = rnd_int(r);
    e.min_x = rnd_double(r, fin); e.min_y = rnd_double(r, fin); e.min_z = rnd_double(r, fin);
    e.max_x = rnd_double(r, fin); e.max_y = rnd_double(r, fin); e.max_z = rnd_double(r, fin);
    rnd_entity_tags(r, e.physical_group_tags);
}

// list lengths whose first raw byte is white space
inline int blank_count(Rng& r, int pct, int n) { return r.chance(pct) ? r.pick(std::vector<int>{9, 10, 13, 32}) : n; }

// A well-formed spec.
inline MshSpec gen_spec(Rng& r, const SpecOpts& o)
{
    MshSpec s;
    const bool fin = !o.binary, v22 = o.version == "2.2";
    s.mesh_format.version = o.version;
    s.mesh_format.file_type = o.binary ? 1 : 0;
    if (v22 && r.chance(20)) s.mesh_format.data_size = 4;
    // nodes
    int nb = r.chance(15) ? 0 : r.range(1, o.big);
    nb = blank_count(r, 5, nb);
    size_t nxt = r.chance(50) ? 1 : r.chance(50) ? 1 + r.below(1000) : v22 ? 0x7fffffffull - 2500 : 0x100000000ull;
    for (int b = 0; b < nb; b++) {
        NodeBlock k;
        k.entity_dim = r.range(0, 3);
        k.entity_tag = rnd_int(r);
        k.parametric = r.chance(40);
        size_t n = r.chance(20) ? 0 : r.chance(10) ? r.pick(std::vector<size_t>{9, 10, 13, 32}) : (size_t)r.range(1, 6);
        k.num_nodes_in_block = n;
        for (size_t i = 0; i < n; i++) {
            size_t t = nxt; nxt += 1 + (r.chance(20) ? r.below(5) : 0);
            if (!v22 && r.chance(10)) t = rnd_tag(r, false);
            k.tags.push_back(t);
        }
        if (r.chance(30)) std::reverse(k.tags.begin(), k.tags.end());
        size_t e = 3 + (k.parametric ? (size_t)k.entity_dim : 0);
        for (size_t i = 0; i < n * e; i++) k.data.push_back(rnd_double(r, fin));
        s.nodes.num_nodes += n;
        s.nodes.entity_blocks.push_back(k);
    }
    s.nodes.num_entity_blocks = s.nodes.entity_blocks.size();
    if (s.nodes.num_nodes == 0) { s.nodes.entity_blocks.clear(); s.nodes.num_entity_blocks = 0; }
    std::vector<size_t> all;
    for (auto& b : s.nodes.entity_blocks) all.insert(all.end(), b.tags.begin(), b.tags.end());
    if (!all.empty()) { s.nodes.min_node_tag = *std::min_element(all.begin(), all.end()); s.nodes.max_node_tag = *std::max_element(all.begin(), all.end()); }
    // elements
    nb = r.chance(15) ? 0 : r.range(1, o.big + 1);
    if (v22 && all.empty()) nb = 0;
    size_t et = r.chance(50) ? 1 : 1 + r.below(0x7fff0000ull);
    size_t lo = (size_t)-1, hi = 0;
    int ltype = 0, ltag = 0;
    for (int b = 0; b < nb; b++) {
        ElementBlock k;
        k.element_type = r.chance(30) && ltype ? ltype : r.range(1, 31);
        k.entity_tag = r.chance(40) && ltype ? ltag : rnd_int(r);
        k.entity_dim = v22 || r.chance(70) ? DOC_DIM[k.element_type] : r.range(0, 3);
        ltype = k.element_type; ltag = k.entity_tag;
        size_t n = r.chance(20) ? 0 : r.chance(5) ? 10 : (size_t)r.range(1, 4);
        k.num_elements_in_block = n;
        for (size_t i = 0; i < n; i++) {
            size_t t = et; et += 1 + r.below(3);
            if (!v22 && r.chance(10)) t = rnd_tag(r, false);
            lo = std::min(lo, t); hi = std::max(hi, t);
            k.data.push_back(t);
            for (int j = 0; j < DOC_NODES[k.element_type]; j++) {
                if (all.empty()) k.data.push_back(rnd_tag(r, false));
                else k.data.push_back(r.pick(all));
            }
        }
        s.elements.num_elements += n;
        s.elements.entity_blocks.push_back(k);
    }
    if (s.elements.num_elements == 0) s.elements.entity_blocks.clear();
    else { s.elements.min_element_tag = lo; s.elements.max_element_tag = hi; }
    s.elements.num_entity_blocks = s.elements.entity_blocks.size();
    // groups, entities
    int n = blank_count(r, 3, r.chance(30) ? 0 : r.range(1, 3));
    for (int i = 0; i < n; i++) { PhysicalGroup g; g.dim = r.range(0, 3); g.tag = rnd_int(r); g.name = rnd_string(r); s.physical_groups.push_back(g); }
    if (!v22 && r.chance(60)) {
        int k = blank_count(r, 5, r.chance(40) ? 0 : r.range(1, 3));
        for (int i = 0; i < k; i++) { PointEntity e; e.tag = rnd_int(r); e.x = rnd_double(r, fin); e.y = rnd_double(r, fin); e.z = rnd_double(r, fin); rnd_entity_tags(r, e.physical_group_tags); s.entities.points.push_back(e); }
        k = blank_count(r, 3, r.chance(40) ? 0 : r.range(1, 3));
        for (int i = 0; i < k; i++) { CurveEntity e; rnd_box(r, e, fin); rnd_entity_tags(r, e.boundary_point_tags); s.entities.curves.push_back(e); }
        k = blank_count(r, 3, r.chance(40) ? 0 : r.range(1, 3));
        for (int i = 0; i < k; i++) { SurfaceEntity e; rnd_box(r, e, fin); rnd_entity_tags(r, e.boundary_curve_tags); s.entities.surfaces.push_back(e); }
        k = blank_count(r, 3, r.chance(40) ? 0 : r.range(1, 3));
        for (int i = 0; i < k; i++) { VolumeEntity e; rnd_box(r, e, fin); rnd_entity_tags(r, e.boundary_surface_tags); s.entities.volumes.push_back(e); }
    }
    if (o.data) {
        int k = r.chance(50) ? 0 : r.range(1, 3);
        for (int i = 0; i < k; i++) s.node_data.push_back(rnd_data(r, false, fin));
        k = r.chance(50) ? 0 : r.range(1, 3);
        for (int i = 0; i < k; i++) s.element_data.push_back(rnd_data(r, false, fin));
        k = r.chance(50) ? 0 : r.range(1, 3);
        for (int i = 0; i < k; i++) s.element_node_data.push_back(rnd_data(r, true, fin));
    }
    if (o.ext) {
        s.nanospline_format.version = r.pick(std::vector<std::string>{"1.0", "2.5", "x"});
        int k = blank_count(r, 4, r.chance(30) ? 0 : r.range(1, 4));
        for (int i = 0; i < k; i++) {
            Curve c; c.curve_tag = blank_count(r, 15, (int)r.below(100)); c.curve_type = r.below(5); c.curve_degree = r.below(6);
            c.num_control_points = r.chance(20) ? 0 : r.below(8); c.num_knots = r.chance(30) ? 0 : r.below(12); c.with_weights = r.below(3);
            if (r.chance(10)) c.with_weights = 0x100000000ull;
            size_t m = c.num_control_points * (c.with_weights ? 4 : 3) + c.num_knots;
            for (size_t j = 0; j < m; j++) c.data.push_back(rnd_double(r, fin));
            s.curves.push_back(c);
        }
        k = blank_count(r, 4, r.chance(30) ? 0 : r.range(1, 4));
        for (int i = 0; i < k; i++) {
            Patch c; c.patch_tag = blank_count(r, 15, (int)r.below(100)); c.patch_type = r.below(5); c.degree_u = r.below(6); c.degree_v = r.below(6);
            c.num_control_points = r.chance(20) ? 0 : r.below(10); c.num_u_knots = r.chance(30) ? 0 : r.below(9); c.num_v_knots = r.chance(30) ? 0 : r.below(9); c.with_weights = r.below(3);
            size_t m = c.num_control_points * (c.with_weights ? 4 : 3) + c.num_u_knots + c.num_v_knots;
            for (size_t j = 0; j < m; j++) c.data.push_back(rnd_double(r, fin));
            s.patches.push_back(c);
        }
    }
    return s;
}

// ---------------------------------------------------------------- comparison
struct Diff { std::string what; bool ok() const { return what.empty(); } void set(const std::string& s) { if (what.empty()) what = s; } };
inline bool deq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline bool veq(const std::vector<double>& a, const std::vector<double>& b)
{ return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), 8 * a.size()) == 0); }
#define CMP(f) if (!(a.f == b.f)) d.set(std::string(where) + "." #f)
inline void cmp_nodes(Diff& d, const Nodes& a, const Nodes& b, bool whole = true)
{
    const char* where = "nodes";
    CMP(num_entity_blocks); CMP(num_nodes); CMP(min_node_tag); CMP(max_node_tag); CMP(entity_blocks.size());
    if (!d.ok()) return;
    for (size_t i = 0; i < a.entity_blocks.size(); i++) {
        const NodeBlock &x = a.entity_blocks[i], &y = b.entity_blocks[i];
        if (x.entity_dim != y.entity_dim || x.entity_tag != y.entity_tag || x.parametric != y.parametric || x.num_nodes_in_block != y.num_nodes_in_block || x.tags != y.tags || !veq(x.data, y.data))
            d.set("nodes.entity_blocks[" + std::to_string(i) + "]");
    }
}
inline void cmp_elements(Diff& d, const Elements& a, const Elements& b)
{
    const char* where = "elements";
    CMP(num_entity_blocks); CMP(num_elements); CMP(min_element_tag); CMP(max_element_tag); CMP(entity_blocks.size());
    if (!d.ok()) return;
    for (size_t i = 0; i < a.entity_blocks.size(); i++) {
        const ElementBlock &x = a.entity_blocks[i], &y = b.entity_blocks[i];
        if (x.entity_dim != y.entity_dim || x.entity_tag != y.entity_tag || x.element_type != y.element_type || x.num_elements_in_block != y.num_elements_in_block || x.data != y.data)
            d.set("elements.entity_blocks[" + std::to_string(i) + "]");
    }
}
template <class E> bool boxeq(const E& x, const E& y)
{ return x.tag == y.tag && deq(x.min_x, y.min_x) && deq(x.min_y, y.min_y) && deq(x.min_z, y.min_z) && deq(x.max_x, y.max_x) && deq(x.max_y, y.max_y) && deq(x.max_z, y.max_z) && x.physical_group_tags == y.physical_group_tags; }
inline void cmp_entities(Diff& d, const Entities& a, const Entities& b)
{
    const char* where = "entities";
    CMP(points.size()); CMP(curves.size()); CMP(surfaces.size()); CMP(volumes.size());
    if (!d.ok()) return;
    for (size_t i = 0; i < a.points.size(); i++) { auto &x = a.points[i], &y = b.points[i]; if (!(x.tag == y.tag && deq(x.x, y.x) && deq(x.y, y.y) && deq(x.z, y.z) && x.physical_group_tags == y.physical_group_tags)) d.set("entities.points[" + std::to_string(i) + "]"); }
    for (size_t i = 0; i < a.curves.size(); i++) if (!boxeq(a.curves[i], b.curves[i]) || a.curves[i].boundary_point_tags != b.curves[i].boundary_point_tags) d.set("entities.curves[" + std::to_string(i) + "]");
    for (size_t i = 0; i < a.surfaces.size(); i++) if (!boxeq(a.surfaces[i], b.surfaces[i]) || a.surfaces[i].boundary_curve_tags != b.surfaces[i].boundary_curve_tags) d.set("entities.surfaces[" + std::to_string(i) + "]");
    for (size_t i = 0; i < a.volumes.size(); i++) if (!boxeq(a.volumes[i], b.volumes[i]) || a.volumes[i].boundary_surface_tags != b.volumes[i].boundary_surface_tags) d.set("entities.volumes[" + std::to_string(i) + "]");
}
inline void cmp_format(Diff& d, const MeshFormat& a, const MeshFormat& b)
{ const char* where = "mesh_format"; CMP(version); CMP(file_type); CMP(data_size); }
inline void cmp_groups(Diff& d, const std::vector<PhysicalGroup>& a, const std::vector<PhysicalGroup>& b)
{
    const char* where = "physical_groups"; CMP(size());
    if (!d.ok()) return;
    for (size_t i = 0; i < a.size(); i++) if (a[i].dim != b[i].dim || a[i].tag != b[i].tag || a[i].name != b[i].name) d.set("physical_groups[" + std::to_string(i) + "]");
}
inline void cmp_data(Diff& d, const std::vector<Data>& a, const std::vector<Data>& b, const char* where)
{
    CMP(size());
    if (!d.ok()) return;
    for (size_t i = 0; i < a.size(); i++) {
        std::string w = std::string(where) + "[" + std::to_string(i) + "]";
        if (a[i].header.string_tags != b[i].header.string_tags) d.set(w + ".string_tags");
        if (!veq(a[i].header.real_tags, b[i].header.real_tags)) d.set(w + ".real_tags");
        if (a[i].header.int_tags != b[i].header.int_tags) d.set(w + ".int_tags");
        if (a[i].entries.size() != b[i].entries.size()) { d.set(w + ".entries.size()"); return; }
        for (size_t j = 0; j < a[i].entries.size(); j++) {
            auto &x = a[i].entries[j], &y = b[i].entries[j];
            if (x.tag != y.tag || x.num_nodes_per_element != y.num_nodes_per_element || !veq(x.data, y.data)) d.set(w + ".entries[" + std::to_string(j) + "]");
        }
    }
}
inline void cmp_ext(Diff& d, const MshSpec& a, const MshSpec& b)
{
    const char* where = "spec"; CMP(nanospline_format.version); CMP(curves.size()); CMP(patches.size());
    if (!d.ok()) return;
    for (size_t i = 0; i < a.curves.size(); i++) { auto &x = a.curves[i], &y = b.curves[i]; if (x.curve_tag != y.curve_tag || x.curve_type != y.curve_type || x.curve_degree != y.curve_degree || x.num_control_points != y.num_control_points || x.num_knots != y.num_knots || x.with_weights != y.with_weights || !veq(x.data, y.data)) d.set("curves[" + std::to_string(i) + "]"); }
    for (size_t i = 0; i < a.patches.size(); i++) { auto &x = a.patches[i], &y = b.patches[i]; if (x.patch_tag != y.patch_tag || x.patch_type != y.patch_type || x.degree_u != y.degree_u || x.degree_v != y.degree_v || x.num_control_points != y.num_control_points || x.num_u_knots != y.num_u_knots || x.num_v_knots != y.num_v_knots || x.with_weights != y.with_weights || !veq(x.data, y.data)) d.set("patches[" + std::to_string(i) + "]"); }
}
inline void cmp_all(Diff& d, const MshSpec& a, const MshSpec& b)
{
    cmp_format(d, a.mesh_format, b.mesh_format); cmp_nodes(d, a.nodes, b.nodes); cmp_elements(d, a.elements, b.elements); cmp_entities(d, a.entities, b.entities);
    cmp_groups(d, a.physical_groups, b.physical_groups); cmp_data(d, a.node_data, b.node_data, "node_data"); cmp_data(d, a.element_data, b.element_data, "element_data");
    cmp_data(d, a.element_node_data, b.element_node_data, "element_node_data"); cmp_ext(d, a, b);
}

// ---------------------------------------------------------------- independent layout reader (C06)
struct Layout {
    const Bytes& b; size_t p = 0; Diff& d;
    bool lastraw = false;
    Layout(const Bytes& x, Diff& e) : b(x), d(e) {}
    static bool sp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
    std::string tok() { while (p < b.size() && sp(b[p])) p++; size_t q = p; while (p < b.size() && !sp(b[p])) p++; lastraw = false; return b.substr(q, p - q); }
    void lit(const std::string& s)
    {
        size_t q = p; while (q < b.size() && sp(b[q])) q++;
        if (b.compare(q, s.size(), s) != 0) { d.set("expected \"" + s + "\" at byte " + std::to_string(p)); return; }
        if (!lastraw && q > 0 && q == p && p != 0) d.set("\"" + s + "\" not separated at byte " + std::to_string(p));
        p = q + s.size();
        if (p < b.size() && !sp(b[p])) d.set("\"" + s + "\" not terminated at byte " + std::to_string(p));
        lastraw = false;
    }
    void marker(const std::string& s)
    {
        size_t q = p; while (q < b.size() && sp(b[q])) q++;
        if (!lastraw && q > 0 && !sp(b[q - 1])) d.set("marker " + s + " not separated");
        if (s.compare(0, 4, "$End") != 0 && q > 0 && b[q - 1] != '\n') d.set("marker " + s + " not at the start of a line");
        lit(s);
        if (p < b.size() && b[p] != '\n') d.set("marker " + s + " not at the end of a line");
    }
    template <class T> void num(T v) { std::string t = tok(), e = std::to_string(v); if (t != e) d.set("expected number " + e + " got \"" + t + "\" before byte " + std::to_string(p)); }
    void dbl(double v) { std::string t = tok(); char* e; if (t.empty()) { d.set("missing double"); return; } double x = strtod(t.c_str(), &e); if (*e || !deq(x, v)) d.set("expected double got \"" + t + "\" before byte " + std::to_string(p)); }
    void str(const std::string& v)
    {
        while (p < b.size() && sp(b[p])) p++;
        std::string e = "\""; for (char c : v) { if (c == '"' || c == '\\') e += '\\'; e += c; } e += '"';
        if (b.compare(p, e.size(), e) != 0) d.set("quoted string expected at byte " + std::to_string(p));
        p += e.size(); lastraw = false;
    }
    void word(const std::string& v) { std::string t = tok(); if (t != v) d.set("expected " + v + " got " + t); }
    void nl() { if (lastraw) return; if (p < b.size() && b[p] == '\n') p++; else d.set("one line break expected before raw data at byte " + std::to_string(p)); }
    template <class T> void raw(T v) { nl(); if (b.compare(p, sizeof(T), Bytes((const char*)&v, sizeof(T))) != 0) d.set("raw field differs at byte " + std::to_string(p)); p += sizeof(T); lastraw = true; }
    void end() { while (p < b.size() && sp(b[p])) p++; if (p != b.size()) d.set("trailing bytes at " + std::to_string(p)); }
};
inline void layout_data(Layout& L, const std::vector<Data>& v, const char* name, bool bin, bool eln)
{
    for (auto& x : v) {
        L.marker(std::string("$") + name);
        L.num(x.header.string_tags.size()); for (auto& s : x.header.string_tags) L.str(s);
        L.num(x.header.real_tags.size()); for (auto s : x.header.real_tags) L.dbl(s);
        L.num(x.header.int_tags.size()); for (auto s : x.header.int_tags) L.num(s);
        for (auto& e : x.entries) {
            if (bin) { L.raw((int32_t)e.tag); if (eln) L.raw((int32_t)e.num_nodes_per_element); for (double q : e.data) L.raw(q); }
            else { L.num(e.tag); if (eln) L.num(e.num_nodes_per_element); for (double q : e.data) L.dbl(q); }
        }
        if (bin) { if (!L.lastraw && x.entries.size()) L.d.set("raw"); }
        L.marker(std::string("$End") + name);
    }
}
template <class E> void layout_box(Layout& L, const E& e, const std::vector<int>& bt, bool bin)
{
    if (bin) {
        L.raw((int32_t)e.tag); for (double q : {e.min_x, e.min_y, e.min_z, e.max_x, e.max_y, e.max_z}) L.raw(q);
        L.raw((uint64_t)e.physical_group_tags.size()); for (int q : e.physical_group_tags) L.raw((int32_t)q);
        L.raw((uint64_t)bt.size()); for (int q : bt) L.raw((int32_t)q);
    } else {
        L.num(e.tag); for (double q : {e.min_x, e.min_y, e.min_z, e.max_x, e.max_y, e.max_z}) L.dbl(q);
        L.num(e.physical_group_tags.size()); for (int q : e.physical_group_tags) L.num(q);
        L.num(bt.size()); for (int q : bt) L.num(q);
    }
}
inline void check_layout(Diff& d, const Bytes& b, const MshSpec& s, bool ext)
{
    Layout L(b, d);
    const bool bin = s.mesh_format.file_type != 0, v41 = s.mesh_format.version == "4.1";
    L.marker("$MeshFormat"); L.word(s.mesh_format.version); L.num(s.mesh_format.file_type); L.num(s.mesh_format.data_size);
    if (bin) L.raw((int32_t)1);
    L.marker("$EndMeshFormat");
    if (s.physical_groups.size()) {
        L.marker("$PhysicalNames"); L.num(s.physical_groups.size());
        for (auto& g : s.physical_groups) { L.num(g.dim); L.num(g.tag); L.str(g.name); }
        L.marker("$EndPhysicalNames");
    }
    if (v41 && !(s.entities.points.empty() && s.entities.curves.empty() && s.entities.surfaces.empty() && s.entities.volumes.empty())) {
        L.marker("$Entities");
        for (size_t n : {s.entities.points.size(), s.entities.curves.size(), s.entities.surfaces.size(), s.entities.volumes.size()}) { if (bin) L.raw((uint64_t)n); else L.num(n); }
        for (auto& e : s.entities.points) {
            if (bin) { L.raw((int32_t)e.tag); L.raw(e.x); L.raw(e.y); L.raw(e.z); L.raw((uint64_t)e.physical_group_tags.size()); for (int q : e.physical_group_tags) L.raw((int32_t)q); }
            else { L.num(e.tag); L.dbl(e.x); L.dbl(e.y); L.dbl(e.z); L.num(e.physical_group_tags.size()); for (int q : e.physical_group_tags) L.num(q); }
        }
        for (auto& e : s.entities.curves) layout_box(L, e, e.boundary_point_tags, bin);
        for (auto& e : s.entities.surfaces) layout_box(L, e, e.boundary_curve_tags, bin);
        for (auto& e : s.entities.volumes) layout_box(L, e, e.boundary_surface_tags, bin);
        L.marker("$EndEntities");
    }
    if (s.nodes.num_nodes) {
        L.marker("$Nodes");
        if (v41) {
            for (size_t n : {s.nodes.num_entity_blocks, s.nodes.num_nodes, s.nodes.min_node_tag, s.nodes.max_node_tag}) { if (bin) L.raw((uint64_t)n); else L.num(n); }
            for (auto& k : s.nodes.entity_blocks) {
                if (bin) { L.raw((int32_t)k.entity_dim); L.raw((int32_t)k.entity_tag); L.raw((int32_t)k.parametric); L.raw((uint64_t)k.num_nodes_in_block); for (size_t t : k.tags) L.raw((uint64_t)t); for (double q : k.data) L.raw(q); }
                else { L.num(k.entity_dim); L.num(k.entity_tag); L.num(k.parametric); L.num(k.num_nodes_in_block); for (size_t t : k.tags) L.num(t); for (double q : k.data) L.dbl(q); }
            }
        } else {
            L.num(s.nodes.num_nodes);
            for (auto& k : s.nodes.entity_blocks) {
                size_t e = 3 + (k.parametric == 1 ? (size_t)k.entity_dim : 0);
                for (size_t i = 0; i < k.tags.size(); i++) {
                    if (bin) { L.raw((int32_t)k.tags[i]); for (int c = 0; c < 3; c++) L.raw(k.data[i * e + c]); }
                    else { L.num(k.tags[i]); for (int c = 0; c < 3; c++) L.dbl(k.data[i * e + c]); }
                }
            }
        }
        L.marker("$EndNodes");
    }
    if (s.elements.num_elements) {
        L.marker("$Elements");
        if (v41) {
            for (size_t n : {s.elements.num_entity_blocks, s.elements.num_elements, s.elements.min_element_tag, s.elements.max_element_tag}) { if (bin) L.raw((uint64_t)n); else L.num(n); }
            for (auto& k : s.elements.entity_blocks) {
                if (bin) { L.raw((int32_t)k.entity_dim); L.raw((int32_t)k.entity_tag); L.raw((int32_t)k.element_type); L.raw((uint64_t)k.num_elements_in_block); for (size_t t : k.data) L.raw((uint64_t)t); }
                else { L.num(k.entity_dim); L.num(k.entity_tag); L.num(k.element_type); L.num(k.num_elements_in_block); for (size_t t : k.data) L.num(t); }
            }
        } else {
            L.num(s.elements.num_elements);
            // 2.2: any split into headers is allowed; every element must be there with one or more tags, the second (or only) naming the entity
            size_t left = s.elements.num_elements, bi = 0, ei = 0;
            auto nextel = [&]() { while (bi < s.elements.entity_blocks.size() && ei >= s.elements.entity_blocks[bi].num_elements_in_block) { bi++; ei = 0; } };
            while (left && d.ok()) {
                nextel();
                const ElementBlock& k = s.elements.entity_blocks[bi];
                size_t n = (size_t)DOC_NODES[k.element_type];
                if (!bin) {
                    L.num(k.data[ei * (n + 1)]); L.num(k.element_type);
                    std::string nt = L.tok(); int c = atoi(nt.c_str()); if (nt != "1" && nt != "2" && nt != "3") { d.set("tag count " + nt); return; }
                    std::vector<std::string> t; for (int i = 0; i < c; i++) t.push_back(L.tok());
                    if (t[c > 1 ? 1 : 0] != std::to_string(k.entity_tag)) d.set("element entity tag");
                    for (size_t j = 0; j < n; j++) L.num(k.data[ei * (n + 1) + j + 1]);
                    ei++; left--;
                } else {
                    L.nl(); int32_t h[3];
                    if (L.p + 12 > b.size()) { d.set("truncated element header"); return; }
                    memcpy(h, b.data() + L.p, 12); L.p += 12; L.lastraw = true;
                    if (h[0] != k.element_type) { d.set("element header type"); return; }
                    if (h[1] < 0 || (size_t)h[1] > left || h[2] < 1 || h[2] > 3) { d.set("element header counts"); return; }
                    for (int i = 0; i < h[1]; i++) {
                        nextel();
                        const ElementBlock& q = s.elements.entity_blocks[bi];
                        if (q.element_type != h[0]) { d.set("element header covers another type"); return; }
                        L.raw((int32_t)q.data[ei * (n + 1)]);
                        for (int t = 0; t < h[2]; t++) { if (t == (h[2] > 1 ? 1 : 0)) L.raw((int32_t)q.entity_tag); else L.p += 4; }
                        for (size_t j = 0; j < n; j++) L.raw((int32_t)q.data[ei * (n + 1) + j + 1]);
                        ei++; left--;
                    }
                }
            }
        }
        L.marker("$EndElements");
    }
    layout_data(L, s.node_data, "NodeData", bin, false);
    layout_data(L, s.element_data, "ElementData", bin, false);
    layout_data(L, s.element_node_data, "ElementNodeData", bin, true);
    if (ext && d.ok()) {
        L.marker("$NanoSplineFormat"); L.word(s.nanospline_format.version); L.marker("$EndNanoSplineFormat");
        if (s.curves.size()) {
            L.marker("$Curves"); L.num(s.curves.size());
            for (auto& c : s.curves) { for (size_t v : {c.curve_tag, c.curve_type, c.curve_degree, c.num_control_points, c.num_knots, c.with_weights}) { if (bin && L.lastraw) { /* text follows raw data */ } L.num(v); } for (double q : c.data) { if (bin) L.raw(q); else L.dbl(q); } if (bin && c.data.empty()) { L.nl(); L.lastraw = true; } }
            L.marker("$EndCurves");
        }
        if (s.patches.size()) {
            L.marker("$Patches"); L.num(s.patches.size());
            for (auto& c : s.patches) { for (size_t v : {c.patch_tag, c.patch_type, c.degree_u, c.degree_v, c.num_control_points, c.num_u_knots, c.num_v_knots, c.with_weights}) L.num(v); for (double q : c.data) { if (bin) L.raw(q); else L.dbl(q); } if (bin && c.data.empty()) { L.nl(); L.lastraw = true; } }
            L.marker("$EndPatches");
        }
    }
    if (d.ok()) L.end();
}

// ---------------------------------------------------------------- independent writer: file generator for the loader
struct File {                     // pieces: every piece is one section (or stray text)
    struct Piece { std::string name; Bytes text; bool known; };
    std::vector<Piece> pieces;
    Bytes bytes() const { Bytes b; for (auto& p : pieces) b += p.text; return b; }
};
template <class T> Bytes le(T v) { return Bytes((const char*)&v, sizeof(T)); }
inline Bytes dtxt(double v) { char buf[40]; snprintf(buf, sizeof buf, "%.17g", v); return buf; }

struct V22El { int num, type; std::vector<int> tags, nodes; };
struct V22File { bool bin; std::vector<std::pair<int64_t, std::vector<double>>> nodes; std::vector<V22El> els; std::vector<size_t> nsplit, esplit; Bytes bytes; };
inline V22File gen_v22(Rng& r)
{
    V22File f; f.bin = r.chance(50);
    int nn = r.chance(8) ? 0 : r.range(1, 14);
    int64_t t = r.chance(70) ? 1 : r.range(1, 500);
    for (int i = 0; i < nn; i++) { f.nodes.push_back({t, {rnd_double(r, !f.bin), rnd_double(r, !f.bin), rnd_double(r, !f.bin)}}); t += 1 + (r.chance(30) ? r.below(9) : 0); }
    if (r.chance(40)) for (size_t i = f.nodes.size(); i > 1; i--) std::swap(f.nodes[i - 1], f.nodes[r.below(i)]);
    int ne = nn == 0 ? 0 : r.chance(10) ? 0 : r.range(1, 14);
    int en = r.range(1, 1000);
    static const std::vector<int> types = {1, 2, 3, 4, 5, 15, 8, 9, 26, 31};
    int lt = 0; std::vector<int> ltags;
    for (int i = 0; i < ne; i++) {
        V22El e; e.num = en; en += r.chance(90) ? r.range(1, 3) : -r.range(1, 3);
        e.type = lt && r.chance(60) ? lt : r.chance(80) ? r.pick(types) : r.range(1, 31);
        int k = lt && r.chance(60) ? (int)ltags.size() : r.range(0, 4);
        for (int j = 0; j < k; j++) e.tags.push_back(r.chance(70) ? r.range(1, 4) : r.range(-3, 12));
        if (lt && r.chance(40)) e.tags = ltags;
        lt = e.type; ltags = e.tags;
        for (int j = 0; j < DOC_NODES[e.type]; j++) e.nodes.push_back((int)f.nodes[r.below(f.nodes.size())].first);
        f.els.push_back(e);
    }
    auto split = [&](size_t n) { std::vector<size_t> v; if (n && r.chance(20)) { size_t a = r.below(n + 1); v = {a, n - a}; } else v = {n}; return v; };
    f.nsplit = split(f.nodes.size()); f.esplit = split(f.els.size());
    Bytes b = "$MeshFormat\n2.2 " + std::to_string(f.bin ? 1 : 0) + " 8\n";
    if (f.bin) b += le((int32_t)1) + "\n";
    b += "$EndMeshFormat\n";
    size_t q = 0;
    for (size_t n : f.nsplit) {
        b += "$Nodes\n" + std::to_string(n) + "\n";
        for (size_t i = 0; i < n; i++, q++) {
            auto& nd = f.nodes[q];
            if (f.bin) { b += le((int32_t)nd.first); for (double v : nd.second) b += le(v); }
            else { b += std::to_string(nd.first); for (double v : nd.second) b += " " + dtxt(v); b += "\n"; }
        }
        b += (f.bin ? "\n$EndNodes\n" : "$EndNodes\n");
    }
    q = 0;
    for (size_t n : f.esplit) {
        b += "$Elements\n" + std::to_string(n) + "\n";
        for (size_t i = 0; i < n;) {
            size_t m = 1;
            if (f.bin) {
                while (i + m < n && f.els[q + m].type == f.els[q].type && f.els[q + m].tags.size() == f.els[q].tags.size() && r.chance(80)) m++;
                b += le((int32_t)f.els[q].type) + le((int32_t)m) + le((int32_t)f.els[q].tags.size());
                for (size_t k = 0; k < m; k++) { auto& e = f.els[q + k]; b += le((int32_t)e.num); for (int v : e.tags) b += le((int32_t)v); for (int v : e.nodes) b += le((int32_t)v); }
            } else {
                auto& e = f.els[q]; b += std::to_string(e.num) + " " + std::to_string(e.type) + " " + std::to_string(e.tags.size());
                for (int v : e.tags) b += " " + std::to_string(v); for (int v : e.nodes) b += " " + std::to_string(v); b += "\n";
            }
            i += m; q += m;
        }
        b += (f.bin ? "\n$EndElements\n" : "$EndElements\n");
    }
    f.bytes = b;
    return f;
}

// consistency of a loaded spec (C10)
inline void check_consistent(Diff& d, const MshSpec& s, bool pure22)
{
    if (s.nodes.num_entity_blocks != s.nodes.entity_blocks.size()) d.set("number of node blocks");
    if (s.elements.num_entity_blocks != s.elements.entity_blocks.size()) d.set("number of element blocks");
    size_t tot = 0;
    for (auto& b : s.nodes.entity_blocks) {
        tot += b.num_nodes_in_block;
        if (b.tags.size() != b.num_nodes_in_block) d.set("node block tags");
        if (b.parametric == 1 && (b.entity_dim < 0 || b.entity_dim > 3)) d.set("node block dimension");
        else if (b.data.size() != b.num_nodes_in_block * (3 + (b.parametric == 1 ? (size_t)b.entity_dim : 0))) d.set("node block data");
    }
    if (pure22 && tot != s.nodes.num_nodes) d.set("number of nodes");
    for (auto& b : s.elements.entity_blocks) {
        if (b.element_type < 1 || b.element_type > 31) { d.set("element type"); continue; }
        size_t w = (size_t)DOC_NODES[b.element_type] + 1;
        if (b.data.size() % w || b.data.size() / w != b.num_elements_in_block) d.set("element block data");
    }
    auto data = [&](const std::vector<Data>& v, bool eln, const char* n) {
        for (auto& x : v) {
            if (x.header.int_tags.size() < 3) { d.set(std::string(n) + " header"); continue; }
            if (x.header.int_tags[1] < 0 || x.header.int_tags[2] < 0 || x.entries.size() != (size_t)x.header.int_tags[2]) { d.set(std::string(n) + " entries"); continue; }
            for (auto& e : x.entries) { if (eln && e.num_nodes_per_element < 0) d.set("node count"); size_t c = (size_t)x.header.int_tags[1] * (eln ? (size_t)e.num_nodes_per_element : 1); if (e.data.size() != c) d.set(std::string(n) + " entry size"); }
        }
    };
    data(s.node_data, false, "node data"); data(s.element_data, false, "element data"); data(s.element_node_data, true, "element node data");
}
