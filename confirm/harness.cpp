// Confirmer: runs the real library (compiled from /repo with sanitizers) on generated cases and compares with independent oracles.
//   harness PROP SEED FIRST COUNT SECONDS OUTDIR      -> prints "FAIL case=<n> <what>" and writes OUTDIR/<prop>.case, exit 1; exit 0 otherwise
//   harness PROP SEED CASE replay OUTDIR              -> one case, verbose
//   harness PROP SEED FIRST COUNT digest              -> outcome digests (uninitialised-value comparison)
#include "common.h"
#include "element_utils.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static const size_t ALLOC_LIMIT = 48u << 20;
void* operator new(size_t n) { if (n > ALLOC_LIMIT) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:handle_abort=1"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=77"; }

#ifdef MSHIO_EXT_NANOSPLINE
static const bool EXT = true;
#else
static const bool EXT = false;
#endif

static bool verbose = false;
static std::string scratch;
static Bytes current;                       // input bytes of the current case, for the replay file
static uint64_t casenum = 0;
static uint64_t digest;
static void mix(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) digest = (digest ^ c[i]) * 1099511628211ull; }
static void mixs(const Bytes& s) { mix(s.data(), s.size()); size_t n = s.size(); mix(&n, 8); }

struct Loaded { bool ok = false; MshSpec spec; std::string exc; };
// input that ends after its first part; the second part can only be read by a reader that clears the stream's failure
struct TwoParts : std::streambuf {
    Bytes a, b; int k = 0;
    TwoParts(const Bytes& x, const Bytes& y) : a(x), b(y) { setg(&a[0], &a[0], &a[0] + a.size()); }
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (++k == 2 && !b.empty()) { setg(&b[0], &b[0], &b[0] + b.size()); return traits_type::to_int_type(*gptr()); }
        return traits_type::eof();
    }
};
static Loaded load(const Bytes& b, const Bytes& more = Bytes())
{
    current = b;
    Loaded l;
    try {
        if (more.empty()) { std::istringstream in(b, std::ios::in | std::ios::binary); l.spec = load_msh(in); }
        else { TwoParts buf(b, more); std::istream in(&buf); l.spec = load_msh(in); }
        l.ok = true;
    }
    catch (const UnsupportedFeature& e) { l.exc = "UnsupportedFeature"; }
    catch (const InvalidFormat& e) { l.exc = "InvalidFormat"; }
    catch (const CorruptData& e) { l.exc = "CorruptData"; }
    catch (const std::bad_alloc&) { l.exc = "bad_alloc"; }
    catch (const std::length_error&) { l.exc = "length_error"; }
    catch (const std::exception& e) { l.exc = "exception"; }
    return l;
}
struct Saved { bool ok = false; Bytes b; std::string exc; };
static Saved save(const MshSpec& s)
{
    Saved r;
    std::ostringstream out(std::ios::out | std::ios::binary);
    try { save_msh(out, s); r.ok = true; }
    catch (const UnsupportedFeature& e) { r.exc = "UnsupportedFeature"; }
    catch (const std::exception& e) { r.exc = e.what(); }
    r.b = out.str();
    return r;
}
static void digest_spec(MshSpec s) { for (auto& c : s.curves) { mix(&c.curve_tag, 48); mix(c.data.data(), 8 * c.data.size()); } for (auto& c : s.patches) { size_t f[] = {c.patch_tag, c.patch_type, c.degree_u, c.degree_v, c.num_control_points, c.num_u_knots, c.num_v_knots, c.with_weights}; mix(f, sizeof f); mix(c.data.data(), 8 * c.data.size()); } s.curves.clear(); s.patches.clear(); Saved x = save(s); mixs(x.b); mixs(x.exc); }

static Bytes seq(const MshSpec& s)          // flat 2.2 view of a spec
{
    Bytes b;
    for (auto& k : s.nodes.entity_blocks) { size_t e = 3 + (k.parametric == 1 ? (size_t)k.entity_dim : 0); for (size_t i = 0; i < k.tags.size(); i++) { b += le(k.tags[i]); for (int c = 0; c < 3; c++) b += le(k.data[i * e + c]); } }
    b += "|";
    for (auto& k : s.elements.entity_blocks) { size_t n = (size_t)DOC_NODES[k.element_type]; for (size_t i = 0; i < k.num_elements_in_block; i++) { b += le(k.element_type) + le(k.entity_tag) + le(DOC_DIM[k.element_type]); for (size_t j = 0; j <= n; j++) b += le(k.data[i * (n + 1) + j]); } }
    return b;
}

// ---------------------------------------------------------------- mutated files for C07..C10
static MshSpec any_spec(Rng& r)
{
    SpecOpts o; o.version = r.chance(50) ? "4.1" : "2.2"; o.binary = r.chance(50); o.ext = EXT; o.big = 2;
    return gen_spec(r, o);
}
static std::vector<Bytes> toks(const Bytes& b)
{
    std::vector<Bytes> v; size_t p = 0;
    while (p < b.size()) { size_t q = p; while (q < b.size() && !Layout::sp(b[q])) q++; while (q < b.size() && Layout::sp(b[q])) q++; v.push_back(b.substr(p, q - p)); p = q; }
    return v;
}
static std::vector<File::Piece> sections(const Bytes& b)
{
    std::vector<File::Piece> v; size_t p = 0;
    while (p < b.size()) {
        size_t e = b.find("$End", p); if (e == Bytes::npos) break;
        size_t q = p; while (q < b.size() && Layout::sp(b[q])) q++;
        size_t n = q; while (n < b.size() && !Layout::sp(b[n])) n++;
        Bytes name = b.substr(q, n - q), end = "$End" + name.substr(1) + "\n";
        size_t f = b.find(end, q); if (f == Bytes::npos) break;
        // raw data can contain anything, strings too: take the end marker that is followed by another section or the end
        for (;;) { size_t g = f + end.size(); if (g >= b.size() || b[g] == '$') break; size_t h = b.find(end, f + 1); if (h == Bytes::npos) break; f = h; }
        v.push_back({name, b.substr(p, f + end.size() - p), true});
        p = f + end.size();
    }
    return v;
}
static const std::vector<Bytes>& hostile()
{
    static const std::vector<Bytes> h = {"-1", "0", "1", "2", "3", "4", "5", "7", "32", "0x10", "18446744073709551615", "18446744073709551614", "9223372036854775807", "4611686018427387904", "6148914691236517206", "3074457345618258603", "2305843009213693952", "1152921504606846976", "2147483647", "-2147483648", "4294967295", "1000000000000", "abc", "1.5", "1e400", "nan", "\"", "\"unterminated", "$", "$End", "$EndNodes", "$Nodes", "-3", "15", "31", "99999999999999999999999", "100", "1000000", "1073741824", "536870912", "1537228672809129302"};
    return h;
}
static Bytes mutate(Rng& r, Bytes b, bool ascii)
{
    int k = r.chance(70) ? 1 : r.range(1, 4);
    for (int m = 0; m < k; m++) {
        switch (r.below(ascii ? 7 : 9)) {
        case 0: b = b.substr(0, r.below(b.size() + 1)); break;
        case 1: case 2: case 3: { auto t = toks(b); if (t.empty()) break; size_t i = r.below(t.size()); size_t w = 0; while (w < t[i].size() && !Layout::sp(t[i][w])) w++; t[i] = r.pick(hostile()) + t[i].substr(w); b.clear(); for (auto& x : t) b += x; break; }
        case 4: { auto t = toks(b); if (t.empty()) break; size_t i = r.below(t.size()); t.erase(t.begin() + (long)i); b.clear(); for (auto& x : t) b += x; break; }
        case 5: { auto s = sections(b); if (s.empty()) break; size_t i = r.below(s.size()), j = r.below(s.size() + 1); auto x = s[i]; if (r.chance(50)) s.erase(s.begin() + (long)i); if (j > s.size()) j = s.size(); s.insert(s.begin() + (long)j, x); b.clear(); for (auto& y : s) b += y.text; break; }
        case 6: { size_t i = r.below(b.size() + 1); b = b.substr(0, i) + r.pick(hostile()) + (r.chance(50) ? " " : "") + b.substr(i); break; }
        default: {
            if (b.size() < 60) break;
            size_t w = r.chance(50) ? 4 : 8; size_t i = 40 + r.below(b.size() - 48);
            static const uint64_t v[] = {(uint64_t)-1, 0, 1, 0x7fffffff, 0x80000000, 0x7fffffffffffffffull, 0x2000000000000000ull, 0x1000000000000000ull, 0x4000000000000000ull, 0xffffffff00000001ull, 0x20000000, 0x40000000, 2, 3, 32, 15, 1000, 6148914691236517206ull};
            uint64_t x = v[r.below(sizeof v / sizeof v[0])]; memcpy(&b[i], &x, w); break; }
        }
    }
    return b;
}
static Bytes header(const char* v, int bin) { Bytes b = std::string("$MeshFormat\n") + v + " " + std::to_string(bin) + " 8\n"; if (bin) b += le((int32_t)1) + "\n"; return b + "$EndMeshFormat\n"; }
static Bytes hostile_file(Rng& r)
{
    if (r.chance(25)) {
        // directed: small sections with extreme declared numbers
        bool bin = r.chance(50); bool v22 = r.chance(50);
        Bytes b = header(v22 ? "2.2" : "4.1", bin);
        static const std::vector<uint64_t> cnt = {0, 1, 2, 3, 5, 1000, (uint64_t)-1, (uint64_t)-2, 1ull << 61, 1ull << 60, (1ull << 60) + 1, 1ull << 62, 1ull << 63, 6148914691236517206ull, 3074457345618258603ull, 9223372036854775808ull, 2305843009213693952ull, 4611686018427387905ull, 2147483648ull, 4294967296ull, 6148914691236517205ull, 3689348814741910324ull};
        auto num = [&](uint64_t v) { return std::to_string(v) + " "; };
        int kind = (int)r.below(5);
        auto u = [&](uint64_t v) { return bin ? le(v) : num(v); };
        auto i32 = [&](int64_t v) { return bin ? le((int32_t)v) : std::to_string((int32_t)v) + " "; };
        if (kind == 0) {
            b += "$Nodes\n";
            if (v22) { uint64_t n = r.pick(cnt); b += num(n) + "\n"; for (int i = 0; i < 3; i++) { b += i32(r.range(-1, 5)); for (int c = 0; c < 3; c++) b += bin ? le(1.0) : Bytes("0.5 "); } }
            else { b += u(r.chance(70) ? 1 : r.pick(cnt)) + u(r.pick(cnt)) + u(r.pick(cnt)) + u(r.pick(cnt)) + i32(r.range(-5, 5)) + i32(1) + i32(r.range(-1, 3)) + u(r.pick(cnt)); for (int i = 0; i < 20; i++) b += u(i); }
            b += "\n$EndNodes\n";
        } else if (kind == 1) {
            if (r.chance(60)) { if (v22) { b += "$Nodes\n1\n" + i32(1); for (int c = 0; c < 3; c++) b += bin ? le(1.0) : Bytes("0.5 "); b += "\n$EndNodes\n"; } }
            b += "$Elements\n";
            if (v22) { uint64_t n = r.chance(60) ? 1 + r.below(3) : r.pick(cnt); b += num(n) + "\n"; for (int i = 0; i < 3; i++) { if (bin) b += i32(r.range(0, 33)) + i32(r.range(-2, 3)) + i32(r.chance(50) ? r.range(-2, 3) : (int)r.pick(cnt)); else b += i32(i) + i32(r.range(0, 33)) + i32(r.chance(50) ? r.range(-2, 3) : (int)r.pick(cnt)); for (int c = 0; c < 8; c++) b += i32(r.range(-1, 4)); } }
            else { b += u(r.chance(70) ? 1 : r.pick(cnt)) + u(r.pick(cnt)) + u(0) + u(9) + i32(2) + i32(1) + i32(r.range(0, 32)) + u(r.pick(cnt)); for (int i = 0; i < 20; i++) b += u(i); }
            b += "\n$EndElements\n";
        } else if (kind == 2) {
            const char* n = r.chance(50) ? "ElementNodeData" : r.chance(50) ? "NodeData" : "ElementData";
            b += std::string("$") + n + "\n1\n\"x\"\n1\n0.0\n"; int ni = r.range(0, 4); b += std::to_string(ni) + "\n";
            for (int i = 0; i < ni; i++) b += std::to_string(r.chance(50) ? r.range(-3, 4) : (int)r.pick(cnt)) + "\n";
            for (int i = 0; i < 3; i++) { b += i32(i + 1) + i32(r.chance(60) ? r.range(-2, 3) : (int)r.pick(cnt)); for (int c = 0; c < 3; c++) b += bin ? le(1.0) : Bytes("0.5 "); }
            b += std::string("\n$End") + n + "\n";
        } else if (kind == 3) {
            b += "$Entities\n" + u(r.pick(cnt)) + u(r.pick(cnt)) + u(0) + u(1);
            for (int i = 0; i < 30; i++) b += u(r.chance(30) ? r.pick(cnt) : 0);
            b += "\n$EndEntities\n";
        } else {
            b += std::string(r.chance(50) ? "$Curves" : "$Patches") + "\n" + num(r.chance(70) ? 1 : r.pick(cnt));
            for (int i = 0; i < 8; i++) b += num(r.chance(50) ? r.pick(cnt) : r.below(4));
            b += "\n"; for (int i = 0; i < 10; i++) b += bin ? le(1.0) : Bytes("1 ");
            b += "\n$EndCurves\n$EndPatches\n";
        }
        if (r.chance(30)) b = mutate(r, b, !bin);
        return b;
    }
    if (r.chance(15)) {
        // mixed headers
        MshSpec a = any_spec(r), c = any_spec(r);
        Bytes x = save(a).b, y = save(c).b;
        auto s = sections(x), t = sections(y);
        for (auto& p : t) s.insert(s.begin() + (long)r.below(s.size() + 1), p);
        Bytes b; for (auto& p : s) b += p.text;
        return b;
    }
    if (r.chance(25)) { V22File f = gen_v22(r); return mutate(r, f.bytes, !f.bin); }
    MshSpec s = any_spec(r);
    if (r.chance(20)) { for (auto& e : s.elements.entity_blocks) { if (r.chance(30)) { e.entity_dim = -1; e.entity_tag = -1; } } }
    Bytes b = save(s).b;
    if (r.chance(10)) { auto v = sections(b); Bytes h2 = header(r.chance(50) ? "2.2" : "4.1", r.chance(50)); v.push_back({"", h2, true}); b.clear(); for (auto& p : v) b += p.text; }
    return r.chance(92) ? mutate(r, b, s.mesh_format.file_type == 0) : b;
}

// ---------------------------------------------------------------- property cases
typedef std::function<void(Rng&, Diff&)> Case;
static void roundtrip(Rng& r, Diff& d, SpecOpts o, int what)
{
    MshSpec s = gen_spec(r, o);
    Saved x = save(s); current = x.b;
    if (!x.ok) { d.set("save threw " + x.exc); return; }
    Loaded l = load(x.b);
    if (!l.ok) { d.set("load threw " + l.exc); return; }
    cmp_format(d, s.mesh_format, l.spec.mesh_format);
    if (what == 1) { cmp_groups(d, s.physical_groups, l.spec.physical_groups); cmp_nodes(d, s.nodes.num_nodes ? s.nodes : Nodes(), l.spec.nodes); cmp_elements(d, s.elements.num_elements ? s.elements : Elements(), l.spec.elements); cmp_entities(d, s.entities, l.spec.entities); }
    if (what == 3) {
        cmp_groups(d, s.physical_groups, l.spec.physical_groups);
        if (seq(s) != seq(l.spec)) d.set("node or element sequence");
        if (s.nodes.num_nodes != l.spec.nodes.num_nodes) d.set("num_nodes");
        if (s.elements.num_elements != l.spec.elements.num_elements) d.set("num_elements");
        if (s.nodes.num_nodes && (s.nodes.min_node_tag != l.spec.nodes.min_node_tag || s.nodes.max_node_tag != l.spec.nodes.max_node_tag)) d.set("node tag bounds");
        if (s.elements.num_elements && (s.elements.min_element_tag != l.spec.elements.min_element_tag || s.elements.max_element_tag != l.spec.elements.max_element_tag)) d.set("element tag bounds");
        check_consistent(d, l.spec, true);
    }
    if (what == 4) { cmp_data(d, s.node_data, l.spec.node_data, "node_data"); cmp_data(d, s.element_data, l.spec.element_data, "element_data"); cmp_data(d, s.element_node_data, l.spec.element_node_data, "element_node_data"); }
    if (what == 5) cmp_ext(d, s, l.spec);
}
static bool valid_ref(const MshSpec& s)
{
    if (s.nodes.num_entity_blocks != s.nodes.entity_blocks.size() || s.elements.num_entity_blocks != s.elements.entity_blocks.size()) return false;
    if (s.nodes.min_node_tag > s.nodes.max_node_tag || s.elements.min_element_tag > s.elements.max_element_tag) return false;
    auto nin = [&](size_t t) { return t >= s.nodes.min_node_tag && t <= s.nodes.max_node_tag; };
    auto ein = [&](size_t t) { return t >= s.elements.min_element_tag && t <= s.elements.max_element_tag; };
    for (auto& b : s.nodes.entity_blocks) {
        if (b.tags.size() != b.num_nodes_in_block) return false;
        for (size_t t : b.tags) if (!nin(t)) return false;
        if (b.parametric == 1 && (b.entity_dim < 0 || b.entity_dim > 3)) return false;
        if (b.data.size() != b.tags.size() * (3 + (b.parametric == 1 ? (size_t)b.entity_dim : 0))) return false;
    }
    for (auto& b : s.elements.entity_blocks) {
        if (b.num_elements_in_block == 0) { if (!b.data.empty()) return false; continue; }
        size_t k = b.data.size() / b.num_elements_in_block;
        if (k == 0 || k * b.num_elements_in_block != b.data.size()) return false;
        for (size_t i = 0; i < b.data.size(); i++) if (!(i % k == 0 ? ein(b.data[i]) : nin(b.data[i]))) return false;
    }
    return true;
}
static MshSpec near_valid(Rng& r)
{
    SpecOpts o; o.version = r.chance(50) ? "4.1" : "2.2"; o.data = false; o.big = 2;
    MshSpec s = gen_spec(r, o);
    if (s.nodes.num_nodes == 0) { s.nodes.min_node_tag = r.below(3); s.nodes.max_node_tag = r.below(5); }
    if (s.elements.num_elements == 0) { s.elements.min_element_tag = r.below(3); s.elements.max_element_tag = r.below(5); }
    // make tags referenced by elements fall within bounds most of the time
    if (s.nodes.num_nodes == 0 && r.chance(80)) { s.nodes.min_node_tag = 0; s.nodes.max_node_tag = (size_t)-1; }
    if (r.chance(60)) {
        auto nb = [&]() -> NodeBlock* { return s.nodes.entity_blocks.empty() ? nullptr : &s.nodes.entity_blocks[r.below(s.nodes.entity_blocks.size())]; };
        auto eb = [&]() -> ElementBlock* { return s.elements.entity_blocks.empty() ? nullptr : &s.elements.entity_blocks[r.below(s.elements.entity_blocks.size())]; };
        NodeBlock* n = nb(); ElementBlock* e = eb();
        switch (r.below(18)) {
        case 0: s.nodes.num_entity_blocks += r.chance(50) ? 1 : (size_t)-1; break;
        case 1: s.elements.num_entity_blocks += r.chance(50) ? 1 : (size_t)-1; break;
        case 2: std::swap(s.nodes.min_node_tag, s.nodes.max_node_tag); break;
        case 3: std::swap(s.elements.min_element_tag, s.elements.max_element_tag); break;
        case 4: s.nodes.min_node_tag++; break;
        case 5: s.nodes.max_node_tag--; break;
        case 6: s.elements.min_element_tag++; break;
        case 7: s.elements.max_element_tag--; break;
        case 8: if (n) n->num_nodes_in_block++; break;
        case 9: if (n && n->tags.size()) n->tags.pop_back(); break;
        case 10: if (n && n->data.size()) n->data.pop_back(); break;
        case 11: if (n) n->data.push_back(0); break;
        case 12: if (n) n->parametric = r.chance(50) ? !n->parametric : r.pick(std::vector<int>{2, -1, -3, 256}); break;
        case 13: if (n) n->entity_dim = r.range(-6, 9); break;
        case 14: if (e) e->data.push_back(1); break;
        case 15: if (e && e->data.size()) e->data.pop_back(); break;
        case 16: if (e) e->num_elements_in_block += r.chance(50) ? 1 : (size_t)-1; break;
        case 17: if (e && e->data.size()) e->data[r.below(e->data.size())] += r.chance(50) ? 1 : (size_t)-1; break;
        }
    }
    if (r.chance(15)) { ElementBlock z; z.element_type = 3; if (r.chance(50)) z.num_elements_in_block = r.below(3); if (r.chance(30)) z.data.push_back(1); s.elements.entity_blocks.push_back(z); s.elements.num_entity_blocks++; }
    if (r.chance(10)) { NodeBlock z; z.parametric = r.chance(50); z.entity_dim = r.range(-4, 4); s.nodes.entity_blocks.push_back(z); s.nodes.num_entity_blocks++; }
    return s;
}

static std::map<std::string, Case> cases()
{
    std::map<std::string, Case> c;
    c["C01"] = [](Rng& r, Diff& d) { SpecOpts o; o.binary = true; o.ext = EXT; roundtrip(r, d, o, 1); };
    c["C02"] = [](Rng& r, Diff& d) { SpecOpts o; o.ext = EXT; roundtrip(r, d, o, 1); };
    c["C03"] = [](Rng& r, Diff& d) { SpecOpts o; o.version = "2.2"; o.binary = r.chance(50); o.ext = EXT; roundtrip(r, d, o, 3); };
    c["C04"] = [](Rng& r, Diff& d) { SpecOpts o; o.version = r.chance(50) ? "2.2" : "4.1"; o.binary = r.chance(50); o.ext = EXT; o.big = 1; roundtrip(r, d, o, 4); };
    c["C05"] = [](Rng& r, Diff& d) { SpecOpts o; o.version = r.chance(50) ? "2.2" : "4.1"; o.binary = r.chance(50); o.ext = true; o.big = 1; if (EXT) roundtrip(r, d, o, 5); };
    c["C06"] = [](Rng& r, Diff& d) {
        SpecOpts o; o.version = r.chance(50) ? "2.2" : "4.1"; o.binary = r.chance(50); o.ext = EXT;
        MshSpec s = gen_spec(r, o); Saved x = save(s); current = x.b;
        if (!x.ok) { d.set("save threw " + x.exc); return; }
        check_layout(d, x.b, s, EXT);
    };
    c["C07"] = [](Rng& r, Diff& d) { Bytes b = hostile_file(r); Loaded l = load(b); mixs(l.exc); if (l.ok) digest_spec(l.spec); };
    c["C08"] = c["C07"];
    c["C09"] = [](Rng& r, Diff& d) {
        // cut or corrupt inside a recognised section: loading must throw
        MshSpec s = any_spec(r); Bytes b; bool bin;
        if (r.chance(40)) { V22File f = gen_v22(r); b = f.bytes; bin = f.bin; } else { b = save(s).b; bin = s.mesh_format.file_type != 0; }
        auto v = sections(b); if (v.empty()) return;
        size_t k = r.below(v.size()); Bytes pre; for (size_t i = 0; i < k; i++) pre += v[i].text;
        Bytes post; for (size_t i = k + 1; i < v.size(); i++) post += v[i].text;
        Bytes sec = v[k].text;
        bool known = EXT || (v[k].name != "$Curves" && v[k].name != "$Patches");
        if (!known) return;
        size_t nl = sec.find('\n') + 1, endp = sec.rfind("$End");
        if (r.chance(50) || bin) {
            size_t lo = v[k].name.size(), cut = lo + r.below(sec.size() - 1 - lo);   // end marker never complete
            Bytes x = pre + sec.substr(0, cut);
            if (r.chance(70)) { Loaded l = load(x); if (l.ok) d.set("section " + v[k].name + " cut after " + std::to_string(cut) + " bytes was accepted"); }
            else { size_t go = cut; if (r.chance(70)) { size_t q = sec.find('\n', cut + r.below(sec.size() - cut)); if (q != Bytes::npos) go = q; }
                Loaded l = load(x, sec.substr(go) + post); if (l.ok) d.set("section " + v[k].name + " cut after " + std::to_string(cut) + " bytes was accepted (input that ends there and could be continued after clearing the stream)"); }
        } else if (v[k].name != "$NanoSplineFormat") {
            // replace one unquoted numeric token by text, or lay the section out anew without its last tokens
            std::vector<std::pair<size_t, size_t>> t; bool q = false; size_t p = nl;
            while (p < endp) {
                char ch = sec[p];
                if (ch == '"') { q = !q; p++; while (q && p < endp) { if (sec[p] == '\\') p += 2; else if (sec[p] == '"') { q = false; p++; break; } else p++; } continue; }
                if (Layout::sp(ch)) { p++; continue; }
                size_t e = p; while (e < endp && !Layout::sp(sec[e])) e++;
                t.push_back({p, e}); p = e;
            }
            if (r.chance(40) && t.size() && t.back().second == endp - 1) {
                size_t n = 1 + r.below(t.size() < 3 ? t.size() : 3); bool all = true;
                for (size_t i = t.size() - n + 1; i < t.size(); i++) if (sec.substr(t[i - 1].second, t[i].first - t[i - 1].second).find('"') != Bytes::npos) all = false;
                if (!all) n = 1;
                size_t stop = t[t.size() - n].first; Bytes y = sec.substr(0, stop); int lay = r.range(0, 3);
                for (size_t i = 0; i + n < t.size(); i++) { char& ch = y[t[i].second]; if (lay == 1 && r.chance(20)) ch = '\n'; if (lay == 2) ch = '\n'; if (lay == 3 && ch == '\n' && r.chance(30)) ch = ' '; }
                y = pre + y + sec.substr(endp) + post;
                Loaded l = load(y); if (l.ok) d.set("section " + v[k].name + " without its last " + std::to_string(n) + " values was accepted");
                return;
            }
            if (v[k].name == "$MeshFormat" && t.size()) t.erase(t.begin());
            if (t.empty()) return;
            auto x = t[r.below(t.size())];
            Bytes y = pre + sec.substr(0, x.first) + (r.chance(50) ? "abc" : "?") + sec.substr(x.second) + post;
            Loaded l = load(y); if (l.ok) d.set("text instead of a number in " + v[k].name + " was accepted (byte " + std::to_string(pre.size() + x.first) + ")");
        }
    };
    c["C10"] = [](Rng& r, Diff& d) {
        Bytes b = hostile_file(r); Loaded l = load(b);
        if (!l.ok) return;
        bool pure = true; size_t p = 0; int nh = 0; while ((p = b.find("$MeshFormat", p)) != Bytes::npos) { p += 11; if (b.compare(p, 4, "\n2.2") != 0) pure = false; nh++; }
        size_t n0 = b.find("$Nodes"), h0 = b.find("$MeshFormat"); if (nh != 1 || (n0 != Bytes::npos && n0 < h0)) pure = false;
        check_consistent(d, l.spec, pure && l.spec.mesh_format.version == "2.2");
    };
    // listed in known_findings.txt (C11): element blocks the division in validate_spec cannot handle
    static auto known11 = [](const MshSpec& s) {
        for (auto& b : s.elements.entity_blocks) { size_t n = b.num_elements_in_block, z = b.data.size(); if (n == 0 || z < n || (z % n && z % (z / n) == 0)) return true; }
        for (auto& b : s.nodes.entity_blocks) if (b.parametric > 0 && (b.entity_dim < 0 || b.entity_dim > 3)) return true;      // outside the property
        return false;
    };
    c["C11F"] = [](Rng&, Diff& d) {
        MshSpec s; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = s.nodes.min_node_tag = s.nodes.max_node_tag = 1;
        NodeBlock nb; nb.num_nodes_in_block = 1; nb.tags = {1}; nb.data = {0, 0, 0}; s.nodes.entity_blocks.push_back(nb);
        s.elements.num_entity_blocks = 1; s.elements.min_element_tag = s.elements.max_element_tag = 1; s.elements.entity_blocks.resize(1);
        ElementBlock& e = s.elements.entity_blocks[0]; e.element_type = 15; e.num_elements_in_block = 0;
        bool want = true; int k = (int)casenum;
        if (k == 1) { e.num_elements_in_block = 2; e.data = {1}; want = false; }
        if (k == 2) { e.num_elements_in_block = 3; e.data = std::vector<size_t>(8, 1); want = false; }
        bool got = true; try { validate_spec(s); } catch (const CorruptData&) { got = false; }
        if (got != want) d.set(got ? "accepted" : "rejected");
    };
    c["C11"] = [](Rng& r, Diff& d) {
        MshSpec s = near_valid(r); if (known11(s)) return;
        for (auto& b : s.nodes.entity_blocks) if (b.parametric > 1) return;      // a flag the format does not define
        bool want = valid_ref(s), got = true;
        try { validate_spec(s); } catch (const CorruptData&) { got = false; } catch (const std::exception& e) { d.set(std::string("other exception ") + e.what()); return; }
        Saved x; x.b = want ? "consistent" : "inconsistent"; current = x.b;
        if (want != got) d.set(want ? "consistent spec rejected" : "inconsistent spec accepted");
    };
    c["C12"] = [](Rng& r, Diff& d) {
        MshSpec s = near_valid(r);
        s.mesh_format.version = r.chance(45) ? "4.1" : r.chance(80) ? "2.2" : "3.0"; s.mesh_format.file_type = r.chance(90) ? (int)r.below(2) : r.range(-1, 2);
        if (r.chance(50)) { SpecOpts o; o.big = 1; MshSpec t = gen_spec(r, o); s.node_data = t.node_data; s.element_data = t.element_data; s.element_node_data = t.element_node_data; s.entities = t.entities; }
        if (r.chance(30)) { s.nodes.num_nodes += r.below(3); s.elements.num_elements += r.below(3); }
        auto wreck = [&](std::vector<Data>& v) { for (auto& x : v) { if (r.chance(40)) for (auto& t : x.header.int_tags) t = (int)((unsigned)t + (unsigned)r.range(-2, 3)); if (r.chance(20)) x.header.int_tags.clear(); for (auto& e : x.entries) { if (r.chance(20)) e.data.push_back(1); if (r.chance(20) && e.data.size()) e.data.pop_back(); if (r.chance(20)) e.num_nodes_per_element = r.range(-2, 9); } } };
        wreck(s.node_data); wreck(s.element_data); wreck(s.element_node_data);
        if (known11(s)) return;
        bool got = true; try { validate_spec(s); } catch (const CorruptData&) { got = false; }
        if (!got) return;
        for (auto& b : s.elements.entity_blocks) { if (b.element_type < 1 || b.element_type > 31) return; size_t w = (size_t)DOC_NODES[b.element_type] + 1; if (b.data.size() % w || b.data.size() / w != b.num_elements_in_block) return; }
        s.curves.clear(); s.patches.clear();
        for (auto& b : s.nodes.entity_blocks) { b.tags.shrink_to_fit(); b.data.shrink_to_fit(); }
        for (auto& b : s.elements.entity_blocks) b.data.shrink_to_fit();
        auto shrink = [&](std::vector<Data>& v) { for (auto& x : v) for (auto& e : x.entries) e.data.shrink_to_fit(); };
        shrink(s.node_data); shrink(s.element_data); shrink(s.element_node_data);
        save(s);
    };
    c["C13"] = [](Rng& r, Diff& d) {
        int t = r.chance(60) ? r.range(-3, 40) : (int)r.next();
        current = "element type " + std::to_string(t);
        for (int k = 0; k < 2; k++) {
            long v = -1; std::string e;
            try { v = k ? (long)get_element_dim(t) : (long)nodes_per_element(t); } catch (const UnsupportedFeature&) { e = "U"; } catch (const std::exception&) { e = "other"; }
            bool in = t >= 1 && t <= 31;
            if (in ? (!e.empty() || v != (k ? DOC_DIM[t] : DOC_NODES[t])) : e != "U") d.set("element type " + std::to_string(t) + (k ? " dimension " : " node count ") + std::to_string(v) + " " + e);
        }
    };
    c["C14"] = [](Rng& r, Diff& d) {
        if (r.chance(60)) {
            std::string ver = r.pick(std::vector<std::string>{"2.2", "4.1", "4.0", "2", "4", "4.10", "2.20", "3.0", "2.1", "4.1x", "1.0", "2.2.0", "02.2", "22", "41", "4.2"});
            int ft = r.pick(std::vector<int>{0, 1, 2, -1, 0, 1}), ds = r.pick(std::vector<int>{8, 8, 8, 4, 0, -8, 16});
            uint32_t one = r.pick(std::vector<uint32_t>{1, 1, 1, 0x01000000u, 0, 2, 257, 0x10000, 0xffffffffu});
            Bytes b = "$MeshFormat\n" + ver + " " + std::to_string(ft) + " " + std::to_string(ds) + "\n"; if (ft) b += le(one) + "\n"; b += "$EndMeshFormat\n";
            bool want = (ver == "2.2" || ver == "4.1") && (ver == "2.2" || ds == 8) && (ft == 0 || one == 1);
            Loaded l = load(b);
            if (want && !l.ok) d.set("supported header refused: " + l.exc);
            if (!want && l.ok) d.set("unsupported header accepted");
            if (!want && !l.ok && l.exc != "UnsupportedFeature") d.set("unsupported header: wrong exception " + l.exc);
        } else {
            SpecOpts o; o.binary = r.chance(50); o.ext = EXT; o.big = 1; MshSpec s = gen_spec(r, o);
            if (r.chance(30)) s.nodes = Nodes(); if (r.chance(30)) s.elements = Elements(); if (r.chance(30)) s.entities = Entities();
            s.mesh_format.version = r.pick(std::vector<std::string>{"4.0", "2", "", "4.10", "3", "2.2 ", "4.1\n", "22", "4"});
            Saved x = save(s); current = s.mesh_format.version;
            if (x.ok) d.set("spec of version \"" + s.mesh_format.version + "\" saved without exception");
            else if (x.exc != "UnsupportedFeature") d.set("wrong exception when saving: " + x.exc);
        }
    };
    c["C15"] = [](Rng& r, Diff& d) {
        V22File f = gen_v22(r); Loaded l = load(f.bytes);
        if (!l.ok) { d.set("valid 2.2 file refused: " + l.exc); return; }
        // owning entity of every element
        size_t q = 0;
        for (auto& b : l.spec.elements.entity_blocks) for (size_t i = 0; i < b.num_elements_in_block; i++, q++) {
            if (q >= f.els.size()) { d.set("too many elements"); return; }
            auto& e = f.els[q]; int want = e.tags.size() > 1 ? e.tags[1] : e.tags.size() == 1 ? e.tags[0] : 1;
            if (b.entity_tag != want || b.entity_dim != DOC_DIM[e.type]) d.set("element " + std::to_string(q) + " belongs to the wrong entity");
        }
        if (q != f.els.size()) d.set("missing elements");
        if (f.esplit.size() > 1) return;     // entities are created per section
        std::map<int, std::set<int>> m[4];
        for (auto& e : f.els) if (e.tags.size() > 1) m[DOC_DIM[e.type]][e.tags[1]].insert(e.tags[0]);
        auto chk = [&](int dim, auto& v) {
            if (v.size() != m[dim].size()) { d.set("number of entities of dimension " + std::to_string(dim)); return; }
            size_t i = 0;
            for (auto& kv : m[dim]) { if (v[i].tag != kv.first) d.set("entity tag"); std::vector<int> w(kv.second.begin(), kv.second.end()), g(v[i].physical_group_tags); std::sort(g.begin(), g.end()); if (g != w) d.set("physical groups of entity " + std::to_string(kv.first)); i++; }
        };
        chk(0, l.spec.entities.points); chk(1, l.spec.entities.curves); chk(2, l.spec.entities.surfaces); chk(3, l.spec.entities.volumes);
    };
    c["C16"] = [](Rng& r, Diff& d) {
        V22File f = gen_v22(r); Loaded l = load(f.bytes);
        if (!l.ok) { d.set("valid 2.2 file refused: " + l.exc); return; }
        std::map<size_t, std::pair<int, int>> own;
        size_t q = 0; const ElementBlock* pe = nullptr;
        for (auto& b : l.spec.elements.entity_blocks) {
            if (pe && pe->entity_dim == b.entity_dim && pe->entity_tag == b.entity_tag && pe->element_type == b.element_type) d.set("neighbouring element blocks do not differ");
            pe = &b; size_t n = b.element_type >= 1 && b.element_type <= 31 ? (size_t)DOC_NODES[b.element_type] : 0;
            if (b.num_elements_in_block == 0) d.set("empty element block");
            if (b.data.size() != b.num_elements_in_block * (n + 1)) { d.set("element block size"); return; }
            for (size_t i = 0; i < b.num_elements_in_block; i++, q++) {
                if (q >= f.els.size()) { d.set("too many elements"); return; }
                auto& e = f.els[q]; int want = e.tags.size() > 1 ? e.tags[1] : e.tags.size() == 1 ? e.tags[0] : 1;
                if (e.type != b.element_type || b.entity_dim != DOC_DIM[e.type] || want != b.entity_tag) { d.set("element block not uniform"); return; }
                if (b.data[i * (n + 1)] != (size_t)e.num) d.set("element tag");
                for (size_t j = 0; j < n; j++) { if (b.data[i * (n + 1) + j + 1] != (size_t)e.nodes[j]) d.set("element nodes"); own[(size_t)e.nodes[j]] = {DOC_DIM[e.type], want}; }
            }
        }
        if (q != f.els.size()) d.set("missing elements");
        if (l.spec.elements.num_elements != q) d.set("num_elements");
        q = 0; const NodeBlock* pn = nullptr;
        for (auto& b : l.spec.nodes.entity_blocks) {
            if (pn && pn->entity_dim == b.entity_dim && pn->entity_tag == b.entity_tag) d.set("neighbouring node blocks do not differ");
            pn = &b;
            if (b.num_nodes_in_block == 0 || b.tags.size() != b.num_nodes_in_block || b.data.size() != 3 * b.tags.size()) { d.set("node block size"); return; }
            for (size_t i = 0; i < b.tags.size(); i++, q++) {
                if (q >= f.nodes.size()) { d.set("too many nodes"); return; }
                auto& n = f.nodes[q];
                if (b.tags[i] != (size_t)n.first) d.set("node tag");
                for (int k = 0; k < 3; k++) if (!deq(b.data[i * 3 + k], n.second[k])) d.set("node coordinate");
                auto it = own.find((size_t)n.first); int wd = it == own.end() ? 0 : it->second.first, wt = it == own.end() ? 0 : it->second.second;
                if (b.entity_dim != wd || b.entity_tag != wt) d.set("node owner");
            }
        }
        if (q != f.nodes.size()) d.set("missing nodes");
    };
    c["C17"] = [](Rng& r, Diff& d) {
        Bytes b; if (r.chance(50)) b = gen_v22(r).bytes; else b = save(any_spec(r)).b;
        Loaded base = load(b); if (!base.ok) { d.set("valid file refused: " + base.exc); return; }
        auto v = sections(b);
        static const std::vector<Bytes> names = {"$Comments", "$Foo", "$Periodic", "$Nodes2", "$Node", "$node", "$NodesX", "$MeshFormatX", "$PartitionedEntities", "$X", "$", "$ElementNode", "$Parametrizations", "$nodes", "$elementdata", "$EndOfFile"};
        int k = r.range(1, 4);
        for (int i = 0; i < k; i++) {
            Bytes t;
            if (r.chance(25)) { static const std::vector<Bytes> st = {"stray text 12 3.5\n", "\n\n \t\n", "# comment\n", "Nodes\n", "end of section $ inside? no\n"}; t = r.pick(std::vector<Bytes>(st.begin(), st.begin() + 4)); }
            else {
                Bytes nm = r.pick(names); t = nm + "\n"; int n = r.range(0, 4);
                static const std::vector<Bytes> body = {"1 2 3\n", "some text\n", "$Nodes\n5\n", "$EndNodes\n", "$Elements 3 $EndElements\n", "\"quoted $\"\n", "$End\n", "$MeshFormat\n9.9 0 0\n$EndMeshFormat\n", "\x01\x02\x03 \x00\n", "$EndFo\n", "-1 abc\n", "$NodeData\n"};
                for (int j = 0; j < n; j++) t += r.pick(body);
                Bytes en = "$End" + nm.substr(1); t += (r.chance(20) ? "" : "") + en + "\n";
                // the end marker must not occur inside
                size_t inner = 0; { std::istringstream is(t.substr(nm.size())); Bytes w; while (is >> w) if (w == en) inner++; } if (inner != 1) continue;
            }
            size_t at = r.below(v.size() + 1);
            v.insert(v.begin() + (long)at, {"", t, false});
        }
        Bytes x; for (auto& p : v) x += p.text;
        Loaded l = load(x); if (!l.ok) { d.set("file with unknown sections refused: " + l.exc); return; }
        cmp_all(d, base.spec, l.spec);
    };
    c["C18"] = [](Rng& r, Diff& d) {
        std::string dir = scratch + "/c18." + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
        auto ls = [&](const std::string& p) { try { load_msh(p); return false; } catch (const std::exception&) { return true; } };
        auto sv = [&](const std::string& p, const MshSpec& s) { try { save_msh(p, s); return false; } catch (const std::exception&) { return true; } };
        MshSpec s = any_spec(r); std::string f = dir + "/f.msh";
        switch (r.below(6)) {
        case 0: current = dir + "/missing"; if (!ls(dir + "/missing")) d.set("load of a missing file returned"); if (!ls("")) d.set("load of \"\" returned"); if (!ls(dir + "/missing/x.msh")) d.set("load under a missing directory returned"); break;
        case 1: current = dir; if (!sv(dir, s)) d.set("save to a directory returned"); if (!sv(dir + "/no/such/f.msh", s)) d.set("save under a missing directory returned"); if (!sv("", s)) d.set("save to \"\" returned"); break;
        case 2: if (!ls(dir)) d.set("load of a directory returned"); current = dir; break;
        case 3: current = "/dev/full"; if (!sv("/dev/full", s)) d.set("save to a full device returned"); break;
        case 4: {
            Saved sv0 = save(s); if (!sv0.ok) break; Bytes b = sv0.b; size_t lim = r.below(b.size() + 1); current = "size limit " + std::to_string(lim) + " of " + std::to_string(b.size());
            signal(SIGXFSZ, SIG_IGN); rlimit o, n; getrlimit(RLIMIT_FSIZE, &o); n = o; n.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &n);
            bool t = sv(f, s); setrlimit(RLIMIT_FSIZE, &o);
            if (lim < b.size() && !t) d.set("truncated file (" + std::to_string(lim) + " of " + std::to_string(b.size()) + " bytes) reported as success");
            if (lim >= b.size() && t) d.set("successful write reported as failure");
            break; }
        default: {
            Saved sv0 = save(s); if (!sv0.ok) break; Bytes b = sv0.b; if (sv(f, s)) { d.set("save to a writable file threw"); break; }
            std::ifstream in(f.c_str(), std::ios::binary); std::stringstream ss; ss << in.rdbuf(); current = b;
            if (ss.str() != b) d.set("file content differs from the stream output");
            Loaded l = load(b); bool t = ls(f); if (t == l.ok) d.set("load(path) differs from load(stream)");
        } }
        unlink(f.c_str()); rmdir(dir.c_str());
    };
    return c;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv)
{
    if (argc < 6) return 2;
    std::string prop = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10), first = strtoull(argv[3], 0, 10);
    std::string a4 = argv[4], a5 = argv[5];
    auto cs = cases(); if (!cs.count(prop)) return 2;
    Case fn = cs[prop];
    auto run = [&](uint64_t n, Diff& d) { casenum = n; Rng r(seed * 1000003 + n); digest = 14695981039346656037ull; fn(r, d); };
    std::cerr.rdbuf(nullptr);
    if (a5 == "digest") {
        uint64_t cnt = strtoull(argv[4], 0, 10);
        for (uint64_t n = first; n < first + cnt; n++) { Diff d; alarm(20); run(n, d); printf("%llu %016llx\n", (unsigned long long)n, (unsigned long long)digest); }
        return 0;
    }
    scratch = a4 == "replay" ? a5 : argv[6];
    if (a4 == "replay") {
        Diff d; alarm(20); run(first, d);
        std::ofstream(scratch + "/input.bin", std::ios::binary) << current;
        printf("%s\n", d.ok() ? "OK" : ("FAIL " + d.what).c_str());
        return d.ok() ? 0 : 1;
    }
    uint64_t cnt = strtoull(argv[4], 0, 10); double secs = atof(argv[5]);
    volatile uint64_t* sh = (volatile uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now(); uint64_t n = first, done = 0;
    while (n < first + cnt && now() - t0 < secs) {
        pid_t p = fork();
        if (p == 0) {
            for (uint64_t k = n; k < first + cnt && now() - t0 < secs; k++) {
                sh[0] = k; alarm(20); Diff d; run(k, d); sh[1]++;
                if (!d.ok()) { printf("FAIL case=%llu %s\n", (unsigned long long)k, d.what.c_str()); fflush(stdout); _exit(1); }
            }
            _exit(0);
        }
        int st; waitpid(p, &st, 0); done = sh[1];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { n = first + cnt; break; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        if (prop == "C08" && !hang) { n = sh[0] + 1; continue; }       // crashes belong to C07
        if (prop == "C07" && hang) { n = sh[0] + 1; continue; }
        printf("FAIL case=%llu %s\n", (unsigned long long)sh[0], hang ? "does not terminate (20 s)" : "crash, sanitizer report or abort");
        return 1;
    }
    printf("OK cases=%llu\n", (unsigned long long)done);
    return 0;
}
