// helpers for the demonstrations
#pragma once
#include <mshio/mshio.h>
#include <mshio/exception.h>
#include "io_utils.h"
#include "element_utils.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace mshio;
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s (line %d)\n", #x, __LINE__); return 1; } } while (0)
inline NodeBlock nblock(int dim, int tag, int par, std::vector<size_t> tags)
{
    NodeBlock b; b.entity_dim = dim; b.entity_tag = tag; b.parametric = par; b.num_nodes_in_block = tags.size(); b.tags = tags;
    for (size_t i = 0; i < tags.size() * (3 + (par == 1 ? dim : 0)); i++) b.data.push_back(0.1 * double(i) + double(tag));
    return b;
}
inline ElementBlock eblock(int dim, int tag, int type, size_t num, std::vector<size_t> data)
{
    ElementBlock b; b.entity_dim = dim; b.entity_tag = tag; b.element_type = type; b.num_elements_in_block = num; b.data = data;
    return b;
}
inline void finish(MshSpec& s)
{
    auto& n = s.nodes; n.num_entity_blocks = n.entity_blocks.size(); n.num_nodes = 0; n.min_node_tag = size_t(-1); n.max_node_tag = 0;
    for (auto& b : n.entity_blocks) { n.num_nodes += b.num_nodes_in_block; for (auto t : b.tags) { n.min_node_tag = std::min(n.min_node_tag, t); n.max_node_tag = std::max(n.max_node_tag, t); } }
    auto& e = s.elements; e.num_entity_blocks = e.entity_blocks.size(); e.num_elements = 0; e.min_element_tag = size_t(-1); e.max_element_tag = 0;
    for (auto& b : e.entity_blocks) { e.num_elements += b.num_elements_in_block; size_t k = b.num_elements_in_block ? b.data.size() / b.num_elements_in_block : 1;
        for (size_t i = 0; i < b.data.size(); i += k) { e.min_element_tag = std::min(e.min_element_tag, b.data[i]); e.max_element_tag = std::max(e.max_element_tag, b.data[i]); } }
}
// two triangles and a line over four nodes
inline MshSpec mesh(const char* version, int binary)
{
    MshSpec s; s.mesh_format.version = version; s.mesh_format.file_type = binary;
    s.nodes.entity_blocks.push_back(nblock(2, 1, 0, {1, 2, 3, 4}));
    s.elements.entity_blocks.push_back(eblock(1, 7, 1, 1, {1, 1, 2}));
    s.elements.entity_blocks.push_back(eblock(2, 1, 2, 2, {2, 1, 2, 3, 3, 2, 3, 4}));
    finish(s);
    return s;
}
inline std::string text(const MshSpec& s) { std::ostringstream o; save_msh(o, s); return o.str(); }
inline MshSpec parse(const std::string& t) { std::istringstream i(t); return load_msh(i); }
inline MshSpec again(const MshSpec& s) { return parse(text(s)); }
template <class F> std::string outcome(F f) { try { f(); return "ok"; } catch (UnsupportedFeature&) { return "unsupported"; } catch (InvalidFormat&) { return "invalid"; } catch (CorruptData&) { return "corrupt"; } catch (std::exception&) { return "other"; } }
