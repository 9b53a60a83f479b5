
bug("c01-volume-box", "C01", [("save_msh_entities.cpp", "out.write(reinterpret_cast<const char*>(&volume.min_z), sizeof(double));", "out.write(reinterpret_cast<const char*>(&volume.min_y), sizeof(double));")],
    "a spec with a volume entity whose box has different lower y and z", "4.1 binary: the lower z of a volume's bounding box comes back as its lower y", """
int main()
{
    MshSpec s = mesh("4.1", 1);
    VolumeEntity v; v.tag = 3; v.min_x = 1; v.min_y = 2; v.min_z = 3; v.max_x = 4; v.max_y = 5; v.max_z = 6; s.entities.volumes = {v};
    MshSpec t = again(s);
    CHECK(t.entities.volumes.size() == 1);
    CHECK(t.entities.volumes[0].min_y == 2); CHECK(t.entities.volumes[0].min_z == 3);
}""")

bug("c01-entity-count", "C01", [("load_msh_entities.cpp", "eat_white_space(in, 1);", "eat_white_space(in);")],
    "a 4.1 binary file with exactly 10, 13, 9 or 32 point entities: the first raw byte of the section is then a white space character", "the first byte of the point count is skipped as white space and the section is misread", """
int main()
{
    MshSpec s = mesh("4.1", 1);
    for (int n : {1, 9, 10, 13, 32}) {
        s.entities.points.assign(n, PointEntity());
        for (int i = 0; i < n; i++) s.entities.points[i].tag = 100 + i;
        MshSpec t;
        CHECK(outcome([&] { t = again(s); }) == "ok");
        CHECK(t.entities.points.size() == size_t(n));
        for (int i = 0; i < n; i++) CHECK(t.entities.points[i].tag == 100 + i);
    }
}""")

bug("c01-parametric-nodes", "C01", [("load_msh_nodes.cpp", "sizeof(double) * block.num_nodes_in_block * entries_per_node));\n        assert(in.good());", "sizeof(double) * block.num_nodes_in_block * 3));\n        in.ignore(static_cast<std::streamsize>(\n            sizeof(double) * block.num_nodes_in_block * (entries_per_node - 3)));\n        assert(in.good());")],
    "a parametric node block in a 4.1 binary file", "the tail of the coordinates of a parametric block is skipped and comes back as zeros", """
int main()
{
    MshSpec s = mesh("4.1", 1);
    s.nodes.entity_blocks.push_back(nblock(2, 5, 1, {8, 9}));
    finish(s);
    MshSpec t = again(s);
    CHECK(t.nodes.entity_blocks.size() == 2);
    CHECK(t.nodes.entity_blocks[1].data == s.nodes.entity_blocks[1].data);
}""")

bug("c02-missing-blank", "C02", [("save_msh_entities.cpp", """            << volume.physical_group_tags.size();
        for (size_t j = 0; j < volume.physical_group_tags.size(); j++) {
            out << " " << volume.physical_group_tags[j];
        }
        out << " " << volume.boundary_surface_tags.size();""", """            << volume.physical_group_tags.size();
        for (size_t j = 0; j < volume.physical_group_tags.size(); j++) {
            out << (j == 0 ? " " : "") << volume.physical_group_tags[j] << " ";
        }
        out << volume.boundary_surface_tags.size();""")],
    "a volume entity without physical groups, saved as text", "the two counts of such a volume run together", """
int main()
{
    MshSpec s = mesh("4.1", 0);
    VolumeEntity c; c.tag = 4; c.physical_group_tags = {1, 2}; c.boundary_surface_tags = {1, 2};
    s.entities.volumes = {c, c}; s.entities.volumes[1].physical_group_tags.clear(); s.entities.volumes[1].tag = 5;
    MshSpec t;
    CHECK(outcome([&] { t = again(s); }) == "ok");
    CHECK(t.entities.volumes.size() == 2);
    CHECK(t.entities.volumes[1].physical_group_tags.empty());
    CHECK(t.entities.volumes[1].boundary_surface_tags == c.boundary_surface_tags);
}""")

bug("c02-wide-tags", "C02", [("load_msh_elements.cpp", "                in >> block.data[j * (n + 1) + k];", "                long entry = 0;\n                in >> entry;\n                block.data[j * (n + 1) + k] = static_cast<unsigned int>(entry);")],
    "an element tag or node tag of at least 2^32 in a 4.1 text file", "large tags are truncated to 32 bits", """
int main()
{
    MshSpec s = mesh("4.1", 0);
    s.elements.entity_blocks[1].data[0] = 5000000000ull;
    finish(s);
    MshSpec t;
    CHECK(outcome([&] { t = again(s); }) == "ok");
    CHECK(t.elements.entity_blocks[1].data == s.elements.entity_blocks[1].data);
}""")

bug("c03-sorted-tags", "C03", [("load_msh_nodes.cpp", "std::min(nodes.min_node_tag, *std::min_element(block.tags.begin(), block.tags.end()));", "std::min(nodes.min_node_tag, block.tags.front());"),
                               ("load_msh_nodes.cpp", "std::max(nodes.max_node_tag, *std::max_element(block.tags.begin(), block.tags.end()));", "std::max(nodes.max_node_tag, block.tags.back());")],
    "a 2.2 text file whose nodes are not listed in increasing order", "tag bounds are taken from the first and last node only", """
int main()
{
    MshSpec s = mesh("2.2", 0);
    s.nodes.entity_blocks[0].tags = {2, 1, 4, 3};
    finish(s);
    MshSpec t;
    CHECK(outcome([&] { t = again(s); }) == "ok");
    CHECK(t.nodes.min_node_tag == 1); CHECK(t.nodes.max_node_tag == 4);
}""")

bug("c03-block-bounds", "C03", [("load_msh_elements.cpp", """            min_tag = std::min(min_tag, element_id);
            max_tag = std::max(max_tag, element_id);

""", ""), ("load_msh_elements.cpp", """                throw InvalidFormat("Inconsistent element count detected!");
            }
        }""", """                throw InvalidFormat("Inconsistent element count detected!");
            }
        }
        if (num_elements_in_block > 0) {
            min_tag = std::min(min_tag, element_id - num_elements_in_block + 1);
            max_tag = std::max(max_tag, element_id);
        }""")],
    "a 2.2 binary block whose element tags are not consecutive and increasing", "the element tag bounds are computed from the last element of each block", """
int main()
{
    MshSpec s = mesh("2.2", 1);
    s.elements.entity_blocks[1].data[0] = 9; s.elements.entity_blocks[1].data[4] = 5;
    finish(s);
    MshSpec t = again(s);
    CHECK(t.elements.min_element_tag == 1); CHECK(t.elements.max_element_tag == 9);
}""")

bug("c04-quoted-tags", "C04", [("save_msh_data.cpp", "out << std::quoted(tag) << std::endl;", "out << '\"' << tag << '\"' << std::endl;")],
    "a string tag containing a quote or a backslash", "such a string tag is not escaped and comes back cut", """
int main()
{
    MshSpec s = mesh("4.1", 0);
    Data d; d.header.string_tags = {"a \\"view\\" \\\\ b", "c"}; d.header.int_tags = {0, 1, 1};
    d.entries.resize(1); d.entries[0].tag = 1; d.entries[0].data = {0.5};
    s.node_data = {d};
    MshSpec t;
    CHECK(outcome([&] { t = again(s); }) == "ok");
    CHECK(t.node_data.size() == 1);
    CHECK(t.node_data[0].header.string_tags == d.header.string_tags);
    CHECK(t.node_data[0].entries.size() == 1); CHECK(t.node_data[0].entries[0].data == d.entries[0].data);
}""")

bug("c04-transposed", "C04", [("load_msh_data.cpp", """                for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                    for (size_t k = 0; k < fields_per_entry; k++) {
                        in >> entry.data[j * fields_per_entry + k];""", """                for (size_t k = 0; k < entry.num_nodes_per_element; k++) {
                    for (size_t j = 0; j < fields_per_entry; j++) {
                        in >> entry.data[j * entry.num_nodes_per_element + k];""")],
    "element-node data in a text file with at least two fields per node", "the values of an entry are transposed", """
int main()
{
    MshSpec s = mesh("4.1", 0);
    Data d; d.header.int_tags = {0, 3, 1};
    d.entries.resize(1); d.entries[0].tag = 1; d.entries[0].num_nodes_per_element = 2; d.entries[0].data = {1, 2, 3, 4, 5, 6};
    s.element_node_data = {d};
    MshSpec t = again(s);
    CHECK(t.element_node_data.size() == 1);
    CHECK(t.element_node_data[0].entries[0].data == d.entries[0].data);
}""")

bug("c05-patch-blank", "C05", [("load_msh_patches.cpp", "        eat_white_space(in, 1);\n", "        eat_white_space(in);\n")],
    "a binary patch whose first control value starts with a byte that is a white space character (9, 10, 13 or 32)", "that byte is skipped and the patch is misread", """
int main()
{
    MshSpec s; s.mesh_format.file_type = 1;
    Patch p; p.patch_tag = 1; p.degree_u = 1; p.degree_v = 1; p.num_control_points = 4; p.num_u_knots = 4; p.num_v_knots = 4;
    for (int i = 0; i < 20; i++) p.data.push_back(i + 0.5);
    for (unsigned char b : {0, 9, 10, 13, 32, 65}) {
        std::memcpy(&p.data[0], &b, 1);
        s.patches = {p, p};
        MshSpec t;
        CHECK(outcome([&] { t = again(s); }) == "ok");
        CHECK(t.patches.size() == 2);
        CHECK(t.patches[0].data == p.data); CHECK(t.patches[1].data == p.data);
    }
}""", "-DMSHIO_EXT_NANOSPLINE")

bug("c05-weights", "C05", [("load_msh_curves.cpp", "curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;", "curve.num_control_points * (3 + curve.with_weights) + curve.num_knots;")],
    "a text curve whose weight flag is neither 0 nor 1", "the number of control values is computed from the flag's value", """
int main()
{
    MshSpec s;
    Curve c; c.curve_tag = 1; c.curve_degree = 1; c.num_control_points = 2; c.num_knots = 4; c.with_weights = 2;
    for (int i = 0; i < 12; i++) c.data.push_back(i + 0.5);
    s.curves = {c};
    MshSpec t;
    CHECK(outcome([&] { t = again(s); }) == "ok");
    CHECK(t.curves.size() == 1); CHECK(t.curves[0].data == c.data);
}""", "-DMSHIO_EXT_NANOSPLINE")

bug("c06-entry-layout", "C06", [("save_msh_data.cpp", """                tag = static_cast<int32_t>(entry.tag);
                out.write(reinterpret_cast<const char*>(&tag), 4);
                if (is_element_node_data) {
                    num_nodes_per_element = static_cast<int32_t>(entry.num_nodes_per_element);
                    out.write(reinterpret_cast<const char*>(&num_nodes_per_element), 4);
                }""", """                tag = static_cast<int32_t>(entry.tag);
                if (is_element_node_data) {
                    num_nodes_per_element = static_cast<int32_t>(entry.num_nodes_per_element);
                    out.write(reinterpret_cast<const char*>(&num_nodes_per_element), 4);
                }
                out.write(reinterpret_cast<const char*>(&tag), 4);"""),
    ("load_msh_data.cpp", """    int32_t tag_32 = 0;
    in.read(reinterpret_cast<char*>(&tag_32), 4);
    entry.tag = static_cast<size_t>(tag_32);
    if (is_element_node_data) {
        int32_t num_nodes_per_element = 0;
        in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
        entry.num_nodes_per_element""", """    int32_t tag_32 = 0;
    if (!is_element_node_data) {
        in.read(reinterpret_cast<char*>(&tag_32), 4);
        entry.tag = static_cast<size_t>(tag_32);
    } else {
        int32_t num_nodes_per_element = 0;
        in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
        in.read(reinterpret_cast<char*>(&tag_32), 4);
        entry.tag = static_cast<size_t>(tag_32);
        entry.num_nodes_per_element""", ),
    ("load_msh_data.cpp", """            throw InvalidFormat("Invalid number of nodes in element node data.");
        }
        entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
    } else {
        entry.data.resize(fields_per_entry);
    }""", ("LAST", """            throw InvalidFormat("Invalid number of nodes in element node data.");
        }
    }
    entry.data.resize(fields_per_entry *
                      (is_element_node_data ? static_cast<size_t>(entry.num_nodes_per_element) : 1));"""))],
    "2.2 binary element-node data; writer and reader were changed together, so the library still reads its own files", "the node count is written before the element tag", """
int main()
{
    MshSpec s = mesh("2.2", 1);
    Data d; d.header.int_tags = {0, 1, 1};
    d.entries.resize(1); d.entries[0].tag = 77; d.entries[0].num_nodes_per_element = 2; d.entries[0].data = {1, 2};
    s.element_node_data = {d};
    std::string f = text(s);
    size_t p = f.find("$ElementNodeData\\n"); CHECK(p != std::string::npos);
    p = f.find("\\n3\\n0\\n1\\n1\\n", p); CHECK(p != std::string::npos);
    p += 9;
    int32_t v[2]; std::memcpy(v, f.data() + p, 8);
    CHECK(v[0] == 77); CHECK(v[1] == 2);
    double x[2]; std::memcpy(x, f.data() + p + 8, 16); CHECK(x[0] == 1); CHECK(x[1] == 2);
}""")

bug("c07-parametric-dim", "C07", [("load_msh_nodes.cpp", "static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));\n        block.data.resize(block.num_nodes_in_block * entries_per_node);\n        in.read(", "static_cast<size_t>(3 + ((block.parametric > 0) ? block.entity_dim : 0));\n        block.data.resize(block.num_nodes_in_block * 3);\n        if (entries_per_node > 3)\n            block.data.resize(block.num_nodes_in_block * entries_per_node);\n        in.read(")],
    "a damaged 4.1 binary file: a node block with parametric greater than 1 and a negative entity dimension", "more bytes are read than the list holds (dimension -1 gives two coordinates; -4 wraps around)", """
int main()
{
    std::string f = "$MeshFormat\\n4.1 1 8\\n"; int one = 1; f.append((char*)&one, 4); f += "$EndMeshFormat\\n$Nodes\\n";
    size_t h[4] = {1, 2, 1, 2}; f.append((char*)h, 32);
    int b[3] = {-2147483647, 1, 2}; f.append((char*)b, 12); size_t n = 2; f.append((char*)&n, 8);
    size_t t[2] = {1, 2}; f.append((char*)t, 16); double x[6] = {1, 2, 3, 4, 5, 6}; f.append((char*)x, 48);
    f += "\\n$EndNodes\\n";
    // a correct reader takes six coordinates (parametric is not 1) or refuses the block
    MshSpec s; std::string o = outcome([&] { s = parse(f); });
    CHECK(o == "ok" || o == "invalid");
    if (o == "ok") { CHECK(s.nodes.entity_blocks.size() == 1); CHECK(s.nodes.entity_blocks[0].data.size() == 6); CHECK(s.nodes.entity_blocks[0].data[5] == 6); }
}""", "-fsanitize=address,undefined -fno-sanitize-recover=all")

bug("c08-blank-loop", "C08", [("io_utils.cpp", """        if (ch == '\\n' || ch == '\\r' || ch == ' ' || ch == '\\t') {
            in.get();
            ch = static_cast<char>(in.peek());
        } else {
            break;
        }
        count--;""", """        if (ch != '\\n' && ch != '\\r' && ch != ' ' && ch != '\\t') {
            if (in.good() || count == 1) break;
            continue;
        }
        in.get();
        ch = static_cast<char>(in.peek());
        count--;""")],
    "a binary file that ends right after the format line (before the byte-order mark)", "skipping white space never ends once the input is exhausted", """
#include <unistd.h>
int main()
{
    alarm(5); // a hang ends the program with a signal
    std::string o = outcome([&] { parse("$MeshFormat\\n4.1 1 8"); });
    CHECK(o != "ok");
    o = outcome([&] { parse("$MeshFormat\\n4.1 1 8\\n"); });
    CHECK(o != "ok");
}""")

bug("c09-line-buffer", "C09", [("load_msh_entities.cpp", """        in >> point.tag;
        in >> point.x;
        in >> point.y;
        in >> point.z;""", """        if (i == 0) in >> std::ws;
        std::string line;
        in >> point.tag;
        std::getline(in, line);
        std::istringstream row(line);
        row >> point.x;
        row >> point.y;
        row >> point.z;
        in.seekg(-static_cast<std::streamoff>(row.rdbuf()->in_avail() + 1), std::ios::cur);"""), ("load_msh_entities.cpp", "#include <fstream>\n", "#include <fstream>\n#include <sstream>\n#include <string>\n")],
    "a damaged 4.1 text file in which a coordinate of a point entity is not a number", "the failure to read the coordinate stays in a local stream and the point is returned with a made-up coordinate", """
int main()
{
    std::string head = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$Entities\\n1 0 0 0\\n";
    MshSpec s;
    CHECK(outcome([&] { s = parse(head + "1 0.5 1.5 2.5 1 7\\n$EndEntities\\n"); }) == "ok");
    CHECK(s.entities.points.size() == 1); CHECK(s.entities.points[0].z == 2.5); CHECK(s.entities.points[0].physical_group_tags == std::vector<int>{7});
    CHECK(outcome([&] { s = parse(head + "1 0.5 1.5 0\\n$EndEntities\\n"); }) != "ok");
    CHECK(outcome([&] { s = parse(head + "1 0.5 x 2.5 0\\n$EndEntities\\n"); }) != "ok");
    CHECK(outcome([&] { s = parse(head + "1 0.5 1.5\\n0\\n$EndEntities\\n"); }) != "ok");
}""")

bug("c09-clear", "C09", [("load_msh_data.cpp", """        in >> std::quoted(header.string_tags[i]);
    }""", """        if (!(in >> std::quoted(header.string_tags[i]))) {
            // tolerate files that list fewer string tags than announced
            header.string_tags.resize(i);
            in.clear();
            break;
        }
    }""")],
    "a data section cut short inside its string tags, in a stream that can still be read after clearing the failure state", "the read failure is cleared", """
struct Cut : std::stringbuf
{
    using std::stringbuf::stringbuf; int stop = 0, n = 0;
    int underflow() override { return ++n == stop ? EOF : std::stringbuf::underflow(); }
};
int main()
{
    // a number is cut off: the count is unreadable
    std::string f = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$NodeData\\n2 \\"a\\"";
    CHECK(outcome([&] { parse(f + "\\n\\"b\\"\\n0\\n3 0 1 1\\n1 0.5\\n$EndNodeData\\n"); }) == "ok");
    // the input ends inside the string tags but the section goes on after the failure (growing file)
    std::stringbuf *b = nullptr; (void)b;
    struct Two : std::streambuf {
        std::string a, c; int state = 0;
        Two(std::string x, std::string y) : a(x), c(y) { setg(&a[0], &a[0], &a[0] + a.size()); }
        int underflow() override {
            if (gptr() < egptr()) return (unsigned char)*gptr();
            if (state == 0) { state = 1; return EOF; }
            if (state == 1) { state = 2; setg(&c[0], &c[0], &c[0] + c.size()); return (unsigned char)*gptr(); }
            return EOF;
        }
    } two(f, "\\n0\\n3 0 1 1\\n1 0.5\\n$EndNodeData\\n");
    std::istream in(&two);
    MshSpec s;
    CHECK(outcome([&] { s = load_msh(in); }) != "ok");
}""")

bug("c10-two-node-sections", "C10", [("load_msh_nodes.cpp", "nodes.num_nodes += block.num_nodes_in_block;", ("LAST", "nodes.num_nodes = block.num_nodes_in_block;"))],
    "a 2.2 binary file with two node sections", "the node total counts the last section only", """
int main()
{
    std::string f = "$MeshFormat\\n2.2 1 8\\n"; int one = 1; f.append((char*)&one, 4); f += "\\n$EndMeshFormat\\n";
    double x[3] = {1, 2, 3};
    for (int k = 0; k < 2; k++) {
        f += "$Nodes\\n"; f += k ? "1\\n" : "2\\n";
        for (int i = 0; i < 2 - k; i++) { int t = 1 + i + 2 * k; f.append((char*)&t, 4); f.append((char*)x, 24); }
        f += "\\n$EndNodes\\n";
    }
    MshSpec s; CHECK(outcome([&] { s = parse(f); }) == "ok");
    size_t n = 0; for (auto& b : s.nodes.entity_blocks) n += b.num_nodes_in_block;
    CHECK(n == 3); CHECK(s.nodes.num_nodes == 3);
}""")

bug("c10-negative-entry", "C10", [("load_msh_elements.cpp", "        block.element_type = element_type;\n        block.data.resize(n + 1);", "        block.element_type = element_type;\n        block.data.resize(tags.size() > 2 ? n + tags.size() - 1 : n + 1);")],
    "a 2.2 text file whose elements carry more than two tags (partition tags)", "such elements get a data list larger than their type", """
int main()
{
    std::string f = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n2\\n1 0 0 0\\n2 1 0 0\\n$EndNodes\\n$Elements\\n2\\n1 1 2 1 1 1 2\\n2 1 4 1 1 1 3 1 2\\n$EndElements\\n";
    MshSpec s; CHECK(outcome([&] { s = parse(f); }) == "ok");
    CHECK(s.elements.num_elements == 2);
    size_t n = 0; for (auto& b : s.elements.entity_blocks) { CHECK(b.data.size() == b.num_elements_in_block * 3); n += b.num_elements_in_block; }
    CHECK(n == 2);
}""")

bug("c12-parametric-flag", "C12", [("save_msh_nodes.cpp", "static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));\n        for (size_t j = 0; j < block.num_nodes_in_block; j++) {\n            for (", "static_cast<size_t>(3 + (block.parametric ? block.entity_dim : 0));\n        for (size_t j = 0; j < block.num_nodes_in_block; j++) {\n            for (")],
    "a node block with a negative parametric flag (accepted by validation) and a positive dimension, saved as 4.1 text", "more coordinates are read than the list holds", """
int main()
{
    MshSpec s = mesh("4.1", 0);
    s.nodes.entity_blocks[0].parametric = -1;
    s.nodes.entity_blocks[0].data.shrink_to_fit();
    CHECK(outcome([&] { validate_spec(s); }) == "ok");
    std::string o = outcome([&] { text(s); });
    CHECK(o == "ok");
}""", "-fsanitize=address,undefined -fno-sanitize-recover=all")

bug("c13-upper-type", "C13", [("element_utils.cpp", "element_type >= 32", "element_type > 32")],
    "the element type 32", "type 32 is accepted and the table is read past its end", """
int main()
{
    for (int t : {-5, 0, 32, 33, 1000}) {
        CHECK(outcome([&] { nodes_per_element(t); }) == "unsupported");
        CHECK(outcome([&] { get_element_dim(t); }) == "unsupported");
    }
    CHECK(nodes_per_element(31) == 56); CHECK(get_element_dim(31) == 3);
}""")

bug("c13-incomplete-dim", "C13", [("element_utils.cpp", "        2, // 25\n        1,\n        1,\n        1,", "        3, // 25\n        1,\n        1,\n        1,")],
    "element type 25", "the dimension of type 25 is reported as 3", """
int main()
{
    for (int t = 20; t <= 25; t++) CHECK(get_element_dim(t) == 2);
    for (int t = 26; t <= 28; t++) CHECK(get_element_dim(t) == 1);
}""")

bug("c14-old-endianness", "C14", [("load_msh_format.cpp", "        if (one != 1) {", "        if (one != 1 && (format.version == \"4.1\" || one != 0x01000000)) {")],
    "a 2.2 binary file of the other byte order", "it is accepted and misread instead of refused", """
int main()
{
    std::string f = "$MeshFormat\\n2.2 1 8\\n"; f += std::string("\\0\\0\\0\\1", 4); f += "\\n$EndMeshFormat\\n";
    CHECK(outcome([&] { parse(f); }) == "unsupported");
    std::string g = "$MeshFormat\\n2.2 1 8\\n"; g += std::string("\\1\\0\\0\\0", 4); g += "\\n$EndMeshFormat\\n";
    CHECK(outcome([&] { parse(g); }) == "ok");
}""")

bug("c14-data-size", "C14", [("load_msh_format.cpp", "if (format.version == \"4.1\" && sizeof(size_t) != format.data_size) {", "if (format.version == \"4.1\" && sizeof(size_t) != format.data_size && format.file_type == 1) {")],
    "a 4.1 header with data size 4 and a file type that is neither 0 nor 1, or a text file", "a text file with another data size is accepted", """
int main()
{
    CHECK(outcome([&] { parse("$MeshFormat\\n4.1 0 4\\n$EndMeshFormat\\n"); }) == "unsupported");
    CHECK(outcome([&] { parse("$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n"); }) == "ok");
}""")

bug("c15-second-group", "C15", [("load_msh_elements.cpp", "                    it->second.insert(tags[0]);", ("LAST", "                    it->second = {tags[0]};"))],
    "a 2.2 binary file in which two elements of one entity carry different physical groups", "only the last physical group of an entity is kept", """
int main()
{
    std::string f = "$MeshFormat\\n2.2 1 8\\n"; int one = 1; f.append((char*)&one, 4); f += "\\n$EndMeshFormat\\n$Nodes\\n2\\n";
    double x[3] = {1, 2, 3};
    for (int t = 1; t < 3; t++) { f.append((char*)&t, 4); f.append((char*)x, 24); }
    f += "\\n$EndNodes\\n$Elements\\n2\\n";
    int e[13] = {1, 2, 2, 1, 10, 5, 1, 2, 2, 20, 5, 2, 1}; f.append((char*)e, 52);
    f += "\\n$EndElements\\n";
    MshSpec s; CHECK(outcome([&] { s = parse(f); }) == "ok");
    CHECK(s.entities.curves.size() == 1); CHECK(s.entities.curves[0].tag == 5);
    CHECK(s.entities.curves[0].physical_group_tags == (std::vector<int>{10, 20}));
}""")

bug("c16-first-owner", "C16", [("load_msh_post_process.cpp", """                entity_dims[idx] = block.entity_dim;
                entity_tags[idx] = block.entity_tag;""", """                if (entity_tags[idx] == 0 || block.entity_dim <= entity_dims[idx]) {
                    entity_dims[idx] = block.entity_dim;
                    entity_tags[idx] = block.entity_tag;
                }""")],
    "a 2.2 file that lists a lower-dimensional element before a higher-dimensional one using the same node", "the node is owned by the lower-dimensional entity instead of that of the last listed element", """
int main()
{
    std::string f = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n3\\n1 0 0 0\\n2 1 0 0\\n3 0 1 0\\n$EndNodes\\n$Elements\\n2\\n1 1 2 1 4 1 2\\n2 2 2 1 9 1 2 3\\n$EndElements\\n";
    MshSpec s; CHECK(outcome([&] { s = parse(f); }) == "ok");
    CHECK(s.nodes.entity_blocks.size() == 1);
    CHECK(s.nodes.entity_blocks[0].entity_dim == 2); CHECK(s.nodes.entity_blocks[0].entity_tag == 9);
}""")

bug("c17-prefix", "C17", [("load_msh.cpp", 'buf == "$Nodes"', 'buf.compare(0, 6, "$Nodes") == 0')],
    "an unknown section whose name starts with the name of a known one", "it is read as nodes", """
int main()
{
    std::string t = text(mesh("4.1", 0));
    MshSpec a = parse(t), b;
    CHECK(outcome([&] { b = parse(t + "$NodesExtra\\n1 1 5 5\\n0 1 0 1\\n5\\n0 0 0\\n$EndNodesExtra\\n"); }) == "ok");
    CHECK(a.nodes.num_nodes == b.nodes.num_nodes); CHECK(b.nodes.entity_blocks.size() == 1); CHECK(b.nodes.entity_blocks[0].tags == a.nodes.entity_blocks[0].tags);
}""")

bug("c18-open", "C18", [("load_msh.cpp", "if (!fin.is_open()) {", "if (fin.bad()) {")],
    "a path that does not exist", "loading it returns an empty spec", """
int main()
{
    CHECK(outcome([&] { load_msh(std::string("no/such/file.msh")); }) == "other");
}""")

bug("c06-swapped-names", "C06", [("save_msh_physical_groups.cpp", """        out << group.dim << " ";
        out << group.tag << " ";
""", """        out << group.tag << " ";
        out << group.dim << " ";
"""), ("load_msh_physical_groups.cpp", """        in >> group.dim;
        in >> group.tag;
""", """        in >> group.tag;
        in >> group.dim;
""")],
    "a physical group whose dimension and tag differ; writer and reader were changed together, so the library still reads its own files", "the tag is written where the format has the dimension", """
int main()
{
    MshSpec s = mesh("4.1", 0);
    PhysicalGroup g; g.dim = 2; g.tag = 17; g.name = "skin"; s.physical_groups = {g};
    CHECK(text(s).find("$PhysicalNames\\n1\\n2 17 \\"skin\\"\\n$EndPhysicalNames\\n") != std::string::npos);
}""")

bug("c07-two-int-tags", "C07", [("load_msh_data.cpp", "data.header.int_tags.size() < 3", "data.header.int_tags.size() < 2")],
    "a damaged data section with exactly two integer tags", "the third tag is read past the end of the list", """
int main()
{
    std::string h = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$NodeData\\n0\\n0\\n";
    CHECK(outcome([&] { parse(h + "2\\n0\\n1\\n$EndNodeData\\n"); }) != "ok");
    CHECK(outcome([&] { parse(h + "3\\n0\\n1\\n1\\n1 0.5\\n$EndNodeData\\n"); }) == "ok");
}""", "-fsanitize=address,undefined -fno-sanitize-recover=all")
