// C08: every conforming MSH 2.2 file loads to exactly what it says.
#include "../known.h"
#include "../ref_writer.h"
using namespace util;

static void files(Src& s, Ctx& c, bool ascii)
{
    ref::Opts22 o;
    o.finite = ascii;
    o.allow_big = s.chance(1, 8);
    ref::Mesh22 g = s.chance(9, 10) ? ref::mesh22(s, o) : ref::Mesh22();
    gen::Opts oo;
    oo.finite = ascii;
    oo.plain_strings = true;
    oo.tags32 = true;
    oo.allow_big = false;
    MshSpec m;
    if (s.flip()) gen::physical_groups(s, oo, m);
    for (size_t i = 0, n = s.draw(2); i < n; i++) {
        m.node_data.emplace_back();
        gen::data_section(s, oo, m.node_data.back(), false);
    }
    for (size_t i = 0, n = s.draw(1); i < n; i++) {
        m.element_data.emplace_back();
        gen::data_section(s, oo, m.element_data.back(), false);
    }
    for (size_t i = 0, n = s.draw(1); i < n; i++) {
        m.element_node_data.emplace_back();
        gen::data_section(s, oo, m.element_node_data.back(), true);
    }
    if (kExt) gen::splines(s, oo, m);
    const int style = ascii ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0);
    ref::File f = ref::file22(s, g, m, ascii, style, kExt);
    const bool shuffled = s.chance(1, 3);
    if (shuffled) ref::shuffle(f, s);
    std::string bytes = f.all();
    if (s.chance(1, 6)) {
        while (!bytes.empty() && isspace(static_cast<unsigned char>(bytes.back()))) bytes.pop_back();
    }
    c.nontrivial = f.pieces.size() > 1;
    c.label(style == 0 ? "as Gmsh" : style == 1 ? "CRLF" : "free layout");
    c.label_if(shuffled, "sections reordered");
    c.label_if(g.elements.size() > 0, "has elements");
    c.label_if(g.nodes.size() > 1000, "over 1000 nodes");
    c.label_if(g.nodes.empty(), "no nodes");
    bool t0 = false, t1 = false, t3 = false;
    for (auto& e : g.elements) {
        t0 |= e.tags.empty();
        t1 |= e.tags.size() == 1;
        t3 |= e.tags.size() >= 3;
    }
    c.label_if(t0, "elements without tags");
    c.label_if(t1, "elements with one tag");
    c.label_if(t3, "elements with three or more tags");
    c.sample = std::string(ascii ? "2.2 ASCII" : "2.2 binary") + " file, " + std::to_string(g.nodes.size()) + " nodes, " + std::to_string(g.elements.size()) + " elements, style " + std::to_string(style) +
               ", data sections " + std::to_string(m.node_data.size() + m.element_data.size() + m.element_node_data.size());
    if (c.want_text) c.text = "file: " + eq::bytes_text(bytes);
    MshSpec b = load(bytes);
    require(b.mesh_format.version == "2.2" && b.mesh_format.file_type == (ascii ? 0 : 1) && b.mesh_format.data_size == 8, "header changed");
    std::string d = ref::check_file22(g, m, b, kExt);
    require(d.empty(), d);
    std::string what;
    Exc e = known::validate(b, &what);
    c.label_if(known::undefined(b), "known finding: an element block without elements, validated without it");
    require(e == Exc::none, "the validator refuses a loaded conforming file: " + what);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C08",
        {{"ascii", [](Src& s, Ctx& c) { files(s, c, true); }, 4000, 80000, "independently written ASCII files in three layouts, 0..5 tags per element; non-trivial: a section besides the header", 20, 8},
            {"binary", [](Src& s, Ctx& c) { files(s, c, false); }, 4000, 80000, "independently written binary files with any grouping into element headers; non-trivial: a section besides the header", 20, 8}});
}
