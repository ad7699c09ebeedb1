// C04: physical-group membership survives MSH 2.2.
#include "../ref_writer.h"
using namespace util;

static void from_spec(Src& s, Ctx& c)
{
    gen::Opts o;
    o.tags32 = true;
    o.finite = true;
    o.linked_entities = true;
    o.multi_group = s.chance(1, 5);
    o.need_nodes = true;
    o.allow_big = s.chance(1, 10);
    Format f{"2.2", static_cast<int>(s.draw(1))};
    MshSpec a = gen::spec(s, o);
    set_format(a, f);
    eq::GroupMap g = eq::group_map(a.entities);
    size_t members = 0;
    for (auto& e : eq::flat_elements(a)) {
        auto it = g.find({e.dim, e.entity});
        members += it != g.end() && !it->second.empty();
    }
    c.nontrivial = members > 0;
    c.label_if(members > 0, "elements in groups");
    c.label_if(members > 0 && members < a.elements.num_elements, "mixed");
    describe(c, a, f.name());
    std::string bytes = save(a);
    if (c.want_text) c.text = eq::summary(a) + "\nfile: " + eq::bytes_text(bytes);
    MshSpec b = load(bytes);
    std::string d = eq::check_membership(a, b);
    require(d.empty(), "saved as " + f.name() + " and loaded: " + d);
    MshSpec b2 = load(save(b));
    d = eq::check_membership(b, b2);
    require(d.empty(), "loaded from " + f.name() + ", saved and loaded again: " + d);
}

// Boundary and material tags of a 2.2 file written by someone else survive load, save, load.
static void from_file(Src& s, Ctx& c)
{
    ref::Opts22 o;
    o.need_nodes = true;
    o.allow_big = false;
    ref::Mesh22 g = ref::mesh22(s, o);
    const bool ascii = s.flip();
    MshSpec none;
    std::string bytes = ref::file22(s, g, none, ascii, 0, false).all();
    if (c.want_text) c.text = "file: " + eq::bytes_text(bytes);
    MshSpec a = load(bytes);
    eq::GroupMap want = ref::groups22(g);
    for (auto& w : want) {
        c.nontrivial = true;
        eq::GroupMap have = eq::group_map(a.entities);
        require(have[w.first] == w.second,
            "entity dim " + std::to_string(w.first.first) + " tag " + std::to_string(w.first.second) + ": groups in the file " + eq::show(w.second) + ", loaded " + eq::show(have[w.first]));
    }
    describe(c, a, ascii ? "2.2 ASCII file" : "2.2 binary file");
    Format f{"2.2", static_cast<int>(s.draw(1))};
    set_format(a, f);
    MshSpec b = load(save(a));
    std::string d = eq::check_membership(a, b);
    require(d.empty(), "a loaded 2.2 file saved as " + f.name() + " and loaded again: " + d);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C04",
        {{"spec", from_spec, 5000, 100000, "specifications whose entities own the element blocks; non-trivial: at least one element is in a group", 20, 8},
            {"file", from_file, 4000, 80000, "independently written 2.2 files with 0..5 tags per element; non-trivial: at least one element has a group", 20, 8}});
}
