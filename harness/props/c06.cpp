// C06: files saved as MSH 2.2 conform to the format, judged by an independent strict reader.
#include "../ref_reader.h"
using namespace util;

static void conform(Src& s, Ctx& c, int type)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = type == 0;
    o.tags32 = true;
    o.linked_entities = s.flip();
    MshSpec a = gen::spec(s, o);
    Format f{"2.2", type};
    set_format(a, f);
    eq::classify(c, a);
    c.nontrivial = a.nodes.num_nodes > 0 || !a.physical_groups.empty() || a.node_data.size() + a.element_data.size() + a.element_node_data.size() > 0;
    describe(c, a, f.name());
    std::string bytes = save(a);
    if (c.want_text) c.text = eq::summary(a) + "\nfile: " + eq::bytes_text(bytes);
    ref::Content r = ref::read(bytes);
    eq::Diff d;
    d.f("version", std::string("2.2"), r.spec.mesh_format.version);
    d.f("file type", type, r.spec.mesh_format.file_type);
    auto nodes = eq::flat_nodes(a);
    d.f("number of nodes", nodes.size(), r.nodes.size());
    for (size_t i = 0; i < nodes.size() && d.out.empty(); i++) {
        std::string q = "node record " + std::to_string(i);
        d.f(q + " tag", nodes[i].tag, r.nodes[i].tag);
        d.f(q + " x", nodes[i].x, r.nodes[i].x);
        d.f(q + " y", nodes[i].y, r.nodes[i].y);
        d.f(q + " z", nodes[i].z, r.nodes[i].z);
    }
    auto els = eq::flat_elements(a);
    eq::GroupMap gm = eq::group_map(a.entities);
    d.f("number of elements", els.size(), r.elements.size());
    for (size_t i = 0; i < els.size() && d.out.empty(); i++) {
        std::string q = "element record " + std::to_string(i);
        const auto& e = r.elements[i];
        d.f(q + " tag", els[i].tag, static_cast<size_t>(e.tag));
        d.f(q + " type", els[i].type, e.type);
        d.v(q + " nodes", els[i].nodes, std::vector<size_t>(e.nodes.begin(), e.nodes.end()));
        if (e.tags.empty()) pbt::fail(q + " has no tags");
        d.f(q + " entity", els[i].entity, e.tags.size() == 1 ? e.tags[0] : e.tags[1]);
        if (e.tags.size() >= 2) {
            auto it = gm.find({els[i].dim, els[i].entity});
            bool known = it != gm.end() && it->second.count(e.tags[0]);
            if (!known && e.tags[0] != 0) pbt::fail(q + ": physical group " + std::to_string(e.tags[0]) + " is not one of its entity's");
        }
    }
    eq::groups(d, a, r.spec);
    eq::all_data(d, a, r.spec);
    if (kExt) eq::splines(d, a, r.spec);
    require(d.out.empty(), "the file does not say what was saved: " + d.out);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C06",
        {{"ascii", [](Src& s, Ctx& c) { conform(s, c, 0); }, 4000, 80000, "consistent specifications, 32-bit tags, finite doubles; non-trivial: holds nodes, groups or data", 20, 8},
            {"binary", [](Src& s, Ctx& c) { conform(s, c, 1); }, 4000, 80000, "consistent specifications, 32-bit tags, any doubles; non-trivial: holds nodes, groups or data", 20, 8}});
}
