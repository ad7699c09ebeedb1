// C03: MSH 2.2 save/load keeps every node, element, name and field. C04 looks at group membership.
#include "../util.h"
using namespace util;

static void roundtrip(Src& s, Ctx& c, int type)
{
    gen::Opts o;
    o.ext = kExt;
    o.tags32 = true;
    o.finite = type == 0;
    MshSpec a = gen::spec(s, o);
    Format f{"2.2", type};
    set_format(a, f);
    eq::classify(c, a);
    c.nontrivial = a.nodes.num_nodes > 0 || !a.physical_groups.empty() || a.node_data.size() + a.element_data.size() + a.element_node_data.size() > 0;
    describe(c, a, f.name());
    if (c.want_text) c.text = eq::summary(a);
    std::string bytes = save(a);
    if (c.want_text) c.text += "\nfile: " + eq::bytes_text(bytes);
    MshSpec b = load(bytes);
    std::string d = eq::check22(a, b, kExt);
    require(d.empty(), "saved as " + f.name() + " and loaded: " + d);
    require(b.mesh_format.version == "2.2" && b.mesh_format.file_type == type, "header changed");
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C03",
        {{"ascii", [](Src& s, Ctx& c) { roundtrip(s, c, 0); }, 4000, 80000, "consistent specifications, tags within 32 bits, finite doubles; non-trivial: holds nodes, groups or data", 20, 8},
            {"binary", [](Src& s, Ctx& c) { roundtrip(s, c, 1); }, 4000, 80000, "consistent specifications, tags within 32 bits, any doubles; non-trivial: holds nodes, groups or data", 20, 8}});
}
