// C05: files saved as MSH 4.1 conform to the format, judged by an independent strict reader.
#include "../ref_reader.h"
using namespace util;

static void conform(Src& s, Ctx& c, int type)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = type == 0;
    o.data_tags32 = type == 1;
    MshSpec a = gen::spec(s, o);
    Format f{"4.1", type};
    set_format(a, f);
    eq::classify(c, a);
    c.nontrivial = a.nodes.num_nodes > 0 || !a.entities.empty() || !a.physical_groups.empty() || a.node_data.size() + a.element_data.size() + a.element_node_data.size() > 0;
    describe(c, a, f.name());
    std::string bytes = save(a);
    if (c.want_text) c.text = eq::summary(a) + "\nfile: " + eq::bytes_text(bytes);
    ref::Content r = ref::read(bytes);
    std::string d = eq::diff(a, r.spec, kExt);
    require(d.empty(), "the file does not say what was saved: " + d);
    require(!kExt || r.has_spline_format, "the extension's version section is missing");
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C05",
        {{"ascii", [](Src& s, Ctx& c) { conform(s, c, 0); }, 4000, 80000, "consistent specifications with finite doubles; non-trivial: holds nodes, entities, groups or data", 20, 8},
            {"binary", [](Src& s, Ctx& c) { conform(s, c, 1); }, 4000, 80000, "consistent specifications with any doubles; non-trivial: holds nodes, entities, groups or data", 20, 8}});
}
