// C02: MSH 4.1 ASCII save/load is lossless for finite values; NaN and infinities are restored or refused.
#include "../util.h"
using namespace util;

static void finite_values(Src& s, Ctx& c)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.data_tags32 = false; // tags are text
    MshSpec a = gen::spec(s, o);
    set_format(a, kFormats[1]);
    eq::classify(c, a);
    c.nontrivial = a.nodes.num_nodes > 0 || !a.entities.empty() || !a.physical_groups.empty() || a.node_data.size() + a.element_data.size() + a.element_node_data.size() > 0;
    describe(c, a, "4.1 ASCII");
    if (c.want_text) c.text = eq::summary(a);
    std::string bytes = save(a);
    if (c.want_text) c.text += "\nfile: " + eq::bytes_text(bytes);
    std::string d = eq::diff(a, load(bytes), kExt);
    require(d.empty(), "saved as 4.1 ASCII and loaded: " + d);
}

// Many doubles at once: every kind of value must survive the text form.
static void doubles(Src& s, Ctx& c)
{
    MshSpec a;
    set_format(a, kFormats[1]);
    a.nodes.entity_blocks.emplace_back();
    auto& b = a.nodes.entity_blocks.back();
    size_t n = b.num_nodes_in_block = 1 + s.draw(60);
    for (size_t i = 0; i < n; i++) b.tags.push_back(i + 1);
    Src k = s.bulk();
    Src& t = n <= 6 ? s : k;
    for (size_t i = 0; i < 3 * n; i++) b.data.push_back(gen::dbl(t, true));
    a.nodes.num_entity_blocks = 1;
    a.nodes.num_nodes = n;
    a.nodes.min_node_tag = 1;
    a.nodes.max_node_tag = n;
    c.nontrivial = true;
    c.inner = 3 * n;
    describe(c, a, "doubles");
    std::string bytes = save(a);
    if (c.want_text) c.text = eq::bytes_text(bytes);
    std::string d = eq::diff(a, load(bytes), kExt);
    require(d.empty(), "saved as 4.1 ASCII and loaded: " + d);
}

static void nonfinite(Src& s, Ctx& c)
{
    gen::Opts o;
    o.ext = kExt;
    o.allow_big = false;
    o.finite = true;
    MshSpec a = gen::spec(s, o);
    bool binary = s.chance(1, 5); // there, only the real tags are text
    set_format(a, kFormats[binary ? 0 : 1]);
    // Put non-finite values into some of the places that hold doubles.
    std::vector<double*> places;
    for (auto& b : a.nodes.entity_blocks)
        for (double& x : b.data) places.push_back(&x);
    for (auto& e : a.entities.points) places.insert(places.end(), {&e.x, &e.y, &e.z});
    for (auto& e : a.entities.curves) places.insert(places.end(), {&e.min_x, &e.max_z});
    for (auto& e : a.entities.surfaces) places.insert(places.end(), {&e.min_y, &e.max_x});
    for (auto& e : a.entities.volumes) places.insert(places.end(), {&e.min_z, &e.max_y});
    for (auto* v : {&a.node_data, &a.element_data, &a.element_node_data})
        for (auto& d : *v) {
            for (double& x : d.header.real_tags) places.push_back(&x);
            for (auto& e : d.entries)
                for (double& x : e.data) places.push_back(&x);
        }
    if (binary) {
        places.clear();
        for (auto* v : {&a.node_data, &a.element_data, &a.element_node_data})
            for (auto& d : *v)
                for (double& x : d.header.real_tags) places.push_back(&x);
    }
    if (places.empty()) return;
    size_t k = 1 + s.draw(2);
    static const std::vector<double> bad = {INFINITY, -INFINITY, NAN, -NAN};
    for (size_t i = 0; i < k; i++) *places[s.draw(places.size() - 1)] = s.pick(bad);
    c.nontrivial = true;
    describe(c, a, "non-finite");
    std::string bytes;
    Exc e = attempt([&] { bytes = save(a); });
    if (e != Exc::none) {
        c.label("refused when saving");
        require(e != Exc::unknown, "saving threw something that is not a std::exception");
        return;
    }
    if (c.want_text) c.text = eq::bytes_text(bytes);
    MshSpec b;
    e = attempt([&] { b = load(bytes); });
    if (e != Exc::none) {
        c.label("refused when loading");
        require(e != Exc::unknown, "loading threw something that is not a std::exception");
        return;
    }
    c.label("restored");
    eq::any_nan() = true;
    std::string d = eq::diff(a, b, kExt);
    eq::any_nan() = false;
    require(d.empty(), "a non-finite value was silently altered: " + d);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C02",
        {{"finite", finite_values, 5000, 100000, "consistent specifications with finite doubles; non-trivial: holds nodes, entities, groups or data", 20, 8},
            {"doubles", doubles, 3000, 60000, "one block of up to 180 doubles of all magnitudes; all non-trivial", 20, 8},
            {"nonfinite", nonfinite, 1500, 20000, "specifications with NaN/Inf at random places; non-trivial: at least one placed", 20, 8}});
}
