// C13: the validator accepts exactly the consistent specifications.
#include "../consistent.h"
using namespace util;

static void judge(const MshSpec& m, Ctx& c, const std::string& how)
{
    cons::Result r = cons::judge(m);
    const MshSpec copy = m;
    std::string what;
    Exc e;
    if (known::undefined(m)) {
        c.label("known finding: the validator divides by zero");
        e = known::validate(m); // what is left must be answered
        require(e == Exc::none || e == Exc::corrupt || e == Exc::unsupported, std::string("the validator threw ") + name(e) + ": " + what);
        if (r.v == cons::Verdict::yes) require(e == Exc::none, "a consistent specification is refused: " + what);
        return;
    }
    e = attempt([&] { validate_spec(m); }, &what);
    if (c.want_text) c.text = how + "\n" + eq::summary(m) + "\njudged: " + (r.v == cons::Verdict::yes ? "consistent" : r.v == cons::Verdict::no ? "inconsistent: " + r.why : "unclear: " + r.why);
    require(e == Exc::none || e == Exc::corrupt || e == Exc::unsupported, std::string("the validator threw ") + name(e) + ": " + what);
    c.label(r.v == cons::Verdict::yes ? "consistent" : r.v == cons::Verdict::no ? "inconsistent: " + r.why : "unclear (either answer allowed)");
    if (r.v == cons::Verdict::yes) require(e == Exc::none, "a consistent specification is refused: " + what);
    if (r.v == cons::Verdict::no) {
        if (e == Exc::none && (r.parts & ~known::unchecked()) == 0) {
            c.label("known finding: accepted although inconsistent");
            return;
        }
        require(e != Exc::none, "accepted although inconsistent: " + r.why);
        if (!r.bad_type) require(e == Exc::corrupt, "refused with UnsupportedFeature although every element type is supported: " + what);
    }
    c.nontrivial = r.v != cons::Verdict::unclear;
    std::string d = eq::diff(copy, m, true);
    eq::any_nan() = false;
    require(d.empty(), "validation changed the specification: " + d);
}

static void consistent(Src& s, Ctx& c)
{
    gen::Opts o;
    o.ext = kExt;
    MshSpec m = gen::spec(s, o);
    set_format(m, kFormats[s.draw(3)]);
    describe(c, m, "consistent");
    judge(m, c, "generated as consistent");
    cons::Result r = cons::judge(m);
    require(r.v == cons::Verdict::yes, "harness: generator and predicate disagree: " + r.why);
    // What was saved and loaded again is consistent too.
    MshSpec l = load(save_as(m, kFormats[0]));
    c.inner++;
    std::string what;
    Exc e = known::validate(l, &what);
    require(e == Exc::none, "a consistent specification saved and loaded is refused: " + what);
}

static void changed(Src& s, Ctx& c)
{
    MshSpec m = cons::any_spec(s, c, 3);
    describe(c, m, "changed");
    judge(m, c, "changed");
}

static void wild(Src& s, Ctx& c)
{
    MshSpec m = cons::any_spec(s, c, 30);
    describe(c, m, "changed much");
    c.labels.clear();
    judge(m, c, "changed much");
}

// Nearly every small combination of counts and sizes of one block.
static void small(Src& s, Ctx& c)
{
    MshSpec m;
    m.nodes.entity_blocks.resize(s.draw(2));
    m.nodes.num_entity_blocks = s.chance(1, 4) ? s.draw(3) : m.nodes.entity_blocks.size();
    auto near = [&](size_t v) { return s.chance(1, 5) ? s.draw(12) : v; };
    size_t total = 0;
    for (auto& b : m.nodes.entity_blocks) {
        b.num_nodes_in_block = s.draw(3);
        b.entity_dim = static_cast<int>(s.draw(3));
        b.parametric = static_cast<int>(s.draw(1));
        b.tags.resize(near(b.num_nodes_in_block));
        for (auto& t : b.tags) t = 1 + s.draw(5);
        b.data.resize(near(b.num_nodes_in_block * static_cast<size_t>(3 + (b.parametric ? b.entity_dim : 0))));
        total += b.num_nodes_in_block;
    }
    m.nodes.num_nodes = near(total);
    m.nodes.min_node_tag = s.draw(3);
    m.nodes.max_node_tag = 3 + s.draw(4);
    m.elements.entity_blocks.resize(s.draw(2));
    m.elements.num_entity_blocks = s.chance(1, 4) ? s.draw(3) : m.elements.entity_blocks.size();
    total = 0;
    for (auto& b : m.elements.entity_blocks) {
        b.element_type = s.chance(1, 10) ? static_cast<int>(s.draw(33)) : static_cast<int>(1 + s.draw(30));
        const size_t k = b.element_type >= 1 && b.element_type <= 31 ? gen::kTable[b.element_type].nodes + 1 : 3;
        b.entity_dim = b.element_type >= 1 && b.element_type <= 31 ? gen::kTable[b.element_type].dim : 0;
        b.num_elements_in_block = s.draw(2);
        b.data.resize(s.chance(1, 5) ? s.draw(2 * k) : b.num_elements_in_block * k);
        for (size_t i = 0; i < b.data.size(); i++) b.data[i] = 3 + (s.chance(1, 10) ? s.draw(4) : 0);
        total += b.num_elements_in_block;
    }
    m.elements.num_elements = near(total);
    m.elements.min_element_tag = s.draw(3);
    m.elements.max_element_tag = 3 + s.draw(4);
    describe(c, m, "small");
    judge(MshSpec(m), c, "small");
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C13",
        {{"consistent", consistent, 4000, 80000, "consistent specifications; all non-trivial", 10, 8},
            {"changed", changed, 40000, 800000, "consistent specifications with 0..3 changes to counts, arrays, tags and ranges; non-trivial: the predicate decides", 10, 8},
            {"small", small, 40000, 800000, "small specifications around consistency; non-trivial: the predicate decides", 10, 8},
            {"wild", wild, 8000, 160000, "up to 30 changes; non-trivial: the predicate decides", 10, 8}});
}
