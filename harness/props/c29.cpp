// C29: a number that the chosen format has no room for is refused, never altered.
#include "../util.h"
using namespace util;

static void widen(size_t& lo, size_t& hi, size_t v)
{
    lo = std::min(lo, v);
    hi = std::max(hi, v);
}

static uint64_t big(Src& s, bool allow_negative)
{
    static const std::vector<uint64_t> b = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 2, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 7,
        (1ull << 33) + 2, 3ull << 31, 1ull << 40, 1ull << 53, (1ull << 53) + 1, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, UINT64_MAX - (1ull << 31) - 1, UINT64_MAX - (1ull << 32)};
    uint64_t v = s.flip() ? s.pick(b) : s.flip() ? (1ull << 31) + s.draw(1ull << 33) : s.u64();
    if (allow_negative && s.chance(1, 8)) v = UINT64_MAX - s.draw(3);
    // As a 32-bit number with sign extension, the last 2^31 fit; only what 2.2 makes of their range is unclear.
    if (!allow_negative && v >= UINT64_MAX - INT32_MAX) v = UINT64_MAX - INT32_MAX - 1;
    return v ? v : 1;
}

// Where a number that is too wide may be.
enum Site { node_tag, element_tag, element_node, node_entry, element_entry, element_node_entry, sites };
static const char* kSites[] = {"a node tag", "an element tag", "a node of an element", "a node data tag", "an element data tag", "an element node data tag"};

static bool put(Src& s, MshSpec& m, Site site, uint64_t v)
{
    auto nth = [&](size_t n) { return n ? s.draw(n - 1) : 0; };
    auto entry = [&](std::vector<Data>& data) {
        std::vector<DataEntry*> all;
        for (auto& d : data)
            for (auto& e : d.entries) all.push_back(&e);
        if (all.empty()) return false;
        all[nth(all.size())]->tag = v;
        return true;
    };
    switch (site) {
    case node_tag: {
        std::vector<size_t*> all;
        for (auto& b : m.nodes.entity_blocks)
            for (auto& t : b.tags) all.push_back(&t);
        if (all.empty()) return false;
        *all[nth(all.size())] = v;
        widen(m.nodes.min_node_tag, m.nodes.max_node_tag, v);
        return true;
    }
    case element_tag:
    case element_node: {
        std::vector<size_t*> all;
        for (auto& b : m.elements.entity_blocks) {
            const size_t k = 1 + gen::kTable[b.element_type].nodes;
            for (size_t i = 0; i < b.data.size(); i++)
                if ((i % k == 0) == (site == element_tag)) all.push_back(&b.data[i]);
        }
        if (all.empty()) return false;
        *all[nth(all.size())] = v;
        if (site == element_tag) widen(m.elements.min_element_tag, m.elements.max_element_tag, v);
        return true;
    }
    case node_entry: return entry(m.node_data);
    case element_entry: return entry(m.element_data);
    default: return entry(m.element_node_data);
    }
}

static void wide(Src& s, Ctx& c)
{
    const Format f = kFormats[s.weighted({30, 10, 40, 20})];
    gen::Opts o;
    o.ext = kExt;
    o.finite = f.ascii();
    const bool everywhere = s.chance(1, 6);
    o.tags32 = !(everywhere && !f.is22());
    o.data_tags32 = !everywhere;
    o.allow_big = s.chance(1, 20);
    MshSpec a = gen::spec(s, o);
    set_format(a, f);
    std::string what;
    bool tags_wide = false, data_wide = everywhere;
    for (size_t k = s.weighted({10, 70, 20}); k > 0; k--) {
        const Site site = static_cast<Site>(s.draw(sites - 1));
        const uint64_t v = big(s, !f.is22() || site >= node_entry);
        if (!put(s, a, site, v)) continue;
        what += std::string(what.empty() ? "" : ", ") + std::to_string(v) + " as " + kSites[site];
        (site < node_entry ? tags_wide : data_wide) |= v > INT32_MAX;
        c.label(kSites[site]);
    }
    bool data_over = false;
    for (auto* v : {&a.node_data, &a.element_data, &a.element_node_data})
        for (auto& d : *v)
            for (auto& e : d.entries) data_over |= e.tag > INT32_MAX;
    // Text has room for any number, as far as saving is concerned.
    const bool may_refuse = (f.is22() && tags_wide) || ((f.is22() || !f.ascii()) && data_over);
    c.nontrivial = tags_wide || data_over;
    describe(c, a, f.name() + (what.empty() ? "" : " with " + what));
    if (c.want_text) c.text = c.sample;
    std::string bytes, msg;
    Exc e = attempt([&] { bytes = save(a); }, &msg);
    if (e != Exc::none) {
        require(may_refuse, "saving as " + f.name() + " throws although every number fits: " + msg);
        c.label("refused when saving");
        return;
    }
    MshSpec b;
    e = attempt([&] { b = load(bytes); }, &msg);
    if (e != Exc::none) {
        require(may_refuse, "loading what was saved as " + f.name() + " throws although every number fits: " + msg);
        c.label("refused when loading");
        return;
    }
    c.label("saved and loaded");
    std::string d = f.is22() ? eq::check22(a, b, kExt) : eq::diff(a, b, kExt);
    require(d.empty(), "saved as " + f.name() + " and loaded without an exception, with " + (what.empty() ? "wide tags" : what) + ": " + d);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C29",
        {{"wide", wide, 5000, 100000, "consistent specifications with up to two (or many) tags above 2^31 - 1 as node, element or entry tags, in each format; non-trivial: some tag is", 20, 8}});
}
