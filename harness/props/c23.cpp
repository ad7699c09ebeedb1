// C23: tags may be sparse and unordered, at a memory cost bounded by the file size.
#include "../alloc.h"
#include "../known.h"
#include "../ref_writer.h"
#include <limits>
using namespace util;

// Peak memory allowed while loading n bytes. Measured on the shipped tree: below 50 bytes per byte of file.
static size_t budget(size_t n) { return 200 * n + (1u << 20); }

static const char* kStyles[] = {"scattered", "descending", "two far clusters", "powers", "top of the range", "strided", "zigzag"};

// A map from the tags in use to others: distinct, positive, at most max.
class Remap
{
public:
    Remap(Src& s, uint64_t max)
        : m_max(max)
    {
        m_style = s.draw(6);
        m_salt = s.draw(0xffffff);
    }
    const char* style() const { return kStyles[m_style]; }
    uint64_t operator()(uint64_t t)
    {
        auto it = m_map.find(t);
        if (it != m_map.end()) return it->second;
        const uint64_t i = m_map.size();
        uint64_t v = 0;
        switch (m_style) {
        case 0: v = pbt::mix(m_salt ^ (i * 0x9e3779b97f4a7c15ull)); break;
        case 1: v = m_max - i; break;
        case 2: v = i % 2 ? m_max - 1 - i : 1 + i; break;
        case 3: v = i < 62 ? (1ull << i) : m_max - i; break;
        case 4: v = m_max - (i ^ 5); break;
        case 5: v = 1 + i * (1000003 + m_salt % 1000); break;
        default: v = i % 2 ? m_max / 2 + i : m_max / 2 - i; break;
        }
        for (;; v++) {
            if (v > m_max) v = 1 + v % m_max;
            if (v == 0) v = 1;
            if (m_used.insert(v).second) break;
        }
        m_map[t] = v;
        return v;
    }

private:
    uint64_t m_max, m_salt;
    size_t m_style;
    std::map<uint64_t, uint64_t> m_map;
    std::set<uint64_t> m_used;
};

static void scatter(Src& s, MshSpec& m, uint64_t max, Ctx& c)
{
    Remap nt(s, max), et(s, max);
    auto& N = m.nodes;
    auto& E = m.elements;
    uint64_t lo = UINT64_MAX, hi = 0;
    for (auto& b : N.entity_blocks)
        for (auto& t : b.tags) t = nt(t), lo = std::min<uint64_t>(lo, t), hi = std::max<uint64_t>(hi, t);
    if (N.num_nodes) N.min_node_tag = lo, N.max_node_tag = hi;
    lo = UINT64_MAX, hi = 0;
    for (auto& b : E.entity_blocks) {
        const size_t k = 1 + gen::kTable[b.element_type].nodes;
        for (size_t i = 0; i < b.data.size(); i++) {
            if (i % k == 0)
                b.data[i] = et(b.data[i]), lo = std::min<uint64_t>(lo, b.data[i]), hi = std::max<uint64_t>(hi, b.data[i]);
            else
                b.data[i] = nt(b.data[i]);
        }
    }
    if (E.num_elements) E.min_element_tag = lo, E.max_element_tag = hi;
    c.label(std::string("node tags ") + nt.style());
    c.label(std::string("element tags ") + et.style());
}

static size_t measured_load(const std::string& bytes, MshSpec& m)
{
    std::istringstream i(bytes, std::ios::binary);
    const size_t before = alloc::live();
    alloc::reset_peak();
    alloc::cap() = alloc::live() + std::max<size_t>(budget(bytes.size()) * 4, 256u << 20);
    Exc e;
    std::string what;
    e = attempt([&] { m = load_msh(i); }, &what);
    alloc::cap() = SIZE_MAX;
    const size_t used = alloc::peak() - before;
    require(e == Exc::none, "loading a conforming file of " + std::to_string(bytes.size()) + " bytes failed: " + name(e) + " " + what + " (memory used: " + std::to_string(used) + ")");
    return used;
}
static void affordable(size_t used, size_t n)
{
    require(used <= budget(n), "loading " + std::to_string(n) + " bytes needed " + std::to_string(used) + " bytes of memory, more than 200 times the file size and 1 MB");
}

static void roundtrip(Src& s, Ctx& c)
{
    const Format f = kFormats[s.draw(3)];
    gen::Opts o;
    o.ext = kExt;
    o.tags32 = f.is22();
    o.finite = f.ascii();
    o.allow_big = s.chance(1, 6);
    o.need_nodes = true;
    MshSpec a = gen::spec(s, o);
    scatter(s, a, f.is22() ? INT32_MAX : UINT64_MAX, c);
    set_format(a, f);
    c.label(f.name());
    c.nontrivial = a.nodes.num_nodes > 1;
    describe(c, a, f.name());
    if (c.want_text) c.text = eq::summary(a);
    require(known::validate(a) == Exc::none, "the validator refuses a consistent specification with sparse tags");
    std::string bytes = save(a);
    MshSpec b;
    size_t used = measured_load(bytes, b);
    std::string d = f.is22() ? eq::check22(a, b, kExt) : eq::diff(a, b, kExt);
    require(d.empty(), "saved as " + f.name() + " and loaded: " + d);
    if (f.is22()) {
        d = eq::check_grouping(b);
        require(d.empty(), "grouping: " + d);
    }
    affordable(used, bytes.size());
}

// Independently written 2.2 files, large enough for the cost to show.
static void files(Src& s, Ctx& c)
{
    ref::Mesh22 g;
    const bool ascii = s.flip();
    const size_t n = s.chance(1, 3) ? gen::boundary_size(s, s.chance(1, 20) ? 70000 : 8192) : 1 + s.draw(200);
    Remap nt(s, INT32_MAX), et(s, INT32_MAX), ents(s, INT32_MAX), grps(s, INT32_MAX);
    const size_t order = s.draw(2), spread = s.draw(3), shape = s.draw(2);
    Src t = s.bulk();
    for (size_t i = 0; i < n; i++) {
        eq::FlatNode x;
        x.tag = nt(i + 1);
        x.x = static_cast<double>(i);
        x.y = static_cast<double>(t.draw(100));
        x.z = -1;
        g.nodes.push_back(x);
    }
    if (order == 1) std::reverse(g.nodes.begin(), g.nodes.end());
    if (order == 2)
        for (size_t i = n; i > 1; i--) std::swap(g.nodes[i - 1], g.nodes[t.draw(i - 1)]);
    const size_t m = spread == 3 ? n : n / 2;
    for (size_t i = 0; i < m; i++) {
        ref::El22 e;
        e.tag = static_cast<int32_t>(et(i + 1));
        e.type = shape == 0 ? 15 : shape == 1 ? (t.flip() ? 1 : 2) : 4;
        size_t ent = spread == 0 ? 1 : spread == 1 ? 1 + i / 100 : spread == 2 ? t.draw(20) : i + 1; // up to one entity per element
        e.tags = {static_cast<int>(grps(ent / 2 + 1)), static_cast<int>(ents(ent + 1))};
        for (size_t k = 0; k < gen::kTable[e.type].nodes; k++) e.nodes.push_back(static_cast<int32_t>(g.nodes[(k ? t.draw(n - 1) : i) % n].tag));
        g.elements.push_back(std::move(e));
    }
    MshSpec empty;
    ref::File f = ref::file22(s, g, empty, ascii, 0, false);
    std::string bytes = f.all();
    c.nontrivial = n > 1;
    c.label(ascii ? "2.2 ASCII" : "2.2 binary");
    c.label_if(n > 1000, "over 1000 nodes");
    c.label_if(spread == 3 && n > 1000, "over 1000 entities");
    c.sample = std::string(ascii ? "2.2 ASCII" : "2.2 binary") + " file, " + std::to_string(n) + " nodes (" + nt.style() + "), " + std::to_string(m) + " elements (" + et.style() + "), " + std::to_string(bytes.size()) + " bytes";
    if (c.want_text) c.text = "file: " + eq::bytes_text(bytes);
    MshSpec b;
    size_t used = measured_load(bytes, b);
    c.label_if(used > 50 * bytes.size() && bytes.size() > 4000, "memory over 50 times the file");
    c.label_if(used > 100 * bytes.size() && bytes.size() > 4000, "memory over 100 times the file");
    auto fe = ref::flat(g);
    std::string d = eq::check_flat(g.nodes, fe, b);
    require(d.empty(), "loaded file: " + d);
    d = eq::check_grouping(b);
    require(d.empty(), "grouping: " + d);
    std::string dup;
    eq::GroupMap want = ref::groups22(g), have = eq::group_map(b.entities, &dup);
    require(dup.empty(), dup);
    for (auto& w : want) require(have.count(w.first) && have[w.first] == w.second, "groups of entity dim " + std::to_string(w.first.first) + " tag " + std::to_string(w.first.second) + " were lost");
    affordable(used, bytes.size());
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C23",
        {{"roundtrip", roundtrip, 5000, 100000, "consistent specifications with node and element tags mapped to scattered, descending, clustered or extreme ones, saved and loaded in one of the four formats; non-trivial: more than one node", 30, 8},
            {"files", files, 1500, 20000, "independently written 2.2 files with sparse tags in any order, up to one entity per element, up to 70000 nodes; non-trivial: more than one node", 60, 8}});
}
