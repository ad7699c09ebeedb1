// C01: MSH 4.1 binary save/load is lossless.
#include "../util.h"

#include <fstream>
#include <list>
using namespace util;

static void roundtrip(Src& s, Ctx& c)
{
    gen::Opts o;
    o.ext = kExt;
    MshSpec a = gen::spec(s, o);
    set_format(a, kFormats[0]);
    eq::classify(c, a);
    c.nontrivial = a.nodes.num_nodes > 0 || !a.entities.empty() || !a.physical_groups.empty() || a.node_data.size() + a.element_data.size() + a.element_node_data.size() > 0;
    describe(c, a, "4.1 binary");
    if (c.want_text) c.text = eq::summary(a);
    std::string bytes = save(a);
    if (c.want_text) c.text += "\nfile: " + eq::bytes_text(bytes);
    MshSpec b = load(bytes);
    std::string d = eq::diff(a, b, kExt);
    require(d.empty(), "saved as 4.1 binary and loaded: " + d);
}

// The sections one by one at larger sizes: lengths around internal buffer sizes and big counts.
static void large(Src& s, Ctx& c)
{
    gen::Opts o;
    MshSpec a;
    set_format(a, kFormats[0]);
    switch (s.draw(2)) {
    case 0: {
        size_t n = gen::boundary_size(s, 70000);
        Src b = s.bulk();
        auto& N = a.nodes;
        N.entity_blocks.emplace_back();
        auto& k = N.entity_blocks.back();
        k.entity_dim = 3;
        k.parametric = s.flip();
        k.num_nodes_in_block = n ? n : 1;
        uint64_t base = gen::pos_tag(s, 1ull << 62);
        for (size_t i = 0; i < k.num_nodes_in_block; i++) k.tags.push_back(base + i * 7);
        for (size_t i = 0; i < k.num_nodes_in_block * (k.parametric ? 6 : 3); i++) k.data.push_back(gen::from_bits(b.u64() | 0x0008000000000000ull));
        N.num_entity_blocks = 1;
        N.num_nodes = k.num_nodes_in_block;
        N.min_node_tag = k.tags.front();
        N.max_node_tag = k.tags.back();
        break;
    }
    case 1: {
        size_t n = gen::boundary_size(s, 20000);
        for (size_t i = 0; i < n; i++) {
            mshio::PhysicalGroup g;
            g.dim = static_cast<int>(i % 4);
            g.tag = static_cast<int>(i) - 5;
            g.name = "group " + std::to_string(i);
            a.physical_groups.push_back(g);
        }
        break;
    }
    default: {
        size_t n = gen::boundary_size(s, 20000);
        Src b = s.bulk();
        a.element_node_data.emplace_back();
        auto& d = a.element_node_data.back();
        d.header.string_tags = {gen::str(s, false)};
        d.header.int_tags = {0, 3, static_cast<int>(n)};
        for (size_t i = 0; i < n; i++) {
            d.entries.emplace_back();
            d.entries.back().tag = i + 1;
            d.entries.back().num_nodes_per_element = static_cast<int>(b.draw(4));
            for (int k = 0; k < 3 * d.entries.back().num_nodes_per_element; k++) d.entries.back().data.push_back(gen::from_bits(b.u64() | 0x0008000000000000ull));
        }
    }
    }
    c.nontrivial = true;
    describe(c, a, "4.1 binary, large");
    if (c.want_text) c.text = eq::summary(a);
    std::string d = eq::diff(a, load(save(a)), kExt);
    require(d.empty(), "saved as 4.1 binary and loaded: " + d);
}

// Arrays of more than 2^32 bytes, which no 32-bit size can describe. What is saved is not copied: large writes from the
// arrays of the specification are recorded as references into them, and loading reads those.
class Spool : public std::streambuf
{
public:
    std::vector<std::pair<const char*, const char*>> owned; // the arrays
    size_t size() const
    {
        size_t n = 0;
        for (auto& p : m_parts) n += p.second;
        return n;
    }
    void rewind() { m_at = 0, setg(nullptr, nullptr, nullptr); }

protected:
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if (n <= 0) return 0;
        bool in = false;
        if (n > 1 << 20)
            for (auto& o : owned) in |= p >= o.first && p + n <= o.second;
        if (in) {
            m_parts.emplace_back(p, static_cast<size_t>(n));
        } else {
            m_copies.emplace_back(p, static_cast<size_t>(n));
            m_parts.emplace_back(m_copies.back().data(), static_cast<size_t>(n));
        }
        return n;
    }
    int overflow(int ch) override
    {
        if (ch == EOF) return 0;
        char c = static_cast<char>(ch);
        xsputn(&c, 1);
        return ch;
    }
    int_type underflow() override
    {
        if (m_at >= m_parts.size()) return traits_type::eof();
        char* p = const_cast<char*>(m_parts[m_at].first);
        setg(p, p, p + m_parts[m_at].second);
        m_at++;
        return traits_type::to_int_type(*p);
    }

private:
    std::list<std::string> m_copies;
    std::vector<std::pair<const char*, size_t>> m_parts;
    size_t m_at = 0;
};

static size_t available_bytes()
{
    std::ifstream f("/proc/meminfo");
    std::string k;
    size_t v = 0;
    while (f >> k >> v) {
        if (k == "MemAvailable:") return v << 10;
        f.ignore(1000, '\n');
    }
    return SIZE_MAX;
}

template <typename T>
static void fill(std::vector<T>& v, size_t n)
{
    v.resize(n);
    uint64_t x = 0x9e3779b97f4a7c15ull;
    for (size_t i = 0; i < n; i++, x = x * 6364136223846793005ull + 1442695040888963407ull) v[i] = static_cast<T>(x >> 33);
}

static void huge(Src&, Ctx& c, int shape)
{
    const size_t over = (size_t(1) << 32) + 4096;
    if (available_bytes() < 4 * over) {
        c.label("left out for lack of memory");
        return;
    }
    static const char* kShapes[] = {"coordinates of a node block", "an element block", "the values of a data entry", "the physical groups of an entity", "the control points of a curve"};
    MshSpec a;
    set_format(a, kFormats[0]);
    Spool io;
    auto own = [&](const char* p, size_t n) { io.owned.emplace_back(p, p + n); };
    // Where the array is, before and after.
    std::function<std::pair<char*, size_t>(MshSpec&)> where;
    auto range = [](auto& v) { return std::make_pair(reinterpret_cast<char*>(v.data()), v.size() * sizeof(v[0])); };
    switch (shape) {
    case 0: {
        a.nodes.num_entity_blocks = 1;
        a.nodes.entity_blocks.resize(1);
        auto& b = a.nodes.entity_blocks[0];
        b.entity_dim = 3;
        b.entity_tag = 7;
        b.parametric = 1;
        b.num_nodes_in_block = a.nodes.num_nodes = over / 48 + 1;
        b.tags.resize(b.num_nodes_in_block);
        for (size_t i = 0; i < b.tags.size(); i++) b.tags[i] = i + 1;
        a.nodes.min_node_tag = 1;
        a.nodes.max_node_tag = b.num_nodes_in_block;
        fill(b.data, 6 * b.num_nodes_in_block);
        own(range(b.tags).first, range(b.tags).second);
        where = [=](MshSpec& m) { return range(m.nodes.entity_blocks.at(0).data); };
        break;
    }
    case 1: {
        a.elements.num_entity_blocks = 1;
        a.elements.entity_blocks.resize(1);
        auto& b = a.elements.entity_blocks[0];
        b.entity_dim = 0;
        b.entity_tag = 7;
        b.element_type = 15;
        b.num_elements_in_block = a.elements.num_elements = over / 16 + 1;
        fill(b.data, 2 * b.num_elements_in_block);
        a.elements.min_element_tag = 0;
        a.elements.max_element_tag = SIZE_MAX;
        where = [=](MshSpec& m) { return range(m.elements.entity_blocks.at(0).data); };
        break;
    }
    case 2: {
        a.node_data.resize(1);
        auto& d = a.node_data[0];
        d.header.string_tags = {"huge"};
        d.header.int_tags = {0, static_cast<int>(over / 8 + 1), 1};
        d.entries.resize(1);
        d.entries[0].tag = 3;
        fill(d.entries[0].data, over / 8 + 1);
        where = [=](MshSpec& m) { return range(m.node_data.at(0).entries.at(0).data); };
        break;
    }
    case 3: {
        a.entities.points.resize(1);
        fill(a.entities.points[0].physical_group_tags, over / 4 + 1);
        where = [=](MshSpec& m) { return range(m.entities.points.at(0).physical_group_tags); };
        break;
    }
    default: {
        a.curves.resize(1);
        auto& k = a.curves[0];
        k.num_control_points = over / 24 + 1;
        k.num_knots = 5;
        fill(k.data, 3 * k.num_control_points + k.num_knots);
        where = [=](MshSpec& m) { return range(m.curves.at(0).data); };
    }
    }
    const auto big = where(a);
    own(big.first, big.second);
    c.nontrivial = true;
    describe(c, a, "4.1 binary, " + std::to_string(big.second) + " bytes in " + kShapes[shape]);
    c.text = c.sample;
    const std::string what = std::string("with ") + std::to_string(big.second) + " bytes in " + kShapes[shape];
    std::ostream out(&io);
    std::string msg;
    Exc e = attempt([&] { save_msh(out, a); }, &msg);
    require(e == Exc::none && out.good(), "saving " + what + " fails: " + msg);
    require(io.size() > big.second, "saving " + what + " writes only " + std::to_string(io.size()) + " bytes");
    MshSpec b;
    std::istream in(&io);
    e = attempt([&] { b = load_msh(in); }, &msg);
    require(e == Exc::none, "loading what was saved " + what + " throws: " + msg);
    const auto got = where(b);
    require(got.second == big.second, "saved and loaded " + what + ": " + std::to_string(got.second) + " bytes are left");
    require(memcmp(got.first, big.first, big.second) == 0, "saved and loaded " + what + ": other values");
    if (shape == 0) require(a.nodes.entity_blocks[0].tags == b.nodes.entity_blocks[0].tags, "saved and loaded " + what + ": other tags");
    // The rest.
    for (MshSpec* m : {&a, &b}) {
        for (auto& k : m->nodes.entity_blocks) std::vector<double>().swap(k.data), std::vector<size_t>().swap(k.tags);
        for (auto& k : m->elements.entity_blocks) std::vector<size_t>().swap(k.data);
        for (auto& k : m->node_data) std::vector<double>().swap(k.entries[0].data);
        for (auto& k : m->entities.points) std::vector<int>().swap(k.physical_group_tags);
        for (auto& k : m->curves) std::vector<double>().swap(k.data);
    }
    std::string d = eq::diff(a, b, kExt);
    require(d.empty(), "saved and loaded " + what + ": " + d);
}

int main(int argc, char** argv)
{
    std::vector<pbt::Check> checks = {{"roundtrip", roundtrip, 6000, 120000, "consistent specifications with any doubles; non-trivial: holds nodes, entities, groups or data", 20, 8},
        {"large", large, 150, 2000, "one large section of boundary size; all non-trivial", 20, 8}};
#ifndef VERIF_ASAN
    for (int shape = kExt ? 4 : 0; shape < (kExt ? 5 : 4); shape++) {
        pbt::Check k{"huge" + std::to_string(shape), [shape](Src& s, Ctx& c) { huge(s, c, shape); }, 1, 1, "one array of more than 2^32 bytes; non-trivial unless memory is short", 200, 1};
        k.fixed = true;
        checks.push_back(k);
    }
#endif
    return util::run(argc, argv, "C01", checks);
}
