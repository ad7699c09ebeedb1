// C27: the work of saving, loading and validating grows in proportion to the content. The library is compiled with a
// counter in every basic block; memory moved and allocated and characters read count as well, so the measure is exact
// and does not depend on the machine. Metamorphic relation: what does k times as much has k times as much to do, up to a
// constant and logarithmic factor.
#include "../known.h"
#include "../ref_writer.h"

#include <malloc.h>
#include <unordered_map>
using namespace util;

namespace {
bool counting = false;
uint64_t blocks = 0, moved = 0, allocated = 0, delivered = 0;
} // namespace

extern "C" {
__attribute__((used, visibility("default"))) void __sanitizer_cov_trace_pc()
{
    if (counting) blocks++;
}
// Interposed, so that moving the rest of a long array again and again is noticed.
__attribute__((used, visibility("default"))) void* memmove(void* d, const void* s, size_t n)
{
    if (counting) moved += n;
    void* r = d;
    if (reinterpret_cast<uintptr_t>(d) - reinterpret_cast<uintptr_t>(s) >= n) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        d = static_cast<char*>(d) + n - 1;
        s = static_cast<const char*>(s) + n - 1;
        __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory", "cc");
    }
    return r;
}
__attribute__((used, visibility("default"))) void* memcpy(void* d, const void* s, size_t n)
{
    if (counting) moved += n;
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
}

void* operator new(size_t n)
{
    if (counting) allocated += n;
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {

// Delivers 512 characters at a time and counts them.
class CountedIn : public std::streambuf
{
public:
    explicit CountedIn(const std::string& s)
        : m_s(s)
    {}

protected:
    int_type underflow() override
    {
        if (m_at >= m_s.size()) return traits_type::eof();
        const size_t n = std::min<size_t>(512, m_s.size() - m_at);
        char* p = const_cast<char*>(m_s.data()) + m_at;
        setg(p, p, p + n);
        m_at += n;
        if (counting) delivered += n;
        return traits_type::to_int_type(*p);
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        const size_t here = m_at - static_cast<size_t>(egptr() - gptr());
        long long to = off + (dir == std::ios_base::cur ? static_cast<long long>(here) : dir == std::ios_base::end ? static_cast<long long>(m_s.size()) : 0);
        if (to < 0 || to > static_cast<long long>(m_s.size())) return pos_type(off_type(-1));
        m_at = static_cast<size_t>(to);
        setg(nullptr, nullptr, nullptr);
        return pos_type(to);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode w) override { return seekoff(off_type(p), std::ios_base::beg, w); }

private:
    const std::string& m_s;
    size_t m_at = 0;
};

// Keeps what is written, in a buffer that doubles.
class CountedOut : public std::streambuf
{
public:
    std::string s;

protected:
    int_type overflow(int_type c) override
    {
        counted(1);
        s.push_back(traits_type::to_char_type(c));
        return c;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        counted(static_cast<size_t>(n));
        s.append(p, static_cast<size_t>(n));
        return n;
    }

private:
    void counted(size_t n)
    {
        const bool was = counting;
        if (was) delivered += n;
        counting = false;
        if (s.capacity() < s.size() + n) s.reserve(2 * (s.size() + n));
        counting = was;
    }
};

template <typename F>
double work(F&& f)
{
    blocks = moved = allocated = delivered = 0;
    counting = true;
    try {
        f();
    } catch (...) {
        counting = false;
        throw;
    }
    counting = false;
    return static_cast<double>(blocks) + static_cast<double>(moved) / 16 + static_cast<double>(allocated) / 64 + static_cast<double>(delivered) / 2;
}

// How the copies of the unit relate to each other.
struct Way
{
    size_t node_tags = 0, element_tags = 0; // ascending, descending, interleaved, sparse
    size_t stride = 997; // between sparse tags
    bool same_entities = false, longer_blocks = false, same_groups = false, longer_data = false, longer_names = false, first_nodes = false;
    std::string text() const
    {
        static const char* o[] = {"ascending", "descending", "interleaved", "sparse"};
        return std::string("node tags ") + o[node_tags] + ", element tags " + o[element_tags] + (node_tags == 3 || element_tags == 3 ? ", " + std::to_string(stride) + " apart" : "") + (same_entities ? ", same entities" : ", other entities") + (longer_blocks ? ", longer blocks" : ", more blocks") +
               (same_groups ? ", same groups" : ", other groups") + (longer_data ? ", longer sections" : ", more sections") + (longer_names ? ", longer names" : "") + (first_nodes ? ", all on the same nodes" : "");
    }
};

// k copies of u.
MshSpec copies(const MshSpec& u, size_t k, const Way& w)
{
    MshSpec r;
    r.mesh_format = u.mesh_format;
    r.nanospline_format = u.nanospline_format;
    auto number = [&](size_t mode, size_t rank, size_t m, size_t i) -> size_t {
        switch (mode) {
        case 0: return 1 + rank + i * m;
        case 1: return 1 + rank + (k - 1 - i) * m;
        case 2: return 1 + rank * k + i;
        default: return 1 + (rank + i * m) * w.stride;
        }
    };
    std::map<size_t, size_t> node_rank, element_rank;
    for (auto& b : u.nodes.entity_blocks)
        for (size_t t : b.tags) node_rank[t] = 0;
    for (auto& b : u.elements.entity_blocks)
        for (size_t j = 0, n = gen::kTable[b.element_type].nodes + 1; j < b.num_elements_in_block; j++) element_rank[b.data[j * n]] = 0;
    size_t q = 0;
    for (auto& x : node_rank) x.second = q++;
    q = 0;
    for (auto& x : element_rank) x.second = q++;
    std::map<int, int> entity_rank;
    for (auto& b : u.nodes.entity_blocks) entity_rank[b.entity_tag] = 0;
    for (auto& b : u.elements.entity_blocks) entity_rank[b.entity_tag] = 0;
    auto note = [&](auto& v) {
        for (auto& e : v) entity_rank[e.tag] = 0;
    };
    note(u.entities.points);
    note(u.entities.curves);
    note(u.entities.surfaces);
    note(u.entities.volumes);
    int z = 0;
    for (auto& x : entity_rank) x.second = z++;
    auto entity = [&](int tag, size_t i) { return 1 + entity_rank[tag] + (w.same_entities ? 0 : static_cast<int>(i * entity_rank.size())); };
    auto group = [&](int tag, size_t i) { return 1 + static_cast<int>(static_cast<unsigned>(tag) % 5) + (w.same_groups ? 0 : static_cast<int>(5 * i)); };
    for (size_t i = 0; i < k; i++) {
        for (size_t b = 0; b < u.nodes.entity_blocks.size(); b++) {
            NodeBlock x = u.nodes.entity_blocks[b];
            x.entity_tag = entity(x.entity_tag, i);
            for (size_t& t : x.tags) t = number(w.node_tags, node_rank[t], node_rank.size(), i);
            if (w.longer_blocks && i) {
                auto& y = r.nodes.entity_blocks[b];
                y.num_nodes_in_block += x.num_nodes_in_block;
                y.tags.insert(y.tags.end(), x.tags.begin(), x.tags.end());
                y.data.insert(y.data.end(), x.data.begin(), x.data.end());
            } else {
                r.nodes.entity_blocks.push_back(std::move(x));
            }
        }
        for (size_t b = 0; b < u.elements.entity_blocks.size(); b++) {
            ElementBlock x = u.elements.entity_blocks[b];
            const size_t n = gen::kTable[x.element_type].nodes + 1;
            x.entity_tag = entity(x.entity_tag, i);
            for (size_t j = 0; j < x.data.size(); j++)
                x.data[j] = j % n == 0 ? number(w.element_tags, element_rank[x.data[j]], element_rank.size(), i) : number(w.node_tags, node_rank[x.data[j]], node_rank.size(), w.first_nodes ? 0 : i);
            if (w.longer_blocks && i) {
                auto& y = r.elements.entity_blocks[b];
                y.num_elements_in_block += x.num_elements_in_block;
                y.data.insert(y.data.end(), x.data.begin(), x.data.end());
            } else {
                r.elements.entity_blocks.push_back(std::move(x));
            }
        }
        if (!w.same_entities || i == 0) {
            auto add = [&](auto& to, const auto& from) {
                for (auto x : from) {
                    x.tag = entity(x.tag, i);
                    for (int& g : x.physical_group_tags) g = group(g, i);
                    to.push_back(x);
                }
            };
            add(r.entities.points, u.entities.points);
            add(r.entities.curves, u.entities.curves);
            add(r.entities.surfaces, u.entities.surfaces);
            add(r.entities.volumes, u.entities.volumes);
        }
        for (size_t b = 0; b < u.physical_groups.size(); b++) {
            PhysicalGroup x = u.physical_groups[b];
            x.tag = group(x.tag, i);
            if (w.longer_names && i)
                r.physical_groups[b].name += x.name;
            else
                r.physical_groups.push_back(x);
        }
        auto data = [&](std::vector<Data>& to, const std::vector<Data>& from) {
            for (size_t b = 0; b < from.size(); b++) {
                if (w.longer_data && i) {
                    auto& y = to[b];
                    for (auto e : from[b].entries) {
                        e.tag = 1 + (e.tag + i) % 2000000000;
                        y.entries.push_back(std::move(e));
                    }
                    y.header.int_tags[2] = static_cast<int>(y.entries.size());
                    for (auto& t : from[b].header.string_tags) y.header.string_tags.push_back(t);
                    for (double t : from[b].header.real_tags) y.header.real_tags.push_back(t);
                    y.header.int_tags.push_back(static_cast<int>(i));
                } else {
                    to.push_back(from[b]);
                }
            }
        };
        data(r.node_data, u.node_data);
        data(r.element_data, u.element_data);
        data(r.element_node_data, u.element_node_data);
        r.curves.insert(r.curves.end(), u.curves.begin(), u.curves.end());
        r.patches.insert(r.patches.end(), u.patches.begin(), u.patches.end());
    }
    auto range = [](size_t& lo, size_t& hi, size_t t) {
        lo = std::min(lo, t);
        hi = std::max(hi, t);
    };
    auto& N = r.nodes;
    N.num_entity_blocks = N.entity_blocks.size();
    N.min_node_tag = SIZE_MAX;
    for (auto& b : N.entity_blocks) {
        N.num_nodes += b.num_nodes_in_block;
        for (size_t t : b.tags) range(N.min_node_tag, N.max_node_tag, t);
    }
    if (N.num_nodes == 0) N.min_node_tag = 0;
    auto& E = r.elements;
    E.num_entity_blocks = E.entity_blocks.size();
    E.min_element_tag = SIZE_MAX;
    for (auto& b : E.entity_blocks) {
        E.num_elements += b.num_elements_in_block;
        for (size_t j = 0, n = gen::kTable[b.element_type].nodes + 1; j < b.num_elements_in_block; j++) range(E.min_element_tag, E.max_element_tag, b.data[j * n]);
    }
    if (E.num_elements == 0) E.min_element_tag = 0;
    return r;
}

struct Cost
{
    double save = 0, load = 0, validate = 0;
    size_t bytes = 0, items = 0;
};

// What follows the mesh in the file: k times `each`, with something before and after.
struct Junk
{
    const char *first, *each, *last;
};

Cost measure(const MshSpec& m, size_t k, const Junk& junk)
{
    Cost c;
    CountedOut out;
    std::ostream o(&out);
    c.save = work([&] { save_msh(o, m); });
    require(bool(o), "saving failed");
    std::string b = std::move(out.s);
    if (*junk.each) {
        b += junk.first;
        for (size_t i = 0; i < k; i++) b += junk.each;
        b += junk.last;
    }
    c.bytes = b.size();
    c.items = m.nodes.num_nodes + m.elements.num_elements;
    CountedIn ib(b);
    std::istream in(&ib);
    MshSpec l;
    c.load = work([&] { l = load_msh(in); });
    c.validate = work([&] { validate_spec(l); });
    return c;
}

void growth(Src& s, Ctx& c, bool tiny)
{
    const Format& f = kFormats[s.draw(3)];
    gen::Opts o;
    o.ext = kExt && s.flip();
    o.finite = true;
    o.tags32 = true;
    o.allow_big = false;
    o.max_items = tiny ? 2 : 10;
    o.linked_entities = s.flip();
    o.empty_blocks = false;
    // Little content in many copies lets the parts that grow out of proportion stand out.
    const size_t k1 = tiny ? 16 : 8, factor = tiny ? 512 : 96;
    MshSpec u = gen::spec(s, o);
    if (tiny) {
        if (u.nodes.entity_blocks.size() > 2 || u.elements.entity_blocks.size() > 2) c.label("several blocks");
        for (auto* v : {&u.node_data, &u.element_data, &u.element_node_data})
            if (v->size() > 1 || s.flip()) v->clear();
    }
    if (u.physical_groups.size() > 12) u.physical_groups.resize(12);
    for (auto* v : {&u.node_data, &u.element_data, &u.element_node_data})
        if (v->size() > 4) v->resize(4);
    for (auto& g : u.physical_groups)
        if (g.name.size() > 30) g.name.resize(30);
    set_format(u, f);
    Way w;
    w.node_tags = s.draw(3);
    w.element_tags = s.draw(3);
    if (w.node_tags == 3 || w.element_tags == 3) {
        // Distances at which hash tables of various sizes would put everything in one place.
        std::unordered_map<size_t, char> table;
        const size_t n = k1 * factor * (1 + std::max(u.nodes.num_nodes, u.elements.num_elements));
        static const std::vector<size_t> strides = {997, 1, 1024, 65536};
        if (s.chance(4, 5)) {
            std::set<size_t> used; // the nodes that elements refer to, or all of them
            for (auto& b : u.elements.entity_blocks)
                for (size_t j = 0; j < b.data.size(); j++)
                    if (j % (gen::kTable[b.element_type].nodes + 1)) used.insert(b.data[j]);
            const size_t one = k1 * factor * std::max<size_t>(1, w.node_tags == 3 && s.chance(2, 3) ? used.size() : w.node_tags == 3 ? u.nodes.num_nodes : u.elements.num_elements);
            if (s.chance(1, 4)) table.reserve(one);
            for (size_t i = 0; i < one; i++) table[i] = 0;
            w.stride = table.bucket_count();
        } else {
            w.stride = s.pick(strides);
        }
        if (w.stride > 2000000000 / n) w.stride = 2000000000 / n;
    }
    w.same_entities = s.flip();
    w.longer_blocks = s.flip();
    w.same_groups = s.flip();
    w.longer_data = s.flip();
    w.longer_names = s.chance(1, 3);
    w.first_nodes = s.chance(1, 4);
    static const std::vector<Junk> junks = {{"", "$Comments\nsome text, a number 12 and $Nodes\n$EndComments\n", ""}, {"", "\n \n", ""}, {"", "# text between sections\n", ""},
        {"$Notes\n", "one two 3\n4.5 $six \"seven\"\n", "$EndNotes\n"}, {"$Notes\n", "allinoneword,", "\n$EndNotes\n"}, {"$Notes\n", "all in one line, ", "\n$EndNotes\n"}, {"$Notes\n", " \t\r\n\n     ", "$EndNotes\n"},
        {"$Notes\n", "$EndNote $EndNotess $End $Notes\n", "$EndNotes\n"}};
    const Junk junk = s.chance(1, 2) ? Junk{"", "", ""} : s.pick(junks);
    const MshSpec small = copies(u, k1, w), large = copies(u, k1 * factor, w);
    Cost a = measure(small, k1, junk), b = measure(large, k1 * factor, junk);
    c.nontrivial = b.items > 500;
    c.label(f.name());
    c.label_if(!w.same_entities && !small.entities.empty(), "many entities");
    c.label_if(w.longer_blocks && c.nontrivial, "long blocks");
    c.label_if(!w.longer_blocks && c.nontrivial, "many blocks");
    c.label_if(!small.physical_groups.empty(), "physical groups");
    c.label_if(!small.node_data.empty() || !small.element_data.empty() || !small.element_node_data.empty(), "data");
    auto ratio = [](double x, double y) { return std::to_string(static_cast<long>(y / std::max(1.0, x))); };
    c.sample = f.name() + ", " + std::to_string(a.bytes) + " and " + std::to_string(b.bytes) + " bytes, " + w.text() + (*junk.each ? std::string(", followed by ") + junk.first + junk.each + "..." : "") + ": work grows by factors " + ratio(a.save, b.save) + " (save), " + ratio(a.load, b.load) + " (load), " +
               ratio(a.validate, b.validate) + " (validate)";
    if (c.want_text) c.text = eq::summary(u) + "\n" + c.sample;
    // Content that grows by less than the factor (shared entities, say) is covered by the same bound.
    const double bound = 8.0 * static_cast<double>(factor);
    auto check = [&](const char* what, double x, double y) {
        require(y <= bound * std::max(x, 1000.0), std::string(what) + ": " + std::to_string(factor) + " times the content takes " + ratio(x, y) + " times the work (" + std::to_string(static_cast<long long>(x)) + " and " +
                                                        std::to_string(static_cast<long long>(y)) + "), " + f.name() + ", " + w.text() + "\n" + eq::summary(u));
    };
    check("saving", a.save, b.save);
    check("loading", a.load, b.load);
    check("validating", a.validate, b.validate);
}

} // namespace

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C27",
        {{"growth", [](Src& s, Ctx& c) { growth(s, c, false); }, 1200, 30000, "8 and 768 copies of a generated unit of content, put together in one of many ways; non-trivial: over 500 nodes and elements in the larger one", 90, 8},
            {"tiny", [](Src& s, Ctx& c) { growth(s, c, true); }, 400, 8000, "16 and 8192 copies of a unit of about one element; non-trivial: over 500 nodes and elements in the larger one", 60, 8}});
}
