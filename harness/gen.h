// Generators of consistent mesh specifications. Everything here is built from the documentation of the data structure
// (README.md, MshSpec.h), not from the library's code.
#pragma once
#include <mshio/exception.h>
#include <mshio/mshio.h>

#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>

#include "pbt.h"

namespace gen {

using mshio::MshSpec;
using pbt::Src;

// The documented element table (README.md, "Supported element types"): dimension and number of nodes.
struct ElType { int dim; unsigned nodes; };
static const ElType kTable[32] = {{-1, 0}, {1, 2}, {2, 3}, {2, 4}, {3, 4}, {3, 8}, {3, 6}, {3, 5}, {1, 3}, {2, 6}, {2, 9}, {3, 10},
    {3, 27}, {3, 18}, {3, 14}, {0, 1}, {2, 8}, {3, 20}, {3, 15}, {3, 13}, {2, 9}, {2, 10}, {2, 12}, {2, 15}, {2, 15}, {2, 21},
    {1, 4}, {1, 5}, {1, 6}, {3, 20}, {3, 35}, {3, 56}};

struct Opts
{
    bool tags32 = false; // node/element tags fit a signed 32-bit integer (format 2.2)
    bool data_tags32 = true; // entry tags fit 32 bits (binary post-processing sections)
    bool finite = false; // no NaN/Inf
    bool linked_entities = false; // entities refer to the element blocks, tags unique per dimension, at most one group
    bool multi_group = false; // with linked_entities: entities may have several groups
    bool tight_ranges = false; // declared tag ranges are exact
    bool allow_big = true;
    bool ext = false; // fill curves/patches
    bool plain_strings = false; // no quotes/backslashes/control characters
    bool empty_blocks = true;
    bool need_nodes = false; // at least one node
    unsigned max_items = 0; // 0: default
};

inline size_t boundary_size(Src& s, size_t max)
{
    static const std::vector<size_t> b = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 99, 100, 101,
        127, 128, 129, 199, 200, 255, 256, 257, 266, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
        5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
    size_t k = 0;
    while (k < b.size() && b[k] <= max) k++;
    if (k == 0) return 0;
    return b[s.draw(k - 1)];
}

// A size: mostly tiny, sometimes one of the boundary values, rarely large.
inline size_t size(Src& s, bool allow_big = true, size_t cap = SIZE_MAX)
{
    size_t r;
    switch (s.weighted({60, 25, 12, 3, 1})) {
    case 0: r = s.draw(4); break;
    case 1: r = s.draw(14); break;
    case 2: r = boundary_size(s, 130); break;
    case 3: r = allow_big ? boundary_size(s, 1025) : s.draw(20); break;
    default: r = allow_big ? (s.draw(19) == 19 ? boundary_size(s, 70000) : boundary_size(s, 4200)) : s.draw(40); break;
    }
    return std::min(r, cap);
}

// Number of things each of which is itself large-ish (blocks, sections).
inline size_t count(Src& s, bool allow_big = true)
{
    switch (s.weighted({70, 20, 9, 1})) {
    case 0: return s.draw(3);
    case 1: return s.draw(7);
    case 2: { static const std::vector<size_t> v = {8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 34, 40}; return s.pick(v); }
    default: { static const std::vector<size_t> v = {64, 65, 100, 128, 255, 256, 257, 266, 269, 288, 300, 513, 1025}; return allow_big ? s.pick(v) : 9; }
    }
}

inline int32_t i32(Src& s)
{
    static const std::vector<int32_t> b = {0, 1, 2, 3, 9, 10, 13, 32, 255, 256, 257, 266, 999, 1000, 2570, 2592, 3338, 8224, 32767, 32768, 65535, 65536, 168430090,
        218959117, 538976288, 0x646E4524 /* "$End" */, INT32_MAX, INT32_MAX - 1, -1, -2, -9, -10, -32768, -32769, INT32_MIN, INT32_MIN + 1, 1000000, -1000000, 1 << 24, (1 << 24) + 1};
    switch (s.weighted({50, 30, 10, 10})) {
    case 0: return static_cast<int32_t>(s.draw(12));
    case 1: return s.pick(b);
    case 2: return -static_cast<int32_t>(s.draw(1000));
    default: return static_cast<int32_t>(s.u32());
    }
}

inline uint64_t pos_tag(Src& s, uint64_t max)
{
    static const std::vector<uint64_t> b = {1, 2, 3, 9, 10, 11, 13, 32, 33, 36, 255, 256, 257, 266, 999, 1000, 2570, 3338, 8224, 32767, 32768, 65535, 65536, 65537,
        168430090, 218959117, 538976288, 0x646E4524, 1ull << 24, (1ull << 24) + 1, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1,
        (1ull << 33) + 10, 1ull << 40, (1ull << 52) + 1, 1ull << 53, (1ull << 53) + 1, (1ull << 63) - 1, 1ull << 63, UINT64_MAX - 1, UINT64_MAX, 0x0A0A0A0A0A0A0A0Aull,
        0x2020202020202020ull, 0x65646F4E646E4524ull /* "$EndNode" */};
    for (int k = 0; k < 3; k++) {
        uint64_t v;
        switch (s.weighted({50, 30, 20})) {
        case 0: v = 1 + s.draw(50); break;
        case 1: v = s.pick(b); break;
        default: v = 1 + s.draw(max - 1); break;
        }
        if (v >= 1 && v <= max) return v;
    }
    return 1;
}

inline double from_bits(uint64_t u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}
inline uint64_t to_bits(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}

inline double dbl(Src& s, bool finite)
{
    static const std::vector<double> b = {0.0, 1.0, -1.0, 0.5, 2.0, 0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, 1e-3, 1e-5, 1e-6, 1e-7, 1.5e-9, 1e10, 1e15, 1e16, 1e17, 123456, 1234567, 0.1234567, 12345.678, 3.14159265358979,
        -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 4.9406564584124654e-324, -4.9406564584124654e-324, 2.2250738585072009e-308, 1.0000000000000002, 0.99999999999999989, DBL_EPSILON,
        9007199254740992.0, 9007199254740993.0, 9007199254740991.0, 1e22, 1e23, 8.41e21, 1e100, 1e-100, 1e300, 1e-300, 1e308, 5e-324, 2147483648.0, 4294967296.0, 1.7976931348623155e308,
        100000, 999999, 999999.5, 1000000, 0.0001, 0.00001234};
    static const std::vector<uint64_t> bits = {0x0A0A0A0A0A0A0A0Aull, 0x2020202020202020ull, 0x0D0D0D0D0D0D0D0Dull, 0x0909090909090909ull, 0x65646F4E646E4524ull, 0x3FF000000000000Aull,
        0x3FF0000000000020ull, 0x3FF000000000000Dull, 0x400000000000001Aull, 0x24646E4524646E45ull, 0x6C45646E45240A0Aull, 0x0D0A0D0A0D0A0D0Aull, 0x00000000000000FFull, 0xBFF00000000000FFull};
    double v;
    switch (s.weighted({30, 20, 20, 12, 12, 6})) {
    case 0: v = static_cast<double>(s.draw(20)) * 0.5; break;
    case 1: v = b[s.draw(b.size() - 1)]; break;
    case 2: { // decimal with many digits
        v = (static_cast<double>(s.draw(2000000000)) - 1e9) / 1e6;
        break;
    }
    case 3: { // random mantissa, moderate exponent
        uint64_t m = s.u64();
        uint64_t e = 1023 - 40 + (m >> 58) + s.draw(20);
        v = from_bits((m & 0x800FFFFFFFFFFFFFull) | (e << 52));
        break;
    }
    case 4: v = from_bits(s.u64()); break;
    default: v = from_bits(s.pick(bits)); break;
    }
    if (!finite && s.chance(1, 30)) {
        static const std::vector<uint64_t> nf = {0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull, 0xFFF8000000000000ull, 0x7FF8000000000001ull, 0x7FFFFFFFFFFFFFFFull};
        v = from_bits(s.pick(nf));
    }
    if (finite && !std::isfinite(v)) v = 1.25;
    if (std::isnan(v) && (to_bits(v) & 0x0008000000000000ull) == 0) v = from_bits(to_bits(v) | 0x0008000000000000ull); // quiet
    return v;
}

inline std::string str(Src& s, bool plain)
{
    static const std::vector<std::string> b = {"", "a", "boundary", "my group", "A scalar view", "steel 42", " leading", "trailing ", "two  spaces", "comma,semi;colon", "$NotASection", "x$EndNodes",
        "with.dots-and_underscores", "\xc3\xa9\xe2\x82\xac utf8", "0", "123", "1 2 3", "#hash", "'single'", "nan"};
    static const std::vector<std::string> nasty = {"\"", "\\", "\\\"", "say \"hi\"", "C:\\path\\n", "line1\nline2", "$EndPhysicalNames", "\n$EndPhysicalNames\n", "\n$EndNodeData\n", "tab\there", "\r\n", "\"quoted\"",
        "ends with backslash\\", "$Nodes\n1\n$EndNodes", std::string("nul\0byte", 8), "\x01\x02\x7f", "\xff\xfe", "a\\", "\"\"", "\\\\"};
    switch (s.weighted({50, 25, 15, 10})) {
    case 0: return b[s.draw(b.size() - 1)];
    case 1: {
        if (plain) return b[s.draw(b.size() - 1)];
        return nasty[s.draw(nasty.size() - 1)];
    }
    case 2: {
        std::string r;
        size_t n = s.draw(20);
        for (size_t i = 0; i < n; i++) {
            if (plain) {
                static const std::string alpha = "abcXYZ019 _-.:/+()[]{}<>=%&*,;!?@^~|'";
                r += alpha[s.draw(alpha.size() - 1)];
            } else {
                r += static_cast<char>(s.draw(255));
            }
        }
        return r;
    }
    default: {
        size_t n = boundary_size(s, 1025);
        if (s.chance(1, 20)) n = boundary_size(s, 10000);
        Src k = s.bulk();
        std::string r;
        for (size_t i = 0; i < n; i++) r += static_cast<char>(plain ? 'a' + k.draw(25) : 1 + k.draw(254));
        return r;
    }
    }
}

// n values of f, drawn one by one when few and from a bulk source when many.
template <typename T, typename F>
void fill(Src& s, std::vector<T>& v, size_t n, F f)
{
    v.clear();
    v.reserve(n);
    if (n <= 24) {
        for (size_t i = 0; i < n; i++) v.push_back(f(s));
    } else {
        Src b = s.bulk();
        for (size_t i = 0; i < n; i++) v.push_back(f(b));
    }
}

// Positive tags by one of several numbering habits, distinct but for a few lists in which some occur repeatedly in a
// row (nodes on a seam, elements listed once per physical group): nothing in the library or its validator demands that
// tags are distinct.
class Tags
{
public:
    Tags(Src& s, uint64_t max, size_t total)
        : m_max(max)
    {
        m_mode = s.weighted({45, 15, 15, 15, 10});
        switch (m_mode) {
        case 0: m_base = 1; m_stride = 1; break; // 1..N
        case 1: m_base = pos_tag(s, max); m_stride = 1; break;
        case 2: m_base = pos_tag(s, max); m_stride = 1 + s.draw(100000); break;
        case 3: m_base = s.u64(); break; // scattered over the whole range
        default: m_base = 1; m_stride = 1; m_desc = true; break; // descending
        }
        if (m_mode != 3 && (total == 0 ? 0 : total - 1) > (max - m_base) / m_stride) {
            if (max - total > 0 && total < max) {
                m_stride = 1;
                m_base = max - total; // ends near the maximum
                if (m_base == 0) m_base = 1;
            }
        }
        m_total = total;
        m_repeat = s.chance(1, 12);
    }
    uint64_t next()
    {
        if (m_repeat && m_i > 0 && pbt::mix(m_base + ++m_calls) % 3 == 0) return m_last;
        return m_last = fresh();
    }

private:
    uint64_t fresh()
    {
        uint64_t i = m_i++;
        if (m_mode == 3) {
            for (;;) {
                uint64_t v = pbt::mix(m_base ^ (i * 0x9e3779b97f4a7c15ull) ^ (m_salt << 32));
                if (m_max != UINT64_MAX) v %= m_max;
                if (m_max != UINT64_MAX) v += 1;
                if (v != 0 && m_seen.insert(v).second) return v;
                m_salt++;
            }
        }
        uint64_t k = m_desc ? (m_total - 1 - i) : i;
        return m_base + k * m_stride;
    }

    uint64_t m_max, m_base = 1, m_stride = 1, m_i = 0, m_total = 0, m_salt = 0;
    size_t m_mode;
    bool m_desc = false, m_repeat = false;
    uint64_t m_calls = 0, m_last = 0;
    std::unordered_set<uint64_t> m_seen;
};

inline std::vector<size_t> block_sizes(Src& s, const Opts& o)
{
    std::vector<size_t> r;
    size_t nb = count(s, o.allow_big);
    size_t budget = o.max_items ? o.max_items : 70000;
    for (size_t i = 0; i < nb; i++) {
        size_t n = nb > 40 ? s.draw(2) : size(s, o.allow_big && nb < 6, budget);
        if (!o.empty_blocks && n == 0) n = 1;
        budget -= std::min(budget, n);
        r.push_back(n);
    }
    if (nb > 3 && s.flip()) { // vary the order of sizes without spending choices
        Src b = s.bulk();
        for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[b.draw(i - 1)]);
    }
    return r;
}

inline void nodes(Src& s, const Opts& o, MshSpec& spec)
{
    auto sizes = block_sizes(s, o);
    if (sizes.empty() && (o.need_nodes || s.chance(3, 4))) sizes.push_back(1 + s.draw(3));
    auto& N = spec.nodes;
    size_t total = 0;
    for (size_t n : sizes) total += n;
    Tags tags(s, o.tags32 ? INT32_MAX : UINT64_MAX, total);
    uint64_t lo = UINT64_MAX, hi = 0;
    for (size_t n : sizes) {
        N.entity_blocks.emplace_back();
        auto& b = N.entity_blocks.back();
        b.entity_dim = static_cast<int>(s.draw(3));
        b.entity_tag = i32(s);
        b.parametric = s.chance(1, 4) ? 1 : 0;
        b.num_nodes_in_block = n;
        for (size_t i = 0; i < n; i++) {
            b.tags.push_back(tags.next());
            lo = std::min<uint64_t>(lo, b.tags.back());
            hi = std::max<uint64_t>(hi, b.tags.back());
        }
        size_t per = 3 + (b.parametric ? static_cast<size_t>(b.entity_dim) : 0);
        fill(s, b.data, n * per, [&](Src& t) { return dbl(t, o.finite); });
    }
    N.num_entity_blocks = sizes.size();
    N.num_nodes = total;
    if (total == 0) return;
    N.min_node_tag = lo;
    N.max_node_tag = hi;
    if (!o.tight_ranges && s.chance(1, 6)) {
        N.min_node_tag = s.draw(lo);
        if (hi < UINT64_MAX) N.max_node_tag = hi + s.draw(std::min<uint64_t>(UINT64_MAX - hi, 1000000));
    }
}

inline void elements(Src& s, const Opts& o, MshSpec& spec)
{
    std::vector<size_t> node_tags;
    for (auto& b : spec.nodes.entity_blocks) node_tags.insert(node_tags.end(), b.tags.begin(), b.tags.end());
    if (node_tags.empty()) return;
    Opts oo = o;
    oo.max_items = o.max_items ? o.max_items : 20000;
    auto sizes = block_sizes(s, oo);
    if (sizes.empty() && s.chance(3, 4)) sizes.push_back(1 + s.draw(3));
    auto& E = spec.elements;
    size_t total = 0;
    for (size_t n : sizes) total += n;
    Tags tags(s, o.tags32 ? INT32_MAX : UINT64_MAX, total);
    const bool repeats = s.chance(1, 20);
    uint64_t lo = UINT64_MAX, hi = 0;
    int last_type = 0, last_tag = 0;
    for (size_t n : sizes) {
        E.entity_blocks.emplace_back();
        auto& b = E.entity_blocks.back();
        // Neighbouring blocks often share type or entity, which matters where blocks are regrouped.
        if (last_type && s.chance(1, 4))
            b.element_type = last_type;
        else
            b.element_type = s.flip() ? static_cast<int>(1 + s.draw(30)) : s.pick(std::vector<int>{1, 2, 3, 4, 5, 15});
        if (last_type && s.chance(1, 3))
            b.entity_tag = last_tag;
        else
            b.entity_tag = i32(s);
        last_type = b.element_type;
        last_tag = b.entity_tag;
        b.entity_dim = kTable[b.element_type].dim;
        b.num_elements_in_block = n;
        size_t k = kTable[b.element_type].nodes;
        if (n > 2000) n = b.num_elements_in_block = std::min<size_t>(n, 60000 / (k + 1));
        bool use_bulk = n * k > 24;
        Src bk = use_bulk ? s.bulk() : Src::random(0, false);
        Src& t = use_bulk ? bk : s;
        for (size_t i = 0; i < n; i++) {
            if (repeats && i > 0 && t.chance(1, 3)) { // the same record again
                for (size_t j = 0; j <= k; j++) b.data.push_back(b.data[b.data.size() - k - 1]);
                continue;
            }
            uint64_t tg = tags.next();
            lo = std::min(lo, tg);
            hi = std::max(hi, tg);
            b.data.push_back(tg);
            for (size_t j = 0; j < k; j++) b.data.push_back(node_tags[t.draw(node_tags.size() - 1)]);
        }
    }
    total = 0;
    for (auto& b : E.entity_blocks) total += b.num_elements_in_block;
    E.num_entity_blocks = E.entity_blocks.size();
    E.num_elements = total;
    if (total == 0) return;
    E.min_element_tag = lo;
    E.max_element_tag = hi;
    if (!o.tight_ranges && s.chance(1, 6)) {
        E.min_element_tag = s.draw(lo);
        if (hi < UINT64_MAX) E.max_element_tag = hi + s.draw(std::min<uint64_t>(UINT64_MAX - hi, 1000000));
    }
}

inline void tag_list(Src& s, std::vector<int>& v, bool nonzero)
{
    fill(s, v, s.chance(1, 40) ? size(s) : s.draw(4), [&](Src& t) {
        int x = i32(t);
        if (nonzero && x == 0) x = 1;
        return x;
    });
}

template <typename E>
void bbox(Src& s, const Opts& o, E& e)
{
    double* p[6] = {&e.min_x, &e.min_y, &e.min_z, &e.max_x, &e.max_y, &e.max_z};
    for (double* q : p) *q = dbl(s, o.finite);
}

inline void entities(Src& s, const Opts& o, MshSpec& spec)
{
    auto& E = spec.entities;
    auto n = [&]() { return s.chance(1, 60) ? std::min<size_t>(size(s), 1100) : (s.chance(1, 10) ? count(s, false) : s.draw(3)); };
    auto groups = [&](std::vector<int>& v) {
        if (o.linked_entities && !o.multi_group) {
            if (s.flip()) {
                int x = i32(s);
                v.push_back(x == 0 ? 1 : x); // 2.2 writes 0 for "no group"
            }
        } else {
            tag_list(s, v, o.linked_entities);
        }
    };
    std::set<int> tags[4];
    if (o.linked_entities) {
        for (auto& b : spec.elements.entity_blocks)
            if (s.chance(3, 4)) tags[b.entity_dim].insert(b.entity_tag);
        for (int d = 0; d < 4; d++)
            for (size_t i = 0, m = s.draw(2); i < m; i++) tags[d].insert(i32(s));
    }
    std::vector<int> lst[4];
    for (int d = 0; d < 4; d++) {
        if (o.linked_entities) {
            lst[d].assign(tags[d].begin(), tags[d].end());
            if (s.flip()) std::reverse(lst[d].begin(), lst[d].end());
        } else {
            fill(s, lst[d], n(), [](Src& t) { return i32(t); });
        }
    }
    for (int t : lst[0]) {
        E.points.emplace_back();
        auto& e = E.points.back();
        e.tag = t;
        e.x = dbl(s, o.finite);
        e.y = dbl(s, o.finite);
        e.z = dbl(s, o.finite);
        groups(e.physical_group_tags);
    }
    for (int t : lst[1]) {
        E.curves.emplace_back();
        auto& e = E.curves.back();
        e.tag = t;
        bbox(s, o, e);
        groups(e.physical_group_tags);
        tag_list(s, e.boundary_point_tags, false);
    }
    for (int t : lst[2]) {
        E.surfaces.emplace_back();
        auto& e = E.surfaces.back();
        e.tag = t;
        bbox(s, o, e);
        groups(e.physical_group_tags);
        tag_list(s, e.boundary_curve_tags, false);
    }
    for (int t : lst[3]) {
        E.volumes.emplace_back();
        auto& e = E.volumes.back();
        e.tag = t;
        bbox(s, o, e);
        groups(e.physical_group_tags);
        tag_list(s, e.boundary_surface_tags, false);
    }
}

inline void physical_groups(Src& s, const Opts& o, MshSpec& spec)
{
    size_t n = s.chance(1, 10) ? std::min<size_t>(size(s), 1100) : s.draw(3);
    for (size_t i = 0; i < n; i++) {
        spec.physical_groups.emplace_back();
        auto& g = spec.physical_groups.back();
        g.dim = static_cast<int>(s.draw(3));
        g.tag = i32(s);
        g.name = str(s, o.plain_strings);
    }
}

inline void data_section(Src& s, const Opts& o, mshio::Data& d, bool element_node)
{
    size_t ns = s.chance(1, 10) ? s.draw(12) : 1 + s.draw(1);
    for (size_t i = 0; i < ns; i++) d.header.string_tags.push_back(str(s, o.plain_strings));
    fill(s, d.header.real_tags, s.chance(1, 10) ? s.draw(30) : s.draw(2), [&](Src& t) { return dbl(t, true); }); // text in every encoding
    static const std::vector<int> nf = {1, 3, 9, 0, 2, 4, 6, 8, 10, 13, 32, 100};
    int fields = nf[s.weighted({40, 15, 15, 5, 5, 4, 4, 3, 3, 2, 2, 2})];
    size_t n = s.chance(1, 12) ? size(s, o.allow_big, 9000) : s.draw(6);
    if (n > 1000 && fields > 9) fields = 9;
    d.header.int_tags = {i32(s), fields, static_cast<int>(n)};
    size_t extra = s.chance(1, 20) ? s.draw(40) : s.draw(2);
    for (size_t i = 0; i < extra; i++) d.header.int_tags.push_back(i32(s));
    bool use_bulk = n * static_cast<size_t>(fields) > 40;
    Src bk = use_bulk ? s.bulk() : Src::random(0, false);
    Src& t = use_bulk ? bk : s;
    size_t mode = s.draw(2);
    for (size_t i = 0; i < n; i++) {
        d.entries.emplace_back();
        auto& e = d.entries.back();
        if (mode == 0)
            e.tag = i + 1;
        else
            e.tag = pos_tag(t, o.data_tags32 || o.tags32 ? INT32_MAX : UINT64_MAX);
        size_t k = static_cast<size_t>(fields);
        if (element_node) {
            static const std::vector<int> nn = {3, 1, 2, 4, 0, 5, 6, 8, 10, 20, 27, 56};
            e.num_nodes_per_element = nn[t.draw(n > 500 ? 3 : nn.size() - 1)];
            k *= static_cast<size_t>(e.num_nodes_per_element);
        }
        for (size_t j = 0; j < k; j++) e.data.push_back(dbl(t, o.finite));
    }
}

inline std::string word(Src& s)
{
    static const std::vector<std::string> b = {"1.0", "1.1", "2.0", "0", "v3", "1.0-beta", "12345678901234567890", "$x"};
    return b[s.draw(b.size() - 1)];
}

inline size_t any_sz(Src& s)
{
    return s.chance(1, 5) ? s.u64() : s.draw(12);
}

inline void splines(Src& s, const Opts& o, MshSpec& spec)
{
    if (s.flip()) spec.nanospline_format.version = word(s);
    auto num = [&]() { return s.chance(1, 30) ? size(s, o.allow_big, 3000) : s.draw(6); };
    size_t nc = s.chance(1, 20) ? count(s, false) : s.draw(3);
    for (size_t i = 0; i < nc; i++) {
        spec.curves.emplace_back();
        auto& c = spec.curves.back();
        c.curve_tag = any_sz(s);
        c.curve_type = any_sz(s);
        c.curve_degree = any_sz(s);
        c.num_control_points = num();
        c.num_knots = num();
        c.with_weights = s.chance(1, 10) ? s.draw(100) : s.draw(1);
        fill(s, c.data, c.num_control_points * (c.with_weights > 0 ? 4 : 3) + c.num_knots, [&](Src& t) { return dbl(t, o.finite); });
    }
    size_t np = s.chance(1, 20) ? count(s, false) : s.draw(3);
    for (size_t i = 0; i < np; i++) {
        spec.patches.emplace_back();
        auto& c = spec.patches.back();
        c.patch_tag = any_sz(s);
        c.patch_type = any_sz(s);
        c.degree_u = any_sz(s);
        c.degree_v = any_sz(s);
        c.num_control_points = num();
        c.num_u_knots = num();
        c.num_v_knots = num();
        c.with_weights = s.chance(1, 10) ? s.draw(100) : s.draw(1);
        fill(s, c.data, c.num_control_points * (c.with_weights > 0 ? 4 : 3) + c.num_u_knots + c.num_v_knots, [&](Src& t) { return dbl(t, o.finite); });
    }
}

inline size_t large_size(Src& s)
{
    static const std::vector<size_t> huge = {65535, 65536, 65537, 66000, 70000, 80000, 99999, 100001, 131071, 131073};
    switch (s.weighted({4, 4, 2})) {
    case 0: return std::max<size_t>(1, boundary_size(s, 70000));
    case 1: return 1 + s.draw((size_t(1) << (5 + s.draw(12))) - 1);
    default: return s.pick(huge);
    }
}

MshSpec large(Src& s, const Opts& o);

inline MshSpec spec(Src& s, const Opts& o)
{
    if (o.allow_big && o.max_items == 0 && s.chance(1, 150)) return large(s, o);
    MshSpec r;
    if (o.need_nodes || s.chance(5, 6)) {
        nodes(s, o, r);
        if (s.chance(5, 6)) elements(s, o, r);
    }
    if (o.linked_entities || s.flip()) entities(s, o, r);
    if (s.flip()) physical_groups(s, o, r);
    auto nd = [&]() { return s.chance(1, 25) ? count(s, false) : (s.flip() ? s.draw(2) : 0); };
    for (size_t i = 0, n = nd(); i < n; i++) {
        r.node_data.emplace_back();
        data_section(s, o, r.node_data.back(), false);
    }
    for (size_t i = 0, n = nd(); i < n; i++) {
        r.element_data.emplace_back();
        data_section(s, o, r.element_data.back(), false);
    }
    for (size_t i = 0, n = nd(); i < n; i++) {
        r.element_node_data.emplace_back();
        data_section(s, o, r.element_node_data.back(), true);
    }
    if (o.ext) splines(s, o, r);
    return r;
}

// Something small, except in one respect, in which it is large.
inline MshSpec large(Src& s, const Opts& o)
{
    Opts t = o;
    t.allow_big = false;
    t.max_items = 60;
    MshSpec r = spec(s, t);
    size_t n = large_size(s);
    Src b = s.bulk();
    auto& N = r.nodes;
    auto& E = r.elements;
    auto& X = r.entities;
    auto name = [&](size_t k) {
        std::string v;
        for (size_t i = 0; i < k; i++) v += static_cast<char>(o.plain_strings ? 'a' + b.draw(25) : 1 + b.draw(254));
        return v;
    };
    auto data = [&]() -> mshio::Data& {
        auto& v = s.flip() ? r.node_data : r.element_data;
        v.emplace_back();
        v.back().header.string_tags = {"large"};
        v.back().header.int_tags = {0, 1, 0};
        return v.back();
    };
    auto entry = [&](mshio::Data& d, size_t k) {
        d.entries.emplace_back();
        d.entries.back().tag = d.entries.size();
        for (size_t i = 0; i < k; i++) d.entries.back().data.push_back(dbl(b, o.finite));
        d.header.int_tags[2] = static_cast<int>(d.entries.size());
    };
    auto any_node = [&] { // of the first block that has any
        for (auto& k : N.entity_blocks)
            if (!k.tags.empty()) return k.tags[b.draw(k.tags.size() - 1)];
        return size_t(0);
    };
    auto ensure_nodes = [&] {
        if (any_node()) return;
        N = {};
        N.num_entity_blocks = 1;
        N.num_nodes = N.max_node_tag = 5;
        N.min_node_tag = 1;
        N.entity_blocks.emplace_back();
        auto& k = N.entity_blocks.back();
        k.entity_dim = 2;
        k.entity_tag = 1;
        k.num_nodes_in_block = 5;
        k.tags = {1, 2, 3, 4, 5};
        for (int i = 0; i < 15; i++) k.data.push_back(dbl(b, o.finite));
    };
    const uint64_t stride = s.weighted({70, 30}) ? 1 + s.draw(10000) : 1;
    const uint64_t start = s.flip() ? 1 : 1 + s.draw(1000000);
    switch (s.draw(o.ext ? 20 : 18)) {
    case 0:
    case 1: { // nodes in one to three blocks, or in very many
        E = {};
        N = {};
        const bool many = s.chance(1, 3);
        if (many) n = std::min<size_t>(n, 20000);
        const size_t blocks = many ? n : 1 + s.draw(2);
        size_t left = n, tag = start;
        for (size_t k = 0; k < blocks; k++) {
            size_t m = many ? b.draw(2) : k + 1 == blocks ? left : left / 3;
            if (many && k == 0 && m == 0) m = 1;
            left -= std::min(left, m);
            if (m == 0 && !o.empty_blocks) continue;
            N.entity_blocks.emplace_back();
            auto& x = N.entity_blocks.back();
            x.entity_dim = static_cast<int>(b.draw(3));
            x.entity_tag = many ? static_cast<int>(b.draw(3)) : static_cast<int>(k);
            x.parametric = b.chance(1, 5) ? 1 : 0;
            x.num_nodes_in_block = m;
            for (size_t i = 0; i < m; i++, tag += stride) x.tags.push_back(tag);
            const size_t per = 3 + (x.parametric ? static_cast<size_t>(x.entity_dim) : 0);
            for (size_t i = 0; i < m * per; i++) x.data.push_back(dbl(b, o.finite));
            N.num_nodes += m;
        }
        N.num_entity_blocks = N.entity_blocks.size();
        N.min_node_tag = start;
        N.max_node_tag = tag - stride;
        break;
    }
    case 2:
    case 3:
    case 4: { // elements in one to three blocks, or in very many
        ensure_nodes();
        E = {};
        const bool many = s.chance(1, 3);
        if (many) n = std::min<size_t>(n, 20000);
        const size_t blocks = many ? n : s.flip() ? 1 : 2 + s.draw(1);
        int type = s.flip() ? s.pick(std::vector<int>{15, 1, 2, 4}) : static_cast<int>(1 + s.draw(30));
        const bool same = s.flip();
        n = std::min<size_t>(n, 300000 / (kTable[type].nodes + 1));
        size_t left = n, tag = start;
        for (size_t k = 0; k < blocks; k++) {
            size_t m = many ? b.draw(2) : k + 1 == blocks ? left : left / 3;
            if (many && k == 0 && m == 0) m = 1;
            left -= std::min(left, m);
            if (m == 0 && !o.empty_blocks) continue;
            E.entity_blocks.emplace_back();
            auto& x = E.entity_blocks.back();
            if (many && b.chance(1, 10)) type = b.pick(std::vector<int>{15, 1, 2, 4, 5});
            x.element_type = type;
            x.entity_dim = kTable[type].dim;
            x.entity_tag = same ? 7 : static_cast<int>(b.draw(9)) - 2;
            x.num_elements_in_block = m;
            for (size_t i = 0; i < m; i++, tag += stride) {
                x.data.push_back(tag);
                for (size_t j = 0; j < kTable[type].nodes; j++) x.data.push_back(any_node());
            }
            E.num_elements += m;
        }
        E.num_entity_blocks = E.entity_blocks.size();
        E.min_element_tag = start;
        E.max_element_tag = tag - stride;
        break;
    }
    case 5: { // entities of one dimension
        n = std::min<size_t>(n, 20000);
        const size_t dim = s.draw(3);
        X = {};
        for (size_t i = 0; i < n; i++) {
            const int tag = static_cast<int>(i * stride) - 3;
            std::vector<int> g, bd;
            if (b.flip()) g.push_back(static_cast<int>(1 + b.draw(300)));
            for (size_t k = 0, m = b.draw(2); k < m; k++) bd.push_back(i32(b));
            auto box = [&](auto& e) {
                e.tag = tag;
                bbox(b, o, e);
                e.physical_group_tags = g;
            };
            if (dim == 0) {
                X.points.emplace_back();
                X.points.back().tag = tag;
                X.points.back().x = dbl(b, o.finite);
                X.points.back().y = dbl(b, o.finite);
                X.points.back().z = dbl(b, o.finite);
                X.points.back().physical_group_tags = g;
            } else if (dim == 1) {
                X.curves.emplace_back();
                box(X.curves.back());
                X.curves.back().boundary_point_tags = bd;
            } else if (dim == 2) {
                X.surfaces.emplace_back();
                box(X.surfaces.back());
                X.surfaces.back().boundary_curve_tags = bd;
            } else {
                X.volumes.emplace_back();
                box(X.volumes.back());
                X.volumes.back().boundary_surface_tags = bd;
            }
        }
        break;
    }
    case 6: { // groups and boundaries of one entity of each dimension
        X = {};
        n = std::min<size_t>(n, 20000);
        auto tags = [&](std::vector<int>& v) {
            for (size_t i = 0; i < n; i++) v.push_back(1 + static_cast<int>(b.draw(1000000)));
        };
        const bool groups = (!o.linked_entities || o.multi_group) && s.flip();
        auto box = [&](auto& e) {
            e.tag = 1;
            bbox(b, o, e);
            if (groups) tags(e.physical_group_tags);
        };
        X.points.resize(1);
        X.points[0].tag = 1;
        X.points[0].x = X.points[0].y = X.points[0].z = 0.25;
        if (groups) tags(X.points[0].physical_group_tags);
        X.curves.resize(1);
        box(X.curves[0]);
        if (!groups || s.flip()) tags(X.curves[0].boundary_point_tags);
        X.surfaces.resize(1);
        box(X.surfaces[0]);
        if (!groups || s.flip()) tags(X.surfaces[0].boundary_curve_tags);
        X.volumes.resize(1);
        box(X.volumes[0]);
        if (!groups || s.flip()) tags(X.volumes[0].boundary_surface_tags);
        break;
    }
    case 7: { // physical groups
        n = std::min<size_t>(n, 20000);
        for (size_t i = 0; i < n; i++) {
            r.physical_groups.emplace_back();
            auto& g = r.physical_groups.back();
            g.dim = static_cast<int>(b.draw(3));
            g.tag = static_cast<int>(i * stride) - 5;
            g.name = name(b.draw(12));
        }
        break;
    }
    case 8: // a name
        r.physical_groups.emplace_back();
        r.physical_groups.back().dim = 2;
        r.physical_groups.back().tag = 9;
        r.physical_groups.back().name = name(n);
        break;
    case 9: { // names and numbers in front of a data section
        auto& h = data().header;
        n = std::min<size_t>(n, 5000);
        for (size_t i = 0; i < n; i++) h.string_tags.push_back(name(b.draw(6)));
        break;
    }
    case 10: data().header.string_tags[0] = name(n); break;
    case 11: {
        auto& h = data().header;
        for (size_t i = 0; i < n; i++) h.real_tags.push_back(dbl(b, true));
        break;
    }
    case 12: {
        auto& h = data().header;
        for (size_t i = 0; i < n; i++) h.int_tags.push_back(i32(b));
        break;
    }
    case 13: { // fields
        auto& d = data();
        d.header.int_tags[1] = static_cast<int>(n);
        for (size_t i = 0, k = s.draw(3); i < k; i++) entry(d, n);
        break;
    }
    case 14: { // entries
        auto& d = data();
        const size_t f = 1 + s.draw(2);
        d.header.int_tags[1] = static_cast<int>(f);
        for (size_t i = 0; i < n; i++) entry(d, f);
        break;
    }
    case 15: { // nodes per element
        r.element_node_data.emplace_back();
        auto& d = r.element_node_data.back();
        d.header.string_tags = {"large"};
        d.header.int_tags = {0, 2, 0};
        for (size_t i = 0, k = 1 + s.draw(2); i < k; i++) {
            entry(d, 2 * n);
            d.entries.back().num_nodes_per_element = static_cast<int>(n);
        }
        break;
    }
    case 16: { // element-node entries
        r.element_node_data.emplace_back();
        auto& d = r.element_node_data.back();
        d.header.string_tags = {"large"};
        d.header.int_tags = {0, 1, 0};
        for (size_t i = 0; i < n; i++) {
            const size_t k = b.draw(4);
            entry(d, k);
            d.entries.back().num_nodes_per_element = static_cast<int>(k);
        }
        break;
    }
    case 17: // sections
        n = std::min<size_t>(n, 3000);
        for (size_t i = 0; i < n; i++) entry(data(), 1);
        break;
    case 18: { // spline curves and patches
        n = std::min<size_t>(n, 10000);
        const bool c = s.flip();
        for (size_t i = 0; i < n; i++) {
            if (c) {
                r.curves.emplace_back();
                auto& x = r.curves.back();
                x.curve_tag = start + i * stride;
                x.curve_type = x.curve_degree = 1;
                x.num_control_points = b.draw(2);
                x.num_knots = b.draw(3);
                x.with_weights = b.draw(1);
                for (size_t k = 0, m = x.num_control_points * (x.with_weights ? 4 : 3) + x.num_knots; k < m; k++) x.data.push_back(dbl(b, o.finite));
            } else {
                r.patches.emplace_back();
                auto& x = r.patches.back();
                x.patch_tag = start + i * stride;
                x.patch_type = x.degree_u = x.degree_v = 2;
                x.num_control_points = b.draw(2);
                x.num_u_knots = b.draw(3);
                x.num_v_knots = b.draw(3);
                x.with_weights = b.draw(1);
                for (size_t k = 0, m = x.num_control_points * (x.with_weights ? 4 : 3) + x.num_u_knots + x.num_v_knots; k < m; k++) x.data.push_back(dbl(b, o.finite));
            }
        }
        break;
    }
    default: { // control points and knots
        r.curves.emplace_back();
        r.patches.emplace_back();
        auto& x = r.curves.back();
        auto& y = r.patches.back();
        x.curve_tag = y.patch_tag = 3;
        x.curve_type = y.patch_type = 1;
        x.curve_degree = y.degree_u = y.degree_v = 3;
        x.num_control_points = s.flip() ? n : 2;
        x.num_knots = s.flip() ? n : 2;
        x.with_weights = s.draw(1);
        y.num_control_points = s.flip() ? n : 2;
        y.num_u_knots = s.flip() ? n : 2;
        y.num_v_knots = s.flip() ? n : 2;
        y.with_weights = s.draw(1);
        for (size_t k = 0, m = x.num_control_points * (x.with_weights ? 4 : 3) + x.num_knots; k < m; k++) x.data.push_back(dbl(b, o.finite));
        for (size_t k = 0, m = y.num_control_points * (y.with_weights ? 4 : 3) + y.num_u_knots + y.num_v_knots; k < m; k++) y.data.push_back(dbl(b, o.finite));
    }
    }
    return r;
}

} // namespace gen
