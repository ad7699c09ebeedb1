// Generators of files that need not conform: mutations of conforming ones and token soup. Used where a property is about
// every byte sequence.
#pragma once
#include "ref_writer.h"

namespace mut {

using namespace mshio;
using pbt::Src;

// Small conforming file of any kind, as a list of sections.
// `said` (and, of a 2.2 file, `mesh`) get what the file says.
inline ref::File small_file(Src& s, bool* is22 = nullptr, bool* is_ascii = nullptr, bool lib_style = false, MshSpec* said = nullptr, ref::Mesh22* mesh = nullptr)
{
    gen::Opts o;
    o.ext = s.chance(1, 3);
    o.finite = true;
    o.plain_strings = true;
    o.data_tags32 = true;
    o.tags32 = true;
    o.allow_big = false;
    const bool v22 = s.flip(), ascii = s.flip();
    if (is22) *is22 = v22;
    if (is_ascii) *is_ascii = ascii;
    const int style = lib_style ? 0 : (ascii ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0));
    if (!v22) {
        MshSpec m = gen::spec(s, o);
        if (said) *said = m;
        return ref::file41(s, m, ascii, style, o.ext);
    }
    ref::Opts22 oo;
    oo.allow_big = false;
    oo.max_nodes = 40;
    oo.max_elements = 40;
    ref::Mesh22 g = ref::mesh22(s, oo);
    MshSpec m;
    if (s.flip()) gen::physical_groups(s, o, m);
    for (size_t i = 0, n = s.draw(1); i < n; i++) m.node_data.emplace_back(), gen::data_section(s, o, m.node_data.back(), false);
    for (size_t i = 0, n = s.draw(1); i < n; i++) m.element_data.emplace_back(), gen::data_section(s, o, m.element_data.back(), false);
    for (size_t i = 0, n = s.draw(1); i < n; i++) m.element_node_data.emplace_back(), gen::data_section(s, o, m.element_node_data.back(), true);
    if (o.ext) gen::splines(s, o, m);
    if (said) *said = m;
    if (mesh) *mesh = g;
    return ref::file22(s, g, m, ascii, style, o.ext);
}

// A conforming file that is large in one respect.
inline ref::File large_file(Src& s, bool ext = true)
{
    gen::Opts o;
    o.ext = ext;
    o.finite = true;
    o.plain_strings = true;
    o.tags32 = true;
    const bool v22 = s.flip(), ascii = s.flip();
    const int style = s.flip() ? 0 : 2;
    if (!v22) {
        MshSpec m = gen::large(s, o);
        return ref::file41(s, m, ascii, style, ext);
    }
    ref::Mesh22 g;
    MshSpec m;
    if (s.chance(2, 3)) {
        ref::Opts22 oo;
        oo.large_odds = 1;
        g = ref::mesh22(s, oo);
    } else {
        m = gen::large(s, o);
        m.nodes = {};
        m.elements = {};
        m.entities = {};
    }
    return ref::file22(s, g, m, ascii, style, ext);
}

inline std::string token(Src& s)
{
    static const std::vector<std::string> t = {"0", "1", "2", "3", "-1", "4", "5", "15", "31", "32", "33", "8", "100", "-2", "255", "256", "1000", "65536", "100000", "1000000",
        "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
        "18446744073709551616", "6148914691236517206", "4611686018427387904", "2305843009213693952", "1152921504606846976", "-3", "-4", "-5", "1073741824", "536870912",
        "0.5", "1e308", "1e400", "-1e-400", "nan", "inf", "-inf", "1e", "0x10", "1.2.3", "+", "-", "\"", "\"\"", "\"a b\"", "\"abc", "a", "$", "$End", "$Nodes", "$EndNodes", "$Elements",
        "$EndElements", "$Entities", "$EndEntities", "$MeshFormat", "$EndMeshFormat", "$PhysicalNames", "$EndPhysicalNames", "$NodeData", "$EndNodeData", "$ElementData",
        "$EndElementData", "$ElementNodeData", "$EndElementNodeData", "$NanoSplineFormat", "$EndNanoSplineFormat", "$Curves", "$EndCurves", "$Patches", "$EndPatches", "$Foo", "$EndFoo",
        "4.1 0 8", "4.1 1 8", "2.2 0 8", "2.2 1 8", "\\", "1,5", "00000000000000000000000000000000000001", "99999999999999999999999999999999999"};
    return s.pick(t);
}

inline uint64_t binary_value(Src& s)
{
    static const std::vector<uint64_t> v = {0, 1, 2, 3, 4, 5, 8, 15, 16, 31, 32, 99, 255, 256, 1000, 65535, 65536, 1000000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull,
        0x1fffffffull, 0x20000000ull, 0x40000000ull, UINT64_MAX, UINT64_MAX - 1, UINT64_MAX - 2, UINT64_MAX - 3, 1ull << 63, (1ull << 63) - 1, 1ull << 62, 1ull << 61, 1ull << 60, 0x5555555555555556ull,
        0x2000000000000000ull, 0x4924924924924925ull, 0xfffffffdull, 0xfffffffeull, 0x7ff8000000000000ull, 0x7ff0000000000000ull};
    return s.chance(1, 6) ? s.u64() : s.pick(v);
}

// One edit of a byte string.
inline void edit(Src& s, std::string& b)
{
    if (b.empty()) {
        b = token(s);
        return;
    }
    auto pos = [&]() { return static_cast<size_t>(s.draw(b.size() - 1)); };
    switch (s.weighted({14, 10, 8, 8, 24, 12, 12, 6, 6})) {
    case 0: // overwrite a binary field
    {
        uint64_t v = binary_value(s);
        size_t p = pos(), n = s.flip() ? 4 : 8;
        for (size_t i = 0; i < n && p + i < b.size(); i++) b[p + i] = static_cast<char>(v >> (8 * i));
        break;
    }
    case 1: b[pos()] = static_cast<char>(s.draw(255)); break;
    case 2: b.erase(pos(), 1 + s.draw(s.chance(1, 4) ? 60 : 3)); break;
    case 3: {
        std::string t;
        for (size_t i = 0, n = 1 + s.draw(7); i < n; i++) t += static_cast<char>(s.draw(255));
        b.insert(pos(), t);
        break;
    }
    case 4: // replace a token
    {
        size_t p = pos();
        while (p > 0 && !isspace(static_cast<unsigned char>(b[p - 1]))) p--;
        size_t e = p;
        while (e < b.size() && !isspace(static_cast<unsigned char>(b[e]))) e++;
        if (e - p > 60) e = p + 8;
        b.replace(p, e - p, token(s));
        break;
    }
    case 5: b.insert(pos(), " " + token(s) + (s.flip() ? "\n" : " ")); break;
    case 6: // copy a stretch elsewhere
    {
        size_t p = pos(), n = 1 + s.draw(100);
        std::string t = b.substr(p, n);
        b.insert(pos(), t);
        break;
    }
    case 7: b.resize(pos()); break;
    default: // swap two bytes or flip a bit
    {
        size_t p = pos();
        b[p] = static_cast<char>(b[p] ^ (1 << s.draw(7)));
    }
    }
}

// Section-level edits.
inline void edit_sections(Src& s, std::vector<ref::Piece>& p)
{
    if (p.empty()) return;
    auto at = [&]() { return static_cast<size_t>(s.draw(p.size() - 1)); };
    switch (s.draw(6)) {
    case 0: { auto x = p[at()]; p.insert(p.begin() + static_cast<long>(at()), x); break; } // repeat a section
    case 1: p.erase(p.begin() + static_cast<long>(at())); break;
    case 2: { size_t i = at(), j = at(); std::swap(p[i], p[j]); break; }
    case 3: edit(s, p[at()].text); break;
    case 4: { // sections of another file
        ref::File g = small_file(s);
        size_t k = s.draw(g.pieces.size() - 1);
        p.insert(p.begin() + static_cast<long>(at()), g.pieces[k]);
        break;
    }
    case 5: { // another header in front
        ref::File g = small_file(s);
        p.insert(p.begin() + static_cast<long>(s.draw(1) ? 0 : at()), g.pieces[0]);
        break;
    }
    default: p.push_back(p[at()]);
    }
}

inline std::string soup(Src& s)
{
    std::string r;
    if (s.chance(3, 4)) {
        static const std::vector<std::string> h = {"$MeshFormat\n4.1 0 8\n$EndMeshFormat\n", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n"};
        r = s.pick(h);
    }
    static const std::vector<std::string> names = {"Nodes", "Elements", "Entities", "PhysicalNames", "NodeData", "ElementData", "ElementNodeData", "NanoSplineFormat", "Curves", "Patches", "MeshFormat", "Foo"};
    size_t k = 1 + s.draw(2);
    for (size_t i = 0; i < k; i++) {
        const std::string& n = s.pick(names);
        r += "$" + n + "\n";
        size_t m = s.draw(14);
        for (size_t j = 0; j < m; j++) {
            if (s.chance(2, 3))
                r += std::to_string(s.draw(3));
            else
                r += token(s);
            r += s.chance(1, 4) ? "\n" : " ";
        }
        r += "\n$End" + n + "\n";
    }
    return r;
}

// Conforming in syntax, contradictory in content: what a careless program might write.
inline std::string careless(Src& s)
{
    gen::Opts o;
    o.ext = s.chance(1, 3);
    o.finite = true;
    o.tags32 = s.flip();
    o.allow_big = false;
    o.max_items = 60;
    MshSpec m = gen::spec(s, o);
    const bool ascii = s.flip();
    auto num = [&](size_t& v) {
        switch (s.draw(3)) {
        case 0: v++; break;
        case 1: v = v ? v - 1 : 1; break;
        case 2: v = s.draw(20); break;
        default: v = binary_value(s);
        }
    };
    for (size_t i = 0, k = s.draw(3); i < k; i++) {
        switch (s.draw(11)) {
        case 0: num(m.nodes.num_nodes); break;
        case 1: num(m.nodes.min_node_tag); break;
        case 2: num(m.nodes.max_node_tag); break;
        case 3: num(m.elements.num_elements); break;
        case 4: num(m.elements.min_element_tag); break;
        case 5: num(m.elements.max_element_tag); break;
        case 6:
            if (!m.nodes.entity_blocks.empty()) {
                auto& b = m.nodes.entity_blocks[s.draw(m.nodes.entity_blocks.size() - 1)];
                static const std::vector<int> v = {0, 1, 2, 3, -1, 4, 7, 1000, INT32_MAX, INT32_MIN};
                if (s.flip())
                    b.parametric = s.pick(v);
                else
                    b.entity_dim = s.pick(v);
                if (s.flip()) {
                    const long per = 3 + (b.parametric == 1 ? static_cast<long>(b.entity_dim) : 0);
                    if (per >= 0 && per < 1000) b.data.resize(b.tags.size() * static_cast<size_t>(per));
                }
            }
            break;
        case 7:
            if (!m.elements.entity_blocks.empty()) {
                auto& b = m.elements.entity_blocks[s.draw(m.elements.entity_blocks.size() - 1)];
                if (s.flip())
                    num(b.num_elements_in_block);
                else
                    b.entity_dim = gen::i32(s);
            }
            break;
        case 8:
            if (!m.node_data.empty()) {
                auto& h = m.node_data[0].header.int_tags;
                h[1 + s.draw(1)] = gen::i32(s);
            }
            break;
        case 9:
            if (!m.element_node_data.empty() && !m.element_node_data[0].entries.empty()) m.element_node_data[0].entries[0].num_nodes_per_element = gen::i32(s);
            break;
        case 10:
            if (!m.curves.empty()) num(m.curves[0].num_knots);
            if (!m.patches.empty()) num(m.patches[0].num_control_points);
            break;
        default:
            if (!m.elements.entity_blocks.empty()) {
                auto& b = m.elements.entity_blocks[0];
                if (!b.data.empty()) num(b.data[s.draw(b.data.size() - 1)]);
            }
        }
    }
    ref::File f = ref::file41(s, m, ascii, s.flip() ? 2 : 0, o.ext);
    return f.all();
}

// Any bytes.
inline std::string bytes(Src& s, pbt::Ctx& c)
{
    switch (s.weighted({55, 15, 15, 10, 5})) {
    case 0: {
        ref::File f = small_file(s);
        for (size_t i = 0, k = s.draw(1); i < k; i++) edit_sections(s, f.pieces);
        std::string b = f.all();
        size_t k = s.draw(s.chance(1, 5) ? 8 : 2);
        for (size_t i = 0; i < k; i++) edit(s, b);
        c.label("edited conforming file");
        return b;
    }
    case 1: c.label("token soup"); return soup(s);
    case 2: c.label("contradictory content"); return careless(s);
    case 3: {
        ref::File f = small_file(s);
        for (size_t i = 0, k = 1 + s.draw(4); i < k; i++) edit_sections(s, f.pieces);
        c.label("sections rearranged");
        return f.all();
    }
    default: {
        static const std::vector<std::string> h = {"", "$MeshFormat\n4.1 1 8\n\x01\0\0\0\n$EndMeshFormat\n$Nodes\n", "$MeshFormat\n2.2 1 8\n\x01\0\0\0\n$EndMeshFormat\n$Elements\n1\n"};
        std::string r = s.pick(h);
        if (!r.empty()) { // the literals above end at their first NUL
            bool v22 = r.find("2.2") != std::string::npos;
            r = std::string("$MeshFormat\n") + (v22 ? "2.2" : "4.1") + " 1 8\n" + std::string("\x01\0\0\0", 4) + "\n$EndMeshFormat\n" + (v22 ? "$Elements\n1\n" : "$Nodes\n");
        }
        size_t n = s.draw(200);
        Src b = s.bulk();
        for (size_t i = 0; i < n; i++) r += static_cast<char>(b.chance(1, 3) ? b.draw(255) : b.draw(3));
        c.label("random bytes");
        return r;
    }
    }
}

} // namespace mut
