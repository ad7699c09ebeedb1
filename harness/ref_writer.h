// An independent writer of conforming MSH files with the layout freedoms the format leaves. It shares no code with the
// library: it follows the published description of the formats only.
#pragma once
#include "util.h"

namespace ref {

using namespace mshio;
using pbt::Src;

// Layout choices. style 0: as Gmsh writes; 1: CRLF line ends (ASCII only); 2: free.
class Out
{
public:
    Out(Src& s, bool ascii, int style)
        : m_s(s.bulk())
        , m_ascii(ascii)
        , m_style(style)
    {}

    std::string b;

    bool ascii() const { return m_ascii; }
    int style() const { return m_style; }
    Src& src() { return m_s; }

    // ---- text
    void raw(const std::string& t) { b += t; }
    void sep() // between two tokens of a line
    {
        if (m_style != 2 || m_no_free) {
            b += ' ';
            return;
        }
        static const char* const k[] = {" ", " ", " ", "  ", "\t", "\n", "\r\n", " \n", "   ", "\n\n", "\t \t", "\n "};
        b += k[m_s.draw(11)];
    }
    void eol()
    {
        if (m_no_free) {
            b += '\n';
            return;
        }
        if (m_style == 1 && m_ascii) {
            b += "\r\n";
        } else if (m_style == 2 && m_ascii) {
            static const char* const k[] = {"\n", "\n", "\n", "\r\n", " \n", "\n\n", "\t\n", "\n  "};
            b += k[m_s.draw(7)];
        } else {
            b += '\n';
        }
    }
    // Line end before binary payload: exactly one newline.
    void hard_eol() { b += '\n'; }
    void name_eol() // after a section name; in a binary file payload may follow
    {
        if (m_ascii)
            eol();
        else
            hard_eol();
    }
    void i(long long v)
    {
        if (m_style == 2 && m_s.chance(1, 20)) {
            if (v >= 0 && m_s.flip())
                b += "+" + std::to_string(v);
            else
                b += (v < 0 ? "-00" : "00") + std::to_string(v).substr(v < 0 ? 1 : 0);
            return;
        }
        b += std::to_string(v);
    }
    void u(unsigned long long v)
    {
        if (m_style == 2 && m_s.chance(1, 20)) b += m_s.flip() ? "+" : "00";
        b += std::to_string(v);
    }
    void d(double v)
    {
        char t[512];
        if (m_style != 2) {
            snprintf(t, sizeof t, "%.17g", v);
            b += t;
            return;
        }
        switch (m_s.draw(5)) {
        case 0: snprintf(t, sizeof t, "%.17g", v); break;
        case 1: snprintf(t, sizeof t, "%.16e", v); break;
        case 2: snprintf(t, sizeof t, "%.16E", v); break;
        case 3: snprintf(t, sizeof t, "%.25g", v); break;
        case 4: // shortest
            for (int p = 1; p <= 17; p++) {
                snprintf(t, sizeof t, "%.*g", p, v);
                if (gen::to_bits(strtod(t, nullptr)) == gen::to_bits(v)) break;
            }
            break;
        default:
            if (std::fabs(v) < 1e15 && (v == 0 || std::fabs(v) > 1e-4)) {
                snprintf(t, sizeof t, "%.25f", v);
                if (gen::to_bits(strtod(t, nullptr)) == gen::to_bits(v)) break;
            }
            snprintf(t, sizeof t, "%s%.17g", v >= 0 && !std::signbit(v) ? "+" : "", v);
        }
        b += t;
    }
    void str(const std::string& v) { b += '"' + v + '"'; }

    // ---- binary
    void bytes(const void* p, size_t n) { b.append(static_cast<const char*>(p), n); }
    void bi32(int32_t v) { bytes(&v, 4); }
    void bu64(uint64_t v) { bytes(&v, 8); }
    void bf64(double v) { bytes(&v, 8); }
    // After a binary payload: Gmsh writes a newline; the end marker delimits the section in any case.
    void end_payload()
    {
        if (m_style == 2) {
            if (m_s.flip()) b += '\n';
        } else {
            b += '\n';
        }
    }
    bool m_no_free = false;

private:
    Src m_s;
    bool m_ascii;
    int m_style;
};

inline void open(Out& o, const char* n)
{
    o.raw("$");
    o.raw(n);
    o.name_eol();
}
inline void close(Out& o, const char* n)
{
    // The end marker stands on a line of its own.
    if (o.ascii() && !o.b.empty() && o.b.back() != '\n' && o.b.back() != ' ' && o.b.back() != '\t') o.eol();
    o.raw("$End");
    o.raw(n);
    o.eol();
}

inline void header(Out& o, const char* version)
{
    open(o, "MeshFormat");
    o.raw(version);
    o.sep();
    o.raw(o.ascii() ? "0" : "1");
    o.sep();
    o.raw("8");
    if (o.ascii()) {
        o.eol();
    } else {
        o.hard_eol();
        o.bi32(1);
        o.end_payload();
    }
    close(o, "MeshFormat");
}

inline void groups(Out& o, const std::vector<PhysicalGroup>& g)
{
    open(o, "PhysicalNames");
    o.u(g.size());
    o.eol();
    for (auto& x : g) {
        o.i(x.dim);
        o.sep();
        o.i(x.tag);
        o.sep();
        o.str(x.name);
        o.eol();
    }
    close(o, "PhysicalNames");
}

inline void int_list(Out& o, const std::vector<int>& v)
{
    if (o.ascii()) {
        o.u(v.size());
        for (int x : v) {
            o.sep();
            o.i(x);
        }
    } else {
        o.bu64(v.size());
        for (int x : v) o.bi32(x);
    }
}

inline void entities41(Out& o, const Entities& e)
{
    open(o, "Entities");
    if (o.ascii()) {
        o.u(e.points.size());
        o.sep();
        o.u(e.curves.size());
        o.sep();
        o.u(e.surfaces.size());
        o.sep();
        o.u(e.volumes.size());
        o.eol();
    } else {
        o.bu64(e.points.size());
        o.bu64(e.curves.size());
        o.bu64(e.surfaces.size());
        o.bu64(e.volumes.size());
    }
    auto nums = [&](int tag, std::initializer_list<double> v) {
        if (o.ascii()) {
            o.i(tag);
            for (double x : v) {
                o.sep();
                o.d(x);
            }
            o.sep();
        } else {
            o.bi32(tag);
            for (double x : v) o.bf64(x);
        }
    };
    auto boundary = [&](const std::vector<int>& v) {
        if (o.ascii()) o.sep();
        int_list(o, v);
    };
    for (auto& p : e.points) {
        nums(p.tag, {p.x, p.y, p.z});
        int_list(o, p.physical_group_tags);
        if (o.ascii()) o.eol();
    }
    for (auto& p : e.curves) {
        nums(p.tag, {p.min_x, p.min_y, p.min_z, p.max_x, p.max_y, p.max_z});
        int_list(o, p.physical_group_tags);
        boundary(p.boundary_point_tags);
        if (o.ascii()) o.eol();
    }
    for (auto& p : e.surfaces) {
        nums(p.tag, {p.min_x, p.min_y, p.min_z, p.max_x, p.max_y, p.max_z});
        int_list(o, p.physical_group_tags);
        boundary(p.boundary_curve_tags);
        if (o.ascii()) o.eol();
    }
    for (auto& p : e.volumes) {
        nums(p.tag, {p.min_x, p.min_y, p.min_z, p.max_x, p.max_y, p.max_z});
        int_list(o, p.physical_group_tags);
        boundary(p.boundary_surface_tags);
        if (o.ascii()) o.eol();
    }
    if (!o.ascii()) o.end_payload();
    close(o, "Entities");
}

inline void nodes41(Out& o, const Nodes& n)
{
    open(o, "Nodes");
    auto four = [&](size_t a, size_t b, size_t c, size_t d) {
        if (o.ascii()) {
            o.u(a);
            o.sep();
            o.u(b);
            o.sep();
            o.u(c);
            o.sep();
            o.u(d);
            o.eol();
        } else {
            o.bu64(a);
            o.bu64(b);
            o.bu64(c);
            o.bu64(d);
        }
    };
    four(n.entity_blocks.size(), n.num_nodes, n.min_node_tag, n.max_node_tag);
    for (auto& b : n.entity_blocks) {
        const size_t per = 3 + (b.parametric ? static_cast<size_t>(b.entity_dim) : 0);
        if (o.ascii()) {
            o.i(b.entity_dim);
            o.sep();
            o.i(b.entity_tag);
            o.sep();
            o.i(b.parametric);
            o.sep();
            o.u(b.tags.size());
            o.eol();
            for (size_t t : b.tags) {
                o.u(t);
                o.eol();
            }
            for (size_t i = 0; i < b.data.size(); i++) {
                o.d(b.data[i]);
                if (i % per + 1 == per)
                    o.eol();
                else
                    o.sep();
            }
        } else {
            o.bi32(b.entity_dim);
            o.bi32(b.entity_tag);
            o.bi32(b.parametric);
            o.bu64(b.tags.size());
            for (size_t t : b.tags) o.bu64(t);
            for (double v : b.data) o.bf64(v);
        }
    }
    if (!o.ascii()) o.end_payload();
    close(o, "Nodes");
}

inline void elements41(Out& o, const Elements& n)
{
    open(o, "Elements");
    if (o.ascii()) {
        o.u(n.entity_blocks.size());
        o.sep();
        o.u(n.num_elements);
        o.sep();
        o.u(n.min_element_tag);
        o.sep();
        o.u(n.max_element_tag);
        o.eol();
    } else {
        o.bu64(n.entity_blocks.size());
        o.bu64(n.num_elements);
        o.bu64(n.min_element_tag);
        o.bu64(n.max_element_tag);
    }
    for (auto& b : n.entity_blocks) {
        const size_t per = gen::kTable[b.element_type].nodes + 1;
        if (o.ascii()) {
            o.i(b.entity_dim);
            o.sep();
            o.i(b.entity_tag);
            o.sep();
            o.i(b.element_type);
            o.sep();
            o.u(b.num_elements_in_block);
            o.eol();
            for (size_t i = 0; i < b.data.size(); i++) {
                o.u(b.data[i]);
                if (i % per + 1 == per)
                    o.eol();
                else
                    o.sep();
            }
        } else {
            o.bi32(b.entity_dim);
            o.bi32(b.entity_tag);
            o.bi32(b.element_type);
            o.bu64(b.num_elements_in_block);
            for (size_t v : b.data) o.bu64(v);
        }
    }
    if (!o.ascii()) o.end_payload();
    close(o, "Elements");
}

// Post-processing sections are the same in both versions: text header, entries with 32-bit tags in binary.
inline void data(Out& o, const Data& d, const char* name, bool element_node)
{
    open(o, name);
    const bool binary = !o.ascii();
    o.u(d.header.string_tags.size());
    o.eol();
    for (auto& t : d.header.string_tags) {
        o.str(t);
        o.eol();
    }
    o.u(d.header.real_tags.size());
    o.eol();
    for (double t : d.header.real_tags) {
        o.d(t);
        o.eol();
    }
    o.u(d.header.int_tags.size());
    for (int t : d.header.int_tags) {
        o.eol();
        o.i(t);
    }
    o.hard_eol();
    for (auto& e : d.entries) {
        if (binary) {
            o.bi32(static_cast<int32_t>(e.tag));
            if (element_node) o.bi32(e.num_nodes_per_element);
            for (double v : e.data) o.bf64(v);
        } else {
            o.u(e.tag);
            if (element_node) {
                o.sep();
                o.i(e.num_nodes_per_element);
            }
            for (double v : e.data) {
                o.sep();
                o.d(v);
            }
            o.eol();
        }
    }
    if (binary) o.end_payload();
    close(o, name);
}

inline void curves(Out& o, const std::vector<Curve>& v)
{
    open(o, "Curves");
    o.u(v.size());
    o.eol();
    for (auto& c : v) {
        for (size_t x : {c.curve_tag, c.curve_type, c.curve_degree, c.num_control_points, c.num_knots}) {
            o.u(x);
            o.sep();
        }
        o.u(c.with_weights);
        if (o.ascii()) {
            o.eol();
            for (double x : c.data) {
                o.d(x);
                o.eol();
            }
        } else {
            o.hard_eol();
            for (double x : c.data) o.bf64(x);
        }
    }
    if (!o.ascii()) o.end_payload();
    close(o, "Curves");
}
inline void patches(Out& o, const std::vector<Patch>& v)
{
    open(o, "Patches");
    o.u(v.size());
    o.eol();
    for (auto& c : v) {
        for (size_t x : {c.patch_tag, c.patch_type, c.degree_u, c.degree_v, c.num_control_points, c.num_u_knots, c.num_v_knots}) {
            o.u(x);
            o.sep();
        }
        o.u(c.with_weights);
        if (o.ascii()) {
            o.eol();
            for (double x : c.data) {
                o.d(x);
                o.eol();
            }
        } else {
            o.hard_eol();
            for (double x : c.data) o.bf64(x);
        }
    }
    if (!o.ascii()) o.end_payload();
    close(o, "Patches");
}
inline void spline_format(Out& o, const std::string& version)
{
    open(o, "NanoSplineFormat");
    o.raw(version);
    o.eol();
    close(o, "NanoSplineFormat");
}

// ---- MSH 2.2 ---------------------------------------------------------------------------------------------------------

struct El22
{
    int32_t tag;
    int type;
    std::vector<int> tags;
    std::vector<int32_t> nodes;
};
struct Mesh22
{
    std::vector<eq::FlatNode> nodes;
    std::vector<El22> elements;
};

inline void nodes22(Out& o, const std::vector<eq::FlatNode>& n)
{
    open(o, "Nodes");
    o.u(n.size());
    o.hard_eol();
    for (auto& x : n) {
        if (o.ascii()) {
            o.u(x.tag);
            o.sep();
            o.d(x.x);
            o.sep();
            o.d(x.y);
            o.sep();
            o.d(x.z);
            o.eol();
        } else {
            o.bi32(static_cast<int32_t>(x.tag));
            o.bf64(x.x);
            o.bf64(x.y);
            o.bf64(x.z);
        }
    }
    if (!o.ascii()) o.end_payload();
    close(o, "Nodes");
}

inline void elements22(Out& o, const std::vector<El22>& e)
{
    open(o, "Elements");
    o.u(e.size());
    o.hard_eol();
    if (o.ascii()) {
        for (auto& x : e) {
            o.i(x.tag);
            o.sep();
            o.i(x.type);
            o.sep();
            o.u(x.tags.size());
            for (int t : x.tags) {
                o.sep();
                o.i(t);
            }
            for (int32_t t : x.nodes) {
                o.sep();
                o.i(t);
            }
            o.eol();
        }
    } else {
        // Consecutive elements of equal type and tag count may share a header, in groups of any size.
        Src& s = o.src();
        const bool single = s.chance(1, 4), greedy = s.flip();
        for (size_t i = 0; i < e.size();) {
            size_t j = i + 1;
            while (!single && j < e.size() && e[j].type == e[i].type && e[j].tags.size() == e[i].tags.size() && (greedy || s.chance(3, 4))) j++;
            o.bi32(e[i].type);
            o.bi32(static_cast<int32_t>(j - i));
            o.bi32(static_cast<int32_t>(e[i].tags.size()));
            for (; i < j; i++) {
                o.bi32(e[i].tag);
                for (int t : e[i].tags) o.bi32(t);
                for (int32_t t : e[i].nodes) o.bi32(t);
            }
        }
        o.end_payload();
    }
    close(o, "Elements");
}

// ---- whole files -------------------------------------------------------------------------------------------------------

struct Piece // one section of a file
{
    std::string name, text;
};
struct File
{
    std::vector<Piece> pieces; // pieces[0] is the header
    std::string all() const
    {
        std::string r;
        for (auto& p : pieces) r += p.text;
        return r;
    }
};

template <typename F>
void piece(File& f, Src& s, bool ascii, int style, const std::string& name, F&& fn)
{
    Out o(s, ascii, style);
    fn(o);
    f.pieces.push_back({name, std::move(o.b)});
}

inline void shuffle(File& f, Src& s)
{
    // Orders between different kinds are free; the order within a kind carries meaning.
    std::vector<std::string> kinds;
    for (size_t i = 1; i < f.pieces.size(); i++) kinds.push_back(f.pieces[i].name);
    std::vector<std::string> order = kinds;
    Src b = s.bulk();
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[b.draw(i - 1)]);
    std::map<std::string, std::vector<Piece>> by;
    for (size_t i = 1; i < f.pieces.size(); i++) by[f.pieces[i].name].push_back(f.pieces[i]);
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < order.size(); i++) f.pieces[i + 1] = by[order[i]][at[order[i]]++];
}

// keep: bit set of sections that are written although empty.
inline File file41(Src& s, const MshSpec& m, bool ascii, int style, bool ext)
{
    File f;
    piece(f, s, ascii, style, "MeshFormat", [&](Out& o) { header(o, "4.1"); });
    if (!m.physical_groups.empty() || s.chance(1, 8)) piece(f, s, ascii, style, "PhysicalNames", [&](Out& o) { groups(o, m.physical_groups); });
    if (!m.entities.empty() || s.chance(1, 8)) piece(f, s, ascii, style, "Entities", [&](Out& o) { entities41(o, m.entities); });
    if (!m.nodes.entity_blocks.empty() || s.chance(1, 8)) piece(f, s, ascii, style, "Nodes", [&](Out& o) { nodes41(o, m.nodes); });
    if (!m.elements.entity_blocks.empty() || s.chance(1, 8)) piece(f, s, ascii, style, "Elements", [&](Out& o) { elements41(o, m.elements); });
    for (auto& d : m.node_data) piece(f, s, ascii, style, "NodeData", [&](Out& o) { data(o, d, "NodeData", false); });
    for (auto& d : m.element_data) piece(f, s, ascii, style, "ElementData", [&](Out& o) { data(o, d, "ElementData", false); });
    for (auto& d : m.element_node_data) piece(f, s, ascii, style, "ElementNodeData", [&](Out& o) { data(o, d, "ElementNodeData", true); });
    if (ext) {
        piece(f, s, ascii, style, "NanoSplineFormat", [&](Out& o) { spline_format(o, m.nanospline_format.version); });
        if (!m.curves.empty()) piece(f, s, ascii, style, "Curves", [&](Out& o) { curves(o, m.curves); });
        if (!m.patches.empty()) piece(f, s, ascii, style, "Patches", [&](Out& o) { patches(o, m.patches); });
    }
    return f;
}

inline File file22(Src& s, const Mesh22& g, const MshSpec& m, bool ascii, int style, bool ext)
{
    File f;
    piece(f, s, ascii, style, "MeshFormat", [&](Out& o) { header(o, "2.2"); });
    if (!m.physical_groups.empty() || s.chance(1, 8)) piece(f, s, ascii, style, "PhysicalNames", [&](Out& o) { groups(o, m.physical_groups); });
    if (!g.nodes.empty() || s.chance(1, 4)) piece(f, s, ascii, style, "Nodes", [&](Out& o) { nodes22(o, g.nodes); });
    if (!g.elements.empty() || s.chance(1, 4)) piece(f, s, ascii, style, "Elements", [&](Out& o) { elements22(o, g.elements); });
    for (auto& d : m.node_data) piece(f, s, ascii, style, "NodeData", [&](Out& o) { data(o, d, "NodeData", false); });
    for (auto& d : m.element_data) piece(f, s, ascii, style, "ElementData", [&](Out& o) { data(o, d, "ElementData", false); });
    for (auto& d : m.element_node_data) piece(f, s, ascii, style, "ElementNodeData", [&](Out& o) { data(o, d, "ElementNodeData", true); });
    if (ext) {
        piece(f, s, ascii, style, "NanoSplineFormat", [&](Out& o) { spline_format(o, m.nanospline_format.version); });
        if (!m.curves.empty()) piece(f, s, ascii, style, "Curves", [&](Out& o) { curves(o, m.curves); });
        if (!m.patches.empty()) piece(f, s, ascii, style, "Patches", [&](Out& o) { patches(o, m.patches); });
    }
    return f;
}

// ---- generator of 2.2 meshes ---------------------------------------------------------------------------------------------

struct Opts22
{
    bool finite = true;
    bool allow_big = true;
    size_t max_nodes = 5000, max_elements = 4000;
    bool need_nodes = false;
    unsigned large_odds = 60; // one in so many is large, if big ones are allowed
};

inline int tag22(Src& s)
{
    return gen::i32(s);
}

inline Mesh22 mesh22(Src& s, const Opts22& o)
{
    Mesh22 g;
    // Now and then very many nodes or elements, the latter of small types.
    const size_t large = o.allow_big && s.chance(1, o.large_odds) ? 1 + s.draw(1) : 0;
    auto large_size = [&] { return gen::large_size(s); };
    size_t n = large == 1 ? large_size() : gen::size(s, o.allow_big, o.max_nodes);
    if (large == 2 && n == 0) n = 4;
    if (o.need_nodes && n == 0) n = 1;
    gen::Tags tags(s, INT32_MAX, n);
    {
        Src b = s.bulk();
        Src& t = n <= 16 ? s : b;
        for (size_t i = 0; i < n; i++) {
            eq::FlatNode x;
            x.tag = tags.next();
            x.x = gen::dbl(t, o.finite);
            x.y = gen::dbl(t, o.finite);
            x.z = gen::dbl(t, o.finite);
            g.nodes.push_back(x);
        }
    }
    if (n == 0) return g;
    size_t m = large == 2 ? large_size() : gen::size(s, o.allow_big, o.max_elements);
    gen::Tags et(s, INT32_MAX, m);
    Src b = s.bulk();
    Src& t = m <= 16 ? s : b;
    El22 prev;
    // A few entities and groups so that runs, revisits and groups shared between entities occur.
    std::vector<int> ents, grps;
    for (size_t i = 0, k = 1 + s.draw(4); i < k; i++) ents.push_back(tag22(s));
    for (size_t i = 0, k = 1 + s.draw(3); i < k; i++) grps.push_back(tag22(s));
    const size_t tag_mode = s.draw(4);
    // Gmsh lists elements that belong to several physical groups once for each of them.
    const bool repeats = s.chance(1, 10);
    const size_t run = large == 2 ? s.pick(std::vector<size_t>{0, 20, 1000, 100000}) : 0; // about how many alike in a row
    for (size_t i = 0; i < m; i++) {
        if (repeats && i && t.chance(1, 3)) {
            if (prev.tags.size() > 1 && t.chance(2, 3)) prev.tags[0] = t.pick(grps);
            g.elements.push_back(prev);
            continue;
        }
        El22 e;
        e.tag = static_cast<int32_t>(et.next());
        bool same = i && (run ? !t.chance(1, run) : t.chance(2, 3));
        if (same && (run || t.chance(4, 5)))
            e.type = prev.type;
        else
            e.type = t.flip() ? static_cast<int>(1 + t.draw(30)) : t.pick(std::vector<int>{1, 2, 3, 4, 15});
        if (m > 300 && gen::kTable[e.type].nodes > 10) e.type = 4;
        if (same) {
            e.tags = prev.tags;
        } else {
            size_t nt;
            switch (tag_mode) {
            case 0: nt = 2; break;
            case 1: nt = 1; break;
            case 2: nt = 0; break;
            case 3: nt = t.draw(6); break;
            default: nt = 2 + t.draw(2); break;
            }
            if (nt == 1) e.tags = {t.pick(ents)};
            if (nt >= 2) {
                e.tags = {t.pick(grps), t.pick(ents)};
                while (e.tags.size() < nt) e.tags.push_back(static_cast<int>(e.tags.size() == 2 ? nt - 3 : t.draw(5)));
            }
        }
        for (size_t k = 0; k < gen::kTable[e.type].nodes; k++) e.nodes.push_back(static_cast<int32_t>(g.nodes[t.draw(n - 1)].tag));
        prev = e;
        g.elements.push_back(std::move(e));
    }
    return g;
}

inline std::vector<eq::FlatElement> flat(const Mesh22& g)
{
    std::vector<eq::FlatElement> r;
    for (auto& e : g.elements) {
        eq::FlatElement f;
        f.tag = static_cast<size_t>(e.tag);
        f.type = e.type;
        f.dim = gen::kTable[e.type].dim;
        f.entity = e.tags.size() > 1 ? e.tags[1] : e.tags.size() == 1 ? e.tags[0] : 1;
        f.nodes.assign(e.nodes.begin(), e.nodes.end());
        r.push_back(std::move(f));
    }
    return r;
}

// (dim, entity) -> groups, from elements with two or more tags.
inline eq::GroupMap groups22(const Mesh22& g)
{
    eq::GroupMap m;
    for (auto& e : g.elements)
        if (e.tags.size() > 1) m[{gen::kTable[e.type].dim, e.tags[1]}].insert(e.tags[0]);
    return m;
}

// What was loaded from a 2.2 file with this mesh and the names and data of m, against what the file says.
inline std::string check_file22(const Mesh22& g, const MshSpec& m, const MshSpec& b, bool ext)
{
    std::string d = eq::check_flat(g.nodes, flat(g), b);
    if (!d.empty()) return "loaded file: " + d;
    d = eq::check_grouping(b);
    if (!d.empty()) return "grouping: " + d;
    eq::Diff df;
    eq::groups(df, m, b);
    eq::all_data(df, m, b);
    if (ext) eq::splines(df, m, b);
    if (!df.out.empty()) return "loaded file: " + df.out;
    std::string dup;
    eq::GroupMap want = groups22(g), have = eq::group_map(b.entities, &dup);
    if (!dup.empty()) return dup;
    for (auto& w : want)
        if (!have.count(w.first) || have[w.first] != w.second)
            return "entity dim " + std::to_string(w.first.first) + " tag " + std::to_string(w.first.second) + ": groups " + eq::show(w.second) + " in the file, " + (have.count(w.first) ? eq::show(have[w.first]) : std::string("no entity")) + " loaded";
    for (auto& h : have)
        if (!h.second.empty() && !want.count(h.first)) return "entity dim " + std::to_string(h.first.first) + " tag " + std::to_string(h.first.second) + " has groups " + eq::show(h.second) + ", which no element has";
    return "";
}

} // namespace ref
