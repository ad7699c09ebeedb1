// An independent strict reader of MSH files, used as an oracle for what the library writes. Anything that is not laid out
// as the format description says is an error.
#pragma once
#include "ref_writer.h"

namespace ref {

class In
{
public:
    explicit In(const std::string& b)
        : m_b(b)
    {}
    [[noreturn]] void bad(const std::string& m) const
    {
        size_t from = m_p > 40 ? m_p - 40 : 0;
        pbt::fail("not conforming at byte " + std::to_string(m_p) + " (" + m_where + "): " + m + "; near " + eq::bytes_text(m_b.substr(from, 120)));
    }
    void where(const std::string& w) { m_where = w; }
    bool end() const { return m_p >= m_b.size(); }
    size_t pos() const { return m_p; }

    // ---- lines
    std::string line() // up to '\n', which must be there
    {
        size_t e = m_b.find('\n', m_p);
        if (e == std::string::npos) bad("unterminated line");
        std::string r = m_b.substr(m_p, e - m_p);
        m_p = e + 1;
        return r;
    }
    void marker(const std::string& want, bool own_line)
    {
        // Optional line end (or blank) before an end marker.
        while (m_p < m_b.size() && (m_b[m_p] == '\n' || m_b[m_p] == ' ' || m_b[m_p] == '\r' || m_b[m_p] == '\t')) m_p++;
        if (own_line && m_p > 0 && m_b[m_p - 1] != '\n') bad("\"" + want + "\" does not start a line");
        if (m_b.compare(m_p, want.size(), want) != 0) bad("expected \"" + want + "\"");
        m_p += want.size();
        if (m_p >= m_b.size() || (m_b[m_p] != '\n' && m_b[m_p] != '\r')) bad("\"" + want + "\" is not followed by a line end");
        while (m_p < m_b.size() && m_b[m_p] == '\r') m_p++;
        if (m_p < m_b.size() && m_b[m_p] == '\n') m_p++;
    }
    // ---- ASCII tokens
    std::string token()
    {
        while (m_p < m_b.size() && isspace(static_cast<unsigned char>(m_b[m_p]))) m_p++;
        size_t s = m_p;
        while (m_p < m_b.size() && !isspace(static_cast<unsigned char>(m_b[m_p]))) m_p++;
        if (s == m_p) bad("a token is missing");
        return m_b.substr(s, m_p - s);
    }
    uint64_t u()
    {
        std::string t = token();
        uint64_t v = 0;
        for (char c : t) {
            if (c < '0' || c > '9') bad("\"" + t + "\" is not an unsigned integer");
            unsigned __int128 w = static_cast<unsigned __int128>(v) * 10 + static_cast<unsigned>(c - '0');
            if (w > UINT64_MAX) bad("\"" + t + "\" exceeds 64 bits");
            v = static_cast<uint64_t>(w);
        }
        return v;
    }
    int i()
    {
        std::string t = token();
        size_t k = t[0] == '-' ? 1 : 0;
        if (k == t.size()) bad("\"" + t + "\" is not an integer");
        long long v = 0;
        for (size_t j = k; j < t.size(); j++) {
            if (t[j] < '0' || t[j] > '9') bad("\"" + t + "\" is not an integer");
            v = v * 10 + (t[j] - '0');
            if (v > (1ll << 31)) bad("\"" + t + "\" exceeds 32 bits");
        }
        if (k) v = -v;
        if (v < INT32_MIN || v > INT32_MAX) bad("\"" + t + "\" exceeds 32 bits");
        return static_cast<int>(v);
    }
    double d()
    {
        std::string t = token();
        for (char c : t)
            if (!(c >= '0' && c <= '9') && c != '+' && c != '-' && c != '.' && c != 'e' && c != 'E' && !isalpha(static_cast<unsigned char>(c))) bad("\"" + t + "\" is not a number");
        char* e = nullptr;
        double v = strtod(t.c_str(), &e);
        if (e == t.c_str() || *e) bad("\"" + t + "\" is not a number");
        return v;
    }
    std::string quoted()
    {
        while (m_p < m_b.size() && isspace(static_cast<unsigned char>(m_b[m_p]))) m_p++;
        if (m_p >= m_b.size() || m_b[m_p] != '"') bad("a quoted string is missing");
        m_p++;
        std::string r;
        for (;;) {
            if (m_p >= m_b.size()) bad("unterminated string");
            char c = m_b[m_p++];
            if (c == '\\') {
                if (m_p >= m_b.size()) bad("unterminated string");
                r += m_b[m_p++];
            } else if (c == '"') {
                break;
            } else {
                r += c;
            }
        }
        return r;
    }
    void newline() // rest of the line is blank
    {
        while (m_p < m_b.size() && (m_b[m_p] == ' ' || m_b[m_p] == '\t' || m_b[m_p] == '\r')) m_p++;
        if (m_p >= m_b.size() || m_b[m_p] != '\n') bad("a line end is missing");
        m_p++;
    }
    // ---- binary
    void raw(void* p, size_t n)
    {
        if (m_b.size() - m_p < n) bad("unexpected end of binary data");
        memcpy(p, m_b.data() + m_p, n);
        m_p += n;
    }
    int32_t bi32()
    {
        int32_t v;
        raw(&v, 4);
        return v;
    }
    uint64_t bu64()
    {
        uint64_t v;
        raw(&v, 8);
        return v;
    }
    double bf64()
    {
        double v;
        raw(&v, 8);
        return v;
    }
    // A count of items of at least `unit` bytes each.
    size_t count(uint64_t n, size_t unit)
    {
        if (n > (m_b.size() - m_p) / unit + 1) bad("count " + std::to_string(n) + " exceeds the file");
        return static_cast<size_t>(n);
    }

private:
    const std::string& m_b;
    size_t m_p = 0;
    std::string m_where = "start";
};

// What the file says.
struct Content
{
    MshSpec spec; // header, groups, data, splines; 4.1: everything
    std::vector<eq::FlatNode> nodes; // 2.2
    std::vector<El22> elements; // 2.2
    bool has_nodes = false, has_elements = false, has_entities = false, has_groups = false, has_spline_format = false;
    std::vector<std::string> order;
};

inline void read_ints(In& in, bool ascii, std::vector<int>& v)
{
    size_t n = in.count(ascii ? in.u() : in.bu64(), ascii ? 2 : 4);
    for (size_t k = 0; k < n; k++) v.push_back(ascii ? in.i() : in.bi32());
}

inline Content read(const std::string& bytes)
{
    Content c;
    MshSpec& m = c.spec;
    In in(bytes);
    // Header
    in.where("$MeshFormat");
    if (in.line() != "$MeshFormat") in.bad("the file does not begin with $MeshFormat");
    {
        std::string l = in.line();
        if (l != "4.1 0 8" && l != "4.1 1 8" && l != "2.2 0 8" && l != "2.2 1 8") in.bad("header line \"" + l + "\"");
        m.mesh_format.version = l.substr(0, 3);
        m.mesh_format.file_type = l[4] - '0';
        m.mesh_format.data_size = 8;
    }
    const bool ascii = m.mesh_format.file_type == 0, v41 = m.mesh_format.version == "4.1";
    if (!ascii && in.bi32() != 1) in.bad("byte order mark is not 1");
    in.marker("$EndMeshFormat", ascii);
    c.order.push_back("$MeshFormat");
    while (!in.end()) {
        in.where("between sections");
        std::string name = in.line();
        if (name.empty() || name[0] != '$') in.bad("a section name is missing");
        in.where(name);
        c.order.push_back(name);
        auto once = [&](bool& flag) {
            if (flag) in.bad("section occurs twice");
            flag = true;
        };
        bool own_line = ascii;
        if (name == "$PhysicalNames") {
            once(c.has_groups);
            size_t n = in.count(in.u(), 5);
            in.newline();
            for (size_t k = 0; k < n; k++) {
                PhysicalGroup g;
                g.dim = in.i();
                g.tag = in.i();
                g.name = in.quoted();
                in.newline();
                m.physical_groups.push_back(g);
            }
            own_line = true;
        } else if (name == "$Entities" && v41) {
            once(c.has_entities);
            size_t np = in.count(ascii ? in.u() : in.bu64(), 8), nc = in.count(ascii ? in.u() : in.bu64(), 8), ns = in.count(ascii ? in.u() : in.bu64(), 8), nv = in.count(ascii ? in.u() : in.bu64(), 8);
            if (ascii) in.newline();
            auto tag = [&]() { return ascii ? in.i() : in.bi32(); };
            auto dbl = [&]() { return ascii ? in.d() : in.bf64(); };
            for (size_t k = 0; k < np; k++) {
                PointEntity e;
                e.tag = tag();
                e.x = dbl();
                e.y = dbl();
                e.z = dbl();
                read_ints(in, ascii, e.physical_group_tags);
                if (ascii) in.newline();
                m.entities.points.push_back(e);
            }
            auto box = [&](auto& e) {
                e.tag = tag();
                e.min_x = dbl();
                e.min_y = dbl();
                e.min_z = dbl();
                e.max_x = dbl();
                e.max_y = dbl();
                e.max_z = dbl();
                read_ints(in, ascii, e.physical_group_tags);
            };
            for (size_t k = 0; k < nc; k++) {
                CurveEntity e;
                box(e);
                read_ints(in, ascii, e.boundary_point_tags);
                if (ascii) in.newline();
                m.entities.curves.push_back(e);
            }
            for (size_t k = 0; k < ns; k++) {
                SurfaceEntity e;
                box(e);
                read_ints(in, ascii, e.boundary_curve_tags);
                if (ascii) in.newline();
                m.entities.surfaces.push_back(e);
            }
            for (size_t k = 0; k < nv; k++) {
                VolumeEntity e;
                box(e);
                read_ints(in, ascii, e.boundary_surface_tags);
                if (ascii) in.newline();
                m.entities.volumes.push_back(e);
            }
        } else if (name == "$Nodes" && v41) {
            once(c.has_nodes);
            auto num = [&]() { return ascii ? in.u() : in.bu64(); };
            auto tag = [&]() { return ascii ? in.i() : in.bi32(); };
            m.nodes.num_entity_blocks = in.count(num(), 8);
            m.nodes.num_nodes = num();
            m.nodes.min_node_tag = num();
            m.nodes.max_node_tag = num();
            if (ascii) in.newline();
            size_t total = 0;
            for (size_t k = 0; k < m.nodes.num_entity_blocks; k++) {
                NodeBlock b;
                b.entity_dim = tag();
                b.entity_tag = tag();
                b.parametric = tag();
                if (b.parametric != 0 && b.parametric != 1) in.bad("parametric flag " + std::to_string(b.parametric));
                if (b.entity_dim < 0 || b.entity_dim > 3) in.bad("entity dimension " + std::to_string(b.entity_dim));
                size_t n = b.num_nodes_in_block = in.count(num(), ascii ? 8 : 32);
                if (ascii) in.newline();
                total += n;
                for (size_t j = 0; j < n; j++) {
                    b.tags.push_back(num());
                    if (ascii) in.newline();
                }
                size_t per = 3 + (b.parametric ? static_cast<size_t>(b.entity_dim) : 0);
                for (size_t j = 0; j < n; j++) {
                    for (size_t q = 0; q < per; q++) b.data.push_back(ascii ? in.d() : in.bf64());
                    if (ascii) in.newline();
                }
                m.nodes.entity_blocks.push_back(std::move(b));
            }
            if (total != m.nodes.num_nodes) in.bad("node blocks hold " + std::to_string(total) + " nodes, " + std::to_string(m.nodes.num_nodes) + " declared");
        } else if (name == "$Elements" && v41) {
            once(c.has_elements);
            auto num = [&]() { return ascii ? in.u() : in.bu64(); };
            auto tag = [&]() { return ascii ? in.i() : in.bi32(); };
            m.elements.num_entity_blocks = in.count(num(), 8);
            m.elements.num_elements = num();
            m.elements.min_element_tag = num();
            m.elements.max_element_tag = num();
            if (ascii) in.newline();
            size_t total = 0;
            for (size_t k = 0; k < m.elements.num_entity_blocks; k++) {
                ElementBlock b;
                b.entity_dim = tag();
                b.entity_tag = tag();
                b.element_type = tag();
                if (b.element_type < 1 || b.element_type > 31) in.bad("element type " + std::to_string(b.element_type));
                size_t n = b.num_elements_in_block = in.count(num(), ascii ? 4 : 16);
                if (ascii) in.newline();
                total += n;
                for (size_t j = 0; j < n; j++) {
                    for (size_t q = 0; q <= gen::kTable[b.element_type].nodes; q++) b.data.push_back(num());
                    if (ascii) in.newline();
                }
                m.elements.entity_blocks.push_back(std::move(b));
            }
            if (total != m.elements.num_elements) in.bad("element blocks hold " + std::to_string(total) + " elements, " + std::to_string(m.elements.num_elements) + " declared");
        } else if (name == "$Nodes") {
            once(c.has_nodes);
            size_t n = in.count(in.u(), ascii ? 8 : 28);
            in.newline();
            for (size_t k = 0; k < n; k++) {
                eq::FlatNode x;
                if (ascii) {
                    x.tag = in.u();
                    x.x = in.d();
                    x.y = in.d();
                    x.z = in.d();
                    in.newline();
                } else {
                    x.tag = static_cast<size_t>(in.bi32());
                    x.x = in.bf64();
                    x.y = in.bf64();
                    x.z = in.bf64();
                }
                c.nodes.push_back(x);
            }
        } else if (name == "$Elements") {
            once(c.has_elements);
            size_t n = in.count(in.u(), ascii ? 6 : 12);
            in.newline();
            auto one = [&](int type, int nt) {
                El22 e;
                e.type = type;
                if (!ascii) e.tag = in.bi32();
                if (type < 1 || type > 31) in.bad("element type " + std::to_string(type));
                for (int q = 0; q < nt; q++) e.tags.push_back(ascii ? in.i() : in.bi32());
                for (size_t q = 0; q < gen::kTable[type].nodes; q++) e.nodes.push_back(ascii ? in.i() : in.bi32());
                if (ascii) in.newline();
                return e;
            };
            if (ascii) {
                for (size_t k = 0; k < n; k++) {
                    int num = in.i(), type = in.i(), nt = in.i();
                    if (nt < 0) in.bad("negative number of tags");
                    El22 e = one(type, nt);
                    e.tag = num;
                    c.elements.push_back(std::move(e));
                }
            } else {
                size_t seen = 0;
                while (seen < n) {
                    int type = in.bi32(), k = in.bi32(), nt = in.bi32();
                    if (k <= 0 || static_cast<size_t>(k) > n - seen) in.bad("an element header announces " + std::to_string(k) + " elements, " + std::to_string(n - seen) + " remain");
                    if (nt < 0) in.bad("negative number of tags");
                    for (int q = 0; q < k; q++) c.elements.push_back(one(type, nt));
                    seen += static_cast<size_t>(k);
                }
            }
        } else if (name == "$NodeData" || name == "$ElementData" || name == "$ElementNodeData") {
            const bool en = name == "$ElementNodeData";
            Data d;
            size_t n = in.count(in.u(), 3);
            in.newline();
            for (size_t k = 0; k < n; k++) {
                d.header.string_tags.push_back(in.quoted());
                in.newline();
            }
            n = in.count(in.u(), 2);
            in.newline();
            for (size_t k = 0; k < n; k++) {
                d.header.real_tags.push_back(in.d());
                in.newline();
            }
            n = in.count(in.u(), 2);
            in.newline();
            for (size_t k = 0; k < n; k++) {
                d.header.int_tags.push_back(in.i());
                in.newline();
            }
            if (n < 3) in.bad("fewer than three integer tags");
            int fields = d.header.int_tags[1], ne = d.header.int_tags[2];
            if (fields < 0 || ne < 0) in.bad("negative counts");
            in.count(static_cast<uint64_t>(ne), 2);
            for (int k = 0; k < ne; k++) {
                DataEntry e;
                e.tag = ascii ? in.u() : static_cast<size_t>(in.bi32());
                size_t q = static_cast<size_t>(fields);
                if (en) {
                    e.num_nodes_per_element = ascii ? in.i() : in.bi32();
                    if (e.num_nodes_per_element < 0) in.bad("negative nodes per element");
                    q *= static_cast<size_t>(e.num_nodes_per_element);
                }
                for (size_t j = 0; j < q; j++) e.data.push_back(ascii ? in.d() : in.bf64());
                if (ascii && q > 0) in.newline();
                d.entries.push_back(std::move(e));
            }
            own_line = ascii && ne > 0 && (d.entries.empty() || !d.entries.back().data.empty());
            (en ? m.element_node_data : name == "$NodeData" ? m.node_data : m.element_data).push_back(std::move(d));
        } else if (util::kExt && name == "$NanoSplineFormat") {
            once(c.has_spline_format);
            m.nanospline_format.version = in.line();
            own_line = true;
        } else if (util::kExt && name == "$Curves") {
            size_t n = in.count(in.u(), 12);
            in.newline();
            if (!m.curves.empty()) in.bad("section occurs twice");
            for (size_t k = 0; k < n; k++) {
                Curve q;
                q.curve_tag = in.u();
                q.curve_type = in.u();
                q.curve_degree = in.u();
                q.num_control_points = in.u();
                q.num_knots = in.u();
                q.with_weights = in.u();
                in.newline();
                size_t nv = in.count(q.num_control_points, 6) * (q.with_weights ? 4 : 3) + in.count(q.num_knots, 2);
                for (size_t j = 0; j < nv; j++) q.data.push_back(ascii ? in.d() : in.bf64());
                if (ascii && nv) in.newline();
                m.curves.push_back(std::move(q));
            }
        } else if (util::kExt && name == "$Patches") {
            size_t n = in.count(in.u(), 16);
            in.newline();
            if (!m.patches.empty()) in.bad("section occurs twice");
            for (size_t k = 0; k < n; k++) {
                Patch q;
                q.patch_tag = in.u();
                q.patch_type = in.u();
                q.degree_u = in.u();
                q.degree_v = in.u();
                q.num_control_points = in.u();
                q.num_u_knots = in.u();
                q.num_v_knots = in.u();
                q.with_weights = in.u();
                in.newline();
                size_t nv = in.count(q.num_control_points, 6) * (q.with_weights ? 4 : 3) + in.count(q.num_u_knots, 2) + in.count(q.num_v_knots, 2);
                for (size_t j = 0; j < nv; j++) q.data.push_back(ascii ? in.d() : in.bf64());
                if (ascii && nv) in.newline();
                m.patches.push_back(std::move(q));
            }
        } else {
            in.bad("section \"" + name + "\" does not belong into MSH " + m.mesh_format.version);
        }
        in.marker("$End" + name.substr(1), own_line);
    }
    return c;
}

} // namespace ref
