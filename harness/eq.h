// Comparison, description and classification of specifications.
#pragma once
#include "gen.h"

namespace eq {

using namespace mshio;
using gen::to_bits;

inline std::string show(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g(0x%016llx)", d, static_cast<unsigned long long>(to_bits(d)));
    return b;
}
template <typename T>
std::string show(const T& v)
{
    std::stringstream ss;
    ss << v;
    return ss.str();
}
inline std::string show(const std::string& s) { return "\"" + pbt::json_escape(s.substr(0, 200)) + "\""; }

// Text cannot carry the payload of a NaN: where text is compared, any NaN equals any NaN.
inline bool& any_nan()
{
    static bool b = false;
    return b;
}
inline bool same(double a, double b) { return to_bits(a) == to_bits(b) || (any_nan() && std::isnan(a) && std::isnan(b)); }
template <typename T>
bool same(const T& a, const T& b)
{
    return a == b;
}

struct Diff
{
    std::string out;
    template <typename T>
    bool f(const std::string& path, const T& a, const T& b)
    {
        if (same(a, b)) return true;
        if (out.empty()) out = path + ": expected " + show(a) + ", got " + show(b);
        return false;
    }
    template <typename T>
    void v(const std::string& path, const std::vector<T>& a, const std::vector<T>& b)
    {
        if (!out.empty()) return;
        if (!f(path + ".size", a.size(), b.size())) return;
        for (size_t i = 0; i < a.size(); i++)
            if (!same(a[i], b[i])) {
                f(path + "[" + std::to_string(i) + "]", a[i], b[i]);
                return;
            }
    }
};

inline void data(Diff& d, const std::string& p, const std::vector<Data>& a, const std::vector<Data>& b, bool en)
{
    if (!d.f(p + ".size", a.size(), b.size())) return;
    for (size_t i = 0; i < a.size() && d.out.empty(); i++) {
        std::string q = p + "[" + std::to_string(i) + "]";
        d.v(q + ".string_tags", a[i].header.string_tags, b[i].header.string_tags);
        d.v(q + ".real_tags", a[i].header.real_tags, b[i].header.real_tags);
        d.v(q + ".int_tags", a[i].header.int_tags, b[i].header.int_tags);
        if (!d.f(q + ".entries.size", a[i].entries.size(), b[i].entries.size())) return;
        for (size_t j = 0; j < a[i].entries.size() && d.out.empty(); j++) {
            std::string r = q + ".entries[" + std::to_string(j) + "]";
            d.f(r + ".tag", a[i].entries[j].tag, b[i].entries[j].tag);
            if (en) d.f(r + ".num_nodes_per_element", a[i].entries[j].num_nodes_per_element, b[i].entries[j].num_nodes_per_element);
            d.v(r + ".data", a[i].entries[j].data, b[i].entries[j].data);
        }
    }
}

inline void groups(Diff& d, const MshSpec& a, const MshSpec& b)
{
    if (!d.f("physical_groups.size", a.physical_groups.size(), b.physical_groups.size())) return;
    for (size_t i = 0; i < a.physical_groups.size() && d.out.empty(); i++) {
        std::string q = "physical_groups[" + std::to_string(i) + "]";
        d.f(q + ".dim", a.physical_groups[i].dim, b.physical_groups[i].dim);
        d.f(q + ".tag", a.physical_groups[i].tag, b.physical_groups[i].tag);
        d.f(q + ".name", a.physical_groups[i].name, b.physical_groups[i].name);
    }
}

inline void all_data(Diff& d, const MshSpec& a, const MshSpec& b)
{
    data(d, "node_data", a.node_data, b.node_data, false);
    data(d, "element_data", a.element_data, b.element_data, false);
    data(d, "element_node_data", a.element_node_data, b.element_node_data, true);
}

template <typename E>
void bbox(Diff& d, const std::string& q, const E& a, const E& b)
{
    d.f(q + ".tag", a.tag, b.tag);
    d.f(q + ".min_x", a.min_x, b.min_x);
    d.f(q + ".min_y", a.min_y, b.min_y);
    d.f(q + ".min_z", a.min_z, b.min_z);
    d.f(q + ".max_x", a.max_x, b.max_x);
    d.f(q + ".max_y", a.max_y, b.max_y);
    d.f(q + ".max_z", a.max_z, b.max_z);
    d.v(q + ".physical_group_tags", a.physical_group_tags, b.physical_group_tags);
}

inline void entities(Diff& d, const MshSpec& a, const MshSpec& b)
{
    const auto &A = a.entities, &B = b.entities;
    if (!d.f("points.size", A.points.size(), B.points.size()) || !d.f("curves.size", A.curves.size(), B.curves.size()) ||
        !d.f("surfaces.size", A.surfaces.size(), B.surfaces.size()) || !d.f("volumes.size", A.volumes.size(), B.volumes.size()))
        return;
    for (size_t i = 0; i < A.points.size() && d.out.empty(); i++) {
        std::string q = "points[" + std::to_string(i) + "]";
        d.f(q + ".tag", A.points[i].tag, B.points[i].tag);
        d.f(q + ".x", A.points[i].x, B.points[i].x);
        d.f(q + ".y", A.points[i].y, B.points[i].y);
        d.f(q + ".z", A.points[i].z, B.points[i].z);
        d.v(q + ".physical_group_tags", A.points[i].physical_group_tags, B.points[i].physical_group_tags);
    }
    for (size_t i = 0; i < A.curves.size() && d.out.empty(); i++) {
        std::string q = "curves[" + std::to_string(i) + "]";
        bbox(d, q, A.curves[i], B.curves[i]);
        d.v(q + ".boundary", A.curves[i].boundary_point_tags, B.curves[i].boundary_point_tags);
    }
    for (size_t i = 0; i < A.surfaces.size() && d.out.empty(); i++) {
        std::string q = "surfaces[" + std::to_string(i) + "]";
        bbox(d, q, A.surfaces[i], B.surfaces[i]);
        d.v(q + ".boundary", A.surfaces[i].boundary_curve_tags, B.surfaces[i].boundary_curve_tags);
    }
    for (size_t i = 0; i < A.volumes.size() && d.out.empty(); i++) {
        std::string q = "volumes[" + std::to_string(i) + "]";
        bbox(d, q, A.volumes[i], B.volumes[i]);
        d.v(q + ".boundary", A.volumes[i].boundary_surface_tags, B.volumes[i].boundary_surface_tags);
    }
}

inline void nodes(Diff& d, const Nodes& A, const Nodes& B)
{
    d.f("nodes.num_entity_blocks", A.num_entity_blocks, B.num_entity_blocks);
    d.f("nodes.num_nodes", A.num_nodes, B.num_nodes);
    d.f("nodes.min_node_tag", A.min_node_tag, B.min_node_tag);
    d.f("nodes.max_node_tag", A.max_node_tag, B.max_node_tag);
    if (!d.f("nodes.entity_blocks.size", A.entity_blocks.size(), B.entity_blocks.size())) return;
    for (size_t i = 0; i < A.entity_blocks.size() && d.out.empty(); i++) {
        std::string q = "nodes.block[" + std::to_string(i) + "]";
        const auto &x = A.entity_blocks[i], &y = B.entity_blocks[i];
        d.f(q + ".entity_dim", x.entity_dim, y.entity_dim);
        d.f(q + ".entity_tag", x.entity_tag, y.entity_tag);
        d.f(q + ".parametric", x.parametric, y.parametric);
        d.f(q + ".num_nodes_in_block", x.num_nodes_in_block, y.num_nodes_in_block);
        d.v(q + ".tags", x.tags, y.tags);
        d.v(q + ".data", x.data, y.data);
    }
}

inline void elements(Diff& d, const Elements& A, const Elements& B)
{
    d.f("elements.num_entity_blocks", A.num_entity_blocks, B.num_entity_blocks);
    d.f("elements.num_elements", A.num_elements, B.num_elements);
    d.f("elements.min_element_tag", A.min_element_tag, B.min_element_tag);
    d.f("elements.max_element_tag", A.max_element_tag, B.max_element_tag);
    if (!d.f("elements.entity_blocks.size", A.entity_blocks.size(), B.entity_blocks.size())) return;
    for (size_t i = 0; i < A.entity_blocks.size() && d.out.empty(); i++) {
        std::string q = "elements.block[" + std::to_string(i) + "]";
        const auto &x = A.entity_blocks[i], &y = B.entity_blocks[i];
        d.f(q + ".entity_dim", x.entity_dim, y.entity_dim);
        d.f(q + ".entity_tag", x.entity_tag, y.entity_tag);
        d.f(q + ".element_type", x.element_type, y.element_type);
        d.f(q + ".num_elements_in_block", x.num_elements_in_block, y.num_elements_in_block);
        d.v(q + ".data", x.data, y.data);
    }
}

inline void splines(Diff& d, const MshSpec& a, const MshSpec& b)
{
    d.f("nanospline_format.version", a.nanospline_format.version, b.nanospline_format.version);
    if (!d.f("curves.size", a.curves.size(), b.curves.size())) return;
    for (size_t i = 0; i < a.curves.size() && d.out.empty(); i++) {
        std::string q = "spline_curves[" + std::to_string(i) + "]";
        const auto &x = a.curves[i], &y = b.curves[i];
        d.f(q + ".curve_tag", x.curve_tag, y.curve_tag);
        d.f(q + ".curve_type", x.curve_type, y.curve_type);
        d.f(q + ".curve_degree", x.curve_degree, y.curve_degree);
        d.f(q + ".num_control_points", x.num_control_points, y.num_control_points);
        d.f(q + ".num_knots", x.num_knots, y.num_knots);
        d.f(q + ".with_weights", x.with_weights, y.with_weights);
        d.v(q + ".data", x.data, y.data);
    }
    if (!d.f("patches.size", a.patches.size(), b.patches.size())) return;
    for (size_t i = 0; i < a.patches.size() && d.out.empty(); i++) {
        std::string q = "spline_patches[" + std::to_string(i) + "]";
        const auto &x = a.patches[i], &y = b.patches[i];
        d.f(q + ".patch_tag", x.patch_tag, y.patch_tag);
        d.f(q + ".patch_type", x.patch_type, y.patch_type);
        d.f(q + ".degree_u", x.degree_u, y.degree_u);
        d.f(q + ".degree_v", x.degree_v, y.degree_v);
        d.f(q + ".num_control_points", x.num_control_points, y.num_control_points);
        d.f(q + ".num_u_knots", x.num_u_knots, y.num_u_knots);
        d.f(q + ".num_v_knots", x.num_v_knots, y.num_v_knots);
        d.f(q + ".with_weights", x.with_weights, y.with_weights);
        d.v(q + ".data", x.data, y.data);
    }
}

// Everything but the extension (compared only when `ext`). "" if equal. `a` is the expected one.
inline std::string diff(const MshSpec& a, const MshSpec& b, bool ext, bool header = true)
{
    Diff d;
    if (header) {
        d.f("mesh_format.version", a.mesh_format.version, b.mesh_format.version);
        d.f("mesh_format.file_type", a.mesh_format.file_type, b.mesh_format.file_type);
        d.f("mesh_format.data_size", a.mesh_format.data_size, b.mesh_format.data_size);
    }
    nodes(d, a.nodes, b.nodes);
    elements(d, a.elements, b.elements);
    entities(d, a, b);
    groups(d, a, b);
    all_data(d, a, b);
    if (ext) splines(d, a, b);
    return d.out;
}

// ---- MSH 2.2: what the format carries -------------------------------------------------------------------------------

struct FlatElement
{
    size_t tag;
    int type, dim, entity;
    std::vector<size_t> nodes;
};

// Flat element sequence of any consistent specification.
inline std::vector<FlatElement> flat_elements(const MshSpec& s)
{
    std::vector<FlatElement> r;
    for (const auto& b : s.elements.entity_blocks) {
        size_t n = gen::kTable[b.element_type].nodes;
        for (size_t i = 0; i < b.num_elements_in_block; i++) {
            FlatElement e;
            e.tag = b.data[i * (n + 1)];
            e.type = b.element_type;
            e.dim = b.entity_dim;
            e.entity = b.entity_tag;
            e.nodes.assign(b.data.begin() + static_cast<long>(i * (n + 1) + 1), b.data.begin() + static_cast<long>((i + 1) * (n + 1)));
            r.push_back(std::move(e));
        }
    }
    return r;
}

struct FlatNode
{
    size_t tag;
    double x, y, z;
};
inline std::vector<FlatNode> flat_nodes(const MshSpec& s)
{
    std::vector<FlatNode> r;
    for (const auto& b : s.nodes.entity_blocks) {
        size_t per = 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0);
        for (size_t i = 0; i < b.num_nodes_in_block; i++) r.push_back({b.tags[i], b.data[i * per], b.data[i * per + 1], b.data[i * per + 2]});
    }
    return r;
}

// Arrays match counts. "" if sound.
inline std::string structure(const MshSpec& s)
{
    std::stringstream o;
    if (s.nodes.num_entity_blocks != s.nodes.entity_blocks.size()) {
        o << "nodes: " << s.nodes.num_entity_blocks << " blocks declared, " << s.nodes.entity_blocks.size() << " present";
        return o.str();
    }
    for (size_t i = 0; i < s.nodes.entity_blocks.size(); i++) {
        const auto& b = s.nodes.entity_blocks[i];
        if (b.parametric == 1 && (b.entity_dim < 0 || b.entity_dim > 3)) {
            o << "node block " << i << ": parametric with dimension " << b.entity_dim;
            return o.str();
        }
        size_t per = 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0);
        if (b.tags.size() != b.num_nodes_in_block || b.data.size() != b.num_nodes_in_block * per) {
            o << "node block " << i << ": " << b.num_nodes_in_block << " nodes declared, " << b.tags.size() << " tags, " << b.data.size() << " values, parametric "
              << b.parametric << " dim " << b.entity_dim;
            return o.str();
        }
    }
    if (s.elements.num_entity_blocks != s.elements.entity_blocks.size()) {
        o << "elements: " << s.elements.num_entity_blocks << " blocks declared, " << s.elements.entity_blocks.size() << " present";
        return o.str();
    }
    for (size_t i = 0; i < s.elements.entity_blocks.size(); i++) {
        const auto& b = s.elements.entity_blocks[i];
        if (b.element_type < 1 || b.element_type > 31) {
            o << "element block " << i << ": type " << b.element_type;
            return o.str();
        }
        size_t n = gen::kTable[b.element_type].nodes + 1;
        if (b.data.size() % n != 0 || b.data.size() / n != b.num_elements_in_block) {
            o << "element block " << i << ": " << b.num_elements_in_block << " elements of type " << b.element_type << " declared, " << b.data.size() << " values";
            return o.str();
        }
    }
    auto data = [&](const std::vector<Data>& v, const char* what, bool en) {
        for (size_t i = 0; i < v.size(); i++) {
            const auto& h = v[i].header.int_tags;
            if (h.size() < 3 || h[1] < 0 || h[2] < 0 || v[i].entries.size() != static_cast<size_t>(h[2])) {
                o << what << " " << i << ": " << h.size() << " int tags, " << v[i].entries.size() << " entries";
                return false;
            }
            for (size_t j = 0; j < v[i].entries.size(); j++) {
                const auto& e = v[i].entries[j];
                size_t want = static_cast<size_t>(h[1]);
                if (en) {
                    if (e.num_nodes_per_element < 0) {
                        o << what << " " << i << " entry " << j << ": " << e.num_nodes_per_element << " nodes per element";
                        return false;
                    }
                    want *= static_cast<size_t>(e.num_nodes_per_element);
                }
                if (e.data.size() != want) {
                    o << what << " " << i << " entry " << j << ": " << e.data.size() << " values, expected " << want;
                    return false;
                }
            }
        }
        return true;
    };
    if (!data(s.node_data, "node data", false) || !data(s.element_data, "element data", false) || !data(s.element_node_data, "element-node data", true)) return o.str();
    auto mul = [](size_t a, size_t b, size_t c) { return static_cast<unsigned __int128>(a) * b + c; };
    for (size_t i = 0; i < s.curves.size(); i++) {
        const auto& c = s.curves[i];
        if (mul(c.num_control_points, c.with_weights > 0 ? 4 : 3, 0) + c.num_knots != c.data.size()) {
            o << "spline curve " << i << ": " << c.data.size() << " values";
            return o.str();
        }
    }
    for (size_t i = 0; i < s.patches.size(); i++) {
        const auto& c = s.patches[i];
        if (mul(c.num_control_points, c.with_weights > 0 ? 4 : 3, 0) + c.num_u_knots + c.num_v_knots != c.data.size()) {
            o << "spline patch " << i << ": " << c.data.size() << " values";
            return o.str();
        }
    }
    return "";
}

// The loaded 2.2 specification `b` describes the given flat content. "" if so.
inline std::string check_flat(const std::vector<FlatNode>& fn, const std::vector<FlatElement>& fe, const MshSpec& b)
{
    std::string st = structure(b);
    if (!st.empty()) return "structure: " + st;
    Diff d;
    auto gn = flat_nodes(b);
    auto ge = flat_elements(b);
    d.f("number of nodes", fn.size(), gn.size());
    d.f("nodes.num_nodes", fn.size(), b.nodes.num_nodes);
    for (size_t i = 0; i < fn.size() && d.out.empty(); i++) {
        std::string q = "node#" + std::to_string(i);
        d.f(q + ".tag", fn[i].tag, gn[i].tag);
        d.f(q + ".x", fn[i].x, gn[i].x);
        d.f(q + ".y", fn[i].y, gn[i].y);
        d.f(q + ".z", fn[i].z, gn[i].z);
    }
    d.f("number of elements", fe.size(), ge.size());
    d.f("elements.num_elements", fe.size(), b.elements.num_elements);
    for (size_t i = 0; i < fe.size() && d.out.empty(); i++) {
        std::string q = "element#" + std::to_string(i);
        d.f(q + ".tag", fe[i].tag, ge[i].tag);
        d.f(q + ".type", fe[i].type, ge[i].type);
        d.f(q + ".dim", fe[i].dim, ge[i].dim);
        d.f(q + ".entity", fe[i].entity, ge[i].entity);
        d.v(q + ".nodes", fe[i].nodes, ge[i].nodes);
    }
    if (!d.out.empty()) return d.out;
    size_t lo = 0, hi = 0;
    if (!fn.empty()) {
        lo = SIZE_MAX;
        for (auto& n : fn) lo = std::min(lo, n.tag), hi = std::max(hi, n.tag);
    }
    d.f("nodes.min_node_tag", lo, b.nodes.min_node_tag);
    d.f("nodes.max_node_tag", hi, b.nodes.max_node_tag);
    lo = hi = 0;
    if (!fe.empty()) {
        lo = SIZE_MAX;
        for (auto& n : fe) lo = std::min(lo, n.tag), hi = std::max(hi, n.tag);
    }
    d.f("elements.min_element_tag", lo, b.elements.min_element_tag);
    d.f("elements.max_element_tag", hi, b.elements.max_element_tag);
    return d.out;
}

// Grouping and node classification of a loaded 2.2 specification.
inline std::string check_grouping(const MshSpec& b)
{
    const auto& eb = b.elements.entity_blocks;
    for (size_t i = 0; i < eb.size(); i++) {
        if (eb[i].num_elements_in_block == 0) return "element block " + std::to_string(i) + " is empty after loading 2.2";
        if (i && eb[i].entity_dim == eb[i - 1].entity_dim && eb[i].entity_tag == eb[i - 1].entity_tag && eb[i].element_type == eb[i - 1].element_type)
            return "element blocks " + std::to_string(i - 1) + " and " + std::to_string(i) + " should be one";
    }
    std::map<size_t, std::set<std::pair<int, int>>> use;
    for (const auto& e : flat_elements(b))
        for (size_t n : e.nodes) use[n].insert({e.dim, e.entity});
    const auto& nb = b.nodes.entity_blocks;
    for (size_t i = 0; i < nb.size(); i++) {
        if (nb[i].num_nodes_in_block == 0) return "node block " + std::to_string(i) + " is empty after loading 2.2";
        if (nb[i].parametric != 0) return "node block " + std::to_string(i) + " is parametric after loading 2.2";
        if (i && nb[i].entity_dim == nb[i - 1].entity_dim && nb[i].entity_tag == nb[i - 1].entity_tag)
            return "node blocks " + std::to_string(i - 1) + " and " + std::to_string(i) + " should be one";
        for (size_t t : nb[i].tags) {
            auto it = use.find(t);
            if (it != use.end() && !it->second.count({nb[i].entity_dim, nb[i].entity_tag}))
                return "node " + std::to_string(t) + " is in entity dim " + std::to_string(nb[i].entity_dim) + " tag " + std::to_string(nb[i].entity_tag) + ", which none of its elements belongs to";
        }
    }
    return "";
}

// (dim, tag) -> physical groups
using GroupMap = std::map<std::pair<int, int>, std::set<int>>;
inline GroupMap group_map(const Entities& e, std::string* dup = nullptr)
{
    GroupMap m;
    auto add = [&](int dim, int tag, const std::vector<int>& g) {
        if (dup && m.count({dim, tag})) *dup = "entity dim " + std::to_string(dim) + " tag " + std::to_string(tag) + " listed twice";
        m[{dim, tag}].insert(g.begin(), g.end());
    };
    for (auto& x : e.points) add(0, x.tag, x.physical_group_tags);
    for (auto& x : e.curves) add(1, x.tag, x.physical_group_tags);
    for (auto& x : e.surfaces) add(2, x.tag, x.physical_group_tags);
    for (auto& x : e.volumes) add(3, x.tag, x.physical_group_tags);
    return m;
}

inline std::string show(const std::set<int>& v)
{
    std::stringstream ss;
    ss << "{";
    for (int x : v) ss << " " << x;
    ss << " }";
    return ss.str();
}

// Physical-group membership of every element of `b` is that of the same element of `a` where the latter has at most one.
inline std::string check_membership(const MshSpec& a, const MshSpec& b)
{
    std::string dup;
    GroupMap ga = group_map(a.entities), gb = group_map(b.entities, &dup);
    if (!dup.empty()) return dup;
    auto ea = flat_elements(a), eb = flat_elements(b);
    if (ea.size() != eb.size()) return "number of elements differs";
    for (size_t i = 0; i < ea.size(); i++) {
        auto get = [](const GroupMap& m, const FlatElement& e) {
            auto it = m.find({e.dim, e.entity});
            return it == m.end() ? std::set<int>() : it->second;
        };
        std::set<int> x = get(ga, ea[i]), y = get(gb, eb[i]);
        if (x.size() <= 1) {
            if (x != y) return "element " + std::to_string(ea[i].tag) + ": physical groups " + show(x) + " became " + show(y);
        } else {
            for (int v : y)
                if (!x.count(v)) return "element " + std::to_string(ea[i].tag) + ": physical group " + std::to_string(v) + " appeared from nowhere";
        }
    }
    return "";
}

// Save as 2.2 and load: everything C03 promises.
inline std::string check22(const MshSpec& before, const MshSpec& after, bool ext)
{
    auto fn = flat_nodes(before);
    auto fe = flat_elements(before);
    for (auto& e : fe) e.dim = gen::kTable[e.type].dim;
    std::string r = check_flat(fn, fe, after);
    if (!r.empty()) return r;
    Diff d;
    groups(d, before, after);
    all_data(d, before, after);
    if (ext) splines(d, before, after);
    return d.out;
}

// ---- description -----------------------------------------------------------------------------------------------------

inline std::string summary(const MshSpec& s)
{
    std::stringstream o;
    o << "nodes[" << s.nodes.num_nodes << " in " << s.nodes.entity_blocks.size() << " blocks, tags " << s.nodes.min_node_tag << ".." << s.nodes.max_node_tag << "]";
    o << " elements[" << s.elements.num_elements << " in " << s.elements.entity_blocks.size() << " blocks:";
    for (size_t i = 0; i < s.elements.entity_blocks.size() && i < 5; i++)
        o << " " << s.elements.entity_blocks[i].num_elements_in_block << "xT" << s.elements.entity_blocks[i].element_type << "@" << s.elements.entity_blocks[i].entity_tag;
    o << "] entities[" << s.entities.points.size() << "," << s.entities.curves.size() << "," << s.entities.surfaces.size() << "," << s.entities.volumes.size() << "]";
    o << " groups[" << s.physical_groups.size() << "]";
    o << " data[" << s.node_data.size() << "," << s.element_data.size() << "," << s.element_node_data.size() << "]";
    if (!s.curves.empty() || !s.patches.empty()) o << " splines[" << s.curves.size() << "," << s.patches.size() << "]";
    return o.str();
}

inline std::string bytes_text(const std::string& s, size_t max = 3000)
{
    return "\"" + pbt::json_escape(s.substr(0, max)) + "\"" + (s.size() > max ? "... (" + std::to_string(s.size()) + " bytes)" : "");
}

inline void classify(pbt::Ctx& c, const MshSpec& s)
{
    c.label_if(s.nodes.num_nodes == 0, "no nodes");
    c.label_if(s.nodes.entity_blocks.size() > 1, "several node blocks");
    c.label_if(s.nodes.num_nodes > 1000, "over 1000 nodes");
    c.label_if(s.elements.num_elements > 0, "has elements");
    c.label_if(s.elements.num_elements > 1000, "over 1000 elements");
    c.label_if(s.elements.entity_blocks.size() > 1, "several element blocks");
    c.label_if(!s.entities.empty(), "has entities");
    c.label_if(!s.physical_groups.empty(), "has physical groups");
    c.label_if(!s.node_data.empty() || !s.element_data.empty() || !s.element_node_data.empty(), "has post-processing data");
    c.label_if(s.node_data.size() + s.element_data.size() + s.element_node_data.size() > 2, "several data sections");
    bool par = false, empty = false;
    for (auto& b : s.nodes.entity_blocks) par |= b.parametric && b.entity_dim > 0 && b.num_nodes_in_block, empty |= b.num_nodes_in_block == 0;
    for (auto& b : s.elements.entity_blocks) empty |= b.num_elements_in_block == 0;
    c.label_if(par, "parametric nodes");
    c.label_if(empty, "empty blocks");
    c.label_if(s.nodes.num_nodes > 1 && s.nodes.max_node_tag - s.nodes.min_node_tag >= 4 * s.nodes.num_nodes, "sparse node tags");
    c.label_if(s.nodes.max_node_tag > INT32_MAX, "node tags beyond 32 bits");
}

} // namespace eq
