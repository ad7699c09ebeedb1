// What C24 promises about a loaded specification: saved in its own format and loaded it is the same, and the bytes settle.
#pragma once
#include "consistent.h"

namespace stable {

using namespace util;

inline bool fits(const MshSpec& a)
{
    const size_t m = INT32_MAX;
    for (auto& b : a.nodes.entity_blocks)
        for (size_t t : b.tags)
            if (t > m) return false;
    for (auto& b : a.elements.entity_blocks)
        for (size_t t : b.data)
            if (t > m) return false;
    return true;
}

// What goes into text in format f is finite.
inline bool text_finite(const MshSpec& m, const Format& f)
{
    auto ok = [](double v) { return std::isfinite(v); };
    for (auto* v : {&m.node_data, &m.element_data, &m.element_node_data})
        for (auto& d : *v) {
            for (double x : d.header.real_tags)
                if (!ok(x)) return false;
            if (f.ascii())
                for (auto& e : d.entries)
                    for (double x : e.data)
                        if (!ok(x)) return false;
        }
    if (!f.ascii()) return true;
    for (auto& b : m.nodes.entity_blocks)
        for (double x : b.data)
            if (!ok(x)) return false;
    for (auto& e : m.entities.points)
        if (!ok(e.x) || !ok(e.y) || !ok(e.z)) return false;
    auto bb = [&](auto& v) {
        for (auto& e : v)
            if (!ok(e.min_x) || !ok(e.min_y) || !ok(e.min_z) || !ok(e.max_x) || !ok(e.max_y) || !ok(e.max_z)) return false;
        return true;
    };
    if (!bb(m.entities.curves) || !bb(m.entities.surfaces) || !bb(m.entities.volumes)) return false;
    for (auto& c : m.curves)
        for (double x : c.data)
            if (!ok(x)) return false;
    for (auto& c : m.patches)
        for (double x : c.data)
            if (!ok(x)) return false;
    return true;
}
// Entry tags fit the 32 bits that binary and 2.2 post-processing sections give them.
inline bool data_tags_fit(const MshSpec& m)
{
    for (auto* v : {&m.node_data, &m.element_data, &m.element_node_data})
        for (auto& d : *v)
            for (auto& e : d.entries)
                if (e.tag > INT32_MAX) return false;
    return true;
}

// A range of no tags is not content.
inline MshSpec normal(MshSpec a)
{
    if (a.nodes.entity_blocks.empty()) a.nodes.min_node_tag = a.nodes.max_node_tag = 0;
    if (a.elements.entity_blocks.empty()) a.elements.min_element_tag = a.elements.max_element_tag = 0;
    return a;
}

// "" if the property holds for what `bytes` load to. Sets *accepted if the file was loaded and validated.
inline std::string check(const std::string& bytes, bool* accepted = nullptr, bool* is22 = nullptr)
{
    if (accepted) *accepted = false;
    MshSpec a;
    if (attempt([&] { a = load(bytes); }) != Exc::none || known::validate(a) != Exc::none) return "";
    const bool v22 = a.mesh_format.version == "2.2";
    // Known finding: contradictions the validator does not notice (4.1 stores the totals as they are).
    if (cons::judge(a).parts & known::unchecked() & ~(v22 ? 0u : static_cast<unsigned>(known::kTotals))) return "";
    if (accepted) *accepted = true;
    if (is22) *is22 = v22;
    const Format f = {v22 ? "2.2" : "4.1", a.mesh_format.file_type};
    // A file with several headers may hold what its last kind cannot represent.
    if ((v22 && !fits(a)) || ((v22 || !f.ascii()) && !data_tags_fit(a)) || !text_finite(a, f)) return "";
    std::string b1, b2, b3, what;
    MshSpec a1, a2;
    if (attempt([&] { b1 = save(a); }, &what) != Exc::none) return "what was loaded and validated cannot be saved: " + what;
    if (attempt([&] { a1 = load(b1); }, &what) != Exc::none) return "what was loaded, validated and saved cannot be loaded again: " + what + "\nsaved: " + eq::bytes_text(b1);
    std::string d;
    if (!v22) {
        d = eq::diff(normal(a), normal(a1), kExt);
    } else {
        d = eq::check22(a, a1, kExt);
        std::string dup;
        eq::group_map(a.entities, &dup);
        bool odd = !dup.empty(); // sections of several versions in one file
        for (auto& b : a.elements.entity_blocks) odd |= b.entity_dim != gen::kTable[b.element_type].dim;
        if (d.empty() && !odd) d = eq::check_membership(a, a1);
        if (d.empty() && (a1.mesh_format.version != "2.2" || a1.mesh_format.file_type != a.mesh_format.file_type || a1.mesh_format.data_size != a.mesh_format.data_size)) d = "header changed";
    }
    if (!d.empty()) return "loaded, saved and loaded again: " + d + "\nsaved: " + eq::bytes_text(b1);
    // Format 2.2 does not carry declared tag ranges wider than the tags (a file with headers of both versions may have
    // declared some), so an element that refers to a missing node is noticed only once they are gone.
    const bool narrower = v22 && (a.nodes.min_node_tag != a1.nodes.min_node_tag || a.nodes.max_node_tag != a1.nodes.max_node_tag);
    if (!narrower && known::validate(a1, &what) != Exc::none) return "loaded, validated, saved and loaded again, the validator refuses it: " + what;
    if (attempt([&] { b2 = save(a1); a2 = load(b2); b3 = save(a2); }, &what) != Exc::none) return "the second save and load fails: " + what;
    if (b3 != b2) return "the bytes still change after the second save\nsecond: " + eq::bytes_text(b2) + "\nthird: " + eq::bytes_text(b3);
    d = eq::diff(a1, a2, kExt);
    if (!d.empty()) return "second load: " + d;
    return "";
}

} // namespace stable
