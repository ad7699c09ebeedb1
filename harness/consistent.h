// When is a specification consistent? Written from the documentation of the data structure, independently of the
// library's validator. And a generator of specifications that need not be.
#pragma once
#include "known.h"

namespace cons {

using namespace util;

enum class Verdict { no, unclear, yes };

struct Result
{
    Verdict v = Verdict::yes;
    bool bad_type = false; // reason for "no"
    unsigned parts = 0; // what the reasons concern
    std::string why;
    void no(const std::string& w, unsigned part = known::kOther)
    {
        if (v != Verdict::no) why = w;
        v = Verdict::no;
        parts |= part;
    }
    void unclear(const std::string& w, unsigned part = known::kOther)
    {
        parts |= part;
        if (v == Verdict::yes) {
            v = Verdict::unclear;
            why = w;
        }
    }
};

using u128 = unsigned __int128;

inline Result judge(const MshSpec& s)
{
    Result r;
    const auto& N = s.nodes;
    if (N.num_entity_blocks != N.entity_blocks.size()) r.no("number of node blocks");
    u128 total = 0;
    for (auto& b : N.entity_blocks) {
        total += b.num_nodes_in_block;
        if (b.tags.size() != b.num_nodes_in_block) r.no("number of node tags in a block");
        if (b.parametric == 0 || b.parametric == 2 || b.parametric == 3) {
            if (b.data.size() != static_cast<u128>(b.num_nodes_in_block) * 3) {
                if (b.parametric == 0)
                    r.no("number of coordinates in a block");
                else
                    r.unclear("unusual parametric flag", known::kParametric);
            }
            if (b.parametric != 0) r.unclear("unusual parametric flag", known::kParametric);
            if (b.entity_dim < 0 || b.entity_dim > 3) r.unclear("dimension of a node block", 0);
        } else if (b.parametric == 1) {
            if (b.entity_dim < 0 || b.entity_dim > 3)
                r.unclear("dimension of a parametric block", known::kParametric);
            else if (b.data.size() != static_cast<u128>(b.num_nodes_in_block) * static_cast<unsigned>(3 + b.entity_dim))
                r.no("number of coordinates in a parametric block");
        } else {
            r.unclear("unknown parametric flag", known::kParametric);
        }
        for (size_t t : b.tags)
            if (t < N.min_node_tag || t > N.max_node_tag) r.no("node tag outside the declared range");
    }
    if (total != N.num_nodes) r.no("number of nodes", known::kTotals);
    if (N.min_node_tag > N.max_node_tag) r.unclear("reversed range");
    const auto& E = s.elements;
    if (E.num_entity_blocks != E.entity_blocks.size()) r.no("number of element blocks");
    total = 0;
    for (auto& b : E.entity_blocks) {
        total += b.num_elements_in_block;
        if (b.element_type < 1 || b.element_type > 31) {
            if (r.v != Verdict::no) r.why = "element type";
            r.v = Verdict::no;
            r.bad_type = true;
            r.parts |= known::kElements;
            continue;
        }
        const size_t k = gen::kTable[b.element_type].nodes + 1;
        if (b.data.size() != static_cast<u128>(b.num_elements_in_block) * k) r.no("number of values in an element block", known::kElements);
        if (b.entity_dim != gen::kTable[b.element_type].dim) r.unclear("dimension of an element block", 0);
        // With another number of values, which of them are element tags depends on what is divided by what.
        const unsigned part = b.data.size() == static_cast<u128>(b.num_elements_in_block) * k ? known::kOther : known::kElements;
        if (b.data.size() % k == 0)
            for (size_t i = 0; i < b.data.size(); i++) {
                const size_t t = b.data[i];
                if (i % k == 0) {
                    if (t < E.min_element_tag || t > E.max_element_tag) r.no("element tag outside the declared range", part);
                } else if (t < N.min_node_tag || t > N.max_node_tag) {
                    r.no("node of an element outside the declared range", part);
                }
            }
    }
    if (total != E.num_elements) r.no("number of elements", known::kTotals);
    if (E.min_element_tag > E.max_element_tag) r.unclear("reversed range");
    auto data = [&](const std::vector<Data>& v, bool en) {
        for (auto& d : v) {
            const auto& h = d.header.int_tags;
            if (h.size() < 3) {
                r.no("fewer than three integer tags", known::kData);
                continue;
            }
            if (h[1] < 0) r.unclear("negative number of fields", known::kData);
            if (static_cast<long long>(h[2]) != static_cast<long long>(d.entries.size())) r.no("number of entries", known::kData);
            for (auto& e : d.entries) {
                if (en && e.num_nodes_per_element < 0) r.unclear("negative number of nodes per element", known::kData);
                __int128 want = static_cast<__int128>(h[1]) * (en ? e.num_nodes_per_element : 1);
                if (static_cast<__int128>(e.data.size()) != want) r.no("number of values of an entry", known::kData);
            }
        }
    };
    data(s.node_data, false);
    data(s.element_data, false);
    data(s.element_node_data, true);
    if (kExt) {
        const std::string& v = s.nanospline_format.version;
        if (v.empty() || v.find_first_of(" \t\n\r\v\f") != std::string::npos) r.unclear("extension version", known::kSplines);
        for (auto& c : s.curves)
            if (static_cast<u128>(c.num_control_points) * (c.with_weights > 0 ? 4u : 3u) + c.num_knots != c.data.size()) r.no("number of values of a curve", known::kSplines);
        for (auto& c : s.patches)
            if (static_cast<u128>(c.num_control_points) * (c.with_weights > 0 ? 4u : 3u) + c.num_u_knots + c.num_v_knots != c.data.size()) r.no("number of values of a patch", known::kSplines);
    }
    return r;
}

inline void change(Src& s, size_t& v)
{
    static const std::vector<size_t> big = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 3, SIZE_MAX / 3 + 1, SIZE_MAX / 4 + 1, 1ull << 61, 1ull << 62, 1ull << 32, (1ull << 32) + 1, 1ull << 31, 0x5555555555555556ull};
    switch (s.draw(5)) {
    case 0: v++; break;
    case 1: v--; break;
    case 2: v = 0; break;
    case 3: v = s.draw(20); break;
    case 4: v = s.pick(big); break;
    default: v += s.pick(big); // equal modulo something
    }
}
inline void change(Src& s, int& v)
{
    switch (s.draw(4)) {
    case 0: v = v == INT_MAX ? v - 1 : v + 1; break;
    case 1: v = v == INT_MIN ? v + 1 : v - 1; break;
    case 2: v = 0; break;
    case 3: v = static_cast<int>(s.draw(40)); break;
    default: v = gen::i32(s);
    }
}
template <typename T>
void resize(Src& s, std::vector<T>& v)
{
    switch (s.draw(4)) {
    case 0: v.resize(v.size() + 1); break;
    case 1:
        if (!v.empty()) v.pop_back();
        break;
    case 2: v.clear(); break;
    case 3: v.resize(s.draw(12)); break;
    default: v.resize(v.size() + 3);
    }
}
template <typename T>
T* one(Src& s, std::vector<T>& v)
{
    return v.empty() ? nullptr : &v[s.draw(v.size() - 1)];
}

// One change somewhere. Returns a label.
inline std::string mutate(Src& s, MshSpec& m)
{
    auto& N = m.nodes;
    auto& E = m.elements;
    for (int attempt = 0; attempt < 8; attempt++) {
        switch (s.draw(29)) {
        case 0: change(s, N.num_nodes); return "num_nodes";
        case 1: change(s, N.num_entity_blocks); return "node num_entity_blocks";
        case 2: change(s, N.min_node_tag); return "min_node_tag";
        case 3: change(s, N.max_node_tag); return "max_node_tag";
        case 4: change(s, E.num_elements); return "num_elements";
        case 5: change(s, E.num_entity_blocks); return "element num_entity_blocks";
        case 6: change(s, E.min_element_tag); return "min_element_tag";
        case 7: change(s, E.max_element_tag); return "max_element_tag";
        case 8:
            if (auto* b = one(s, N.entity_blocks)) return change(s, b->num_nodes_in_block), "num_nodes_in_block";
            break;
        case 9:
            if (auto* b = one(s, N.entity_blocks)) return resize(s, b->tags), "node tags resized";
            break;
        case 10:
            if (auto* b = one(s, N.entity_blocks)) return resize(s, b->data), "node data resized";
            break;
        case 11:
            if (auto* b = one(s, N.entity_blocks)) {
                b->parametric = s.chance(2, 3) ? (b->parametric == 0 ? 1 : 0) : gen::i32(s);
                return "parametric";
            }
            break;
        case 12:
            if (auto* b = one(s, N.entity_blocks)) return change(s, b->entity_dim), "node entity_dim";
            break;
        case 13:
            if (auto* b = one(s, N.entity_blocks))
                if (auto* t = one(s, b->tags)) {
                    *t = s.flip() ? (s.flip() ? N.max_node_tag + 1 : N.min_node_tag - 1) : gen::pos_tag(s, UINT64_MAX);
                    return "node tag";
                }
            break;
        case 14:
            if (auto* b = one(s, E.entity_blocks)) return change(s, b->num_elements_in_block), "num_elements_in_block";
            break;
        case 15:
            if (auto* b = one(s, E.entity_blocks)) return resize(s, b->data), "element data resized";
            break;
        case 16:
            if (auto* b = one(s, E.entity_blocks)) {
                b->element_type = s.flip() ? static_cast<int>(1 + s.draw(30)) : (s.flip() ? static_cast<int>(s.draw(40)) : gen::i32(s));
                return "element_type";
            }
            break;
        case 17:
            if (auto* b = one(s, E.entity_blocks))
                if (auto* t = one(s, b->data)) {
                    switch (s.draw(4)) {
                    case 0: *t = E.max_element_tag + 1; break;
                    case 1: *t = E.min_element_tag - 1; break;
                    case 2: *t = N.max_node_tag + 1; break;
                    case 3: *t = N.min_node_tag - 1; break;
                    default: *t = gen::pos_tag(s, UINT64_MAX);
                    }
                    return "tag in an element";
                }
            break;
        case 18: // moved between blocks: the totals stay
            if (N.entity_blocks.size() > 1) {
                auto& a = N.entity_blocks[s.draw(N.entity_blocks.size() - 1)];
                auto& b = N.entity_blocks[s.draw(N.entity_blocks.size() - 1)];
                a.num_nodes_in_block++;
                b.num_nodes_in_block--;
                return "node counts shifted";
            }
            break;
        case 19:
            if (E.entity_blocks.size() > 1) {
                auto& a = E.entity_blocks[s.draw(E.entity_blocks.size() - 1)];
                auto& b = E.entity_blocks[s.draw(E.entity_blocks.size() - 1)];
                a.num_elements_in_block++;
                b.num_elements_in_block--;
                return "element counts shifted";
            }
            break;
        case 20: {
            auto* v = s.flip() ? &m.node_data : s.flip() ? &m.element_data : &m.element_node_data;
            if (auto* d = one(s, *v)) {
                switch (s.draw(4)) {
                case 0: d->header.int_tags.resize(s.draw(3)); return "integer tags resized";
                case 1:
                    if (d->header.int_tags.size() > 1) change(s, d->header.int_tags[1]);
                    return "number of fields";
                case 2:
                    if (d->header.int_tags.size() > 2) change(s, d->header.int_tags[2]);
                    return "number of entries";
                case 3: resize(s, d->entries); return "entries resized";
                default:
                    if (auto* e = one(s, d->entries)) {
                        resize(s, e->data);
                        return "entry values resized";
                    }
                }
            }
            break;
        }
        case 21:
            if (auto* d = one(s, m.element_node_data))
                if (auto* e = one(s, d->entries)) return change(s, e->num_nodes_per_element), "num_nodes_per_element";
            break;
        case 22:
            if (auto* c = one(s, m.curves)) {
                switch (s.draw(3)) {
                case 0: change(s, c->num_control_points); break;
                case 1: change(s, c->num_knots); break;
                case 2: change(s, c->with_weights); break;
                default: resize(s, c->data);
                }
                return "spline curve";
            }
            break;
        case 23:
            if (auto* c = one(s, m.patches)) {
                switch (s.draw(4)) {
                case 0: change(s, c->num_control_points); break;
                case 1: change(s, c->num_u_knots); break;
                case 2: change(s, c->num_v_knots); break;
                case 3: change(s, c->with_weights); break;
                default: resize(s, c->data);
                }
                return "spline patch";
            }
            break;
        case 24: // blocks lost or repeated, counts kept
            if (!N.entity_blocks.empty()) {
                if (s.flip())
                    N.entity_blocks.pop_back();
                else
                    N.entity_blocks.push_back(N.entity_blocks.back());
                return "node blocks resized";
            }
            break;
        case 25:
            if (!E.entity_blocks.empty()) {
                if (s.flip())
                    E.entity_blocks.pop_back();
                else
                    E.entity_blocks.push_back(E.entity_blocks.back());
                return "element blocks resized";
            }
            break;
        case 26: // nodes gone, elements kept
            N = Nodes();
            return "nodes dropped";
        case 27: // parametric flag and array changed together: consistent again
            if (auto* b = one(s, N.entity_blocks))
                if (b->parametric == 0 && b->tags.size() == b->num_nodes_in_block && b->entity_dim >= 0 && b->entity_dim < 4 && b->tags.size() < 100000) {
                    b->parametric = 1;
                    b->data.resize(b->tags.size() * static_cast<size_t>(3 + b->entity_dim));
                    return "made parametric";
                }
            break;
        case 28: // entity dimension changed with the array kept in step
            if (auto* b = one(s, N.entity_blocks))
                if (b->parametric == 1 && b->entity_dim == 2 && !b->data.empty()) {
                    b->entity_dim = 3;
                    return "parametric dimension";
                }
            break;
        default: // ranges tightened by one
            switch (s.draw(3)) {
            case 0: N.min_node_tag++; break;
            case 1: N.max_node_tag--; break;
            case 2: E.min_element_tag++; break;
            default: E.max_element_tag--;
            }
            return "range tightened";
        }
    }
    return "unchanged";
}

inline MshSpec any_spec(Src& s, Ctx& c, size_t max_changes)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = s.flip();
    o.tags32 = s.flip();
    o.tight_ranges = s.flip();
    o.allow_big = false;
    o.max_items = 40;
    MshSpec m = gen::spec(s, o);
    set_format(m, kFormats[s.draw(3)]);
    size_t n = s.draw(max_changes);
    for (size_t i = 0; i < n; i++) c.label("changed: " + mutate(s, m));
    c.label(n == 0 ? "unchanged" : n == 1 ? "one change" : "several changes");
    return MshSpec(m); // arrays without spare capacity
}

} // namespace cons
