// C11: a truncated file is never taken for a complete one.
#include "../mutate.h"
using namespace util;

// Delivers `n` bytes of a string and then fails as a disk does (the buffer throws, the stream turns bad).
class FailingIn : public std::streambuf
{
public:
    FailingIn(const std::string& b, size_t n, size_t chunk)
        : m_b(b.substr(0, n))
        , m_chunk(chunk)
    {}

protected:
    int_type underflow() override
    {
        if (m_at >= m_b.size()) throw std::runtime_error("I/O error");
        size_t k = std::min(m_chunk, m_b.size() - m_at);
        setg(&m_b[m_at], &m_b[m_at], &m_b[m_at] + k);
        m_at += k;
        return traits_type::to_int_type(*gptr());
    }

private:
    std::string m_b;
    size_t m_chunk, m_at = 0;
};

static MshSpec prefix41(const ref::File& f, const MshSpec& m, size_t k)
{
    MshSpec r;
    r.mesh_format = m.mesh_format;
    if (k == 0) r.mesh_format = MeshFormat();
    size_t nd = 0, ed = 0, end = 0;
    for (size_t i = 0; i < k; i++) {
        const std::string& n = f.pieces[i].name;
        if (n == "PhysicalNames") r.physical_groups = m.physical_groups;
        else if (n == "Entities") r.entities = m.entities;
        else if (n == "Nodes") r.nodes = m.nodes;
        else if (n == "Elements") r.elements = m.elements;
        else if (n == "NodeData") r.node_data.push_back(m.node_data[nd++]);
        else if (n == "ElementData") r.element_data.push_back(m.element_data[ed++]);
        else if (n == "ElementNodeData") r.element_node_data.push_back(m.element_node_data[end++]);
        else if (n == "NanoSplineFormat") r.nanospline_format = m.nanospline_format;
        else if (n == "Curves") r.curves = m.curves;
        else if (n == "Patches") r.patches = m.patches;
    }
    return r;
}

// Cuts the file at every position (all of them, or many when it is long).
static void cuts(Src& s, Ctx& c, const ref::File& f, const std::function<std::string(size_t, const MshSpec&)>& complete)
{
    const std::string b = f.all();
    // [begin, end) of each section: the last byte that belongs to it is the last letter of its end marker.
    std::vector<std::pair<size_t, size_t>> sec;
    size_t at = 0;
    for (auto& p : f.pieces) {
        const std::string mark = "$End" + p.name;
        size_t e = p.text.rfind(mark);
        require(e != std::string::npos, "harness: end marker not found");
        size_t b0 = p.text.find("$" + p.name);
        sec.push_back({at + b0, at + e + mark.size()});
        at += p.text.size();
    }
    const size_t step = b.size() > 1500 ? 1 + b.size() / 700 : 1;
    const size_t off = step > 1 ? s.draw(step - 1) : 0;
    std::set<size_t> pos;
    for (size_t p = 1 + off; p < b.size(); p += step) pos.insert(p);
    for (auto& x : sec)
        for (size_t d = 0; d < 14; d++) {
            if (x.second > d) pos.insert(x.second - d);
            if (x.second + d < b.size()) pos.insert(x.second + d);
            if (x.first + d < b.size()) pos.insert(x.first + d);
        }
    pos.insert(b.size());
    pos.erase(0);
    const size_t chunk = 1 + s.draw(20);
    Src t = s.bulk();
    for (size_t p : pos) {
        size_t inside = SIZE_MAX, before = 0;
        for (size_t i = 0; i < sec.size(); i++) {
            if (p > sec[i].first && p < sec[i].second) inside = i;
            if (p >= sec[i].second) before = i + 1;
        }
        std::string cut = b.substr(0, p);
        MshSpec r;
        c.inner++;
        Exc e = attempt([&] { r = load(cut); });
        if (inside != SIZE_MAX) {
            c.labels["cut inside a section"]++;
            if (e == Exc::none) {
                if (c.want_text) c.text = "cut at byte " + std::to_string(p) + " of " + eq::bytes_text(b) + "\nprefix: " + eq::bytes_text(cut);
                pbt::fail("a file cut inside its $" + f.pieces[inside].name + " section, " + std::to_string(sec[inside].second - p) + " bytes before the end of the end marker, loads without an exception");
            }
            require(e != Exc::unknown, "something that is not a std::exception was thrown");
        } else {
            c.labels["cut between sections"]++;
            std::string d = e != Exc::none ? std::string("loading throws ") + name(e) : complete(before, r);
            if (!d.empty()) {
                if (c.want_text) c.text = "cut at byte " + std::to_string(p) + "\nprefix: " + eq::bytes_text(cut);
                pbt::fail("a file cut between sections, after " + std::to_string(before) + " of " + std::to_string(sec.size()) + ": " + d);
            }
        }
        if (t.chance(1, 3) || p == b.size()) { // the stream fails there
            FailingIn buf(b, p, chunk);
            std::istream in(&buf);
            c.inner++;
            c.labels["stream failure"]++;
            Exc e2 = attempt([&] { load_msh(in); });
            if (e2 == Exc::none) {
                if (c.want_text) c.text = "input stream fails at byte " + std::to_string(p) + " of " + eq::bytes_text(b);
                pbt::fail("the input stream fails at byte " + std::to_string(p) + " of " + std::to_string(b.size()) + " and loading does not throw");
            }
        }
    }
}

static void v41(Src& s, Ctx& c, bool library)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.plain_strings = true;
    o.allow_big = false;
    o.max_items = 30;
    MshSpec m = gen::spec(s, o);
    const bool ascii = s.flip();
    set_format(m, {"4.1", ascii ? 0 : 1});
    ref::File f;
    if (library) {
        // The library writes only sections that hold something; find them again by their text.
        std::string b = save(m);
        ref::File g = ref::file41(s, m, ascii, 0, kExt);
        size_t at = 0;
        for (auto& p : g.pieces) {
            if ((p.name == "PhysicalNames" && m.physical_groups.empty()) || (p.name == "Entities" && m.entities.empty()) || (p.name == "Nodes" && m.nodes.entity_blocks.empty()) ||
                (p.name == "Elements" && m.elements.entity_blocks.empty()))
                continue;
            // Sections end at the end marker that is followed by the next section or the end of the file.
            std::string mark = "$End" + p.name + "\n";
            size_t e = b.find(mark, at);
            while (e != std::string::npos && e + mark.size() < b.size() && b[e + mark.size()] != '$') e = b.find(mark, e + 1);
            if (e == std::string::npos) { // a layout this harness does not know
                c.label("library file not divided");
                return;
            }
            f.pieces.push_back({p.name, b.substr(at, e + mark.size() - at)});
            at = e + mark.size();
        }
        if (at != b.size()) {
            c.label("library file not divided");
            return;
        }
    } else {
        f = ref::file41(s, m, ascii, ascii ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0), kExt);
        if (s.chance(1, 3)) ref::shuffle(f, s);
    }
    if (f.all().size() > 20000) return;
    c.nontrivial = f.pieces.size() > 1;
    describe(c, m, library ? "4.1 saved by the library" : "4.1 written independently");
    MshSpec wm = m;
    cuts(s, c, f, [&](size_t k, const MshSpec& r) {
        MshSpec w = prefix41(f, wm, k);
        auto norm = [](MshSpec& x) { // a section without blocks declares a range of nothing
            if (x.nodes.entity_blocks.empty()) x.nodes.min_node_tag = x.nodes.max_node_tag = 0;
            if (x.elements.entity_blocks.empty()) x.elements.min_element_tag = x.elements.max_element_tag = 0;
        };
        MshSpec got = r;
        norm(w);
        norm(got);
        return eq::diff(w, got, kExt, k > 0);
    });
}

static void v22(Src& s, Ctx& c)
{
    gen::Opts o;
    o.plain_strings = o.finite = o.tags32 = true;
    o.allow_big = false;
    ref::Opts22 oo;
    oo.allow_big = false;
    oo.max_nodes = 20;
    oo.max_elements = 20;
    ref::Mesh22 g = ref::mesh22(s, oo);
    MshSpec m;
    if (s.flip()) gen::physical_groups(s, o, m);
    for (size_t i = 0, n = s.draw(1); i < n; i++) m.node_data.emplace_back(), gen::data_section(s, o, m.node_data.back(), false);
    for (size_t i = 0, n = s.draw(1); i < n; i++) m.element_node_data.emplace_back(), gen::data_section(s, o, m.element_node_data.back(), true);
    if (kExt) gen::splines(s, o, m);
    const bool ascii = s.flip();
    set_format(m, {"2.2", ascii ? 0 : 1});
    ref::File f = ref::file22(s, g, m, ascii, ascii ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0), kExt);
    if (s.chance(1, 3)) ref::shuffle(f, s);
    if (f.all().size() > 20000) return;
    c.nontrivial = f.pieces.size() > 1;
    c.sample = "2.2 file, " + std::to_string(g.nodes.size()) + " nodes, " + std::to_string(g.elements.size()) + " elements";
    auto fe = ref::flat(g);
    cuts(s, c, f, [&](size_t k, const MshSpec& r) {
        if (k == 0) return r.nodes.num_nodes + r.elements.num_elements == 0 ? std::string() : std::string("content out of nothing");
        MshSpec w = prefix41(f, m, k);
        bool hn = false, he = false;
        for (size_t i = 0; i < k; i++) {
            hn |= f.pieces[i].name == "Nodes";
            he |= f.pieces[i].name == "Elements";
        }
        std::string d = eq::check_flat(hn ? g.nodes : std::vector<eq::FlatNode>(), he ? fe : std::vector<eq::FlatElement>(), r);
        if (!d.empty()) return d;
        eq::Diff df;
        eq::groups(df, w, r);
        eq::all_data(df, w, r);
        if (kExt) eq::splines(df, w, r);
        return df.out;
    });
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C11",
        {{"v41", [](Src& s, Ctx& c) { v41(s, c, false); }, 500, 10000, "every prefix of an independently written 4.1 file (sampled beyond 1500 bytes); non-trivial: a section besides the header", 10, 8},
            {"v41lib", [](Src& s, Ctx& c) { v41(s, c, true); }, 300, 6000, "every prefix of a 4.1 file saved by the library; non-trivial: a section besides the header", 10, 8},
            {"v22", v22, 500, 10000, "every prefix of an independently written 2.2 file; non-trivial: a section besides the header", 10, 8}});
}
