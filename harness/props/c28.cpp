// C28: a section that holds less than it announces is refused.
#include "../alloc.h"
#include "../mutate.h"
using namespace util;

namespace {

// Ends of the parts of a text section: positions just before each token (names in quotes are one token).
std::vector<size_t> token_starts(const std::string& t, size_t from, size_t to)
{
    std::vector<size_t> r;
    for (size_t i = from; i < to;) {
        if (isspace(static_cast<unsigned char>(t[i]))) {
            i++;
            continue;
        }
        r.push_back(i);
        if (t[i] == '"') {
            for (i++; i < to && t[i] != '"'; i++)
                if (t[i] == '\\') i++;
            i++;
        } else {
            while (i < to && !isspace(static_cast<unsigned char>(t[i]))) i++;
        }
    }
    return r;
}

void shorten(Src& s, Ctx& c, const ref::File& f, bool ascii)
{
    Src t = s.bulk();
    for (size_t i = 0; i < f.pieces.size(); i++) {
        const auto& p = f.pieces[i];
        // In binary, what follows is taken for the missing content, up to another end marker of this name.
        bool again = false;
        for (size_t j = i + 1; j < f.pieces.size(); j++) again |= f.pieces[j].name == p.name;
        if (!ascii && again) continue; // the same for names, in text
        const std::string mark = "$End" + p.name;
        const size_t e = p.text.rfind(mark), b = p.text.find("$" + p.name) + 1 + p.name.size();
        require(e != std::string::npos && b <= e, "harness: markers not found");
        std::vector<size_t> at; // where the content may end too early
        if (ascii) {
            at = token_starts(p.text, b, e);
        } else {
            // At least two bytes less: one of them may be the optional line end before the marker.
            for (size_t n = b + 1; n + 2 <= e; n++)
                if (p.text.find_first_not_of("\n", n) < e && !(isgraph(static_cast<unsigned char>(p.text[n - 1])) && isgraph(static_cast<unsigned char>(p.text[n])))) at.push_back(n); // no part of a number is a number
            if (p.name == "MeshFormat") at = token_starts(p.text, b, e);
        }
        const size_t limit = 60;
        for (size_t k = 0; k < at.size(); k++) {
            if (at.size() > limit && k >= 12 && k + 24 < at.size() && !t.chance(limit, at.size())) continue;
            if (again && p.text[at[k]] == '"') continue;
            std::string head = p.text.substr(0, at[k]), out;
            if (ascii && !isspace(static_cast<unsigned char>(head.back()))) head += "\n";
            for (size_t j = 0; j < f.pieces.size(); j++) out += j == i ? head + p.text.substr(e) : f.pieces[j].text;
            c.inner++;
            c.labels["shortened $" + p.name]++;
            // A marker that is taken for a count announces an enormous section.
            alloc::cap() = alloc::live().load() + (8u << 20);
            Exc x = attempt([&] { load(out); });
            alloc::cap() = SIZE_MAX;
            if (x == Exc::none) {
                if (c.want_text) c.text = "shortened file: " + eq::bytes_text(out) + "\ncomplete section: " + eq::bytes_text(p.text);
                pbt::fail("a file whose $" + p.name + " section lacks the last " + std::to_string(e - at[k]) + " bytes of its content, with its end marker in place, loads without an exception");
            }
            require(x != Exc::unknown, "something that is not a std::exception was thrown");
        }
    }
    c.nontrivial = f.pieces.size() > 1;
}

void v41(Src& s, Ctx& c)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.plain_strings = true;
    o.allow_big = false;
    o.max_items = 30;
    MshSpec m = gen::spec(s, o);
    const bool ascii = s.chance(2, 3);
    set_format(m, {"4.1", ascii ? 0 : 1});
    ref::File f = ref::file41(s, m, ascii, ascii ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0), kExt);
    if (s.chance(1, 3)) ref::shuffle(f, s);
    if (f.all().size() > 20000) return;
    describe(c, m, "4.1 written independently");
    shorten(s, c, f, ascii);
}

void v22(Src& s, Ctx& c)
{
    gen::Opts o;
    o.plain_strings = o.finite = o.tags32 = true;
    o.allow_big = false;
    ref::Opts22 oo;
    oo.allow_big = false;
    oo.max_nodes = 20;
    oo.max_elements = 20;
    ref::Mesh22 g = ref::mesh22(s, oo);
    MshSpec m;
    if (s.flip()) gen::physical_groups(s, o, m);
    for (size_t i = 0, n = s.draw(2); i < n; i++) m.node_data.emplace_back(), gen::data_section(s, o, m.node_data.back(), false);
    for (size_t i = 0, n = s.draw(2); i < n; i++) m.element_node_data.emplace_back(), gen::data_section(s, o, m.element_node_data.back(), true);
    if (kExt) gen::splines(s, o, m);
    const bool ascii = s.chance(2, 3);
    set_format(m, {"2.2", ascii ? 0 : 1});
    ref::File f = ref::file22(s, g, m, ascii, ascii ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0), kExt);
    if (s.chance(1, 3)) ref::shuffle(f, s);
    if (f.all().size() > 20000) return;
    c.sample = "2.2 file, " + std::to_string(g.nodes.size()) + " nodes, " + std::to_string(g.elements.size()) + " elements";
    shorten(s, c, f, ascii);
}

} // namespace

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C28",
        {{"v41", v41, 600, 12000, "the content of each section of an independently written 4.1 file, shortened by any amount (sampled beyond 60 places), end marker and the rest in place; non-trivial: a section besides the header", 10, 8},
            {"v22", v22, 600, 12000, "the same for 2.2 files; non-trivial: a section besides the header", 10, 8}});
}
