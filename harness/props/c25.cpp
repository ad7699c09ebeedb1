// C25: the arrays of every loaded specification match its counts, whatever the input.
#include "../alloc.h"
#include "../mutate.h"
using namespace util;

static void decide(const std::string& b, Ctx& c)
{
    c.sample = eq::bytes_text(b, 200);
    if (c.want_text) c.text = eq::bytes_text(b);
    alloc::cap() = alloc::live() + (300u << 20);
    MshSpec m;
    Exc e = attempt([&] { m = load(b); });
    alloc::cap() = SIZE_MAX;
    c.label(e == Exc::none ? "loaded" : "refused");
    if (e != Exc::none) return;
    bool something = !m.nodes.entity_blocks.empty() || !m.elements.entity_blocks.empty() || !m.node_data.empty() || !m.element_data.empty() || !m.element_node_data.empty() || !m.curves.empty() ||
                     !m.patches.empty() || !m.physical_groups.empty() || !m.entities.empty();
    c.nontrivial = something;
    std::string d = eq::structure(m);
    require(d.empty(), "loaded specification: " + d);
}

static void arbitrary(Src& s, Ctx& c) { decide(mut::bytes(s, c), c); }
static void careless(Src& s, Ctx& c) { decide(mut::careless(s), c); }

// Conforming files large in one respect, or one with one byte changed.
static void large(Src& s, Ctx& c)
{
    std::string b = mut::large_file(s).all();
    c.sample = "large file of " + std::to_string(b.size()) + " bytes";
    if (s.chance(1, 4)) b[s.draw(b.size() - 1)] = static_cast<char>('0' + s.draw(9));
    decide(b, c);
}

// Any single count, flag or tag of a conforming file set to something else.
static void fields(Src& s, Ctx& c)
{
    bool ascii;
    ref::File f = mut::small_file(s, nullptr, &ascii, true);
    std::string b = f.all();
    if (b.size() > 20000) b.resize(20000);
    const size_t from = f.pieces[0].text.size();
    Src t = s.bulk();
    bool any = false;
    for (size_t k = 0; k < 12 && from < b.size(); k++) {
        std::string m = b;
        size_t p = from + t.draw(b.size() - from - 1);
        if (ascii) {
            while (p > from && !isspace(static_cast<unsigned char>(m[p - 1]))) p--;
            size_t e = p;
            while (e < m.size() && !isspace(static_cast<unsigned char>(m[e]))) e++;
            m.replace(p, e - p, t.flip() ? std::to_string(t.draw(6)) : mut::token(t));
        } else {
            uint64_t v = t.flip() ? t.draw(6) : mut::binary_value(t);
            size_t n = t.flip() ? 4 : 8;
            for (size_t i = 0; i < n && p + i < m.size(); i++) m[p + i] = static_cast<char>(v >> (8 * i));
        }
        decide(m, c);
        any |= c.nontrivial;
        c.inner++;
    }
    c.nontrivial = any;
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C25",
        {{"arbitrary", arbitrary, 15000, 300000, "mutated conforming files, token soup, contradictory content, rearranged sections, random bytes; non-trivial: loaded with some content", 60, 8},
            {"careless", careless, 8000, 100000, "files whose counts, flags and tags contradict each other; non-trivial: loaded with some content", 60, 8},
            {"large", large, 300, 6000, "conforming files large in one respect, a quarter of them with a byte changed; non-trivial: loaded with some content", 60, 8},
            {"fields", fields, 1500, 40000, "12 single-field changes of a conforming file each; non-trivial: one of them loaded with some content", 60, 8}});
}
