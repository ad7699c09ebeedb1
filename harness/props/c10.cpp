// C10: loading arbitrary bytes is safe and terminates. Run with sanitizers, with and without assertions and extension.
#include "../alloc.h"
#include "../mutate.h"
#include "../stable.h"
using namespace util;

static void loads(const std::string& b, Ctx& c)
{
    alloc::cap() = alloc::live() + (300u << 20); // a file that declares absurd sizes gets std::bad_alloc
    MshSpec m;
    Exc e = attempt([&] { m = load(b); });
    if (e == Exc::none) {
        c.label("loaded");
        // Touch everything that was loaded.
        volatile double sum = 0;
        for (auto& k : m.nodes.entity_blocks) {
            for (double v : k.data) sum = sum + v;
            for (size_t t : k.tags) sum = sum + static_cast<double>(t);
        }
        for (auto& k : m.elements.entity_blocks)
            for (size_t t : k.data) sum = sum + static_cast<double>(t);
    } else {
        c.label(std::string("refused: ") + name(e));
    }
    alloc::cap() = SIZE_MAX;
    require(e != Exc::unknown, "something that is not a std::exception was thrown");
}

static void arbitrary(Src& s, Ctx& c)
{
    std::string b = mut::bytes(s, c);
    c.nontrivial = b.size() > 10;
    c.sample = eq::bytes_text(b, 200);
    if (c.want_text) c.text = eq::bytes_text(b);
    loads(b, c);
}

// Every single-field change of a small conforming file to a boundary value.
static void fields(Src& s, Ctx& c)
{
    bool ascii;
    ref::File f = mut::small_file(s, nullptr, &ascii, true);
    std::string b = f.all();
    c.nontrivial = b.size() > 100;
    if (b.size() > 20000) return;
    c.sample = eq::bytes_text(b, 200);
    const size_t from = f.pieces[0].text.size();
    Src t = s.bulk();
    for (size_t k = 0; k < 24 && from < b.size(); k++) {
        std::string m = b;
        size_t p = from + t.draw(b.size() - from - 1);
        if (ascii) {
            while (p > from && !isspace(static_cast<unsigned char>(m[p - 1]))) p--;
            size_t e = p;
            while (e < m.size() && !isspace(static_cast<unsigned char>(m[e]))) e++;
            m.replace(p, e - p, mut::token(t));
        } else {
            uint64_t v = mut::binary_value(t);
            size_t n = t.flip() ? 4 : 8;
            for (size_t i = 0; i < n && p + i < m.size(); i++) m[p + i] = static_cast<char>(v >> (8 * i));
        }
        if (c.want_text) c.text = eq::bytes_text(m);
        loads(m, c);
        c.inner++;
    }
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C10",
        {{"arbitrary", arbitrary, 20000, 400000, "mutated conforming files, token soup, contradictory content, rearranged sections, random bytes; non-trivial: more than 10 bytes", 60, 8},
            {"fields", fields, 1500, 30000, "24 single-field changes to boundary values of a conforming file each; non-trivial: file of more than 100 bytes", 60, 8}});
}
