// C24: whatever is loaded and validated can be saved and loaded again unchanged, and the bytes settle.
#include "../alloc.h"
#include "../mutate.h"
#include "../stable.h"
using namespace util;

static void decide(const std::string& b, Ctx& c)
{
    c.sample = eq::bytes_text(b, 200);
    if (c.want_text) c.text = eq::bytes_text(b);
    alloc::cap() = alloc::live() + (300u << 20);
    bool accepted = false, is22 = false;
    std::string d;
    try {
        d = stable::check(b, &accepted, &is22);
    } catch (const std::bad_alloc&) {
    }
    alloc::cap() = SIZE_MAX;
    c.nontrivial = accepted;
    c.label(!accepted ? "refused" : is22 ? "accepted, 2.2" : "accepted, 4.1");
    require(d.empty(), d);
}

// A few gentle edits, so that most files still load.
static void gentle(Src& s, Ctx& c)
{
    bool ascii;
    ref::File f = mut::small_file(s, nullptr, &ascii);
    if (s.flip()) mut::edit_sections(s, f.pieces);
    std::string b = f.all();
    Src t = s.bulk();
    const size_t from = std::min(b.size(), f.pieces.empty() ? 0 : f.pieces[0].text.size());
    for (size_t i = 0, k = s.draw(3); i < k && from < b.size(); i++) {
        size_t p = from + t.draw(b.size() - from - 1);
        if (ascii) {
            if (isdigit(static_cast<unsigned char>(b[p]))) b[p] = static_cast<char>('0' + t.draw(9)); // another number
        } else {
            b[p] = static_cast<char>(t.flip() ? t.draw(4) : t.draw(255));
        }
    }
    decide(b, c);
}

static void large(Src& s, Ctx& c) { decide(mut::large_file(s).all(), c); }
static void conforming(Src& s, Ctx& c) { decide(mut::small_file(s).all(), c); }
static void careless(Src& s, Ctx& c) { decide(mut::careless(s), c); }
static void arbitrary(Src& s, Ctx& c) { decide(mut::bytes(s, c), c); }

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C24",
        {{"conforming", conforming, 4000, 60000, "independently written files of all four kinds; non-trivial: accepted by the validator", 60, 8},
            {"gentle", gentle, 12000, 200000, "conforming files with a rearranged section and up to three changed digits or bytes; non-trivial: accepted by the validator", 60, 8},
            {"large", large, 60, 1000, "independently written files large in one respect; non-trivial: accepted by the validator", 60, 8},
            {"careless", careless, 6000, 100000, "files whose counts, tags and ranges contradict each other; non-trivial: accepted by the validator", 60, 8},
            {"arbitrary", arbitrary, 10000, 200000, "mutated files, token soup, random bytes; non-trivial: accepted by the validator", 60, 8}});
}
