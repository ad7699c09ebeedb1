// C07: every conforming MSH 4.1 file loads to exactly what it says.
#include "../known.h"
#include "../ref_writer.h"
using namespace util;

static void files(Src& s, Ctx& c, bool ascii)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = ascii;
    o.plain_strings = true;
    o.data_tags32 = !ascii;
    MshSpec a = gen::spec(s, o);
    set_format(a, {"4.1", ascii ? 0 : 1});
    const int style = ascii ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0);
    ref::File f = ref::file41(s, a, ascii, style, kExt && s.chance(9, 10) ? true : (a.curves.clear(), a.patches.clear(), a.nanospline_format.version = "1.0", false));
    const bool shuffled = s.chance(1, 3);
    if (shuffled) ref::shuffle(f, s);
    std::string bytes = f.all();
    if (s.chance(1, 6)) { // the last line end may be missing
        while (!bytes.empty() && isspace(static_cast<unsigned char>(bytes.back()))) bytes.pop_back();
        c.label("no final newline");
    }
    eq::classify(c, a);
    c.label(style == 0 ? "as Gmsh" : style == 1 ? "CRLF" : "free layout");
    c.label_if(shuffled, "sections reordered");
    c.nontrivial = f.pieces.size() > 1;
    describe(c, a, std::string(ascii ? "4.1 ASCII" : "4.1 binary") + " file, style " + std::to_string(style));
    if (c.want_text) c.text = "file: " + eq::bytes_text(bytes);
    MshSpec b = load(bytes);
    std::string d = eq::diff(a, b, kExt);
    require(d.empty(), "loaded file: " + d);
    std::string what;
    Exc e = known::validate(b, &what);
    c.label_if(known::undefined(b), "known finding: an element block without elements, validated without it");
    require(e == Exc::none, "the validator refuses a loaded conforming file: " + what);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C07",
        {{"ascii", [](Src& s, Ctx& c) { files(s, c, true); }, 4000, 80000, "independently written ASCII files in three layouts; non-trivial: a section besides the header", 20, 8},
            {"binary", [](Src& s, Ctx& c) { files(s, c, false); }, 4000, 80000, "independently written binary files; non-trivial: a section besides the header", 20, 8}});
}
