// C20: the nanospline extension round-trips curves and patches; without it nothing of them is written or read.
// Built three ways: with the extension, without it, and without it next to a copy of the library with it (VERIF_BOTH).
#include "../mutate.h"
#include "../ref_reader.h"
using namespace util;

static MshSpec some_spec(Src& s, bool finite, bool t32)
{
    gen::Opts o;
    o.finite = finite;
    o.tags32 = t32;
    o.plain_strings = true; // the independent writer does not escape
    o.allow_big = s.chance(1, 10);
    MshSpec m;
    gen::splines(s, o, m);
    if (s.flip()) {
        o.allow_big = false;
        o.ext = false;
        MshSpec rest = gen::spec(s, o);
        rest.curves = m.curves;
        rest.patches = m.patches;
        rest.nanospline_format = m.nanospline_format;
        m = rest;
    }
    return m;
}

static void classify(Ctx& c, const MshSpec& m)
{
    c.nontrivial = !m.curves.empty() || !m.patches.empty();
    c.label_if(!m.curves.empty(), "curves");
    c.label_if(!m.patches.empty(), "patches");
    for (auto& k : m.curves) {
        c.label_if(k.with_weights > 0, "weights");
        c.label_if(k.num_knots > 0, "knots");
        c.label_if(k.num_control_points == 0, "no control points");
    }
    for (auto& k : m.patches) c.label_if(k.num_u_knots != k.num_v_knots, "different numbers of knots in u and v");
    c.label_if(m.nodes.num_nodes > 0, "next to a mesh");
}

#if defined(MSHIO_EXT_NANOSPLINE)
static void roundtrip(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    MshSpec m = some_spec(s, f.ascii(), f.is22());
    set_format(m, f);
    classify(c, m);
    c.label(f.name());
    describe(c, m, f.name());
    const std::string bytes = save(m);
    if (c.want_text) c.text = eq::summary(m) + "\nfile: " + eq::bytes_text(bytes);
    // The layout, read independently.
    ref::Content r = ref::read(bytes);
    {
        eq::Diff d;
        eq::splines(d, m, r.spec);
        require(d.out.empty(), "the file does not say what was saved: " + d.out);
    }
    require(r.has_spline_format, "the version section is missing");
    // And loaded.
    MshSpec l = load(bytes);
    std::string d = f.is22() ? eq::check22(m, l, true) : eq::diff(m, l, true);
    require(d.empty(), "saved and loaded: " + d);
    // An independently written file with the same.
    {
        MshSpec n = m;
        ref::File own;
        const int style = f.ascii() ? static_cast<int>(s.draw(2)) : (s.flip() ? 2 : 0);
        n.nodes = Nodes();
        n.elements = Elements();
        if (f.is22()) {
            ref::Mesh22 g;
            own = ref::file22(s, g, n, f.ascii(), style, true);
        } else {
            own = ref::file41(s, n, f.ascii(), style, true);
        }
        if (c.want_text) c.text += "\nwritten independently: " + eq::bytes_text(own.all());
        MshSpec k = load(own.all());
        eq::Diff e;
        eq::splines(e, m, k);
        require(e.out.empty(), "an independently written file: " + e.out);
    }
}
#else
// Without the extension: not written, not read.
static void without(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    MshSpec m = some_spec(s, true, f.is22());
    set_format(m, f);
    classify(c, m);
    c.label(f.name());
    describe(c, m, f.name() + " without the extension");
    MshSpec bare = m;
    bare.curves.clear();
    bare.patches.clear();
    bare.nanospline_format = NanoSplineFormat();
    const std::string a = save(m), b = save(bare);
    if (c.want_text) c.text = eq::bytes_text(a) + "\nbare: " + eq::bytes_text(b);
    require(a == b, "something of the extension is written although it is disabled");
    const std::string mark[3] = {"$NanoSplineFormat", "$Curves", "$Patches"};
    // Written by hand, with the extension's sections: skipped.
    MshSpec n = m;
    n.nodes = Nodes();
    n.elements = Elements();
    ref::File own, rest;
    ref::Mesh22 g;
    own = f.is22() ? ref::file22(s, g, n, f.ascii(), 0, true) : ref::file41(s, n, f.ascii(), 0, true);
    if (s.flip()) ref::shuffle(own, s);
    for (auto& p : own.pieces)
        if ("$" + p.name != mark[0] && "$" + p.name != mark[1] && "$" + p.name != mark[2]) rest.pieces.push_back(p);
    if (c.want_text) c.text += "\nwith: " + eq::bytes_text(own.all());
    MshSpec x, y;
    std::string msg;
    Exc e = attempt([&] { x = load(own.all()); }, &msg);
    require(e == Exc::none, "a file with the extension's sections does not load: " + msg);
    y = load(rest.all());
    require(x.curves.empty() && x.patches.empty(), "curves or patches loaded although the extension is disabled");
    std::string d = eq::diff(x, y, false);
    require(d.empty(), "the extension's sections changed what is loaded: " + d);
}
#endif

#ifdef VERIF_BOTH
std::string ext_resave(const std::string& bytes, const char* version, int file_type);

static void exchange(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    const Format& g = kFormats[s.draw(3)];
    MshSpec m = some_spec(s, true, true);
    set_format(m, f);
    classify(c, m);
    describe(c, m, "from " + f.name() + " to " + g.name() + " between the configurations");
    std::string msg;
    Exc e;
    // Saved without the extension, loaded and saved with it, loaded without it.
    const std::string a = save(m);
    std::string b;
    e = attempt([&] { b = ext_resave(a, nullptr, 0); }, &msg);
    require(e == Exc::none, "the build with the extension does not load what the build without it saved: " + msg);
    MshSpec l0 = load(a), l1;
    if (c.want_text) c.text = "without: " + eq::bytes_text(a) + "\nwith: " + eq::bytes_text(b);
    e = attempt([&] { l1 = load(b); }, &msg);
    require(e == Exc::none, "the build without the extension does not load what the build with it saved: " + msg);
    std::string d = eq::diff(l0, l1, false);
    require(d.empty() || f.is22(), "through the other configuration: " + d);
    if (f.is22()) {
        d = eq::check22(m, l1, false);
        require(d.empty(), "through the other configuration: " + d);
    }
    // With curves and patches: written independently, saved by the build with the extension, loaded without.
    MshSpec n = m;
    n.nodes = Nodes();
    n.elements = Elements();
    n.element_data.clear();
    ref::Mesh22 none;
    ref::File own = f.is22() ? ref::file22(s, none, n, f.ascii(), 0, true) : ref::file41(s, n, f.ascii(), 0, true);
    e = attempt([&] { b = ext_resave(own.all(), g.version, g.type); }, &msg);
    require(e == Exc::none, "the build with the extension refuses an independently written file: " + msg);
    if (c.want_text) c.text += "\nwritten independently: " + eq::bytes_text(own.all()) + "\nresaved with the extension: " + eq::bytes_text(b);
    e = attempt([&] { l1 = load(b); }, &msg);
    require(e == Exc::none, "the build without the extension does not load a file with curves and patches that the build with it saved: " + msg);
    require(l1.curves.empty() && l1.patches.empty(), "curves or patches loaded although the extension is disabled");
    MshSpec l2 = load(own.all());
    eq::Diff dd;
    eq::groups(dd, l2, l1);
    eq::all_data(dd, l2, l1);
    if (!f.is22() && !g.is22()) eq::entities(dd, l2, l1);
    require(dd.out.empty(), "saved with the extension and loaded without: " + dd.out);
}
#endif

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C20",
        {
#if defined(MSHIO_EXT_NANOSPLINE)
            {"roundtrip", roundtrip, 10000, 200000, "sets of curves and patches with and without a mesh, four formats; saved, read independently, loaded, and written independently and loaded; non-trivial: there are curves or patches", 20, 8},
#else
            {"without", without, 6000, 120000, "the same saved and loaded by a build without the extension; non-trivial: there are curves or patches", 20, 8},
#ifdef VERIF_BOTH
            {"exchange", exchange, 6000, 120000, "files exchanged between builds with and without the extension in both directions; non-trivial: there are curves or patches", 20, 8},
#endif
#endif
        });
}
