// C15: sections that are not understood have no effect, and neither has the order of the sections.
#include "../mutate.h"
using namespace util;

static bool known(const std::string& n)
{
    static const std::set<std::string> k = {"MeshFormat", "Entities", "PhysicalNames", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData", "NanoSplineFormat", "Curves", "Patches"};
    return k.count(n) > 0;
}

static std::string unknown_name(Src& s)
{
    static const std::vector<std::string> k = {"Foo", "Comments", "Periodic", "GhostElements", "PartitionedEntities", "Parametrizations", "InterpolationScheme", "nodes", "NODES", "Node", "NodesX", "Nodes1", "Element", "ElementsData",
        "NodeDatas", "ElementNodeDat", "MeshFormat2", "Meshformat", "PhysicalName", "Entity", "X", "$Nodes", "Nod", "1", "my-section", "Patch", "Curve", "NanoSpline", "Nodes:", "NodeElementData", "E", "En", "xEnd", "Mesh", "End", "EndConditions", "EndNode", "EndMesh", "EndEnd"};
    std::string n = s.pick(k);
    if (s.chance(1, 10)) n += std::string(s.draw(600), 'y');
    return n;
}

static std::string content(Src& s, const std::string& name)
{
    std::string r;
    const size_t n = s.draw(6);
    for (size_t i = 0; i < n; i++) {
        switch (s.draw(8)) {
        case 0: r += "some text 1 2 3\n"; break;
        case 1: { // what looks like a known section
            ref::File f = mut::small_file(s);
            r += f.pieces[s.draw(f.pieces.size() - 1)].text;
            break;
        }
        case 2: { // bytes
            const size_t k = s.draw(60);
            for (size_t j = 0; j < k; j++) r += static_cast<char>(s.draw(255));
            break;
        }
        case 3: r += "$End" + name + "X\nx$End" + name + "\n$end" + name + "\n$ End" + name + "\n"; break;
        case 4: r += "$" + name + "\n"; break; // its own opening again
        case 5: r += "$Nodes\n1 1 1 1\n"; break;
        case 6: r += "$EndNodes\n$EndElements\n$End\n"; break;
        case 7: r += std::string(s.draw(5000), 'z') + "\n"; break;
        default: r += "  \t\r\n\n"; break;
        }
    }
    if (!r.empty() && r.back() != '\n') r += '\n';
    // The only thing that must not occur is the section's own end marker.
    const std::string mark = "$End" + name;
    std::istringstream in(r);
    std::string w;
    while (in >> w)
        if (w == mark) return "text\n";
    return r;
}

static ref::Piece unknown(Src& s, Ctx& c)
{
    std::string name = unknown_name(s);
    while (known(name)) name += "_";
    c.label("unknown sections");
    const char* eol = s.chance(1, 4) ? "\r\n" : "\n";
    return {name, "$" + name + eol + content(s, name) + "$End" + name + eol};
}

// In a build without the extension its sections are unknown ones.
static ref::Piece extension(Src& s, Ctx& c, bool ascii)
{
    c.label("extension sections");
    gen::Opts o;
    o.finite = true;
    o.allow_big = false;
    MshSpec m;
    gen::splines(s, o, m);
    static const std::vector<std::string> names = {"NanoSplineFormat", "Curves", "Patches"};
    std::string name = s.pick(names);
    if (name != "NanoSplineFormat" && s.chance(1, 4)) return {name, "$" + name + "\n" + content(s, name) + "$End" + name + "\n"};
    ref::Out w(s, ascii, 0);
    if (name == "Curves")
        ref::curves(w, m.curves);
    else if (name == "Patches")
        ref::patches(w, m.patches);
    else
        ref::spline_format(w, "9.9");
    return {name, w.b};
}

static void compare(const std::string& plain, const std::string& changed, const std::string& how, Ctx& c)
{
    MshSpec a, b;
    std::string what;
    a = load(plain);
    if (c.want_text) c.text = "plain: " + eq::bytes_text(plain) + "\n" + how + ": " + eq::bytes_text(changed);
    Exc e = attempt([&] { b = load(changed); }, &what);
    require(e == Exc::none, how + ": no longer loads: " + what);
    if (!kExt) b.nanospline_format.version = a.nanospline_format.version; // the one line every build understands
    std::string d = eq::diff(a, b, true);
    require(d.empty(), how + ": what is loaded changed: " + d);
    if (!kExt) require(b.curves.empty() && b.patches.empty(), "curves or patches loaded without the extension");
}

static ref::File base(Src& s, bool& ascii)
{
    // The ordinary writer, with extension sections only where the build knows them.
    bool is22;
    ref::File f = mut::small_file(s, &is22, &ascii);
    if (!kExt) {
        std::vector<ref::Piece> keep;
        for (auto& p : f.pieces)
            if (p.name != "NanoSplineFormat" && p.name != "Curves" && p.name != "Patches") keep.push_back(p);
        f.pieces = keep;
    }
    return f;
}

static void inserted(Src& s, Ctx& c)
{
    bool ascii;
    ref::File f = base(s, ascii);
    const std::string plain = f.all();
    const size_t k = 1 + s.draw(3);
    for (size_t i = 0; i < k; i++) {
        ref::Piece p = !kExt && s.chance(1, 3) ? extension(s, c, ascii) : unknown(s, c);
        f.pieces.insert(f.pieces.begin() + static_cast<long>(1 + s.draw(f.pieces.size() - 1)), p);
    }
    c.nontrivial = true;
    std::string names;
    for (auto& p : f.pieces) names += " " + p.name.substr(0, 40);
    c.sample = "sections" + names;
    compare(plain, f.all(), "with unknown sections inserted", c);
}

static void reordered(Src& s, Ctx& c)
{
    bool ascii;
    ref::File f = base(s, ascii);
    const std::string plain = f.all();
    ref::shuffle(f, s);
    std::string names;
    for (auto& p : f.pieces) names += " " + p.name;
    c.nontrivial = f.pieces.size() > 2;
    c.sample = "sections" + names;
    compare(plain, f.all(), "with its sections in another order", c);
}

// The same for files the library saves.
static void library(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.tags32 = true;
    o.allow_big = false;
    MshSpec m = gen::spec(s, o);
    std::string bytes = save_as(m, f);
    // Directly after the header and at the end.
    const std::string mark = "$EndMeshFormat\n";
    size_t at = bytes.find(mark);
    require(at != std::string::npos, "no header in a saved file");
    at += mark.size();
    ref::Piece p = unknown(s, c), q = unknown(s, c);
    c.nontrivial = true;
    describe(c, m, f.name() + " with $" + p.name.substr(0, 40) + " and $" + q.name.substr(0, 40));
    compare(bytes, bytes.substr(0, at) + p.text + bytes.substr(at) + q.text, "with unknown sections after the header and at the end", c);
}

// Sections of other programs may be long.
static void long_ones(Src& s, Ctx& c)
{
    bool ascii;
    ref::File f = base(s, ascii);
    const std::string plain = f.all();
    std::string name = unknown_name(s);
    while (known(name)) name += "_";
    std::string unit, body;
    size_t bytes = size_t(200000) << s.draw(4);
    switch (s.draw(5)) {
    case 0: unit = "w "; break;
    case 1: unit = "7\n"; break;
    case 2: unit = "$Q\n"; break;
    case 3: unit = "0123456789"; break; // one word
    case 4: unit = " \t\n"; break;
    default: unit = content(s, name); bytes /= 4;
    }
    if (unit.empty()) unit = "\n";
    while (body.size() < bytes) body += unit;
    std::string text;
    if (s.chance(1, 4)) { // between sections
        for (char& ch : body)
            if (ch == '$') ch = '#';
        text = body + "\n";
        name = "";
    } else {
        text = "$" + name + "\n" + body + "\n$End" + name + "\n";
    }
    c.label(name.empty() ? "between sections" : "an unknown section");
    c.nontrivial = true;
    c.sample = std::to_string(text.size()) + " bytes of " + eq::bytes_text(unit, 40) + (name.empty() ? " between sections" : " in section " + name.substr(0, 40));
    f.pieces.insert(f.pieces.begin() + static_cast<long>(1 + s.draw(f.pieces.size() - 1)), ref::Piece{name, text});
    compare(plain, f.all(), "with " + c.sample, c);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C15",
        {{"inserted", inserted, 8000, 160000, "independently written files with 1..4 unknown sections inserted; all non-trivial", 10, 8},
            {"reordered", reordered, 5000, 100000, "independently written files with their sections reordered; non-trivial: at least two besides the header", 10, 8},
            {"library", library, 3000, 60000, "saved files with unknown sections added; all non-trivial", 10, 8},
            {"long", long_ones, 120, 2400, "independently written files with 0.2 to 3.2 MB that is not understood inserted; all non-trivial", 10, 8}});
}
