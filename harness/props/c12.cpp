// C12: unsupported or invalid variants are refused by name.
#include "../mutate.h"
#include <sys/stat.h>
using namespace util;

static void expect(Exc got, Exc want, const std::string& what, Ctx& c, const std::string& input)
{
    if (got == want) return;
    if (c.want_text) c.text = input;
    pbt::fail(what + ": expected " + name(want) + ", got " + name(got));
}

static std::string header(const std::string& version, const std::string& type, const std::string& size, bool binary, const std::string& marker)
{
    return "$MeshFormat\n" + version + " " + type + " " + size + "\n" + (binary ? marker + "\n" : "") + "$EndMeshFormat\n";
}
static const std::string kOne("\x01\0\0\0", 4), kForeign("\0\0\0\x01", 4);

static std::string bad_version(Src& s, bool for_save)
{
    static const std::vector<std::string> v = {"4.0", "4", "2", "2.1", "2.0", "1.0", "1", "3.0", "3", "4.2", "5.0", "4.10", "4.11", "4.1.0", "4.1.1", "2.20", "2.22", "2.3", "2.2.0", "04.1", "02.2", "+4.1", "-4.1", "v4.1",
        "4,1", "2,2", "2.2x", "4.1x", "x4.1", "4.", ".1", "41", "22", "4.1e0", "4.15", "2.25", "inf", "nan", "latest", "10.4.1", "0", "-1", "4.1\xc2\xa0", "$4.1", "4.1,", "2.", "4.09", "4.100000", "2.2000"};
    if (for_save && s.chance(1, 6)) {
        static const std::vector<std::string> w = {"", " ", "4.1 ", " 4.1", "2.2\n", "4.1 0", std::string("4.1\0", 4), "4.1 4.1"};
        return s.pick(w);
    }
    if (s.chance(1, 5)) {
        std::string r = s.flip() ? "4.1" : "2.2";
        size_t at = s.draw(r.size() - 1);
        static const std::string d = "0123456789.x,-";
        r[at] = d[s.draw(d.size() - 1)];
        if (r != "4.1" && r != "2.2") return r;
    }
    return s.pick(v);
}

static int bad_type_flag(Src& s)
{
    static const std::vector<int> v = {2, -1, 3, 4, 8, 10, 100, 255, 256, 257, -2, INT_MAX, INT_MIN, 65536, 65537, -256};
    return s.pick(v);
}
static int bad_element_type(Src& s)
{
    static const std::vector<int> v = {0, 32, -1, 33, 34, 40, 63, 64, 92, 93, 100, 127, 128, 255, 256, 257, 1000, 65536, 65551, -2, -15, -32, INT_MAX, INT_MIN, INT_MIN + 1, 0x01000000, 0x0F000000};
    if (s.chance(1, 4)) {
        int x = static_cast<int>(s.u32());
        if (x < 1 || x > 31) return x;
    }
    return s.pick(v);
}

static MshSpec some_spec(Src& s, bool tags32 = true)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.plain_strings = true;
    o.tags32 = tags32;
    o.allow_big = false;
    return s.chance(1, 6) ? MshSpec() : gen::spec(s, o);
}

// Headers, when loading.
static void load_header(Src& s, Ctx& c)
{
    bool is22, ascii;
    ref::File f = mut::small_file(s, &is22, &ascii);
    if (s.chance(1, 8)) f.pieces.resize(1);
    std::string v = is22 ? "2.2" : "4.1", t = ascii ? "0" : "1", z = "8", mark = kOne;
    const size_t what = s.draw(ascii ? 2 : 3);
    std::string name;
    if (what == 0) {
        v = bad_version(s, false);
        name = "version " + v;
    } else if (what == 1) {
        t = std::to_string(bad_type_flag(s));
        name = "file type " + t;
    } else if (what == 2) {
        if (is22) return; // only 4.1 depends on the data size
        static const std::vector<int> k = {4, 16, 0, 1, 2, 7, 9, -8, 80, 64, 32, 264, INT_MAX, INT_MIN};
        z = std::to_string(s.pick(k));
        name = "data size " + z;
    } else {
        mark = kForeign;
        name = "foreign byte order";
    }
    f.pieces[0].text = header(v, t, z, !ascii, mark);
    if (!ascii && s.flip()) f.pieces[0].text.erase(f.pieces[0].text.rfind("\n$"), 1); // no newline after the marker
    std::string b = f.all();
    c.nontrivial = true;
    c.label(what == 0 ? "version" : what == 1 ? "file type" : what == 2 ? "data size" : "byte order");
    c.sample = name + " in a " + (is22 ? "2.2" : "4.1") + (ascii ? " ASCII" : " binary") + " file";
    expect(attempt([&] { load(b); }), Exc::unsupported, "loading a file with " + name, c, eq::bytes_text(b));
}

// Headers, when saving, whatever else there is to save.
static void save_header(Src& s, Ctx& c)
{
    MshSpec m = some_spec(s);
    set_format(m, kFormats[s.draw(3)]);
    std::string name;
    const size_t what = s.draw(2);
    if (what == 0) {
        m.mesh_format.version = bad_version(s, true);
        name = "version \"" + m.mesh_format.version + "\"";
    } else if (what == 1) {
        m.mesh_format.file_type = bad_type_flag(s);
        name = "file type " + std::to_string(m.mesh_format.file_type);
    } else {
        m.mesh_format.version = "4.1";
        static const std::vector<int> k = {4, 16, 0, 1, 2, 7, 9, -8, 80, INT_MAX, INT_MIN};
        m.mesh_format.data_size = s.pick(k);
        name = "data size " + std::to_string(m.mesh_format.data_size);
    }
    c.nontrivial = true;
    c.label(what == 0 ? "version" : what == 1 ? "file type" : "data size");
    describe(c, m, "save with " + name);
    std::ostringstream o;
    expect(attempt([&] { save_msh(o, m); }), Exc::unsupported, "saving with " + name, c, eq::summary(m));
}

static void element_type(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    const int bad = bad_element_type(s);
    gen::Opts o;
    o.finite = o.plain_strings = o.tags32 = true;
    o.allow_big = false;
    o.max_items = 20;
    o.need_nodes = true;
    MshSpec m;
    gen::nodes(s, o, m);
    gen::elements(s, o, m);
    set_format(m, f);
    if (m.nodes.num_nodes == 0) { // all blocks may have been empty
        m.nodes = Nodes();
        m.nodes.entity_blocks.resize(1);
        auto& b = m.nodes.entity_blocks[0];
        b.num_nodes_in_block = 1;
        b.tags = {1};
        b.data = {0, 0, 0};
        m.nodes.num_entity_blocks = m.nodes.num_nodes = m.nodes.min_node_tag = m.nodes.max_node_tag = 1;
    }
    const size_t node = [&] {
        for (auto& b : m.nodes.entity_blocks)
            if (!b.tags.empty()) return b.tags[0];
        return size_t(1);
    }();
    c.nontrivial = true;
    const bool saving = s.flip();
    const size_t count = f.is22() && !saving ? 1 + s.draw(2) : s.draw(3), width = 1 + s.draw(4);
    c.label(std::string(saving ? "save " : "load ") + f.name());
    c.sample = std::string(saving ? "save " : "load ") + f.name() + " with element type " + std::to_string(bad) + " in a block of " + std::to_string(count);
    if (saving) {
        ElementBlock b;
        b.element_type = bad;
        b.entity_dim = static_cast<int>(s.draw(3));
        b.entity_tag = gen::i32(s);
        b.num_elements_in_block = count;
        for (size_t i = 0; i < count * (width + 1); i++) b.data.push_back(node);
        m.elements.entity_blocks.insert(m.elements.entity_blocks.begin() + static_cast<long>(s.draw(m.elements.entity_blocks.size())), b);
        m.elements.num_entity_blocks++;
        m.elements.num_elements += count;
        std::ostringstream out;
        expect(attempt([&] { save_msh(out, m); }), Exc::unsupported, c.sample, c, eq::summary(m));
        return;
    }
    std::string b;
    ref::Out w(s, f.ascii(), 0);
    ref::header(w, f.version);
    if (s.flip()) {
        if (f.is22())
            ref::nodes22(w, eq::flat_nodes(m));
        else
            ref::nodes41(w, m.nodes);
    }
    ref::open(w, "Elements");
    const size_t good = s.draw(2);
    if (f.ascii()) {
        if (f.is22()) {
            w.raw(std::to_string(good + count) + "\n");
            for (size_t i = 0; i < good; i++) w.raw(std::to_string(i + 1) + " 15 2 3 4 1\n");
            for (size_t i = 0; i < count; i++) {
                w.raw(std::to_string(good + i + 1) + " " + std::to_string(bad) + " 2 3 4");
                for (size_t k = 0; k < width; k++) w.raw(" 1");
                w.raw("\n");
            }
        } else {
            w.raw(std::to_string(good + 1) + " " + std::to_string(good + count) + " 1 " + std::to_string(good + count) + "\n");
            for (size_t i = 0; i < good; i++) w.raw("0 1 15 1\n" + std::to_string(i + 1) + " 1\n");
            w.raw("0 1 " + std::to_string(bad) + " " + std::to_string(count) + "\n");
            for (size_t i = 0; i < count; i++) {
                w.raw(std::to_string(good + i + 1));
                for (size_t k = 0; k < width; k++) w.raw(" 1");
                w.raw("\n");
            }
        }
    } else if (f.is22()) {
        w.raw(std::to_string(good + count) + "\n");
        for (size_t i = 0; i < good; i++)
            for (int v : {15, 1, 2, static_cast<int>(i + 1), 3, 4, 1}) w.bi32(v);
        for (int v : {bad, static_cast<int>(count), 2}) w.bi32(v);
        for (size_t i = 0; i < count * (3 + width); i++) w.bi32(1);
        w.raw("\n");
    } else {
        for (size_t v : {good + 1, good + count, size_t(1), good + count}) w.bu64(v);
        for (size_t i = 0; i < good; i++) {
            for (int v : {0, 1, 15}) w.bi32(v);
            for (size_t v : {size_t(1), i + 1, size_t(1)}) w.bu64(v);
        }
        for (int v : {0, 1, bad}) w.bi32(v);
        w.bu64(count);
        for (size_t i = 0; i < count * (1 + width); i++) w.bu64(1);
        w.raw("\n");
    }
    ref::close(w, "Elements");
    expect(attempt([&] { load(w.b); }), Exc::unsupported, c.sample, c, eq::bytes_text(w.b));
}

// $Entities in a 2.2 file.
static void entities22(Src& s, Ctx& c)
{
    bool is22 = false, ascii = true;
    ref::File f;
    for (int k = 0; k < 6 && !is22; k++) f = mut::small_file(s, &is22, &ascii);
    if (!is22) return;
    gen::Opts o;
    o.finite = true;
    MshSpec e;
    if (s.chance(5, 6)) gen::entities(s, o, e);
    ref::Out w(s, ascii, 0);
    ref::entities41(w, e.entities);
    f.pieces.insert(f.pieces.begin() + static_cast<long>(1 + s.draw(f.pieces.size() - 1)), {"Entities", w.b});
    c.nontrivial = true;
    c.label(ascii ? "ASCII" : "binary");
    c.sample = "2.2 file with an $Entities section";
    expect(attempt([&] { load(f.all()); }), Exc::invalid, "loading a 2.2 file with an $Entities section", c, eq::bytes_text(f.all()));
}

// Post-processing data with fewer than three integer tags.
static void int_tags(Src& s, Ctx& c)
{
    bool is22, ascii;
    ref::File f = mut::small_file(s, &is22, &ascii);
    gen::Opts o;
    o.finite = o.plain_strings = true;
    o.allow_big = false;
    Data d;
    const bool en = s.flip();
    gen::data_section(s, o, d, en);
    d.header.int_tags.resize(s.draw(2));
    if (s.flip()) d.entries.clear();
    ref::Out w(s, ascii, 0);
    static const std::vector<std::string> names = {"NodeData", "ElementData"};
    std::string n = en ? "ElementNodeData" : s.pick(names);
    ref::data(w, d, n.c_str(), en);
    f.pieces.insert(f.pieces.begin() + static_cast<long>(1 + s.draw(f.pieces.size() - 1)), {n, w.b});
    c.nontrivial = true;
    c.label(n + (ascii ? " ASCII" : " binary"));
    c.sample = "$" + n + " with " + std::to_string(d.header.int_tags.size()) + " integer tags";
    expect(attempt([&] { load(f.all()); }), Exc::invalid, "loading a file where " + c.sample, c, eq::bytes_text(f.all()));
}

// An element header of a 2.2 binary file that exceeds what is left of the declared number of elements.
static void headers22(Src& s, Ctx& c)
{
    ref::Out w(s, false, 0);
    ref::header(w, "2.2");
    ref::open(w, "Elements");
    std::vector<int> groups;
    for (size_t i = 0, n = 1 + s.draw(4); i < n; i++) groups.push_back(static_cast<int>(1 + s.draw(s.chance(1, 5) ? 40 : 3)));
    int before = 0;
    for (size_t i = 0; i + 1 < groups.size(); i++) before += groups[i];
    if (before == 0 && groups.back() == 1) groups.back() = 2;
    const int last = groups.back();
    if (last == 1) groups.back() = 2; // something to exceed
    const int declared = before + 1 + static_cast<int>(s.draw(static_cast<uint64_t>(groups.back() - 2)));
    w.raw(std::to_string(declared) + "\n");
    int tag = 1;
    for (int g : groups) {
        const int type = static_cast<int>(1 + s.draw(30)), nt = static_cast<int>(s.draw(3));
        for (int v : {type, g, nt}) w.bi32(v);
        for (int i = 0; i < g; i++) {
            w.bi32(tag++);
            for (int k = 0; k < nt + static_cast<int>(gen::kTable[type].nodes); k++) w.bi32(1 + k);
        }
    }
    w.raw("\n$EndElements\n");
    c.nontrivial = true;
    c.sample = "2.2 binary, " + std::to_string(declared) + " elements declared, headers for " + std::to_string(before + groups.back());
    expect(attempt([&] { load(w.b); }), Exc::invalid, c.sample, c, eq::bytes_text(w.b));
}

// Files that do not exist or cannot be written.
static void files(Src& s, Ctx& c)
{
    char dir[] = "/tmp/mshio_verif_XXXXXX";
    require(mkdtemp(dir) != nullptr, "harness: no scratch directory");
    const std::string d = dir;
    std::string file = d + "/plain";
    { std::ofstream(file) << "x"; }
    const std::vector<std::string> in = {d + "/missing.msh", d + "/no/such/dir.msh", file + "/below", "", d + "/" + std::string(300, 'n')};
    const std::vector<std::string> out = {d, d + "/no/such/dir.msh", file + "/below", "", d + "/" + std::string(300, 'n'), d + "/trailing/"};
    const std::string i = s.pick(in), o = s.pick(out);
    MshSpec m = some_spec(s);
    set_format(m, kFormats[s.draw(3)]);
    Exc a = attempt([&] { load_msh(i); }), b = attempt([&] { save_msh(o, m); });
    const bool empty_dir = access((d + "/missing.msh").c_str(), F_OK) != 0;
    unlink(file.c_str());
    rmdir(d.c_str());
    c.nontrivial = true;
    c.inner = 2;
    c.sample = "load \"" + i.substr(0, 60) + "\", save \"" + o.substr(0, 60) + "\"";
    require(a != Exc::none && a != Exc::unknown, "loading \"" + i + "\": expected an exception, got " + name(a));
    require(b != Exc::none && b != Exc::unknown, "saving to \"" + o + "\": expected an exception, got " + name(b));
    require(empty_dir, "loading a missing file created it");
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C12",
        {{"load_header", load_header, 3000, 60000, "conforming files with an unsupported version, file type, data size or byte order; all non-trivial", 10, 8},
            {"save_header", save_header, 3000, 60000, "consistent and empty specifications with an unsupported version, file type or data size; all non-trivial", 10, 8},
            {"element_type", element_type, 4000, 80000, "an unsupported element type in a file or specification of each format; all non-trivial", 10, 8},
            {"entities22", entities22, 1000, 20000, "2.2 files with an $Entities section; all non-trivial", 10, 8},
            {"int_tags", int_tags, 2000, 30000, "post-processing sections with 0..2 integer tags; all non-trivial", 10, 8},
            {"headers22", headers22, 2000, 30000, "2.2 binary element headers exceeding the declared count; all non-trivial", 10, 8},
            {"files", files, 400, 4000, "missing inputs and unwritable outputs; all non-trivial", 10, 8}});
}
