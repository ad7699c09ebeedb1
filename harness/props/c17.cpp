// C17: results do not depend on stream or locale state, and the caller's settings are left alone.
#include "../alloc.h"
#include "../mutate.h"
#include "../streams.h"
using namespace util;

static MshSpec some_spec(Src& s, const Format& f)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.tags32 = f.is22() || s.flip();
    o.allow_big = s.chance(1, 20);
    MshSpec m = gen::spec(s, o);
    set_format(m, f);
    return m;
}

// What a stream may hold already.
static std::string before(Src& s)
{
    static const std::vector<std::string> v = {"0123456789", "\xef\xbb\xbf", "\n", "# mine\n", "$Comments\nx\n$EndComments\n", "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n"};
    return s.flip() ? s.pick(v) : std::string(s.flip() ? s.draw(9) : s.draw(600), s.flip() ? ' ' : 'x');
}

static void saving(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    MshSpec m = some_spec(s, f);
    const std::string want = save(m);
    streams::Settings st = streams::settings(s);
    std::string how = st.how + "; global locale";
    std::locale g = streams::some_locale(s, how);
    const bool comma = s.chance(1, 4);
    if (comma) how += "; C locale with a decimal comma";
    const size_t kind = s.draw(3);
    c.nontrivial = m.nodes.num_nodes > 0 || !m.node_data.empty() || !m.entities.empty();
    c.label(f.name());
    describe(c, m, "save " + f.name() + " with " + how);
    std::string got, prefix, bad;
    std::string what;
    Exc e;
    {
        streams::GlobalLocale set(g);
        streams::GlobalCLocale cset(comma);
        if (cset.set()) c.label("C locale with a decimal comma");
        if (kind == 0) {
            std::ostringstream o;
            if (s.flip()) o << (prefix = before(s));
            streams::apply(o, st);
            e = attempt([&] { save_msh(o, m); }, &what);
            bad = streams::changed(o, st);
            got = o.str();
        } else if (kind == 1) { // into the middle of a stream
            std::stringstream o;
            o << (prefix = before(s));
            streams::apply(o, st);
            e = attempt([&] { save_msh(o, m); }, &what);
            bad = streams::changed(o, st);
            got = o.str();
        } else {
            streams::Collector b(kind == 2 ? 0 : 1 + s.draw(40));
            std::ostream o(&b);
            streams::apply(o, st);
            e = attempt([&] { save_msh(o, m); }, &what);
            bad = streams::changed(o, st);
            got = b.text();
        }
        if (cset.changed()) bad = "C locale changed";
    }
    require(e == Exc::none, how + ": saving throws: " + what);
    if (c.want_text) c.text = how + "\nexpected: " + eq::bytes_text(want) + "\ngot: " + eq::bytes_text(got);
    require(got == prefix + want, "what is saved depends on the settings of the stream or locale");
    require(bad.empty(), "after saving, the stream's " + bad);
}

static void loading(Src& s, Ctx& c)
{
    std::string bytes;
    bool conforming = true;
    if (s.chance(1, 3)) {
        const Format& f = kFormats[s.draw(3)];
        bytes = save(some_spec(s, f));
        c.label("saved by the library");
    } else if (s.chance(1, 5)) {
        bytes = mut::bytes(s, c);
        conforming = false;
    } else {
        bytes = mut::small_file(s).all();
        c.label("written independently");
    }
    alloc::cap() = alloc::live() + (300u << 20); // absurd declared sizes end in std::bad_alloc
    MshSpec want, got;
    const Exc we = attempt([&] { want = load(bytes); });
    streams::Settings st = streams::settings(s);
    std::string how = st.how + "; global locale";
    std::locale g = streams::some_locale(s, how), before = std::locale();
    const bool comma = s.chance(1, 4);
    if (comma) how += "; C locale with a decimal comma";
    size_t kind = s.draw(5);
    if (kind == 4 && !conforming) kind = 3; // reading a name without quotes, as the standard library does, takes putting back
    const size_t chunk = 1 + s.draw(30), skip = s.draw(20);
    static const std::vector<std::string> kinds = {"string stream", "string stream not at its start", "chunks", "unbuffered", "unbuffered without putting back", "file"};
    how += "; " + kinds[kind];
    c.label(kinds[kind]);
    c.nontrivial = bytes.size() > 60;
    c.sample = "load with " + how;
    Exc e;
    std::string bad;
    {
        streams::GlobalLocale set(g);
        streams::GlobalCLocale cset(comma);
        if (cset.set()) c.label("C locale with a decimal comma");
        auto run = [&](std::istream& in) {
            streams::apply(in, st);
            e = attempt([&] { got = load_msh(in); });
            bad = streams::changed(in, st);
        };
        if (kind == 0) {
            std::istringstream in(bytes);
            run(in);
        } else if (kind == 1) {
            std::stringstream in(std::string(skip, '$') + bytes);
            in.ignore(static_cast<std::streamsize>(skip));
            run(in);
        } else if (kind == 2) {
            streams::Chunked b(bytes, chunk, s.flip());
            std::istream in(&b);
            run(in);
        } else if (kind <= 4) {
            streams::Unbuffered b(bytes, kind == 3);
            std::istream in(&b);
            run(in);
        } else {
            char name[] = "/tmp/mshio_verif_XXXXXX";
            int fd = mkstemp(name);
            require(fd >= 0, "harness: no scratch file");
            close(fd);
            { std::ofstream(name, std::ios::binary) << std::string(skip, '$') << bytes; }
            std::ifstream in(name, std::ios::binary);
            unlink(name);
            in.seekg(static_cast<std::streamoff>(skip));
            run(in);
        }
        if (!(std::locale() == g)) bad = "global locale changed";
        if (cset.changed()) bad = "C locale changed";
    }
    alloc::cap() = SIZE_MAX;
    require(std::locale() == before, "harness: global locale");
    if (c.want_text) c.text = how + "\nfile: " + eq::bytes_text(bytes);
    require(e == we, std::string("from a plain stream: ") + name(we) + "; with " + how + ": " + name(e));
    if (we == Exc::none) {
        std::string d = eq::diff(want, got, true);
        require(d.empty(), "what is loaded depends on the settings of the stream or locale: " + d);
    }
    require(bad.empty(), "after loading, the stream's " + bad);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C17",
        {{"saving", saving, 8000, 160000, "consistent specifications saved through streams with random settings and buffers; non-trivial: there are numbers to write", 10, 8},
            {"loading", loading, 10000, 200000, "files loaded through streams with random settings and buffers; non-trivial: more than a header", 60, 8}});
}
