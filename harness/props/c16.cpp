// C16: file calls equal stream calls and report every I/O failure.
#include "../alloc.h"
#include "../mutate.h"
#include "../streams.h"

#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
using namespace util;

// A scratch directory of the case, removed with everything in it.
struct Scratch
{
    std::string dir;
    std::vector<std::string> files;
    Scratch()
    {
        char d[] = "/tmp/mshio_verif_XXXXXX";
        require(mkdtemp(d) != nullptr, "harness: no scratch directory");
        dir = d;
    }
    ~Scratch()
    {
        for (auto& f : files) unlink(f.c_str());
        rmdir(dir.c_str());
    }
    std::string file(const std::string& name)
    {
        files.push_back(dir + "/" + name);
        return files.back();
    }
};

static MshSpec some_spec(Src& s, const Format& f, bool big = true)
{
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.tags32 = f.is22() || s.flip();
    o.allow_big = big && s.chance(1, 8);
    MshSpec m = gen::spec(s, o);
    set_format(m, f);
    return m;
}

static std::string file_name(Src& s)
{
    static const std::vector<std::string> n = {"a.msh", "noextension", "with space.msh", "x.MSH", "\xc3\xa9.msh", ".hidden", "a.b.c", "\"quoted\"", "$Nodes", "tab\t.msh", "-", "a\nb", "at the end ", " at the start", "a.msh~", "~", "%41.msh", "a*.msh", "$HOME", "a\\b.msh", "A.MSH", "a.msh.gz", "nul\x01.msh"};
    return s.pick(n);
}

static std::string put(const std::string& path, const std::string& bytes)
{
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
    f.close();
    require(bool(f), "harness: cannot write scratch file");
    return path;
}

static std::string get(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

// The rights of an ordinary user while this exists, where the check runs as root.
struct Unprivileged
{
    bool active;
    explicit Unprivileged(bool wanted)
        : active(wanted && geteuid() == 0 && seteuid(65534) == 0)
    {}
    ~Unprivileged()
    {
        if (active && seteuid(0) != 0) _exit(97);
    }
};
static bool give(const std::string& path, mode_t mode) { return chown(path.c_str(), 65534, static_cast<gid_t>(-1)) == 0 && chmod(path.c_str(), mode) == 0; }

static void saving(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    MshSpec m = some_spec(s, f);
    const std::string want = save(m);
    Scratch d;
    const std::string path = d.file(file_name(s));
    const size_t before = s.draw(3);
    static const std::vector<std::string> what = {"no file", "an empty file", "a longer file", "a shorter file"};
    if (before == 1) put(path, "");
    if (before == 2) put(path, want + std::string(1 + s.draw(5000), 'x'));
    if (before == 3) put(path, want.substr(0, want.size() / 2) + "y");
    c.label(f.name() + " over " + what[before]);
    c.nontrivial = want.size() > 60;
    describe(c, m, "save " + f.name() + " to a file name where there is " + what[before]);
    std::string msg;
    // A file that may be written, but not read.
    const bool write_only = before > 0 && s.chance(1, 4) && give(d.dir, 0700) && give(path, 0200);
    c.label_if(write_only, "a file that may not be read");
    Exc e;
    {
        Unprivileged u(write_only);
        e = attempt([&] { save_msh(path, m); }, &msg);
    }
    require(e == Exc::none, "saving to a file name throws: " + msg);
    std::string got = get(path);
    if (c.want_text) c.text = "stream: " + eq::bytes_text(want) + "\nfile: " + eq::bytes_text(got);
    require(got == want, "saving to a file name writes other bytes than saving to a stream");
    MshSpec a, b;
    e = attempt([&] { b = load_msh(path); }, &msg);
    require(e == Exc::none, "the saved file does not load from its name: " + msg);
    a = load(want);
    std::string x = eq::diff(a, b, true);
    require(x.empty(), "loading from a file name differs from loading from a stream: " + x);
    require(get(path) == want, "loading changed the file");
}

static void loading(Src& s, Ctx& c)
{
    std::string bytes = s.chance(1, 4) ? mut::bytes(s, c) : mut::small_file(s).all();
    Scratch d;
    const std::string path = d.file(file_name(s));
    const bool fifo = s.chance(1, 20);
    c.label(fifo ? "pipe" : "file");
    c.nontrivial = bytes.size() > 60;
    c.sample = "load from a file name: " + eq::bytes_text(bytes, 200);
    if (c.want_text) c.text = eq::bytes_text(bytes);
    alloc::cap() = alloc::live() + (300u << 20);
    MshSpec a, b;
    Exc ea = attempt([&] { a = load(bytes); }), eb;
    if (fifo) {
        require(mkfifo(path.c_str(), 0600) == 0, "harness: no pipe");
        signal(SIGPIPE, SIG_IGN);
        std::thread t([&] {
            int fd = open(path.c_str(), O_WRONLY);
            for (size_t at = 0; fd >= 0 && at < bytes.size();) {
                ssize_t k = write(fd, bytes.data() + at, std::min<size_t>(bytes.size() - at, 1000));
                if (k <= 0) break;
                at += static_cast<size_t>(k);
            }
            if (fd >= 0) close(fd);
        });
        eb = attempt([&] { b = load_msh(path); });
        // Lets the writer go on in case the library did not open the pipe.
        int fd = open(path.c_str(), O_RDONLY | O_NONBLOCK);
        t.join();
        if (fd >= 0) close(fd);
    } else {
        put(path, bytes);
        const bool read_only = s.chance(1, 4) && give(path, 0400) && give(d.dir, 0500);
        std::string by = path;
        const size_t how = s.draw(5);
        if (how == 1) {
            by = d.file("link to it");
            require(symlink(path.c_str(), by.c_str()) == 0, "harness: symlink");
        }
        if (how == 2) by = d.dir + "/./" + path.substr(d.dir.size() + 1);
        c.label_if(read_only, "a file and a directory that may not be written");
        c.label_if(how == 1, "through a link");
        {
            Unprivileged u(read_only);
            eb = attempt([&] { b = load_msh(by); });
        }
        require(get(path) == bytes, "loading changed the file");
    }
    alloc::cap() = SIZE_MAX;
    require(ea == eb, std::string("from a stream: ") + name(ea) + "; from a file name: " + name(eb));
    if (ea == Exc::none) {
        std::string x = eq::diff(a, b, true);
        require(x.empty(), "loading from a file name differs from loading from a stream: " + x);
    }
}

// Names that cannot be opened, devices that take nothing, file size limits at every kind of position.
static void limits(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    MshSpec m = some_spec(s, f);
    const std::string want = save(m);
    Scratch d;
    std::string msg;
    c.nontrivial = true;
    switch (s.weighted({12, 6, 60})) {
    case 0: {
        std::string plain = put(d.file("plain"), "x");
        const std::vector<std::string> bad = {d.dir + "/missing/a.msh", d.dir, d.dir + "/", plain + "/a.msh", "", d.dir + "/" + std::string(300, 'n')};
        const std::string p = s.pick(bad);
        c.label("name that cannot be opened");
        describe(c, m, "save to and load from \"" + p.substr(0, 60) + "\"");
        require(attempt([&] { save_msh(p, m); }) != Exc::none, "saving to \"" + p + "\" returns normally");
        MshSpec b;
        require(attempt([&] { b = load_msh(p); }) != Exc::none, "loading from \"" + p + "\" returns normally");
        require(attempt([&] { b = load_msh(d.dir + "/nothing.msh"); }) != Exc::none, "loading a missing file returns normally");
        require(get(plain) == "x", "a file was changed that was not to be written");
        return;
    }
    case 1: {
        // Through a link in the scratch directory: code that removes or replaces the file it cannot write must not hit the
        // device itself.
        struct stat st;
        if (stat("/dev/full", &st) != 0 || !S_ISCHR(st.st_mode) || access("/dev/full", W_OK) != 0) return;
        const std::string link = d.file("full");
        require(symlink("/dev/full", link.c_str()) == 0, "harness: symlink");
        c.label("full device");
        describe(c, m, "save " + f.name() + " to a full device");
        require(attempt([&] { save_msh(link, m); }) != Exc::none, "saving to a full device returns normally");
        return;
    }
    default: break;
    }
    // The file may not grow beyond k bytes.
    size_t k;
    switch (s.draw(4)) {
    case 0: k = want.size() - 1 - s.draw(std::min<size_t>(want.size() - 1, 20)); break;
    case 1: k = s.draw(want.size() - 1); break;
    case 2: k = std::min(want.size() - 1, size_t(8191 * (1 + s.draw(3)) + s.draw(2))); break;
    case 3: k = want.size() + s.draw(3); break;
    default: k = want.size(); break;
    }
    const bool there = s.chance(1, 4);
    const std::string path = d.file("a.msh");
    if (there) put(path, std::string(want.size() + 5, 'x'));
    describe(c, m, "save " + f.name() + " (" + std::to_string(want.size()) + " bytes) with a file size limit of " + std::to_string(k));
    c.label(k < want.size() ? "limit below the size" : "limit not below the size");
    signal(SIGXFSZ, SIG_IGN);
    rlimit old;
    require(getrlimit(RLIMIT_FSIZE, &old) == 0, "harness: getrlimit");
    rlimit lim = old;
    lim.rlim_cur = k;
    require(setrlimit(RLIMIT_FSIZE, &lim) == 0, "harness: setrlimit");
    Exc e = attempt([&] { save_msh(path, m); }, &msg);
    setrlimit(RLIMIT_FSIZE, &old);
    const std::string got = get(path);
    if (c.want_text) c.text = "complete: " + eq::bytes_text(want) + "\nfile: " + eq::bytes_text(got);
    if (k < want.size()) {
        require(e != Exc::none, "saving returns normally although only " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " bytes are in the file");
    } else {
        require(e == Exc::none, "saving throws although nothing is wrong: " + msg);
        require(got == want, "the file is not complete");
    }
}

// A stream buffer that fails after k bytes, in one of several manners.
class Failing : public std::streambuf
{
public:
    enum Manner { stop, once, toss, toss_once, flush_fails };
    Failing(Manner m, size_t k, size_t buffer)
        : m_manner(m)
        , m_left(k)
        , m_buf(buffer)
    {
        if (buffer) setp(m_buf.data(), m_buf.data() + buffer);
    }
    std::string accepted;
    size_t failures = 0;

protected:
    int_type overflow(int_type c) override
    {
        if (!drain()) return traits_type::eof();
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if (!m_buf.empty()) return sputc(traits_type::to_char_type(c));
        char ch = traits_type::to_char_type(c);
        return take(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if (m_buf.empty()) return take(p, n);
        return std::streambuf::xsputn(p, n);
    }
    int sync() override { return drain() ? 0 : -1; }

private:
    bool drain()
    {
        if (m_buf.empty()) return true;
        const std::streamsize n = pptr() - pbase();
        const std::streamsize k = take(pbase(), n);
        // What has been accepted is gone from the buffer, the rest stays.
        std::string rest(pbase() + k, pptr());
        setp(m_buf.data(), m_buf.data() + m_buf.size());
        memcpy(m_buf.data(), rest.data(), rest.size());
        pbump(static_cast<int>(rest.size()));
        return k == n;
    }
    std::streamsize take(const char* p, std::streamsize n)
    {
        std::streamsize k = static_cast<std::streamsize>(std::min<size_t>(static_cast<size_t>(n), m_left));
        accepted.append(p, static_cast<size_t>(k));
        m_left -= static_cast<size_t>(k);
        if (k < n) {
            failures++;
            const bool tosses = m_manner == toss || m_manner == toss_once;
            if (m_manner == once || m_manner == toss_once) m_left = SIZE_MAX;
            if (tosses) throw std::runtime_error("device error");
        }
        return k;
    }
    Manner m_manner;
    size_t m_left;
    std::vector<char> m_buf;
};

static void streams_fail(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    MshSpec m = some_spec(s, f, false);
    const std::string want = save(m);
    const size_t n = want.size();
    c.nontrivial = n > 60;
    describe(c, m, "save " + f.name() + " (" + std::to_string(n) + " bytes) to streams that fail");
    c.label(f.name());
    // Every position of a small output, some of a larger one.
    std::vector<size_t> ks;
    if (n <= 300)
        for (size_t k = 0; k <= n + 1; k++) ks.push_back(k);
    else
        for (size_t i = 0; i < 60; i++) ks.push_back(i < 20 ? n - i : s.draw(n));
    for (size_t k : ks) {
        const auto manner = static_cast<Failing::Manner>(s.draw(3));
        static const std::vector<size_t> bufs = {0, 1, 7, 64, 1000};
        const size_t buffer = s.chance(1, 3) ? s.pick(bufs) : 0;
        const unsigned mask = s.chance(1, 4) ? static_cast<unsigned>(s.draw(7)) : 0;
        Failing b(manner, k, buffer);
        std::ostream o(&b);
        Exc e = attempt([&] {
            o.exceptions(static_cast<std::ios_base::iostate>(mask));
            save_msh(o, m);
        });
        const bool reported = e != Exc::none || !o.good();
        std::string how = "stream failing after " + std::to_string(k) + " of " + std::to_string(n) + " bytes (manner " + std::to_string(manner) + ", buffer " + std::to_string(buffer) + ", mask " + std::to_string(mask) + "): ";
        if (c.want_text) c.text = how + "\ncomplete: " + eq::bytes_text(want) + "\naccepted: " + eq::bytes_text(b.accepted);
        if (b.failures > 0) require(reported, how + "neither an exception nor a failed stream");
        if (b.failures > 0 && (manner == Failing::stop || manner == Failing::once)) require(!o.good(), how + "the stream is not in a failed state");
        if (b.failures == 0) require(!reported, how + "reported a failure that was none");
        require(want.compare(0, b.accepted.size(), b.accepted) == 0, how + "what was accepted is not a prefix of the complete output");
        if (!reported) {
            bool ok = true;
            try {
                o.flush();
                ok = o.good();
            } catch (...) {
                ok = false;
            }
            if (ok) require(b.accepted == want, how + "no failure, but the output is not complete");
        }
        c.inner++;
    }
    // A stream that has already failed takes nothing and stays failed.
    static const std::vector<std::ios_base::iostate> bad = {std::ios_base::badbit, std::ios_base::failbit};
    std::ostringstream o;
    o.setstate(s.pick(bad));
    attempt([&] { save_msh(o, m); });
    require(!o.good() && o.str().empty(), "a failed stream was written to or repaired");
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C16",
        {{"saving", saving, 3000, 60000, "consistent specifications saved by name over nothing, an empty, a longer or a shorter file; non-trivial: more than a header", 20, 8},
            {"loading", loading, 4000, 80000, "conforming and arbitrary files and pipes loaded by name and from memory; non-trivial: more than a header", 60, 8},
            {"limits", limits, 3000, 60000, "names that cannot be opened, a full device, file size limits around and below the size of the output; all non-trivial", 20, 8},
            {"streams", streams_fail, 1200, 24000, "output streams failing at every byte (small outputs) or 60 positions, in four manners; non-trivial: more than a header", 20, 8}});
}
