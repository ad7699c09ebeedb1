// C26: whatever fails, it is reported, nothing is leaked, and later calls do not notice. Fault enumeration: every
// allocation of a call fails in turn.
#include "../alloc.h"
#include "../consistent.h"
#include "../mutate.h"

#include <dirent.h>
#include <memory>
using namespace util;

namespace {

// Stream buffers that allocate nothing.
class FixedOut : public std::streambuf
{
public:
    FixedOut(std::vector<char>& room, size_t limit)
    {
        setp(room.data(), room.data() + std::min(limit, room.size()));
    }
    size_t size() const { return static_cast<size_t>(pptr() - pbase()); }
};
class FixedIn : public std::streambuf
{
public:
    explicit FixedIn(const std::string& s)
    {
        char* p = const_cast<char*>(s.data());
        setg(p, p, p + s.size());
    }
};

size_t open_files()
{
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) n++;
        closedir(d);
    }
    return n;
}

struct Call
{
    enum Kind { load_stream, load_name, save_stream, save_name, validate } kind = load_stream;
    std::string bytes, path, out_path;
    MshSpec spec;
    size_t limit = SIZE_MAX; // what the output takes
    std::vector<char> room;
    std::string what;
};

struct Result
{
    Exc e = Exc::none;
    bool bad_alloc = false, stream_ok = true;
    std::unique_ptr<MshSpec> spec;
    size_t written = 0;
};

std::string get(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

// Performs the call while allocations first..last fail.
Result perform(Call& c, size_t first, size_t last, size_t* count)
{
    Result r;
    r.spec.reset(new MshSpec);
    auto& f = alloc::fault();
    f.count = 0;
    f.first = first;
    f.last = last;
    auto guarded = [&](auto&& fn) {
        f.on = true;
        try {
            fn();
            f.on = false;
        } catch (const std::bad_alloc&) {
            f.on = false;
            r.e = Exc::other_std;
            r.bad_alloc = true;
        } catch (const InvalidFormat&) {
            f.on = false;
            r.e = Exc::invalid;
        } catch (const UnsupportedFeature&) {
            f.on = false;
            r.e = Exc::unsupported;
        } catch (const CorruptData&) {
            f.on = false;
            r.e = Exc::corrupt;
        } catch (const std::exception&) {
            f.on = false;
            r.e = Exc::other_std;
        } catch (...) {
            f.on = false;
            r.e = Exc::unknown;
        }
    };
    switch (c.kind) {
    case Call::load_stream: {
        FixedIn b(c.bytes);
        std::istream in(&b);
        guarded([&] { *r.spec = load_msh(in); });
        break;
    }
    case Call::load_name: guarded([&] { *r.spec = load_msh(c.path); }); break;
    case Call::save_stream: {
        FixedOut b(c.room, c.limit);
        std::ostream out(&b);
        guarded([&] { save_msh(out, c.spec); });
        r.stream_ok = bool(out);
        r.written = b.size();
        break;
    }
    case Call::save_name: guarded([&] { save_msh(c.out_path, c.spec); }); break;
    default: guarded([&] { validate_spec(c.spec); }); break;
    }
    if (count) *count = f.count;
    f.first = SIZE_MAX;
    f.last = 0;
    return r;
}

struct Scratch
{
    std::string dir;
    Scratch()
    {
        char d[] = "/tmp/mshio_verif_XXXXXX";
        require(mkdtemp(d) != nullptr, "harness: no scratch directory");
        dir = d;
    }
    ~Scratch()
    {
        unlink((dir + "/in.msh").c_str());
        unlink((dir + "/out.msh").c_str());
        rmdir(dir.c_str());
    }
};

// What is in memory now, apart from what `keep` refers to.
size_t live() { return alloc::live().load(); }

void faults(Src& s, Ctx& c)
{
    Call call;
    std::unique_ptr<Scratch> scratch;
    const Format& f = kFormats[s.draw(3)];
    gen::Opts o;
    o.ext = kExt;
    o.finite = true;
    o.tags32 = true;
    o.allow_big = false;
    o.max_items = 40;
    switch (s.weighted({30, 5, 20, 5, 4})) {
    case 0:
    case 1: {
        ref::File file = mut::small_file(s);
        call.bytes = file.all();
        call.kind = s.chance(1, 6) ? Call::load_name : Call::load_stream;
        call.what = "load";
        if (s.chance(1, 3)) { // content that is refused, or has sections that are skipped
            switch (s.draw(2)) {
            case 0: call.bytes.resize(call.bytes.size() / 2 + s.draw(call.bytes.size() / 2)); break;
            case 1: {
                Ctx ignored;
                call.bytes = mut::bytes(s, ignored);
                break;
            }
            default: call.bytes.insert(file.pieces[0].text.size(), "$Comments\nanything at all\n$EndComments\n");
            }
            call.what = "load something odd";
        }
        break;
    }
    default:
        call.spec = gen::spec(s, o);
        set_format(call.spec, f);
        call.kind = s.chance(1, 6) ? Call::save_name : s.chance(1, 8) ? Call::validate : Call::save_stream;
        call.what = call.kind == Call::validate ? "validate" : "save as " + f.name();
        if (s.chance(1, 8)) {
            call.spec.mesh_format.version = "1.0";
            call.what = "save an unsupported version";
        }
        if (call.kind == Call::validate) {
            if (s.flip()) cons::mutate(s, call.spec);
            if (known::undefined(call.spec)) { // known finding
                call.kind = Call::save_stream;
                call.spec = MshSpec();
            }
        }
        if (call.kind == Call::save_stream || call.kind == Call::save_name) {
            std::string want;
            if (attempt([&] { want = save(call.spec); }) == Exc::none && call.kind == Call::save_stream && s.chance(1, 6)) call.limit = s.draw(want.size());
            call.room.resize(want.size() + 100000);
        }
    }
    if (call.kind == Call::load_name || call.kind == Call::save_name) {
        scratch.reset(new Scratch);
        call.path = scratch->dir + "/in.msh";
        call.out_path = scratch->dir + "/out.msh";
        if (call.kind == Call::load_name) {
            std::ofstream file(call.path, std::ios::binary);
            file << call.bytes;
        }
    }
    alloc::cap() = live() + (300u << 20);
    const MshSpec original = call.spec;
    // Without faults, twice: anything the first call sets up for good is there the second time.
    perform(call, SIZE_MAX, 0, nullptr);
    size_t total = 0;
    Result right = perform(call, SIZE_MAX, 0, &total);
    const std::string right_bytes = call.kind == Call::save_stream ? std::string(call.room.data(), right.written) : call.kind == Call::save_name && right.e == Exc::none ? get(call.out_path) : "";
    c.label(call.what + (right.e == Exc::none ? "" : ", refused"));
    c.label_if(call.kind == Call::load_name || call.kind == Call::save_name, "by file name");
    c.label_if(total > 100, "over 100 allocations");
    c.nontrivial = total > 0;
    c.sample = call.what + ", " + std::to_string(total) + " allocations";
    if (c.want_text) c.text = c.sample + "\n" + (call.kind <= Call::load_name ? eq::bytes_text(call.bytes) : eq::summary(call.spec));
    const size_t files = open_files();
    auto same = [&](const Result& r) {
        if (r.e != right.e) return std::string(name(right.e)) + " became " + name(r.e);
        if (call.kind <= Call::load_name && r.e == Exc::none) return eq::diff(*right.spec, *r.spec, true);
        if (call.kind == Call::save_stream && (r.stream_ok != right.stream_ok || right_bytes.compare(0, std::string::npos, call.room.data(), r.written) != 0))
            return std::string("other bytes are written");
        if (call.kind == Call::save_name && r.e == Exc::none && get(call.out_path) != right_bytes) return std::string("another file is written");
        return std::string();
    };
    std::vector<std::pair<size_t, size_t>> plan = {{SIZE_MAX, 0}};
    if (total <= 60) {
        for (size_t i = 0; i < total; i++) plan.push_back({i, i});
        for (size_t i = 0; i < total; i += 3) plan.push_back({i, SIZE_MAX});
    } else {
        Src t = s.bulk();
        for (size_t k = 0; k < 60; k++) {
            const size_t i = k < 20 ? k : t.draw(total - 1);
            plan.push_back({i, t.chance(1, 4) ? SIZE_MAX : t.chance(1, 4) ? i + t.draw(3) : i});
        }
    }
    for (const auto& p : plan) {
        const std::string where = p.first == SIZE_MAX ? ": " : p.second == p.first ? ", out of memory at allocation " + std::to_string(p.first) + ": " : ", out of memory from allocation " + std::to_string(p.first) + " to " + std::to_string(p.second) + ": ";
        size_t before = live();
        {
            Result r = perform(call, p.first, p.second, nullptr);
            require(r.e != Exc::unknown, call.what + where + "not a standard exception");
            // Either the failure is reported, or it did not matter.
            if (r.e == Exc::none && r.stream_ok) {
                std::string d = same(r);
                require(d.empty(), call.what + where + "returns normally, but " + d);
            }
            if (call.kind == Call::save_stream && r.written <= right_bytes.size())
                require(right_bytes.compare(0, r.written, call.room.data(), r.written) == 0 || right.e != Exc::none || call.limit != SIZE_MAX, call.what + where + "what was written is not a prefix of the complete output");
        }
        size_t after = live();
        if (after > before) { // something set up once is no leak
            before = live();
            perform(call, p.first, p.second, nullptr);
            after = live();
        }
        require(after <= before, call.what + where + std::to_string(after - std::min(before, after)) + " bytes are leaked");
        require(open_files() == files, call.what + where + "a file stays open");
        std::string d = eq::diff(original, call.spec, true);
        require(d.empty(), call.what + where + "the specification is modified: " + d);
        c.inner++;
    }
    Result again = perform(call, SIZE_MAX, 0, nullptr);
    std::string d = same(again);
    require(d.empty(), call.what + ", after failures: " + d);
    alloc::cap() = SIZE_MAX;
}

} // namespace

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C26",
        {{"faults", faults, 3000, 60000, "a call (load, save, validate, by stream or name, on good or bad input) repeated with every single one of its allocations failing, or up to 60 of them, and with memory running out for good; non-trivial: the call allocates", 60, 8}});
}
