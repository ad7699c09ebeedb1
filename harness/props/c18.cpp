// C18: calls are pure, deterministic and independent. Histories of calls on one thread, and (under the thread sanitizer)
// concurrent calls.
#include "../consistent.h"
#include "../mutate.h"
#include "../streams.h"
#ifndef __SANITIZE_THREAD__
#include "../alloc.h"
#endif

#include <atomic>
#include <fstream>
#include <memory>
#include <stdlib.h>
#include <thread>
#include <unistd.h>
using namespace util;

extern "C" __attribute__((used, visibility("default"))) const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=98:report_signal_unsafe=0:die_after_fork=0";
}

namespace {

// Something that can be done, and what came of it.
struct Op
{
    enum Kind { save_spec, load_bytes, validate, lookup } kind = save_spec;
    std::shared_ptr<MshSpec> spec;
    std::string bytes;
    int number = 0;
    bool by_name = false; // through a file
    std::string what;
};

// The scratch directory of a case, for the calls that take file names.
class Scratch
{
public:
    ~Scratch()
    {
        if (!m_dir.empty()) rmdir(m_dir.c_str());
    }
    void open()
    {
        char d[] = "/tmp/mshio_verif_XXXXXX";
        require(mkdtemp(d) != nullptr, "harness: no scratch directory");
        m_dir = d;
    }
    std::string file() { return m_dir + "/" + std::to_string(m_next++); }

private:
    std::string m_dir;
    std::atomic<unsigned> m_next{0};
};

struct Outcome
{
    Exc e = Exc::none;
    std::string msg, bytes;
    MshSpec spec;
    long value = 0;
};

Outcome perform(const Op& op, Scratch& scratch)
{
    Outcome r;
    if (op.by_name && (op.kind == Op::save_spec || op.kind == Op::load_bytes)) {
        const std::string f = scratch.file();
        if (op.kind == Op::save_spec) {
            r.e = attempt([&] { save_msh(f, *op.spec); }, &r.msg);
            std::ifstream in(f, std::ios::binary);
            r.bytes.assign(std::istreambuf_iterator<char>(in), {});
        } else {
            std::ofstream(f, std::ios::binary) << op.bytes;
            r.e = attempt([&] { r.spec = load_msh(f); }, &r.msg);
        }
        unlink(f.c_str());
        return r;
    }
    switch (op.kind) {
    case Op::save_spec: {
        std::ostringstream o(std::ios::binary);
        r.e = attempt([&] { save_msh(o, *op.spec); }, &r.msg);
        r.bytes = o.str();
        break;
    }
    case Op::load_bytes: r.e = attempt([&] { r.spec = load(op.bytes); }, &r.msg); break;
    case Op::validate: r.e = attempt([&] { validate_spec(*op.spec); }, &r.msg); break;
    default: r.e = attempt([&] { r.value = static_cast<long>(nodes_per_element(op.number)) * 10 + static_cast<long>(get_element_dim(op.number)); }, &r.msg);
    }
    return r;
}

std::string differs(const Outcome& a, const Outcome& b)
{
    if (a.e != b.e) return std::string(name(a.e)) + " the first time, then " + name(b.e) + " (" + a.msg + b.msg + ")";
    if (a.bytes != b.bytes) return "other bytes than the first time:\n" + eq::bytes_text(a.bytes) + "\nthen\n" + eq::bytes_text(b.bytes);
    if (a.value != b.value) return "another value than the first time";
    if (a.e == Exc::none) {
        std::string d = eq::diff(a.spec, b.spec, true);
        if (!d.empty()) return "another specification than the first time: " + d;
    }
    return "";
}

// Leftovers of one call matter to calls of the same kind, so many histories keep to one format.
struct Theme
{
    int format = -1; // index into kFormats, or any
    int kind = -1; // 0 save, 1 load, or any
};

MshSpec small_spec(Src& s, const Theme& th)
{
    const Format& f = kFormats[th.format >= 0 ? static_cast<size_t>(th.format) : s.draw(3)];
    gen::Opts o;
    o.ext = kExt;
    o.tags32 = f.is22() || s.flip();
    o.allow_big = s.chance(1, 30);
    if (!o.allow_big) o.max_items = 200;
    MshSpec m = gen::spec(s, o);
    set_format(m, f);
    return m;
}

ref::File some_file(Src& s, const Theme& th)
{
    for (int k = 0;; k++) {
        bool is22, ascii;
        ref::File f = mut::small_file(s, &is22, &ascii, true);
        if (th.format < 0 || k == 8) return f;
        const Format& want = kFormats[th.format];
        if (want.is22() == is22 && (want.type == 0) == ascii) return f;
    }
}

Op some_op(Src& s, Ctx& c, bool quiet, const Theme& th = {})
{
    Op op;
    const size_t kind = s.weighted({40, 35, 15, 5});
    switch (th.kind >= 0 && s.chance(9, 10) ? static_cast<size_t>(th.kind) : kind) {
    case 0:
        op.kind = Op::save_spec;
        op.spec = std::make_shared<MshSpec>(small_spec(s, th));
        op.what = "save " + op.spec->mesh_format.version + (op.spec->mesh_format.file_type ? " binary" : " ASCII");
        if (s.chance(1, 8)) { // a save that is refused
            op.spec->mesh_format.version = "3.0";
            op.what = "save with an unsupported version";
        }
        c.label("save");
        break;
    case 1: {
        op.kind = Op::load_bytes;
        ref::File f = some_file(s, th);
        op.bytes = f.all();
        op.what = "load";
        if (s.chance(1, 3)) { // a load that fails: the file stops in the middle of a section
            size_t k = s.draw(f.pieces.size() - 1);
            op.bytes.clear();
            for (size_t i = 0; i < k; i++) op.bytes += f.pieces[i].text;
            const std::string& t = f.pieces[k].text;
            op.bytes += t.substr(0, s.flip() ? t.size() / 2 : 1 + s.draw(t.size() * 2 / 3));
            op.what = "load a truncated file";
        } else if (!quiet && s.chance(1, 6)) {
            Ctx ignored;
            op.bytes = mut::bytes(s, ignored);
            op.what = "load arbitrary bytes";
        } else if (!quiet && s.chance(1, 3)) {
            op.bytes = f.pieces[0].text + "$Foo\n1 2 3\n$EndFoo\n" + op.bytes.substr(f.pieces[0].text.size());
            op.what = "load a file with an unknown section";
        } else if (s.chance(1, 6)) {
            op.bytes = "$MeshFormat\n9.9 0 8\n$EndMeshFormat\n";
            op.what = "load an unsupported file";
        }
        c.label(op.what);
        break;
    }
    case 2:
        op.kind = Op::validate;
        op.spec = std::make_shared<MshSpec>(small_spec(s, th));
        op.what = "validate";
        if (s.flip()) {
            cons::mutate(s, *op.spec);
            op.what = "validate a changed specification";
        }
        if (known::undefined(*op.spec)) op.kind = Op::lookup, op.number = 4; // known finding
        c.label("validate");
        break;
    default:
        op.kind = Op::lookup;
        op.number = s.irange(-3, 36);
        op.what = "look up element type";
        c.label("lookup");
    }
    if (op.kind == Op::save_spec || op.kind == Op::load_bytes) {
        op.by_name = s.chance(1, 5);
        if (op.by_name) op.what += " (by file name)", c.label("by file name");
    }
    return op;
}

void history(Src& s, Ctx& c)
{
#ifndef __SANITIZE_THREAD__
    alloc::cap() = size_t(2) << 30; // whatever sizes arbitrary bytes declare
#endif
    const size_t n = 1 + s.draw(4);
    Theme th;
    if (s.flip()) th.format = static_cast<int>(s.draw(3));
    if (s.chance(1, 3)) th.kind = static_cast<int>(s.draw(1));
    std::vector<Op> ops;
    Scratch scratch;
    std::vector<Outcome> first;
    std::vector<MshSpec> originals;
    for (size_t i = 0; i < n; i++) {
        ops.push_back(some_op(s, c, false, th));
        originals.push_back(ops[i].spec ? *ops[i].spec : MshSpec());
    }
    c.nontrivial = n >= 2;
    for (auto& op : ops)
        if (op.by_name) {
            scratch.open();
            break;
        }
    // What an operation does the first time follows from its own data alone.
    for (size_t i = 0; i < n; i++) {
        first.push_back(perform(ops[i], scratch));
        const Op& op = ops[i];
        if (op.kind == Op::save_spec && op.spec->mesh_format.version == "4.1") {
            require(first[i].e == Exc::none, "saving a consistent specification throws: " + first[i].msg);
            if (op.spec->mesh_format.file_type == 1) {
                std::string d = eq::diff(originals[i], load(first[i].bytes), kExt);
                require(d.empty(), "after earlier calls, saving and loading: " + d);
            }
        }
        if (op.what.rfind("load a truncated", 0) == 0 || op.what.rfind("load an unsupported", 0) == 0 || op.what.rfind("save with", 0) == 0)
            require(first[i].e != Exc::none, op.what + ": accepted");
        if (op.what == "load" || op.what == "load (by file name)") require(first[i].e == Exc::none, "a conforming file does not load: " + first[i].msg + eq::bytes_text(op.bytes));
    }
    // Then in any order, any number of times, on copies at other addresses, between other calls.
    std::string trail;
    const size_t steps = n + s.draw(12);
    for (size_t k = 0; k < steps; k++) {
        const size_t i = s.draw(n - 1);
        trail += (k ? ", " : "") + ops[i].what + " #" + std::to_string(i);
        Op op = ops[i];
        const size_t how = s.draw(2);
        std::vector<std::string> noise(how == 2 ? s.draw(50) : 0, std::string(100, 'n'));
        if (op.spec && how > 0) op.spec = std::make_shared<MshSpec>(*op.spec);
        Outcome r = perform(op, scratch);
        std::string d = differs(first[i], r);
        if (c.want_text) c.text = trail;
        require(d.empty(), ops[i].what + " #" + std::to_string(i) + " after " + trail + ": " + d);
        if (op.spec) {
            d = eq::diff(originals[i], *op.spec, true);
            require(d.empty(), ops[i].what + " changed its argument: " + d);
        }
        c.inner++;
    }
    c.sample = "first each of " + std::to_string(n) + " operations, then: " + trail;
}

// Several threads at once, some on the same specification. Meaningful under the thread sanitizer, and compared with
// what the same calls do alone.
void threads(Src& s, Ctx& c)
{
    const size_t n = 1 + s.draw(2), T = 2 + s.draw(3);
    std::vector<Op> ops;
    for (size_t i = 0; i < n; i++) ops.push_back(some_op(s, c, true));
    Scratch scratch;
    for (auto& op : ops)
        if (op.by_name) {
            scratch.open();
            break;
        }
    std::vector<std::vector<size_t>> plan(T);
    std::vector<std::vector<Outcome>> got(T);
    for (auto& p : plan)
        for (size_t i = 0, k = 1 + s.draw(3); i < k; i++) p.push_back(s.draw(n - 1));
    std::vector<MshSpec> originals;
    for (auto& op : ops) originals.push_back(op.spec ? *op.spec : MshSpec());
    c.nontrivial = true;
    c.sample = std::to_string(T) + " threads:";
    for (auto& p : plan) {
        c.sample += " [";
        for (size_t i : p) c.sample += ops[i].what + " #" + std::to_string(i) + "; ";
        c.sample += "]";
    }
    if (c.want_text) c.text = c.sample;
    // Concurrently first, so that anything initialised on first use is initialised concurrently too.
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < T; t++)
        ts.emplace_back([&, t] {
            ready++;
            while (ready < T) std::this_thread::yield();
            for (size_t i : plan[t]) got[t].push_back(perform(ops[i], scratch));
        });
    for (auto& t : ts) t.join();
    for (size_t t = 0; t < T; t++)
        for (size_t j = 0; j < plan[t].size(); j++) {
            const size_t i = plan[t][j];
            std::string d = differs(perform(ops[i], scratch), got[t][j]);
            require(d.empty(), "thread " + std::to_string(t) + ", " + ops[i].what + ": alone and concurrently: " + d);
            c.inner++;
        }
    for (size_t i = 0; i < n; i++) {
        std::string d = ops[i].spec ? eq::diff(originals[i], *ops[i].spec, true) : "";
        require(d.empty(), ops[i].what + " changed its argument: " + d);
    }
}

} // namespace

int main(int argc, char** argv)
{
#ifdef __SANITIZE_THREAD__
    return util::run(argc, argv, "C18", {{"threads", threads, 2500, 50000, "1..3 operations performed by 2..5 threads at once under the thread sanitizer; all non-trivial", 60, 4}});
#else
    return util::run(argc, argv, "C18",
        {{"history", history, 5000, 100000, "1..5 operations repeated in histories of up to 16 steps, on originals and copies; non-trivial: at least two operations", 20, 8},
            {"threads", threads, 1500, 30000, "1..3 operations performed by 2..5 threads at once; all non-trivial", 60, 4}});
#endif
}
