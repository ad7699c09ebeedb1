// C30: a call changes nothing but the stream or file it is given and what it returns.
#include "../alloc.h"
#include "../consistent.h"
#include "../known.h"
#include "../mutate.h"

#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <locale>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace util;

extern char** environ;

namespace {

std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream o;
    o << f.rdbuf();
    return o.str();
}
void put(const std::string& p, const std::string& t)
{
    std::ofstream f(p, std::ios::binary);
    f << t;
    f.close();
    require(!!f, "harness: cannot write " + p);
}

std::vector<std::string> names(const std::string& dir)
{
    std::vector<std::string> r;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) r.push_back(e->d_name);
        closedir(d);
    }
    std::sort(r.begin(), r.end());
    return r;
}

// A working directory of the case, with other files in it, and standard input and output that are files.
struct Stage
{
    std::string dir, home, in, out;
    int saved[2] = {-1, -1};
    Stage()
    {
        char t[] = "/tmp/mshio_verif_XXXXXX";
        require(mkdtemp(t) != nullptr, "harness: mkdtemp");
        home = t;
        dir = home + "/work";
        in = home + "/in";
        out = home + "/out";
        require(mkdir(dir.c_str(), 0755) == 0, "harness: mkdir");
        put(in, "one two three\nfour\n");
        put(out, "");
        fflush(stdout);
        std::cout.flush();
        for (int k = 0; k < 2; k++) {
            saved[k] = fcntl(k, F_DUPFD_CLOEXEC, 100);
            int fd = open((k ? out : in).c_str(), k ? O_WRONLY : O_RDONLY);
            require(fd >= 0 && dup2(fd, k) == k, "harness: dup2");
            close(fd);
        }
        lseek(0, 4, SEEK_SET);
        require(chdir(dir.c_str()) == 0, "harness: chdir");
    }
    ~Stage()
    {
        fflush(stdout);
        std::cout.flush();
        for (int k = 0; k < 2; k++)
            if (saved[k] >= 0) dup2(saved[k], k), close(saved[k]);
            else close(k);
        if (chdir("/") != 0) return;
        // Only what lies in the directories made here; there are no directories below them unless a call made one.
        for (const std::string& d : {dir, home}) {
            for (auto& n : names(d))
                if (n != "." && n != ".." && unlink((d + "/" + n).c_str()) != 0) rmdir((d + "/" + n).c_str());
            rmdir(d.c_str());
        }
    }
};

template <typename S>
std::string state(const S& s)
{
    std::ostringstream o;
    o << static_cast<const void*>(s.rdbuf()) << " " << s.flags() << " " << s.precision() << " " << s.width() << " " << static_cast<int>(s.fill()) << " " << s.exceptions() << " "
      << static_cast<const void*>(s.tie()) << " " << s.rdstate() << " " << s.getloc().name();
    return o.str();
}

using Snapshot = std::vector<std::pair<std::string, std::string>>;

// What the process and its surroundings look like. `target` is left out.
Snapshot look(const Stage& st, const std::string& target)
{
    Snapshot r;
    auto add = [&](const std::string& k, const std::string& v) { r.emplace_back(k, v); };
    fflush(stdout);
    std::cout.flush();
    char buf[4096];
    add("the working directory", getcwd(buf, sizeof buf) ? buf : "?");
    std::string t;
    for (auto& n : names(st.dir)) {
        if (n == "." || n == ".." || n == target) continue;
        struct stat s;
        if (lstat((st.dir + "/" + n).c_str(), &s) != 0) continue;
        t += n + " " + std::to_string(s.st_mode) + " " + std::to_string(s.st_size) + " " + std::to_string(s.st_mtim.tv_sec) + "." + std::to_string(s.st_mtim.tv_nsec) + " ";
        if (S_ISREG(s.st_mode)) t += slurp(st.dir + "/" + n);
        t += "\n";
    }
    add("the other files of the working directory", t);
    t.clear();
    for (auto& n : names(st.home)) t += n + " ";
    add("the files around the working directory", t);
    add("standard output", slurp(st.out));
    add("the position of standard input", std::to_string(lseek(0, 0, SEEK_CUR)));
    t.clear();
    for (char** e = environ; e && *e; e++) t += std::string(*e) + "\n";
    add("the environment", t);
    t.clear();
    for (int c : {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES}) t += std::string(setlocale(c, nullptr)) + " ";
    add("the C locale", t);
    const std::locale loc;
    add("the global C++ locale", loc.name() + " " + std::use_facet<std::numpunct<char>>(loc).decimal_point() + std::use_facet<std::numpunct<char>>(loc).thousands_sep());
    add("the floating-point mode", std::to_string(fegetround()) + " " + std::to_string(fegetexcept()));
    t.clear();
    for (int s = 1; s < 65; s++) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        if (sigaction(s, nullptr, &a) != 0) continue;
        std::ostringstream o;
        o << s << ":" << reinterpret_cast<const void*>(a.sa_handler) << "/" << a.sa_flags << " ";
        t += o.str();
    }
    sigset_t m;
    sigemptyset(&m);
    sigprocmask(SIG_SETMASK, nullptr, &m);
    for (int s = 1; s < 65; s++) t += sigismember(&m, s) == 1 ? '1' : '0';
    add("signal handling", t);
    mode_t u = umask(0);
    umask(u);
    add("the umask", std::to_string(u));
    t.clear();
    for (int k = 0; k < RLIMIT_NLIMITS; k++) {
        rlimit l;
        if (getrlimit(static_cast<__rlimit_resource>(k), &l) == 0) t += std::to_string(l.rlim_cur) + "/" + std::to_string(l.rlim_max) + " ";
    }
    t += std::to_string(getpriority(PRIO_PROCESS, 0));
    add("the limits of the process", t);
    t.clear();
    for (int k : {ITIMER_REAL, ITIMER_PROF}) {
        itimerval v;
        if (getitimer(static_cast<__itimer_which_t>(k), &v) == 0) t += v.it_value.tv_sec || v.it_value.tv_usec ? "set " : "unset ";
    }
    add("the timers", t);
    t.clear();
    for (auto& n : names("/proc/self/fd")) t += n + " ";
    add("the open descriptors", t);
    add("the number of threads", std::to_string(names("/proc/self/task").size()));
    int ws;
    add("the child processes", waitpid(-1, &ws, WNOHANG | WNOWAIT) == -1 && errno == ECHILD ? "none" : "some");
    add("std::cin", state(std::cin));
    add("std::cout", state(std::cout));
    add("std::cerr", state(std::cerr));
    add("std::clog", state(std::clog));
    std::ostringstream o;
    o << reinterpret_cast<const void*>(std::get_new_handler()) << " " << reinterpret_cast<const void*>(std::get_terminate());
    add("the new and terminate handlers", o.str());
    return r;
}

struct Comma : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
};

MshSpec small(Src& s, const Format& f)
{
    gen::Opts o;
    o.ext = kExt;
    o.tags32 = f.is22();
    o.allow_big = s.chance(1, 20);
    MshSpec m = gen::spec(s, o);
    set_format(m, f);
    return m;
}

void untouched(Src& s, Ctx& c)
{
    const Format& f = kFormats[s.draw(3)];
    alloc::cap() = size_t(1) << 30; // whatever sizes arbitrary bytes declare
    Stage st;
    put("other.msh", "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n");
    put("notes", "not a mesh");
    put("a.msh.tmp", "keep");
    // Surroundings other than the usual ones must survive as well.
    const bool odd_locale = s.chance(1, 3);
    const std::locale before_locale = odd_locale ? std::locale::global(std::locale(std::locale::classic(), new Comma)) : std::locale();
    const bool odd_fpu = s.chance(1, 4);
    if (odd_fpu) fesetround(s.flip() ? FE_UPWARD : FE_TOWARDZERO);
    struct Restore
    {
        const std::locale& l;
        ~Restore()
        {
            std::locale::global(l);
            setlocale(LC_ALL, "C");
            fesetround(FE_TONEAREST);
        }
    } restore{before_locale};
    const bool odd_c_locale = s.chance(1, 3) && setlocale(s.flip() ? LC_ALL : LC_CTYPE, "C.UTF-8");
    const std::ios_base::fmtflags cf = std::cout.flags();
    if (s.chance(1, 4)) std::cout << std::hex << std::showpos;

    MshSpec m = small(s, f);
    std::string bytes, target, what;
    const size_t kind = s.weighted({15, 25, 15, 25, 12, 8});
    if (kind == 2 || kind == 3) {
        switch (s.weighted({50, 25, 15, 10})) {
        case 0: bytes = mut::small_file(s, nullptr, nullptr, true).all(); break;
        case 1: bytes = mut::small_file(s, nullptr, nullptr, true).all(); bytes.resize(bytes.size() * s.draw(9) / 10); break;
        case 2: { Ctx ignored; bytes = mut::bytes(s, ignored); break; }
        default: bytes = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Comments\nhello\n$EndComments\n";
        }
    }
    if (s.chance(1, 8)) m.mesh_format.version = "3.0";
    if (kind == 4) cons::mutate(s, m);
    const bool there = s.flip();
    switch (kind) {
    case 1:
        target = s.chance(1, 6) ? "missing/a.msh" : "a.msh";
        if (there && target == "a.msh") put(target, std::string(300, 'x'));
        break;
    case 3:
        if (!s.chance(1, 8)) put("in.msh", bytes);
        break;
    default: break;
    }
    const int type = s.irange(-2, 36);
    srand(7);
    const Snapshot a = look(st, target);
    Exc e = Exc::none;
    switch (kind) {
    case 0: {
        std::ostringstream o(std::ios::binary);
        e = attempt([&] { save_msh(o, m); });
        what = "saving to a stream";
        break;
    }
    case 1:
        e = attempt([&] { save_msh(target, m); });
        what = "saving to a file";
        break;
    case 2: {
        std::istringstream i(bytes, std::ios::binary);
        e = attempt([&] { load_msh(i); });
        what = "loading from a stream";
        break;
    }
    case 3:
        e = attempt([&] { load_msh(std::string("in.msh")); });
        what = "loading from a file";
        break;
    case 4:
        what = "validating";
        if (!known::undefined(m)) e = attempt([&] { validate_spec(m); });
        break;
    default:
        e = attempt([&] { nodes_per_element(type); get_element_dim(type); });
        what = "looking up element type " + std::to_string(type);
    }
    const int next = rand();
    const Snapshot b = look(st, target);
    srand(7);
    const int want = rand();
    std::cout.flags(cf);
    what += e == Exc::none ? "" : ", which throws";
    c.label(what.substr(0, what.find(" element type")));
    c.label_if(odd_locale, "another global locale");
    c.label_if(odd_c_locale, "another C locale");
    c.label_if(odd_fpu, "another rounding mode");
    c.nontrivial = kind != 5;
    describe(c, m, what);
    if (c.want_text) c.text = c.sample + "\nfile: " + eq::bytes_text(bytes);
    require(a.size() == b.size(), "harness: snapshots");
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].second != b[i].second)
            pbt::fail(what + " (" + f.name() + ") changed " + a[i].first + ":\n" + a[i].second.substr(0, 3000) + "\nthen\n" + b[i].second.substr(0, 3000));
    require(next == want, what + " changed the random number sequence of the process");
}

} // namespace

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C30",
        {{"untouched", untouched, 2500, 40000, "one call (save, load, validate, look up; by name or stream; good, damaged and refused arguments) in a scratch directory; non-trivial: not a lookup", 30, 8}});
}
