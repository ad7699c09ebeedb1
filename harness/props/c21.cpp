// C21: the inspection example reports a file faithfully. Runs the example itself (VERIF_INSPECT, built from the
// repository's source with the same sanitizers) in a scratch directory and reads what it prints.
#include "../known.h"
#include "../mutate.h"
#include "../streams.h"
using namespace util;

#ifndef VERIF_INSPECT
#error "VERIF_INSPECT: path of the example"
#endif

namespace {

struct Scratch
{
    std::string dir;
    Scratch()
    {
        char d[] = "/tmp/mshio_verif_XXXXXX";
        require(mkdtemp(d) != nullptr, "harness: no scratch directory");
        dir = d;
    }
    ~Scratch()
    {
        for (const char* f : {"in.msh", "tmp.msh", "out.txt", "err.txt"}) unlink((dir + "/" + f).c_str());
        rmdir(dir.c_str());
    }
};

std::string get(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

// Exit status, or a description of the signal.
std::string run_inspect(const Scratch& d)
{
    fflush(stdout);
    pid_t pid = fork();
    require(pid >= 0, "harness: fork");
    if (pid == 0) {
        if (chdir(d.dir.c_str()) != 0) _exit(90);
        int o = open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open("err.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (o < 0 || e < 0) _exit(91);
        dup2(o, 1);
        dup2(e, 2);
        rlimit l{20, 25};
        setrlimit(RLIMIT_CPU, &l);
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=98:handle_abort=1", 1);
        setenv("UBSAN_OPTIONS", "halt_on_error=1:exitcode=98", 1);
        execl(VERIF_INSPECT, VERIF_INSPECT, "in.msh", static_cast<char*>(nullptr));
        _exit(92);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? "" : "exit status " + std::to_string(WEXITSTATUS(st));
    return "signal " + std::to_string(WTERMSIG(st));
}

// The recorded finding: of nodes with parametric coordinates, other than on curves, the wrong values are printed. Probed
// once with one fixed file.
size_t coordinates(const NodeBlock& b) { return 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0); }
bool misprinted(const NodeBlock& b) { return coordinates(b) != 3 + static_cast<size_t>(b.parametric); }
bool known_misprint()
{
    static const bool there = [] {
        MshSpec m = known::probe_spec();
        auto& b = m.nodes.entity_blocks[0];
        b.entity_dim = 2;
        b.parametric = 1;
        b.data = {1, 2, 3, 41, 51, 6, 7, 8, 91, 101};
        Scratch d;
        { std::ofstream(d.dir + "/in.msh", std::ios::binary) << save_as(m, kFormats[1]); }
        run_inspect(d);
        const std::string out = get(d.dir + "/out.txt");
        return out.find("1: 1 2 3 41 51") == std::string::npos || out.find("2: 6 7 8 91 101") == std::string::npos;
    }();
    return there;
}

// What must be printed: lines with these numbers (or this text) in this order.
struct Line
{
    std::string label; // text of the line before its numbers, "" if any
    std::vector<std::string> ints; // leading exact integers
    std::vector<double> nums; // further numbers, to the precision of the default formatting
    std::string text;
    bool is_text = false, entry = false, any_nums = false;
};

struct Expected
{
    std::vector<Line> lines;
    size_t entries = 0;
    void ints(const std::vector<std::string>& v)
    {
        Line l;
        l.ints = v;
        lines.push_back(l);
    }
    template <typename T>
    void one(T v) { ints({std::to_string(v)}); }
    void nums(const std::vector<double>& v)
    {
        Line l;
        l.nums = v;
        lines.push_back(l);
    }
    void text(const std::string& t)
    {
        Line l;
        l.text = t;
        l.is_text = true;
        lines.push_back(l);
    }
    template <typename T>
    void list(const std::vector<T>& v)
    {
        one(v.size());
        if (v.empty()) return;
        Line l;
        for (auto& x : v) l.ints.push_back(std::to_string(x));
        lines.push_back(l);
    }
    void entry(size_t tag, const std::vector<std::string>& i, const std::vector<double>& d)
    {
        Line l;
        l.ints = {std::to_string(tag)};
        l.ints.insert(l.ints.end(), i.begin(), i.end());
        l.nums = d;
        l.entry = true;
        lines.push_back(l);
        entries++;
    }
};

template <typename T>
void boxes(Expected& x, const T& e)
{
    x.one(e.tag);
    x.nums({e.min_x, e.min_y, e.min_z});
    x.nums({e.max_x, e.max_y, e.max_z});
    x.list(e.physical_group_tags);
}

Expected expect(const MshSpec& m)
{
    Expected x;
    x.one(m.entities.points.size());
    for (auto& e : m.entities.points) {
        x.one(e.tag);
        x.nums({e.x, e.y, e.z});
        x.list(e.physical_group_tags);
    }
    x.one(m.entities.curves.size());
    for (auto& e : m.entities.curves) {
        boxes(x, e);
        x.list(e.boundary_point_tags);
    }
    x.one(m.entities.surfaces.size());
    for (auto& e : m.entities.surfaces) {
        boxes(x, e);
        x.list(e.boundary_curve_tags);
    }
    x.one(m.entities.volumes.size());
    for (auto& e : m.entities.volumes) {
        boxes(x, e);
        x.list(e.boundary_surface_tags);
    }
    x.one(m.physical_groups.size());
    for (auto& g : m.physical_groups) {
        x.one(g.dim);
        x.one(g.tag);
        x.text("\"" + g.name + "\"");
    }
    x.one(m.nodes.num_nodes);
    x.one(m.nodes.num_entity_blocks);
    for (auto& b : m.nodes.entity_blocks) {
        x.one(b.entity_dim);
        x.one(b.entity_tag);
        x.one(b.parametric);
        x.one(b.num_nodes_in_block);
        const size_t per = 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0);
        for (size_t i = 0; i < b.tags.size(); i++) x.entry(b.tags[i], {}, std::vector<double>(b.data.begin() + static_cast<long>(i * per), b.data.begin() + static_cast<long>((i + 1) * per)));
        if (misprinted(b) && known_misprint()) // known finding
            for (size_t i = 0; i < b.tags.size(); i++) x.lines[x.lines.size() - 1 - i].any_nums = true;
    }
    x.one(m.elements.num_elements);
    x.one(m.elements.num_entity_blocks);
    for (auto& b : m.elements.entity_blocks) {
        x.one(b.entity_dim);
        x.one(b.entity_tag);
        x.one(b.element_type);
        x.one(b.num_elements_in_block);
        const size_t k = gen::kTable[b.element_type].nodes + 1;
        for (size_t i = 0; i < b.num_elements_in_block; i++) {
            std::vector<std::string> v;
            for (size_t j = 1; j < k; j++) v.push_back(std::to_string(b.data[i * k + j]));
            x.entry(b.data[i * k], v, {});
        }
    }
    for (auto* sec : {&m.node_data, &m.element_data})
        for (auto& d : *sec) {
            x.one(d.header.string_tags.size());
            for (auto& t : d.header.string_tags) x.text("\"" + t + "\"");
            x.one(d.header.real_tags.size());
            if (!d.header.real_tags.empty()) x.nums(d.header.real_tags);
            x.one(d.header.int_tags.size());
            x.nums(std::vector<double>(d.header.int_tags.begin(), d.header.int_tags.end()));
            for (auto& e : d.entries) x.entry(e.tag, {}, e.data);
        }
    return x;
}

std::string show(const Line& l)
{
    if (l.is_text) return l.text;
    std::string r;
    for (auto& i : l.ints) r += i + " ";
    for (double d : l.nums) r += eq::show(d) + " ";
    return r;
}

bool is_number(const std::string& t)
{
    if (t.empty()) return false;
    char* e;
    strtod(t.c_str(), &e);
    return *e == 0;
}

// The numbers at the end of a line; "12: 1 2" counts as 12 1 2.
std::vector<std::string> numbers(const std::string& line, bool& entry)
{
    std::istringstream in(line);
    std::vector<std::string> w;
    std::string t;
    while (in >> t) w.push_back(t);
    entry = false;
    if (!w.empty() && w[0].size() > 1 && w[0].back() == ':' && is_number(w[0].substr(0, w[0].size() - 1))) {
        entry = true;
        w[0].pop_back();
        return w;
    }
    std::vector<std::string> r;
    for (auto& x : w) {
        if (is_number(x))
            r.push_back(x);
        else
            r.clear();
    }
    return r;
}

bool matches(const std::string& line, const std::vector<std::string>& w, bool entry, const Line& l)
{
    if (l.is_text) return line.find(l.text) != std::string::npos;
    if (l.entry != entry || w.size() < l.ints.size() || (!l.any_nums && w.size() != l.ints.size() + l.nums.size())) return false;
    for (size_t i = 0; i < l.ints.size(); i++)
        if (w[i] != l.ints[i]) return false;
    for (size_t i = 0; !l.any_nums && i < l.nums.size(); i++) {
        const double v = l.nums[i], g = strtod(w[l.ints.size() + i].c_str(), nullptr);
        if (std::isnan(v) ? !std::isnan(g) : !(g == v || std::fabs(g - v) <= 1e-5 * std::fabs(v) || (std::isinf(g) && std::fabs(v) > 1.79769e308))) return false;
    }
    return true;
}

void inspect(Src& s, Ctx& c)
{
    std::string bytes;
    MshSpec m; // what the file says
    if (s.flip()) {
        gen::Opts o;
        o.plain_strings = true;
        const Format& f = kFormats[s.draw(3)];
        o.finite = f.ascii();
        o.tags32 = f.is22();
        o.allow_big = s.chance(1, 30);
        m = gen::spec(s, o);
        set_format(m, f);
        bytes = save_as(m, f);
        c.label("saved " + f.name());
        if (f.is22()) { // the order of blocks and the entities are those of the loaded file, its content is that of m
            MshSpec l = load(bytes);
            const std::string d = eq::check22(m, l, kExt);
            if (c.want_text) c.text = "file: " + eq::bytes_text(bytes);
            require(d.empty(), "loaded file: " + d);
            m = l;
        }
    } else {
        bool is22, ascii;
        ref::Mesh22 g;
        ref::File f = mut::small_file(s, &is22, &ascii, true, &m, &g);
        bytes = f.all();
        set_format(m, {is22 ? "2.2" : "4.1", ascii ? 0 : 1});
        c.label(std::string("written ") + (is22 ? "2.2" : "4.1") + (ascii ? " ASCII" : " binary"));
        if (is22) {
            MshSpec l = load(bytes);
            const std::string d = ref::check_file22(g, m, l, kExt);
            if (c.want_text) c.text = "file: " + eq::bytes_text(bytes);
            require(d.empty(), d);
            m = l;
        }
    }
    bool param = false;
    for (auto& b : m.nodes.entity_blocks) param |= b.parametric == 1 && !b.tags.empty();
    c.label_if(param, "parametric nodes");
    c.label_if(!m.node_data.empty() || !m.element_data.empty(), "data");
    c.nontrivial = m.nodes.num_nodes > 0 || !m.entities.empty() || !m.node_data.empty() || !m.element_data.empty();
    describe(c, m, "inspect " + m.mesh_format.version + (m.mesh_format.file_type ? " binary" : " ASCII"));
    for (auto& b : m.nodes.entity_blocks)
        if (misprinted(b) && known_misprint()) {
            c.label("known finding: parametric nodes off curves");
            // It reads this many values; not run where there are fewer.
            if (b.tags.size() * (3 + static_cast<size_t>(b.parametric)) > b.data.size()) {
                c.nontrivial = false;
                return;
            }
        }
    Scratch d;
    { std::ofstream(d.dir + "/in.msh", std::ios::binary) << bytes; }
    const std::string st = run_inspect(d);
    const std::string out = get(d.dir + "/out.txt");
    if (c.want_text) c.text = "file: " + eq::bytes_text(bytes) + "\noutput: " + eq::bytes_text(out, 6000) + "\nerrors: " + eq::bytes_text(get(d.dir + "/err.txt"));
    require(st.empty(), "the inspection example ends with " + st);
    require(get(d.dir + "/in.msh") == bytes, "the inspected file was changed");
    Expected x = expect(m);
    std::istringstream in(out);
    std::string line;
    size_t at = 0, entries = 0;
    while (std::getline(in, line)) {
        bool entry;
        std::vector<std::string> w = numbers(line, entry);
        entries += entry;
        while (at < x.lines.size() && matches(line, w, entry, x.lines[at])) { // several texts share a line
            const bool more = x.lines[at].is_text;
            at++;
            if (!more) break;
        }
    }
    if (at < x.lines.size()) pbt::fail("not printed, or not in order: " + show(x.lines[at]) + "(item " + std::to_string(at) + " of " + std::to_string(x.lines.size()) + ")");
    require(entries == x.entries, std::to_string(entries) + " node, element and data lines printed, there are " + std::to_string(x.entries));
    const std::string copy = get(d.dir + "/tmp.msh");
    if (c.want_text) c.text += "\ncopy: " + eq::bytes_text(copy);
    MshSpec l;
    std::string msg;
    Exc e = attempt([&] { l = load(copy); }, &msg);
    require(e == Exc::none, "the copy does not load: " + msg);
    const bool v22 = m.mesh_format.version == "2.2";
    MshSpec n = m;
    if (n.nodes.entity_blocks.empty()) n.nodes.min_node_tag = n.nodes.max_node_tag = l.nodes.min_node_tag = l.nodes.max_node_tag = 0;
    if (n.elements.entity_blocks.empty()) n.elements.min_element_tag = n.elements.max_element_tag = l.elements.min_element_tag = l.elements.max_element_tag = 0;
    std::string df = v22 ? eq::check22(n, l, kExt) : eq::diff(n, l, kExt);
    require(df.empty(), "the copy: " + df);
}

} // namespace

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C21",
        {{"inspect", inspect, 4000, 60000, "saved and independently written files in all formats, inspected by the example in a scratch directory; non-trivial: there are nodes, entities or data to print", 30, 8}});
}
