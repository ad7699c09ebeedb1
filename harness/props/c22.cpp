// C22: the Python binding exposes every field faithfully. python/pymshio.cpp is compiled against a stand-in for nanobind
// that records what is bound; the harness reads, assigns and calls through those records as Python would.
#include "nanobind/nanobind.h"
#include "../mutate.h"
#include "../consistent.h"

namespace nanobind {
template <typename F>
void record_function(std::vector<std::any>& shapes, F f)
{
    using mshio::MshSpec;
    if constexpr (std::is_invocable_r<MshSpec, F, const std::string&>::value) shapes.push_back(std::function<MshSpec(const std::string&)>(f));
    if constexpr (std::is_invocable<F, const std::string&, const MshSpec&>::value) shapes.push_back(std::function<void(const std::string&, const MshSpec&)>(f));
    if constexpr (std::is_invocable<F, const MshSpec&>::value) shapes.push_back(std::function<void(const MshSpec&)>(f));
    if constexpr (std::is_invocable_r<long, F, int>::value) shapes.push_back(std::function<long(int)>(f));
}
} // namespace nanobind

#include VERIF_BINDING

using namespace util;
namespace nbs = nanobind;

// ---- the documented structures ---------------------------------------------------------------------------------------

namespace {

std::string show_any(const std::any&) { return ""; }

struct Field
{
    std::string name;
    std::type_index type;
    std::function<std::any(const void*)> read; // the C++ field
    std::function<bool(const std::any&, const std::any&)> same;
    std::function<std::any(Src&)> make;
    std::function<void(void*, const std::any&)> write;
};
struct Struct
{
    std::string name;
    std::type_index type;
    std::function<std::shared_ptr<void>()> make;
    std::vector<Field> fields;
};

// Values.
int value(Src& s, int*) { return gen::i32(s); }
size_t value(Src& s, size_t*) { return s.chance(1, 3) ? s.u64() : s.draw(100); }
double value(Src& s, double*) { return gen::dbl(s, false); }
std::string value(Src& s, std::string*) { return gen::str(s, false); }
MeshFormat value(Src& s, MeshFormat*) { return {gen::str(s, true), gen::i32(s), gen::i32(s)}; }
template <typename T>
std::vector<T> value(Src& s, std::vector<T>*);
NodeBlock value(Src& s, NodeBlock*)
{
    NodeBlock b;
    b.entity_dim = gen::i32(s);
    b.entity_tag = gen::i32(s);
    b.parametric = gen::i32(s);
    b.num_nodes_in_block = s.draw(9);
    b.tags = value(s, &b.tags);
    b.data = value(s, &b.data);
    return b;
}
ElementBlock value(Src& s, ElementBlock*)
{
    ElementBlock b;
    b.entity_dim = gen::i32(s);
    b.entity_tag = gen::i32(s);
    b.element_type = gen::i32(s);
    b.num_elements_in_block = s.draw(9);
    b.data = value(s, &b.data);
    return b;
}
gen::Opts opts()
{
    gen::Opts o;
    o.allow_big = false;
    o.max_items = 20;
    return o;
}
MshSpec some_spec(Src& s) { return gen::spec(s, opts()); }
Nodes value(Src& s, Nodes*) { return some_spec(s).nodes; }
Elements value(Src& s, Elements*) { return some_spec(s).elements; }
Entities value(Src& s, Entities*)
{
    MshSpec m;
    gen::entities(s, opts(), m);
    return m.entities;
}
DataHeader value(Src& s, DataHeader*)
{
    Data d;
    gen::data_section(s, opts(), d, false);
    return d.header;
}
Data value(Src& s, Data*)
{
    Data d;
    gen::data_section(s, opts(), d, s.flip());
    return d;
}
DataEntry value(Src& s, DataEntry*)
{
    DataEntry e;
    e.tag = s.draw(100);
    e.num_nodes_per_element = gen::i32(s);
    e.data = value(s, &e.data);
    return e;
}
PointEntity value(Src& s, PointEntity*)
{
    PointEntity e;
    e.tag = gen::i32(s);
    e.x = gen::dbl(s, true);
    e.physical_group_tags = value(s, &e.physical_group_tags);
    return e;
}
template <typename E>
E boxed(Src& s)
{
    E e;
    e.tag = gen::i32(s);
    gen::bbox(s, opts(), e);
    e.physical_group_tags = value(s, &e.physical_group_tags);
    return e;
}
CurveEntity value(Src& s, CurveEntity*) { return boxed<CurveEntity>(s); }
SurfaceEntity value(Src& s, SurfaceEntity*) { return boxed<SurfaceEntity>(s); }
VolumeEntity value(Src& s, VolumeEntity*) { return boxed<VolumeEntity>(s); }
PhysicalGroup value(Src& s, PhysicalGroup*) { return {gen::i32(s), gen::i32(s), gen::str(s, false)}; }
template <typename T>
std::vector<T> value(Src& s, std::vector<T>*)
{
    std::vector<T> v;
    for (size_t i = 0, n = s.draw(3); i < n; i++) v.push_back(value(s, static_cast<T*>(nullptr)));
    return v;
}

// Equality, through a specification that holds the value.
bool equal(int a, int b) { return a == b; }
bool equal(size_t a, size_t b) { return a == b; }
bool equal(double a, double b) { return gen::to_bits(a) == gen::to_bits(b); }
bool equal(const std::string& a, const std::string& b) { return a == b; }
template <typename F>
bool through(F put_a, F put_b)
{
    MshSpec a, b;
    put_a(a);
    put_b(b);
    return eq::diff(a, b, true).empty();
}
template <typename T, typename S>
bool hold(const T& a, const T& b, S slot)
{
    MshSpec x, y;
    slot(x) = a;
    slot(y) = b;
    return eq::diff(x, y, true).empty();
}
bool equal(const MeshFormat& a, const MeshFormat& b) { return a.version == b.version && a.file_type == b.file_type && a.data_size == b.data_size; }
bool equal(const Nodes& a, const Nodes& b) { return hold(a, b, [](MshSpec& m) -> Nodes& { return m.nodes; }); }
bool equal(const Elements& a, const Elements& b) { return hold(a, b, [](MshSpec& m) -> Elements& { return m.elements; }); }
bool equal(const Entities& a, const Entities& b) { return hold(a, b, [](MshSpec& m) -> Entities& { return m.entities; }); }
bool equal(const NodeBlock& a, const NodeBlock& b) { return hold(a, b, [](MshSpec& m) -> NodeBlock& { m.nodes.entity_blocks.resize(1); return m.nodes.entity_blocks[0]; }); }
bool equal(const ElementBlock& a, const ElementBlock& b) { return hold(a, b, [](MshSpec& m) -> ElementBlock& { m.elements.entity_blocks.resize(1); return m.elements.entity_blocks[0]; }); }
bool equal(const Data& a, const Data& b) { return hold(a, b, [](MshSpec& m) -> Data& { m.element_node_data.resize(1); return m.element_node_data[0]; }); }
bool equal(const DataHeader& a, const DataHeader& b) { return hold(a, b, [](MshSpec& m) -> DataHeader& { m.element_node_data.resize(1); return m.element_node_data[0].header; }); }
bool equal(const DataEntry& a, const DataEntry& b) { return hold(a, b, [](MshSpec& m) -> DataEntry& { m.element_node_data.resize(1); m.element_node_data[0].entries.resize(1); return m.element_node_data[0].entries[0]; }); }
bool equal(const PointEntity& a, const PointEntity& b) { return hold(a, b, [](MshSpec& m) -> PointEntity& { m.entities.points.resize(1); return m.entities.points[0]; }); }
bool equal(const CurveEntity& a, const CurveEntity& b) { return hold(a, b, [](MshSpec& m) -> CurveEntity& { m.entities.curves.resize(1); return m.entities.curves[0]; }); }
bool equal(const SurfaceEntity& a, const SurfaceEntity& b) { return hold(a, b, [](MshSpec& m) -> SurfaceEntity& { m.entities.surfaces.resize(1); return m.entities.surfaces[0]; }); }
bool equal(const VolumeEntity& a, const VolumeEntity& b) { return hold(a, b, [](MshSpec& m) -> VolumeEntity& { m.entities.volumes.resize(1); return m.entities.volumes[0]; }); }
bool equal(const PhysicalGroup& a, const PhysicalGroup& b) { return a.dim == b.dim && a.tag == b.tag && a.name == b.name; }
template <typename T>
bool equal(const std::vector<T>& a, const std::vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!equal(a[i], b[i])) return false;
    return true;
}

template <typename C, typename M>
Field field(const char* name, M C::*p)
{
    return {name, typeid(M), [p](const void* o) { return std::any(static_cast<const C*>(o)->*p); },
        [](const std::any& a, const std::any& b) { return equal(std::any_cast<const M&>(a), std::any_cast<const M&>(b)); },
        [](Src& s) { return std::any(value(s, static_cast<M*>(nullptr))); }, [p](void* o, const std::any& v) { static_cast<C*>(o)->*p = std::any_cast<const M&>(v); }};
}
template <typename C>
Struct structure(const char* name, std::vector<Field> f)
{
    return {name, typeid(C), [] { return std::shared_ptr<void>(std::make_shared<C>()); }, std::move(f)};
}
#define F(c, m) field(#m, &c::m)
const std::vector<Struct>& documented()
{
    static const std::vector<Struct> all = {
        structure<MeshFormat>("MeshFormat", {F(MeshFormat, version), F(MeshFormat, file_type), F(MeshFormat, data_size)}),
        structure<NodeBlock>("NodeBlock", {F(NodeBlock, entity_dim), F(NodeBlock, entity_tag), F(NodeBlock, parametric), F(NodeBlock, num_nodes_in_block), F(NodeBlock, tags), F(NodeBlock, data)}),
        structure<Nodes>("Nodes", {F(Nodes, num_entity_blocks), F(Nodes, num_nodes), F(Nodes, min_node_tag), F(Nodes, max_node_tag), F(Nodes, entity_blocks)}),
        structure<ElementBlock>("ElementBlock", {F(ElementBlock, entity_dim), F(ElementBlock, entity_tag), F(ElementBlock, element_type), F(ElementBlock, num_elements_in_block), F(ElementBlock, data)}),
        structure<Elements>("Elements", {F(Elements, num_entity_blocks), F(Elements, num_elements), F(Elements, min_element_tag), F(Elements, max_element_tag), F(Elements, entity_blocks)}),
        structure<DataHeader>("DataHeader", {F(DataHeader, string_tags), F(DataHeader, real_tags), F(DataHeader, int_tags)}),
        structure<DataEntry>("DataEntry", {F(DataEntry, tag), F(DataEntry, num_nodes_per_element), F(DataEntry, data)}),
        structure<Data>("Data", {F(Data, header), F(Data, entries)}),
        structure<PointEntity>("PointEntity", {F(PointEntity, tag), F(PointEntity, x), F(PointEntity, y), F(PointEntity, z), F(PointEntity, physical_group_tags)}),
        structure<CurveEntity>("CurveEntity", {F(CurveEntity, tag), F(CurveEntity, min_x), F(CurveEntity, min_y), F(CurveEntity, min_z), F(CurveEntity, max_x), F(CurveEntity, max_y), F(CurveEntity, max_z),
            F(CurveEntity, physical_group_tags), F(CurveEntity, boundary_point_tags)}),
        structure<SurfaceEntity>("SurfaceEntity", {F(SurfaceEntity, tag), F(SurfaceEntity, min_x), F(SurfaceEntity, min_y), F(SurfaceEntity, min_z), F(SurfaceEntity, max_x), F(SurfaceEntity, max_y), F(SurfaceEntity, max_z),
            F(SurfaceEntity, physical_group_tags), F(SurfaceEntity, boundary_curve_tags)}),
        structure<VolumeEntity>("VolumeEntity", {F(VolumeEntity, tag), F(VolumeEntity, min_x), F(VolumeEntity, min_y), F(VolumeEntity, min_z), F(VolumeEntity, max_x), F(VolumeEntity, max_y), F(VolumeEntity, max_z),
            F(VolumeEntity, physical_group_tags), F(VolumeEntity, boundary_surface_tags)}),
        structure<Entities>("Entities", {F(Entities, points), F(Entities, curves), F(Entities, surfaces), F(Entities, volumes)}),
        structure<PhysicalGroup>("PhysicalGroup", {F(PhysicalGroup, dim), F(PhysicalGroup, tag), F(PhysicalGroup, name)}),
        structure<MshSpec>("MshSpec", {F(MshSpec, mesh_format), F(MshSpec, nodes), F(MshSpec, elements), F(MshSpec, entities), F(MshSpec, physical_groups), F(MshSpec, node_data), F(MshSpec, element_data), F(MshSpec, element_node_data)}),
    };
    return all;
}
#undef F

const nbs::Registry& bound()
{
    static bool done = false;
    if (!done) {
        done = true;
        nbs::module_ m;
        verif_bind_module(m);
    }
    return nbs::registry();
}

// A history of assignments and readings on one object.
void attributes(Src& s, Ctx& c)
{
    const Struct& st = documented()[s.draw(documented().size() - 1)];
    auto it = bound().classes.find(st.name);
    require(it != bound().classes.end(), "class " + st.name + " is not bound");
    const nbs::Class& k = it->second;
    require(k.type == st.type, "class " + st.name + " is another structure");
    require(k.constructible, "class " + st.name + " cannot be constructed");
    std::shared_ptr<void> o = k.make(), fresh = st.make();
    std::vector<std::any> model;
    for (auto& f : st.fields) model.push_back(f.read(fresh.get()));
    c.label(st.name);
    c.nontrivial = true;
    c.sample = st.name + ":";
    auto compare = [&](const std::string& after) {
        for (size_t i = 0; i < st.fields.size(); i++) {
            const Field& f = st.fields[i];
            auto a = k.attributes.find(f.name);
            require(a != k.attributes.end(), st.name + "." + f.name + " is not bound");
            require(a->second.type == f.type, st.name + "." + f.name + " has another type than the field");
            require(bool(a->second.set), st.name + "." + f.name + " cannot be assigned");
            require(f.same(model[i], f.read(o.get())), st.name + after + ": the field " + f.name + " does not have the value it should");
            require(f.same(model[i], a->second.get(o.get())), st.name + after + ": reading the attribute " + f.name + " gives another value than the field has");
            c.inner++;
        }
        // Further names of fields (earlier releases) must at least be those of a field.
    };
    compare(" (new)");
    const size_t steps = 1 + s.draw(7);
    for (size_t j = 0; j < steps; j++) {
        const size_t i = s.draw(st.fields.size() - 1);
        const Field& f = st.fields[i];
        std::any v = f.make(s);
        const bool direct = s.chance(1, 3);
        if (direct)
            f.write(o.get(), v); // the C++ side changes it, Python reads
        else
            k.attributes.at(f.name).set(o.get(), v);
        model[i] = v;
        c.sample += std::string(direct ? " ." : " assign ") + f.name;
        if (c.want_text) c.text = c.sample;
        compare(std::string(direct ? " after a change of " : " after assigning ") + f.name);
    }
    for (auto& m : k.methods) m.second(o.get()); // representations must not crash
    if (st.name == "Entities") {
        auto e = k.methods.find("empty");
        require(e != k.methods.end(), "Entities.empty is not bound");
        require(std::any_cast<bool>(e->second(o.get())) == static_cast<Entities*>(o.get())->empty(), "Entities.empty() gives another answer than the structure");
    }
}

template <typename S>
std::function<S> function(const char* name)
{
    auto it = bound().functions.find(name);
    require(it != bound().functions.end(), std::string("function ") + name + " is not bound");
    for (auto& a : it->second)
        if (auto* f = std::any_cast<std::function<S>>(&a)) return *f;
    pbt::fail(std::string("function ") + name + " is not bound with the arguments of the C++ function");
}

std::string get(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

void functions(Src& s, Ctx& c)
{
    // The lookup functions.
    for (int i = 0; i < 10; i++) {
        const int t = s.flip() ? s.irange(-2, 34) : gen::i32(s);
        long a = 0, b = 0;
        Exc x = attempt([&] { a = static_cast<long>(nodes_per_element(t)); }), y = attempt([&] { b = function<long(int)>("nodes_per_element")(t); });
        require(x == y && a == b, "nodes_per_element(" + std::to_string(t) + ") differs");
        a = b = 0;
        x = attempt([&] { a = get_element_dim(t); });
        y = attempt([&] { b = function<long(int)>("get_element_dim")(t); });
        require(x == y && a == b, "get_element_dim(" + std::to_string(t) + ") differs");
    }
    // Validating.
    MshSpec m = some_spec(s);
    const Format& f = kFormats[s.draw(3)];
    set_format(m, f);
    {
        MshSpec x = m;
        if (s.flip()) cons::mutate(s, x);
        if (known::undefined(x)) x = MshSpec();
        Exc a = attempt([&] { validate_spec(x); }), b = attempt([&] { function<void(const MshSpec&)>("validate_spec")(x); });
        require(a == b, std::string("validate_spec: ") + name(a) + " in C++, " + name(b) + " through the binding");
        c.label(a == Exc::none ? "valid" : "invalid");
    }
    // Saving and loading.
    char d[] = "/tmp/mshio_verif_XXXXXX";
    require(mkdtemp(d) != nullptr, "harness: no scratch directory");
    const std::string p1 = std::string(d) + "/a.msh", p2 = std::string(d) + "/b.msh";
    std::string failed;
    try {
        if (s.chance(1, 8)) m.mesh_format.version = "3.0";
        Exc a = attempt([&] { save_msh(p1, m); }), b = attempt([&] { function<void(const std::string&, const MshSpec&)>("save_msh")(p2, m); });
        if (a != b || get(p1) != get(p2)) failed = "save_msh differs";
        std::string bytes = get(p1);
        if (s.chance(1, 3)) bytes = mut::small_file(s).all();
        if (s.chance(1, 4)) bytes = bytes.substr(0, bytes.size() / 2);
        { std::ofstream(p1, std::ios::binary) << bytes; }
        MshSpec x, y;
        a = attempt([&] { x = load_msh(p1); });
        b = attempt([&] { y = function<MshSpec(const std::string&)>("load_msh")(p1); });
        if (a != b) failed = std::string("load_msh: ") + name(a) + " in C++, " + name(b) + " through the binding";
        if (a == Exc::none && failed.empty()) {
            std::string df = eq::diff(x, y, true);
            if (!df.empty()) failed = "load_msh: " + df;
        }
        c.label(a == Exc::none ? "loaded" : "refused");
        if (s.flip() && failed.empty()) { // another file of the same name
            MshSpec m2 = some_spec(s);
            set_format(m2, kFormats[s.draw(3)]);
            a = attempt([&] { save_msh(p1, m2); });
            b = attempt([&] { function<void(const std::string&, const MshSpec&)>("save_msh")(p2, m2); });
            if (a != b || get(p1) != get(p2)) failed = "save_msh over another file differs";
            a = attempt([&] { x = load_msh(p1); });
            b = attempt([&] { y = function<MshSpec(const std::string&)>("load_msh")(p1); });
            if (a != b) failed = std::string("load_msh of a changed file: ") + name(a) + " in C++, " + name(b) + " through the binding";
            if (a == Exc::none && failed.empty()) {
                std::string df = eq::diff(x, y, true);
                if (!df.empty()) failed = "load_msh of a changed file: " + df;
            }
            c.label("file changed and loaded again");
        }
        a = attempt([&] { x = load_msh(p1 + ".none"); });
        b = attempt([&] { y = function<MshSpec(const std::string&)>("load_msh")(p1 + ".none"); });
        if (a != b) failed = "load_msh of a missing file differs";
    } catch (const pbt::Failure& e) {
        failed = e.msg;
    }
    unlink(p1.c_str());
    unlink(p2.c_str());
    rmdir(d);
    c.nontrivial = true;
    describe(c, m, "functions, " + f.name());
    require(failed.empty(), failed);
}

} // namespace

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C22",
        {{"attributes", attributes, 20000, 300000, "histories of 1..8 assignments through the binding or in C++ on an object of one of the 15 structures, all attributes read and compared after each; all non-trivial", 20, 8},
            {"functions", functions, 4000, 60000, "the bound functions against the C++ ones on generated specifications, files and integers; all non-trivial", 20, 8}});
}
