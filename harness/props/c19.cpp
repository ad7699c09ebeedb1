// C19: element type tables are exact and total, in the lookup functions and in every reader and writer.
#include "../known.h"
#include "../mutate.h"
#include "../ref_reader.h"
using namespace util;

static void lookup(int t)
{
    size_t n = 0;
    int d = -9;
    Exc en = attempt([&] { n = nodes_per_element(t); }), ed = attempt([&] { d = get_element_dim(t); });
    const std::string ty = "element type " + std::to_string(t) + ": ";
    if (t >= 1 && t <= 31) {
        require(en == Exc::none && ed == Exc::none, ty + "lookup throws");
        require(n == gen::kTable[t].nodes, ty + std::to_string(n) + " nodes, documented are " + std::to_string(gen::kTable[t].nodes));
        require(d == gen::kTable[t].dim, ty + "dimension " + std::to_string(d) + ", documented is " + std::to_string(gen::kTable[t].dim));
    } else {
        require(en == Exc::unsupported, ty + "nodes_per_element: " + name(en));
        require(ed == Exc::unsupported, ty + "get_element_dim: " + name(ed));
    }
}

static void numbers(Src& s, Ctx& c)
{
    c.nontrivial = true;
    if (s.chance(1, 50)) { // all small ones, all powers of two and their neighbours, in both directions
        for (int t = -3000; t <= 3000; t++, c.inner++) lookup(t);
        for (int b = 0; b < 32; b++)
            for (int64_t k = -33; k <= 33; k++, c.inner++) lookup(static_cast<int>(static_cast<uint32_t>((int64_t(1) << b) + k)));
        for (int t = 1; t <= 31; t++) // what a narrower integer would make of it
            for (int sh : {5, 6, 7, 8, 16, 24, 31}) lookup(static_cast<int>(static_cast<uint32_t>(t) + (1u << sh))), c.inner++;
        c.label("exhaustive sweep");
        c.sample = "all integers -3000..3000, neighbourhoods of powers of two";
        return;
    }
    for (int k = 0; k < 400; k++, c.inner++) {
        const int t = s.chance(1, 4) ? gen::i32(s) : static_cast<int>(s.u32());
        lookup(t);
        if (c.sample.empty()) c.sample = "element types " + std::to_string(t) + " and 399 more";
    }
}

static void files(Src& s, Ctx& c)
{
    const int type = static_cast<int>(1 + s.draw(30)), other = static_cast<int>(1 + s.draw(30));
    const Format& f = kFormats[s.draw(3)];
    c.label(f.name());
    c.label("type " + std::to_string(type));
    c.nontrivial = true;
    // Blocks of the type between blocks of another one: a wrong length shows in what follows.
    MshSpec m;
    set_format(m, f);
    gen::Opts o;
    o.finite = o.tags32 = o.tight_ranges = true;
    o.need_nodes = true;
    o.empty_blocks = false;
    o.allow_big = false;
    o.max_items = 40;
    gen::nodes(s, o, m);
    std::vector<size_t> tags;
    for (auto& b : m.nodes.entity_blocks) tags.insert(tags.end(), b.tags.begin(), b.tags.end());
    require(!tags.empty(), "harness: no nodes");
    size_t tag = 1 + s.draw(1000), lo = tag;
    Src bulk = s.bulk();
    auto block = [&](int ty, size_t n) {
        m.elements.entity_blocks.emplace_back();
        auto& b = m.elements.entity_blocks.back();
        b.entity_dim = gen::kTable[ty].dim;
        b.entity_tag = static_cast<int>(m.elements.entity_blocks.size());
        b.element_type = ty;
        b.num_elements_in_block = n;
        for (size_t i = 0; i < n; i++) {
            b.data.push_back(tag++);
            for (size_t k = 0; k < gen::kTable[ty].nodes; k++) b.data.push_back(bulk.pick(tags));
        }
    };
    const size_t n1 = s.draw(3);
    if (n1) block(other, n1);
    const size_t k = m.elements.entity_blocks.size();
    block(type, 1 + s.draw(s.chance(1, 10) ? 150 : 4));
    const size_t n3 = s.draw(3);
    if (n3) block(other, n3);
    m.elements.num_entity_blocks = m.elements.entity_blocks.size();
    m.elements.num_elements = tag - lo;
    m.elements.min_element_tag = lo;
    m.elements.max_element_tag = tag - 1;
    describe(c, m, f.name() + ", element type " + std::to_string(type));
    if (c.want_text) c.text = c.sample;
    const std::string ty = "element type " + std::to_string(type) + ", " + f.name() + ": ";
    std::string msg;
    Exc e;
    // The validator wants exactly the documented number of nodes.
    e = known::validate(m, &msg);
    require(e == Exc::none, ty + "the validator refuses it: " + msg);
    for (int d : {-1, 1}) {
        MshSpec x = m;
        auto& v = x.elements.entity_blocks[k].data;
        if (d < 0)
            v.pop_back();
        else
            v.push_back(tags[0]);
        if (known::unchecked() & known::kElements) continue; // known finding
        require(attempt([&] { validate_spec(x); }) == Exc::corrupt, ty + "the validator accepts a wrong number of nodes");
    }
    // What is saved, read independently.
    std::string bytes = save(m);
    if (c.want_text) c.text += "\nfile: " + eq::bytes_text(bytes);
    ref::Content r = ref::read(bytes);
    if (!f.is22()) {
        std::string d = eq::diff(m, r.spec, kExt);
        require(d.empty(), ty + "the file does not say what was saved: " + d);
    } else {
        auto want = eq::flat_elements(m);
        require(want.size() == r.elements.size(), ty + "the file holds another number of elements");
        for (size_t i = 0; i < want.size(); i++) {
            auto& x = r.elements[i];
            require(static_cast<size_t>(x.tag) == want[i].tag && x.type == want[i].type && std::vector<size_t>(x.nodes.begin(), x.nodes.end()) == want[i].nodes,
                ty + "element " + std::to_string(i) + " of the file is not what was saved");
        }
    }
    // What is loaded of it and of an independently written file.
    auto judge = [&](const std::string& b, const char* how) {
        MshSpec l;
        e = attempt([&] { l = load(b); }, &msg);
        require(e == Exc::none, ty + how + " file does not load: " + msg);
        std::string d = f.is22() ? eq::check22(m, l, kExt) : eq::diff(m, l, false);
        require(d.empty(), ty + how + " file: " + d);
    };
    judge(bytes, "the saved");
    ref::File own;
    if (!f.is22()) {
        own = ref::file41(s, m, f.ascii(), 0, false);
    } else {
        ref::Mesh22 g;
        g.nodes = eq::flat_nodes(m);
        for (auto& x : eq::flat_elements(m)) {
            ref::El22 q;
            q.tag = static_cast<int32_t>(x.tag);
            q.type = x.type;
            q.tags = {7, x.entity};
            q.nodes.assign(x.nodes.begin(), x.nodes.end());
            g.elements.push_back(std::move(q));
        }
        own = ref::file22(s, g, m, f.ascii(), 0, false);
    }
    if (c.want_text) c.text += "\nwritten independently: " + eq::bytes_text(own.all());
    judge(own.all(), "an independently written");
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C19",
        {{"numbers", numbers, 400, 10000, "400 integers each (or the sweep of all small ones and neighbourhoods of powers of two) through both lookup functions; all non-trivial", 20, 8},
            {"files", files, 4000, 100000, "meshes with elements of one type between elements of another, saved, read independently, loaded and validated; all non-trivial", 20, 8}});
}
