// C09: conversion chains between formats do not drift.
#include "../util.h"
using namespace util;

static MshSpec convert(const MshSpec& a, const Format& f, Ctx& c)
{
    std::string bytes = save_as(a, f);
    if (c.want_text) c.text += "\n-> " + f.name() + ": " + eq::bytes_text(bytes, 1500);
    return load(bytes);
}

static void chain(Src& s, Ctx& c)
{
    gen::Opts o;
    o.ext = kExt;
    o.tags32 = true;
    o.finite = true;
    o.linked_entities = s.flip();
    o.need_nodes = s.chance(3, 4);
    o.allow_big = s.chance(1, 5);
    MshSpec a = gen::spec(s, o);
    set_format(a, kFormats[0]);
    if (c.want_text) c.text = eq::summary(a);
    const size_t steps = 2 + s.draw(4);
    bool seen22 = false;
    size_t n22 = 0, n41 = 0;
    MshSpec cur = a;
    std::string how = "4.1";
    for (size_t i = 0; i < steps; i++) {
        const Format& f = kFormats[s.draw(3)];
        how += " -> " + f.name();
        MshSpec next = convert(cur, f, c);
        require(next.mesh_format.version == f.version && next.mesh_format.file_type == f.type && next.mesh_format.data_size == 8, how + ": header is not what was asked for");
        // ASCII and binary are interchangeable.
        Format g = f;
        g.type = 1 - f.type;
        MshSpec twin = convert(cur, g, c);
        c.inner += 2;
        std::string d = eq::diff(next, twin, kExt, false);
        require(d.empty(), how + ": differs from the other encoding: " + d);
        if (!f.is22() || seen22) {
            d = eq::diff(cur, next, kExt, false);
        } else {
            d = eq::check22(cur, next, kExt);
            if (d.empty() && o.linked_entities) d = eq::check_membership(cur, next);
            seen22 = true;
        }
        require(d.empty(), how + ": " + d);
        (f.is22() ? n22 : n41)++;
        cur = std::move(next);
    }
    c.nontrivial = a.nodes.num_nodes > 0;
    c.label_if(n22 && n41, "crosses formats");
    c.label_if(n22 > 1, "2.2 more than once");
    describe(c, a, how);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C09",
        {{"chain", chain, 4000, 100000, "consistent specifications through 2..6 conversions, each also made in the other encoding; non-trivial: holds nodes", 10, 8}});
}
