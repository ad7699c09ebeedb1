// C14: a specification the validator accepts is safe to save.
#include "../consistent.h"
#include "../stable.h"
using namespace util;

static void safe(Src& s, Ctx& c, size_t changes)
{
    MshSpec m = cons::any_spec(s, c, changes);
    describe(c, m, "any");
    if (c.want_text) c.text = eq::summary(m);
    const MshSpec copy = m;
    if (known::validate(m) != Exc::none) {
        c.label("refused");
        return;
    }
    if (cons::judge(m).parts & known::unchecked()) {
        c.label("known finding: accepted although inconsistent, not saved");
        return;
    }
    c.label("accepted");
    c.nontrivial = true;
    for (const Format& f : kFormats) {
        set_format(m, f);
        std::string bytes, what;
        Exc e = attempt([&] { bytes = save(m); }, &what);
        c.inner++;
        const bool too_wide = (f.is22() && !stable::fits(m)) || ((f.is22() || !f.ascii()) && !stable::data_tags_fit(m));
        if (too_wide && e != Exc::none) {
            c.label("refused, as the format has no room for the tags");
            continue;
        }
        require(e == Exc::none, "accepted by the validator but cannot be saved as " + f.name() + ": " + what);
        if (too_wide || !stable::text_finite(m, f)) {
            c.label("not comparable in this format");
            continue;
        }
        MshSpec b;
        e = attempt([&] { b = load(bytes); }, &what);
        if (c.want_text) c.text += "\n" + f.name() + ": " + eq::bytes_text(bytes);
        require(e == Exc::none, "accepted by the validator and saved as " + f.name() + ", but cannot be loaded: " + what);
        require(eq::structure(m).empty(), "accepted by the validator although unsound: " + eq::structure(m));
        std::string d = f.is22() ? eq::check22(m, b, kExt) : eq::diff(stable::normal(m), stable::normal(b), kExt);
        require(d.empty(), "accepted by the validator, saved as " + f.name() + " and loaded: " + d);
    }
    m.mesh_format = copy.mesh_format;
    std::string d = eq::diff(copy, m, true);
    require(d.empty(), "validating or saving changed the specification: " + d);
}

int main(int argc, char** argv)
{
    return util::run(argc, argv, "C14",
        {{"few", [](Src& s, Ctx& c) { safe(s, c, 3); }, 20000, 400000, "consistent specifications with 0..3 changes; non-trivial: accepted by the validator", 20, 8},
            {"many", [](Src& s, Ctx& c) { safe(s, c, 12); }, 6000, 120000, "up to 12 changes; non-trivial: accepted by the validator", 20, 8}});
}
