// The recorded findings (KNOWN_FINDINGS) about the validator: which inputs they concern, and whether they are still there.
// Each is probed once per process with one fixed input; where the defect is gone, nothing is exempt any more.
#pragma once
#include "util.h"

#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace known {

using namespace util;

// Parts of a specification the validator does not look at.
enum : unsigned { kTotals = 1, kElements = 2, kData = 4, kSplines = 8, kParametric = 16, kOther = 32 };

inline MshSpec probe_spec()
{
    MshSpec m;
    m.nodes.entity_blocks.resize(1);
    m.nodes.num_entity_blocks = 1;
    m.nodes.num_nodes = 2;
    m.nodes.min_node_tag = 1;
    m.nodes.max_node_tag = 2;
    auto& n = m.nodes.entity_blocks[0];
    n.entity_dim = 1;
    n.entity_tag = 1;
    n.parametric = 0;
    n.num_nodes_in_block = 2;
    n.tags = {1, 2};
    n.data.assign(6, 0.5);
    m.elements.entity_blocks.resize(1);
    m.elements.num_entity_blocks = 1;
    m.elements.num_elements = 2;
    m.elements.min_element_tag = 1;
    m.elements.max_element_tag = 2;
    auto& e = m.elements.entity_blocks[0];
    e.entity_dim = 1;
    e.entity_tag = 1;
    e.element_type = 1;
    e.num_elements_in_block = 2;
    e.data = {1, 1, 2, 2, 2, 1};
    return m;
}

// "element block of no elements, or with fewer values than elements": validate_spec divides by zero.
inline bool dividing_by_zero()
{
#ifdef VERIF_NO_PROBE
    return true;
#else
    static const bool there = [] {
        MshSpec m = probe_spec();
        m.elements.num_elements = 0;
        m.elements.entity_blocks[0].num_elements_in_block = 0;
        m.elements.entity_blocks[0].data.clear();
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) return true;
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY);
            if (fd >= 0) {
                dup2(fd, 1);
                dup2(fd, 2);
            }
            for (int s : {SIGFPE, SIGABRT, SIGSEGV, SIGILL, SIGTRAP}) signal(s, SIG_DFL);
            try {
                validate_spec(m);
            } catch (...) {
                _exit(3);
            }
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        // A refusal is another violation than this finding: let the checks see it.
        return !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3));
    }();
    return there;
#endif
}

inline bool divides_by_zero(const ElementBlock& b)
{
    return (b.num_elements_in_block == 0 || b.data.size() < b.num_elements_in_block) && dividing_by_zero();
}

// The parts that the validator of this tree does not look at.
inline unsigned unchecked()
{
    static const unsigned bits = [] {
        auto accepts = [](const MshSpec& m) { return attempt([&] { validate_spec(m); }) == Exc::none; };
        unsigned r = 0;
        MshSpec m = probe_spec();
        m.nodes.num_nodes = 3;
        if (accepts(m)) r |= kTotals;
        m = probe_spec();
        m.elements.num_elements = 3;
        if (accepts(m)) r |= kTotals;
        m = probe_spec();
        m.elements.entity_blocks[0].element_type = 2;
        if (accepts(m)) r |= kElements;
        m = probe_spec();
        m.node_data.resize(1);
        m.node_data[0].header.int_tags = {0, 1, 5};
        if (accepts(m)) r |= kData;
        m = probe_spec();
        m.nodes.entity_blocks[0].parametric = 2;
        m.nodes.entity_blocks[0].data.assign(8, 0.5);
        if (accepts(m)) r |= kParametric;
#ifdef MSHIO_EXT_NANOSPLINE
        m = probe_spec();
        m.curves.resize(1);
        m.curves[0].num_control_points = 7;
        m.curves[0].num_knots = 0;
        m.curves[0].with_weights = 0;
        m.curves[0].data.clear();
        if (accepts(m)) r |= kSplines;
#endif
        return r;
    }();
    return bits;
}

// "a parametric block of a dimension near 2^31": validate_spec adds three to it.
inline bool overflows(const NodeBlock& b) { return b.parametric > 0 && b.entity_dim > INT_MAX - 3 && (unchecked() & kParametric); }

// Whether the validator cannot be called with this.
inline bool undefined(const MshSpec& m)
{
    for (auto& b : m.elements.entity_blocks)
        if (divides_by_zero(b)) return true;
    for (auto& b : m.nodes.entity_blocks)
        if (overflows(b)) return true;
    return false;
}

// Validates, without the blocks that the validator cannot be called with.
inline Exc validate(const MshSpec& m, std::string* what = nullptr)
{
    if (!undefined(m)) return attempt([&] { validate_spec(m); }, what);
    MshSpec x = m;
    auto& e = x.elements.entity_blocks;
    for (size_t i = e.size(); i-- > 0;)
        if (divides_by_zero(e[i])) {
            e.erase(e.begin() + static_cast<std::ptrdiff_t>(i));
            x.elements.num_entity_blocks--;
        }
    auto& n = x.nodes.entity_blocks;
    for (size_t i = n.size(); i-- > 0;)
        if (overflows(n[i])) {
            n.erase(n.begin() + static_cast<std::ptrdiff_t>(i));
            x.nodes.num_entity_blocks--;
        }
    return attempt([&] { validate_spec(x); }, what);
}

} // namespace known
