// Coverage-guided fuzzing (libFuzzer) of the loader for C10, C24 and C25. Built with clang, address and undefined behaviour
// sanitizers. -DVERIF_ORACLE=10, 24 or 25 selects what is checked besides memory safety.
//
//   fuzz --make-seeds DIR N SEED   writes N starting inputs
//   fuzz [libFuzzer options] DIR
#define VERIF_NO_PROBE 1 // no forks in the fuzzer
#include "alloc.h"
#include "mutate.h"
#include "stable.h"

#include <cstdio>
#include <cstdlib>
#include <unistd.h>

#ifndef VERIF_ORACLE
#define VERIF_ORACLE 10
#endif

using namespace util;

extern "C" size_t LLVMFuzzerMutate(uint8_t* data, size_t size, size_t max);

static void violated(const std::string& what)
{
    fprintf(stderr, "VERIF-FUZZ: %s\n", what.c_str());
    abort();
}

// Counted for the evidence: inputs run, inputs loaded with content, inputs accepted by the validator.
static size_t g_runs, g_loaded, g_accepted;
static void report() { fprintf(stderr, "VERIF-COUNTS runs=%zu loaded=%zu accepted=%zu\n", g_runs, g_loaded, g_accepted); }

extern "C" int LLVMFuzzerInitialize(int* argc, char*** argv)
{
    known::unchecked();
    if (*argc >= 5 && std::string((*argv)[1]) == "--make-seeds") {
        const size_t n = strtoull((*argv)[3], nullptr, 10);
        for (size_t i = 0; i < n; i++) {
            pbt::Src s = pbt::Src::random(pbt::mix(strtoull((*argv)[4], nullptr, 10) * 1000003 + i), false);
            pbt::Ctx c;
            std::string b = i % 3 ? mut::small_file(s).all() : mut::bytes(s, c);
            if (b.size() > 3000) continue;
            std::ofstream f(std::string((*argv)[2]) + "/seed" + std::to_string(i), std::ios::binary);
            f << b;
        }
        fflush(nullptr);
        _exit(0);
    }
    silence_cerr();
    atexit(report);
    return 0;
}

// Half the time the library's own field-level and section-level edits, half the time libFuzzer's.
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* data, size_t size, size_t max, unsigned seed)
{
    if (seed & 1) return LLVMFuzzerMutate(data, size, max);
    pbt::Src s = pbt::Src::random(pbt::mix(seed), false);
    std::string b(reinterpret_cast<char*>(data), size);
    mut::edit(s, b);
    if (b.size() > max) b.resize(max);
    memcpy(data, b.data(), b.size());
    return b.size();
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    std::string bytes(reinterpret_cast<const char*>(data), size);
    g_runs++;
    alloc::cap() = alloc::live() + (8u << 20);
    MshSpec m;
    std::string what;
    Exc e = attempt([&] { m = load(bytes); }, &what);
    if (e == Exc::unknown) violated("something that is not a std::exception was thrown");
    if (e == Exc::none && bytes.size() > 40) g_loaded++;
    std::string d;
#if VERIF_ORACLE == 25
    if (e == Exc::none) d = eq::structure(m);
#elif VERIF_ORACLE == 24
    bool accepted = false;
    if (e == Exc::none) {
        m = MshSpec();
        try {
            d = stable::check(bytes, &accepted);
        } catch (const std::bad_alloc&) {
        }
        if (d.find("bad_alloc") != std::string::npos) d.clear(); // the limit above, which other builds do not have
    }
    if (accepted) g_accepted++;
#endif
    alloc::cap() = SIZE_MAX;
    if (!d.empty()) violated(d);
    return 0;
}
