// Shared helpers of the harnesses: sanitizer options, calls of the library on strings, silent std::cerr.
#pragma once
#include "eq.h"

#include <stdexcept>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#endif
#ifdef VERIF_ASAN
extern "C" __attribute__((no_sanitize_address, used, visibility("default"))) const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=98:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1";
}
#endif
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options()
{
    return "halt_on_error=1:print_stacktrace=1:exitcode=98";
}

namespace util {

using namespace mshio;
using pbt::Ctx;
using pbt::Src;

struct Format
{
    const char* version;
    int type;
    bool is22() const { return version[0] == '2'; }
    bool ascii() const { return type == 0; }
    std::string name() const { return std::string(version) + (type ? " binary" : " ASCII"); }
};
static const Format kFormats[4] = {{"4.1", 1}, {"4.1", 0}, {"2.2", 1}, {"2.2", 0}};
constexpr bool kExt =
#ifdef MSHIO_EXT_NANOSPLINE
    true;
#else
    false;
#endif

inline void set_format(MshSpec& s, const Format& f)
{
    s.mesh_format.version = f.version;
    s.mesh_format.file_type = f.type;
    s.mesh_format.data_size = 8;
}

// A stream buffer that swallows everything: the library reports skipped sections on std::cerr.
class NullBuf : public std::streambuf
{
protected:
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
inline void silence_cerr()
{
    static NullBuf* b = new NullBuf; // outlives std::cerr
    std::cerr.rdbuf(b);
}

inline std::string save(const MshSpec& s)
{
    std::ostringstream o(std::ios::binary);
    save_msh(o, s);
    if (!o) pbt::fail("saving left the output stream in a failed state");
    return o.str();
}
inline std::string save_as(MshSpec s, const Format& f)
{
    set_format(s, f);
    return save(s);
}
inline MshSpec load(const std::string& bytes)
{
    std::istringstream i(bytes, std::ios::binary);
    return load_msh(i);
}

// What a call did: which exception, if any.
enum class Exc { none, invalid, unsupported, corrupt, other_std, unknown };
inline const char* name(Exc e)
{
    switch (e) {
    case Exc::none: return "no exception";
    case Exc::invalid: return "InvalidFormat";
    case Exc::unsupported: return "UnsupportedFeature";
    case Exc::corrupt: return "CorruptData";
    case Exc::other_std: return "another std::exception";
    default: return "an exception of unknown type";
    }
}
template <typename F>
Exc attempt(F&& f, std::string* what = nullptr)
{
    try {
        f();
        return Exc::none;
    } catch (const pbt::Failure&) {
        throw;
    } catch (const InvalidFormat& e) {
        if (what) *what = e.what();
        return Exc::invalid;
    } catch (const UnsupportedFeature& e) {
        if (what) *what = e.what();
        return Exc::unsupported;
    } catch (const CorruptData& e) {
        if (what) *what = e.what();
        return Exc::corrupt;
    } catch (const std::exception& e) {
        if (what) *what = e.what();
        return Exc::other_std;
    } catch (...) {
        return Exc::unknown;
    }
}

inline void describe(Ctx& c, const MshSpec& s, const std::string& how)
{
    c.sample = how + ": " + eq::summary(s);
}

inline void require(bool ok, const std::string& msg)
{
    if (!ok) pbt::fail(msg);
}

// Runs main_checks with std::cerr silenced inside the cases only (violations are printed by the parent through fd 2).
inline int run(int argc, char** argv, const std::string& property, std::vector<pbt::Check> checks)
{
    for (auto& c : checks) {
        auto fn = c.fn;
        c.fn = [fn](Src& s, Ctx& ctx) {
            silence_cerr();
            fn(s, ctx);
        };
    }
    return pbt::main_checks(argc, argv, property, checks);
}

} // namespace util
