// A small property-based testing engine: choice-sequence generation (in the manner of Hypothesis), crash isolation by
// forked workers, deterministic sharding, generic shrinking, replay files.
//
// A property is a function of a Src (source of choices). In random mode choices come from a PRNG seeded from
// (VERIF_SEED, property, case index) and are recorded; in replay mode they come from a recorded sequence (0 once it is
// exhausted). Shrinking edits the sequence and re-runs the property in a forked child, so that crashes, sanitizer
// reports and hangs shrink like ordinary failures. All generators are written so that 0 is the simplest choice.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure
{
    std::string msg;
};

[[noreturn]] inline void fail(const std::string& msg) { throw Failure{msg}; }

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

class Src
{
public:
    static Src random(uint64_t seed, bool record)
    {
        Src s;
        s.m_state = seed;
        s.m_record = record;
        return s;
    }
    static Src replay(std::vector<uint64_t> choices)
    {
        Src s;
        s.m_replay = true;
        s.m_record = true;
        s.m_in = std::move(choices);
        return s;
    }

    // A choice in [0, max].
    uint64_t draw(uint64_t max)
    {
        uint64_t v;
        if (m_replay) {
            v = m_pos < m_in.size() ? m_in[m_pos] : 0;
            m_pos++;
            if (v > max) v = (max == UINT64_MAX) ? v : v % (max + 1);
        } else {
            m_state += 0x9e3779b97f4a7c15ull;
            uint64_t r = mix(m_state);
            if (max == UINT64_MAX)
                v = r;
            else
                v = static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (max + 1)) >> 64);
        }
        if (m_record) {
            m_rec.push_back(v);
            if (m_sink) m_sink(v);
        }
        return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    int irange(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo))); }
    // true with probability num/den; 0 means false.
    bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
    bool flip() { return draw(1) == 1; }
    uint64_t u64() { return draw(UINT64_MAX); }
    uint32_t u32() { return static_cast<uint32_t>(draw(UINT32_MAX)); }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[draw(v.size() - 1)];
    }
    // Index with the given weights.
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t total = 0;
        for (unsigned x : w) total += x;
        uint64_t r = draw(total - 1);
        size_t i = 0;
        for (unsigned x : w) {
            if (r < x) return i;
            r -= x;
            i++;
        }
        return 0;
    }
    // A source for bulk content: one recorded choice determines everything drawn from it.
    Src bulk() { return Src::random(mix(draw(0xffffff) + 0x51ed27), false); }

    const std::vector<uint64_t>& recorded() const { return m_rec; }
    uint64_t hash() const
    {
        uint64_t h = 0x1234567;
        for (uint64_t v : m_rec) h = mix(h ^ v);
        return h;
    }
    std::function<void(uint64_t)> m_sink;

private:
    bool m_replay = false, m_record = false;
    uint64_t m_state = 0;
    std::vector<uint64_t> m_in, m_rec;
    size_t m_pos = 0;
};

// What a case reports about itself.
struct Ctx
{
    std::map<std::string, uint64_t> labels;
    bool nontrivial = false;
    uint64_t inner = 0; // further evaluations made inside the case (cut positions, conversions, ...)
    std::string sample;
    bool want_text = false; // replaying: describe the case in full
    std::string text;
    uint64_t case_hash_extra = 0;
    void label(const std::string& l) { labels[l]++; }
    void label_if(bool c, const std::string& l)
    {
        if (c) labels[l]++;
    }
};

using PropFn = std::function<void(Src&, Ctx&)>;

struct Check
{
    std::string name; // unique within the binary
    PropFn fn;
    uint64_t quick = 1000, thorough = 20000; // number of cases
    std::string rule; // how cases are made, what is non-trivial
    double cpu_limit_s = 20; // per case: a case that normally takes milliseconds and exceeds this does not terminate
    unsigned max_workers = 8;
    bool fixed = false; // the number of cases is not scaled
};

inline std::string json_escape(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c >= 127) {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

namespace detail {

struct Shared
{
    std::atomic<uint64_t> min_fail;
    std::atomic<uint64_t> done[64];
    std::atomic<uint64_t> current[64];
};

// Result of one forked run, in shared memory so that it survives a crash.
struct Slot
{
    std::atomic<uint32_t> status; // 0 running, 1 passed, 2 failed
    uint32_t msg_len;
    char msg[1 << 16];
    uint32_t text_len;
    char text[1 << 18];
    uint64_t n_choices;
    uint64_t choices[1 << 20];
};

template <typename T>
T* map_shared()
{
    void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return static_cast<T*>(p);
}

inline void on_timer(int)
{
    static const char m[] = "pbt: case exceeded its CPU limit\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(97);
}

inline void arm(double cpu_s)
{
    itimerval t{};
    t.it_value.tv_sec = static_cast<time_t>(cpu_s);
    t.it_value.tv_usec = static_cast<suseconds_t>((cpu_s - static_cast<double>(t.it_value.tv_sec)) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}

// Runs the property; returns "" or the failure message.
inline std::string run_one(const Check& c, Src& s, Ctx& ctx)
{
    try {
        c.fn(s, ctx);
        return "";
    } catch (const Failure& f) {
        return f.msg.empty() ? "failed" : f.msg;
    } catch (const std::exception& e) {
        return std::string("unexpected exception: ") + e.what();
    } catch (...) {
        return "unexpected exception of unknown type";
    }
}

struct Outcome
{
    bool failed = false;
    std::string msg, text, err;
    std::vector<uint64_t> choices;
};

inline std::string slurp(const std::string& p, size_t max)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    if (s.size() > max) s = s.substr(0, max);
    return s;
}

// Runs a case in a process of its own, after the cases `before` (given by their seeds) in the same process.
inline Outcome run_forked(const Check& c, Src src, Slot* slot, bool want_text, const std::string& errfile, const std::vector<uint64_t>& before = {})
{
    slot->status = 0;
    slot->msg_len = slot->text_len = 0;
    slot->n_choices = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (pid == 0) {
        int fd = open(errfile.empty() ? "/dev/null" : errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) dup2(fd, 2);
        signal(SIGPROF, on_timer);
        for (uint64_t seed : before) {
            arm(c.cpu_limit_s);
            Src b = Src::random(seed, true);
            Ctx ctx;
            run_one(c, b, ctx);
        }
        arm(c.cpu_limit_s);
        Ctx ctx;
        ctx.want_text = want_text;
        const size_t cap = sizeof(slot->choices) / sizeof(slot->choices[0]);
        src.m_sink = [slot, cap](uint64_t v) {
            if (slot->n_choices < cap) slot->choices[slot->n_choices++] = v;
        };
        std::string m = run_one(c, src, ctx);
        slot->msg_len = static_cast<uint32_t>(std::min(m.size(), sizeof slot->msg));
        memcpy(slot->msg, m.data(), slot->msg_len);
        slot->text_len = static_cast<uint32_t>(std::min(ctx.text.size(), sizeof slot->text));
        memcpy(slot->text, ctx.text.data(), slot->text_len);
        slot->status = m.empty() ? 1 : 2;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Outcome o;
    o.choices.assign(slot->choices, slot->choices + slot->n_choices);
    if (slot->status == 1) return o;
    // Nothing under test sends this; the machine does when it is short of memory.
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return o;
    o.failed = true;
    o.text.assign(slot->text, slot->text_len);
    if (slot->status == 2) {
        o.msg.assign(slot->msg, slot->msg_len);
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
        o.msg = "does not terminate (CPU limit exceeded)";
    } else {
        o.msg = "crashed (";
        o.msg += WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
        o.msg += ")";
        if (!errfile.empty()) {
            std::string e = slurp(errfile, 100000);
            for (const char* key : {"runtime error: ", "ERROR: AddressSanitizer: ", "WARNING: ThreadSanitizer: ", "Assertion `", "terminate called"}) {
                size_t p = e.find(key);
                if (p != std::string::npos) {
                    o.msg += ": " + e.substr(p, e.find('\n', p) - p);
                    break;
                }
            }
            o.err = e;
        }
    }
    return o;
}

inline double now_s()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

} // namespace detail

struct Args
{
    uint64_t seed = 1;
    bool thorough = false;
    unsigned workers = 8;
    double scale = 1;
    double max_s = 0; // stop starting new cases after this (0: never)
    std::string out, replay_dir = ".", flavour, property, replay_choices, only;
};

// Runs one check over its cases. Appends a JSON object to `json`; returns false on a violation.
inline bool run_check(const Check& c, const Args& a, std::string& json)
{
    using namespace detail;
    const double t0 = now_s();
    uint64_t n = static_cast<uint64_t>(static_cast<double>(a.thorough ? c.thorough : c.quick) * (c.fixed ? 1.0 : a.scale));
    if (n == 0) n = 1;
    uint64_t base = mix(a.seed * 0x2545F4914F6CDD1Dull + 7);
    for (char ch : a.property + "/" + c.name + "/" + a.flavour) base = mix(base ^ static_cast<uint64_t>(static_cast<unsigned char>(ch)));
    auto case_seed = [&](uint64_t i) { return mix(base ^ mix(i)); };

    Shared* sh = map_shared<Shared>();
    sh->min_fail = UINT64_MAX;
    unsigned W = std::min<unsigned>({a.workers, c.max_workers, 64u});
    if (W > n) W = static_cast<unsigned>(n);
    if (W == 0) W = 1;
    std::string base_path = a.replay_dir + "/" + a.property + "-" + c.name + "-" + a.flavour;
    auto wfile = [&](unsigned w, const char* ext) { return base_path + ".w" + std::to_string(w) + ext; };
    std::vector<pid_t> pids;
    for (unsigned w = 0; w < W; w++) {
        sh->done[w] = 0;
        sh->current[w] = UINT64_MAX;
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(3);
        }
        if (pid == 0) {
            int fd = open(wfile(w, ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) dup2(fd, 2);
            signal(SIGPROF, on_timer);
            std::map<std::string, uint64_t> labels;
            std::unordered_set<uint64_t> hashes;
            std::vector<std::string> samples;
            uint64_t inner = 0, evals = 0, nontriv = 0;
            for (uint64_t i = w; i < n; i += W) {
                if (i > sh->min_fail.load()) break;
                if (a.max_s > 0 && now_s() - t0 > a.max_s) break;
                sh->current[w] = i;
                arm(c.cpu_limit_s);
                Src s = Src::random(case_seed(i), true);
                Ctx ctx;
                std::string m = run_one(c, s, ctx);
                if (!m.empty()) {
                    uint64_t cur = sh->min_fail.load();
                    while (i < cur && !sh->min_fail.compare_exchange_weak(cur, i)) {
                    }
                    break;
                }
                evals++;
                sh->done[w]++;
                inner += ctx.inner;
                for (auto& l : ctx.labels) labels[l.first] += l.second;
                if (ctx.nontrivial) {
                    nontriv++;
                    hashes.insert(mix(s.hash() ^ ctx.case_hash_extra));
                }
                if (!ctx.sample.empty() && samples.size() < 3 && ctx.nontrivial) samples.push_back(ctx.sample);
            }
            arm(0);
            std::ofstream f(wfile(w, ".stats"));
            f << evals << " " << inner << " " << nontriv << " " << labels.size() << "\n";
            for (auto& l : labels) f << l.second << " " << l.first << "\n";
            f << samples.size() << "\n";
            for (auto& sm : samples) {
                std::string t = sm;
                for (char& ch : t)
                    if (ch == '\n') ch = ' ';
                f << t << "\n";
            }
            f.close();
            std::ofstream h(wfile(w, ".hash"), std::ios::binary);
            for (uint64_t v : hashes) h.write(reinterpret_cast<const char*>(&v), 8);
            h.close();
            _exit(0);
        }
        pids.push_back(pid);
    }
    // A worker that dies marks the case it was running as failing.
    unsigned left = W;
    while (left > 0) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) {
            if (errno == EINTR) continue;
            break;
        }
        for (unsigned w = 0; w < W; w++) {
            if (pids[w] != p) continue;
            left--;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                uint64_t i = sh->current[w].load();
                uint64_t cur = sh->min_fail.load();
                while (i < cur && !sh->min_fail.compare_exchange_weak(cur, i)) {
                }
            }
        }
    }

    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    uint64_t evals = 0, inner = 0, nontriv = 0;
    for (unsigned w = 0; w < W; w++) {
        std::ifstream f(wfile(w, ".stats"));
        uint64_t e = 0, in = 0, nt = 0, k = 0;
        if (f >> e >> in >> nt >> k) {
            evals += e;
            inner += in;
            nontriv += nt;
            for (uint64_t j = 0; j < k; j++) {
                uint64_t cnt;
                std::string nm;
                f >> cnt;
                f.get();
                std::getline(f, nm);
                labels[nm] += cnt;
            }
            uint64_t ns = 0;
            f >> ns;
            f.get();
            for (uint64_t j = 0; j < ns; j++) {
                std::string t;
                std::getline(f, t);
                if (samples.size() < 6 && (j == 0 || W == 1)) samples.push_back(t);
            }
        } else {
            evals += sh->done[w].load();
        }
        std::ifstream h(wfile(w, ".hash"), std::ios::binary);
        uint64_t v;
        while (h.read(reinterpret_cast<char*>(&v), 8)) hashes.insert(v);
        unlink(wfile(w, ".stats").c_str());
        unlink(wfile(w, ".hash").c_str());
        unlink(wfile(w, ".err").c_str());
    }

    bool ok = true;
    std::string viol_json;
    if (sh->min_fail.load() != UINT64_MAX) {
        uint64_t idx = sh->min_fail.load();
        Slot* slot = map_shared<Slot>();
        std::string errf = base_path + ".stderr";
        Outcome first;
        int confirmed = 0;
        // The failing case must fail again, three times out of three, from its seed.
        for (int k = 0; k < 3; k++) {
            Outcome o = run_forked(c, Src::random(case_seed(idx), true), slot, false, errf);
            if (o.failed) {
                confirmed++;
                first = o;
            }
        }
        // A failure that needs what earlier cases left behind in the process: the same cases in the same order.
        std::vector<uint64_t> before;
        if (confirmed == 0) {
            for (uint64_t i = idx % W; i < idx; i += W) before.push_back(case_seed(i));
            const double t1 = now_s();
            auto fails = [&](const std::vector<uint64_t>& b) {
                Outcome o = run_forked(c, Src::random(case_seed(idx), true), slot, false, errf, b);
                if (o.failed) first = o;
                return o.failed;
            };
            if (!before.empty() && fails(before) && fails(before)) {
                confirmed = 2;
                for (size_t len = 1; len < before.size(); len *= 2) { // the last few are often enough
                    std::vector<uint64_t> b(before.end() - static_cast<long>(len), before.end());
                    if (fails(b)) {
                        before = b;
                        break;
                    }
                    if (now_s() - t1 > 60) break;
                }
                for (size_t len = std::max<size_t>(1, before.size() / 2); len >= 1; len /= 2) {
                    for (size_t at = 0; at + len <= before.size() && now_s() - t1 < 60;) {
                        std::vector<uint64_t> b = before;
                        b.erase(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + len));
                        if (!b.empty() && fails(b))
                            before = b;
                        else
                            at += len;
                    }
                    if (len == 1) break;
                }
                Outcome o = run_forked(c, Src::random(case_seed(idx), true), slot, true, errf, before);
                if (o.failed) first = o;
            } else {
                before.clear();
            }
        }
        // One that depends on timing (threads): again, more often.
        if (confirmed == 0) {
            const double t1 = now_s();
            for (int k = 0; k < 300 && now_s() - t1 < 20 && confirmed < 2; k++) {
                Outcome o = run_forked(c, Src::random(case_seed(idx), true), slot, false, errf);
                if (o.failed) {
                    confirmed++;
                    first = o;
                }
            }
        }
        if (confirmed == 0) {
            std::cerr << "pbt: case " << idx << " of " << c.name
                      << " failed once and did not fail again, alone or after the cases before it; not reported\n";
            labels["unreproducible failure (not reported)"]++;
        } else {
            ok = false;
            Outcome best = first;
            const double t1 = now_s();
            int attempts = 0;
            const double budget = 45;
            auto attempt = [&](const std::vector<uint64_t>& cand) {
                if (attempts >= 3000 || now_s() - t1 > budget) return false;
                attempts++;
                Outcome o = run_forked(c, Src::replay(cand), slot, false, errf);
                if (!o.failed) return false;
                // Keep the sequence actually consumed if it is no longer than the candidate.
                std::vector<uint64_t> used = o.choices;
                while (!used.empty() && used.back() == 0) used.pop_back();
                std::vector<uint64_t> cc = cand;
                while (!cc.empty() && cc.back() == 0) cc.pop_back();
                o.choices = used.size() <= cc.size() ? used : cc;
                best = o;
                return true;
            };
            auto cost = [](const std::vector<uint64_t>& v) {
                unsigned __int128 s = 0;
                for (uint64_t x : v) s += x;
                return std::make_pair(v.size(), s);
            };
            bool progress = best.choices.size() < 60000 && before.empty();
            // First make sure that the replay of the recorded choices fails like the seed does.
            if (progress) {
                Outcome keep = best;
                progress = attempt(keep.choices);
            }
            while (progress && attempts < 3000 && now_s() - t1 < budget) {
                progress = false;
                auto before = cost(best.choices);
                for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
                    for (size_t at = 0; at + len <= best.choices.size() && now_s() - t1 < budget;) {
                        std::vector<uint64_t> cand = best.choices;
                        cand.erase(cand.begin() + static_cast<long>(at), cand.begin() + static_cast<long>(at + len));
                        if (!attempt(cand)) at += len;
                    }
                    if (len == 1) break;
                }
                for (size_t i = 0; i < best.choices.size() && now_s() - t1 < budget; i++) {
                    if (best.choices[i] == 0) continue;
                    std::vector<uint64_t> cand = best.choices;
                    cand[i] = 0;
                    if (attempt(cand)) continue;
                    uint64_t lo = 0, hi = i < best.choices.size() ? best.choices[i] : 0;
                    for (int k = 0; k < 20 && hi - lo > 1; k++) {
                        uint64_t mid = lo + (hi - lo) / 2;
                        cand = best.choices;
                        if (i >= cand.size()) break;
                        cand[i] = mid;
                        if (attempt(cand))
                            hi = mid;
                        else
                            lo = mid;
                    }
                }
                if (cost(best.choices) < before) progress = true;
            }
            Outcome fin;
            std::string how = "choices";
            if (!before.empty()) {
                fin = first;
                how = "sequence";
                fin.msg += " (after " + std::to_string(before.size()) + " earlier cases in the same process)";
            } else {
                fin = run_forked(c, Src::replay(best.choices), slot, true, errf);
            }
            if (!fin.failed) { // only fails from its seed (too many choices to record)
                fin = run_forked(c, Src::random(case_seed(idx), true), slot, true, errf);
                how = "seed";
            }
            if (!fin.failed) fin = first;
            std::string path = base_path + ".replay.json";
            std::ofstream r(path);
            r << "{\n \"property\": \"" << a.property << "\",\n \"check\": \"" << json_escape(c.name) << "\",\n \"flavour\": \""
              << json_escape(a.flavour) << "\",\n \"seed\": " << a.seed << ",\n \"case\": " << idx << ",\n \"confirmed\": " << confirmed
              << ",\n \"how\": \"" << how << "\",\n \"case_seed\": \"" << case_seed(idx) << "\",\n \"shrink_attempts\": " << attempts
              << ",\n \"message\": \"" << json_escape(fin.msg) << "\",\n \"case_text\": \"" << json_escape(fin.text) << "\",\n \"stderr\": \""
              << json_escape(fin.err.substr(0, 6000)) << "\",\n \"choices\": [";
            if (how == "choices")
                for (size_t i = 0; i < best.choices.size(); i++) r << (i ? "," : "") << "\"" << best.choices[i] << "\"";
            r << "],\n \"before\": [";
            for (size_t i = 0; i < before.size(); i++) r << (i ? "," : "") << "\"" << before[i] << "\"";
            r << "]\n}\n";
            r.close();
            std::cerr << "pbt: " << a.property << "/" << c.name << " [" << a.flavour << "] failed: " << fin.msg << "\n"
                      << (fin.text.size() > 4000 ? fin.text.substr(0, 4000) + "..." : fin.text) << "\n";
            viol_json = "\"" + json_escape(path) + "\"";
        }
        unlink(errf.c_str());
        munmap(slot, sizeof(Slot));
    }
    std::stringstream js;
    js << "{\"check\": \"" << json_escape(c.name) << "\", \"flavour\": \"" << json_escape(a.flavour) << "\", \"planned\": " << n
       << ", \"cases\": " << evals << ", \"inner\": " << inner << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << hashes.size()
       << ", \"rule\": \"" << json_escape(c.rule) << "\", \"wall_s\": " << now_s() - t0 << ", \"labels\": {";
    bool firstl = true;
    for (auto& l : labels) {
        js << (firstl ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
        firstl = false;
    }
    js << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) js << (i ? ", " : "") << "\"" << json_escape(samples[i].substr(0, 600)) << "\"";
    js << "], \"violation\": " << (viol_json.empty() ? "null" : viol_json) << "}";
    json += (json.empty() ? "" : ",\n") + js.str();
    munmap(sh, sizeof(Shared));
    return ok;
}

inline int main_checks(int argc, char** argv, const std::string& property, const std::vector<Check>& checks)
{
    Args a;
    a.property = property;
    std::string replay_check, replay_seed, replay_before;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (s == "--seed") a.seed = std::stoull(val());
        else if (s == "--thorough") a.thorough = true;
        else if (s == "--workers") a.workers = static_cast<unsigned>(std::stoul(val()));
        else if (s == "--scale") a.scale = std::stod(val());
        else if (s == "--max-s") a.max_s = std::stod(val());
        else if (s == "--out") a.out = val();
        else if (s == "--replay-dir") a.replay_dir = val();
        else if (s == "--flavour") a.flavour = val();
        else if (s == "--only") a.only = val();
        else if (s == "--replay-check") replay_check = val();
        else if (s == "--replay-choices") a.replay_choices = val(); // file: whitespace separated numbers
        else if (s == "--replay-seed") replay_seed = val();
        else if (s == "--replay-before") replay_before = val(); // file: seeds of the cases before it
    }
    if (!replay_check.empty()) {
        for (const Check& c : checks) {
            if (c.name != replay_check) continue;
            Src src = Src::random(0, true);
            if (!replay_seed.empty()) {
                src = Src::random(std::stoull(replay_seed), true);
            } else {
                std::ifstream f(a.replay_choices);
                std::vector<uint64_t> v;
                uint64_t x;
                while (f >> x) v.push_back(x);
                src = Src::replay(v);
            }
            signal(SIGPROF, detail::on_timer);
            if (!replay_before.empty()) {
                std::ifstream f(replay_before);
                uint64_t x;
                while (f >> x) {
                    detail::arm(c.cpu_limit_s);
                    Src b = Src::random(x, true);
                    Ctx ctx;
                    detail::run_one(c, b, ctx);
                }
            }
            detail::arm(c.cpu_limit_s);
            Ctx ctx;
            ctx.want_text = true;
            std::string m = detail::run_one(c, src, ctx);
            std::cout << ctx.text << "\n" << (m.empty() ? "PASSED" : "FAILED: " + m) << "\n";
            return m.empty() ? 0 : 1;
        }
        return 2;
    }
    std::string json;
    bool ok = true;
    for (const Check& c : checks) {
        if (!a.only.empty() && c.name.find(a.only) == std::string::npos) continue;
        if (!run_check(c, a, json)) ok = false;
    }
    if (!a.out.empty()) {
        std::ofstream f(a.out);
        f << "[" << json << "]\n";
    }
    return ok ? 0 : 1;
}

} // namespace pbt
