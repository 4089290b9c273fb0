// Property-based testing engine used by every check in /verif.
//
// A case is generated from a sequence of bounded choices (`Case::draw`).  In a search run the choices come from a
// PRNG seeded with (VERIF_SEED, property, case index) and are recorded in memory shared with the parent process, so
// that a case which crashes, trips a sanitizer or hangs can be replayed too.  A failing case is replayed, shrunk on
// its choice sequence (delete / zero / minimise) and written to a replay file.
#pragma once

#include <cstdint>
#include <functional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace vp
{

struct Failure
{
    std::string sig;
    std::string msg;
};

struct Discard
{
};

struct Shared;

class Case
{
public:
    // Search mode: PRNG-driven.
    Case(uint64_t seed, unsigned size, Shared *rec);
    // Replay mode: choices from a sequence, zeros when exhausted.
    Case(const std::vector<uint64_t> &choices, unsigned size, Shared *rec);

    // Uniform in [0, bound). bound >= 1. Shrinks toward 0.
    uint64_t draw(uint64_t bound);
    // Inclusive range; shrinks toward lo.
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
    }
    // Inclusive range shrinking toward `simple`.
    int64_t range_near(int64_t lo, int64_t hi, int64_t simple);
    // True with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool flag() { return draw(2) == 1; }
    // Length of a collection in [lo, hi]; grows with the size of the case, biased to small values.
    size_t len(size_t lo, size_t hi);
    template <class T>
    const T &pick(const std::vector<T> &v)
    {
        return v[draw(v.size())];
    }
    template <class T>
    T pick_of(std::initializer_list<T> v)
    {
        return *(v.begin() + draw(v.size()));
    }
    // Weighted choice: returns index.
    size_t weighted(std::initializer_list<unsigned> w);
    // Dyadic rational k / 2^frac_bits with |k| <= max_abs * 2^frac_bits. Shrinks toward 0. Exact in float.
    double dyadic(int max_abs, int frac_bits);
    uint64_t bits64();

    // Marks the case as non-trivial (by the rule stated for the property).
    void nontrivial() { nontrivial_ = true; }
    // Count something about the distribution of the cases.
    void label(std::string_view name);
    bool noting() const { return noting_; }
    void set_noting(bool n) { noting_ = n; }
    std::ostream &note_stream() { return notes_; }
    std::string notes() const { return notes_.str(); }
    bool is_nontrivial() const { return nontrivial_; }
    uint64_t choice_hash() const { return hash_; }
    unsigned size() const { return size_; }
    bool thorough() const { return thorough_; }
    void set_thorough(bool t) { thorough_ = t; }

    [[noreturn]] void fail(const std::string &sig, const std::string &msg) { throw Failure{sig, msg}; }
    [[noreturn]] void discard() { throw Discard{}; }

private:
    uint64_t next();
    uint64_t state_ = 0;
    bool replay_ = false;
    const std::vector<uint64_t> *choices_ = nullptr;
    size_t pos_ = 0;
    unsigned size_ = 50;
    Shared *rec_ = nullptr;
    bool nontrivial_ = false;
    bool noting_ = false;
    bool thorough_ = false;
    uint64_t hash_ = 1469598103934665603ULL;
    std::ostringstream notes_;
};

#define VP_NOTE(c, expr)                          \
    do                                            \
    {                                             \
        if ((c).noting()) (c).note_stream() << expr; \
    } while (0)

#define VP_STR(expr) (static_cast<std::ostringstream &&>(std::ostringstream() << expr).str())

#define VP_FAIL(c, sig, expr) (c).fail(sig, VP_STR(expr))

#define VP_CHECK(c, cond, sig, expr)                                                    \
    do                                                                                  \
    {                                                                                   \
        if (!(cond)) (c).fail(sig, VP_STR("[" << #cond << "] is false: " << expr)); \
    } while (0)

#define VP_EQ(c, actual, expected, sig, expr)                                                                   \
    do                                                                                                          \
    {                                                                                                           \
        const auto &vp_a = (actual);                                                                            \
        const auto &vp_e = (expected);                                                                          \
        if (!(vp_a == vp_e))                                                                                    \
            (c).fail(sig, VP_STR(#actual << " = " << vp_a << ", expected " << vp_e << ": " << expr));         \
    } while (0)

struct Prop
{
    std::string name;
    // How the cases are made and what makes one non-trivial.
    std::string rule;
    std::function<void(Case &)> fn;
    uint64_t quick = 1000;      // number of cases of the quick tier
    double share = 1.0;         // share of the thorough tier's time
    double hang_s = 60;         // a case running longer than that hangs
    int confirm = 3;            // replays used to confirm a failure
    unsigned workers = 8;       // parallel worker processes
    unsigned min_size = 0;      // lower bound of the size hint
};

// A known finding: a specific input that is shown to fail on the unchanged tree.
// `fn` returns an empty string when the finding no longer fails, and its description otherwise. A finding is only
// reported as known when known_findings.jsonl lists it (property + key); otherwise it is a violation.
struct Finding
{
    std::string key;
    std::function<std::string()> fn;
};

int run_main(
    int argc, char **argv, const std::string &property, const std::vector<Prop> &props,
    const std::vector<Finding> &findings = {}, const std::vector<std::string> &assumptions = {});

// Helpers -----------------------------------------------------------------------------------------------------

template <class V>
std::string join(const V &v, const char *sep = " ")
{
    std::ostringstream s;
    bool first = true;
    for (const auto &x : v)
    {
        if (!first) s << sep;
        first = false;
        s << x;
    }
    return s.str();
}

template <class F>
bool throws(F &&f)
{
    try
    {
        f();
    }
    catch (const Failure &)
    {
        throw;
    }
    catch (const Discard &)
    {
        throw;
    }
    catch (...)
    {
        return true;
    }
    return false;
}

// A scratch directory for the current process, created on first use and removed when a case ends.
std::string scratch_dir();
void remove_scratch();

}  // namespace vp
