#include "vp.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

#include <spdlog/spdlog.h>

namespace vp
{

constexpr size_t max_choices = 1U << 20;
constexpr size_t max_hashes = 1U << 18;
constexpr size_t max_labels = 96;
constexpr size_t label_len = 56;
constexpr size_t max_props = 32;

enum Status : int
{
    st_idle = 0,
    st_running = 1,
    st_ok = 2,
    st_discard = 3,
    st_fail = 4
};

struct Label
{
    char name[label_len];
    uint64_t count;
};

// One region of memory shared by the parent and one worker.
struct Shared
{
    std::atomic<int> status;
    std::atomic<uint64_t> case_start_ms;
    std::atomic<uint64_t> case_start_cpu_ms;
    std::atomic<uint64_t> slowest_ms[max_props];
    std::atomic<uint64_t> cur_prop;
    std::atomic<uint64_t> cur_case;
    std::atomic<uint64_t> next_case[max_props];
    std::atomic<uint64_t> evaluations[max_props];
    std::atomic<uint64_t> discarded[max_props];
    std::atomic<uint64_t> nontrivial[max_props];
    std::atomic<uint64_t> done;
    uint64_t n_hashes;
    uint64_t hashes[max_hashes];
    Label labels[max_labels];
    unsigned case_size;
    char sig[256];
    char msg[16384];
    uint64_t n_choices;
    uint64_t choices[max_choices];
};

namespace
{

uint64_t now_ms()
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

// Processor time of a process.
uint64_t cpu_ms(pid_t pid)
{
    clockid_t clock = CLOCK_PROCESS_CPUTIME_ID;
    timespec t{};
    if ((pid && clock_getcpuclockid(pid, &clock) != 0) || clock_gettime(clock, &t) != 0) return 0;
    return static_cast<uint64_t>(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}

// A case hangs when it has run for too long, and was waiting, or has used that much processor time. On a busy machine
// it may have been waiting for a processor.
bool hangs(uint64_t wall_ms, uint64_t cpu, double limit_s)
{
    const double limit = limit_s * 1000;
    if (wall_ms <= limit) return false;
    return cpu < 0.02 * wall_ms || cpu > limit || wall_ms > 10 * limit;
}

uint64_t splitmix(uint64_t &s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

uint64_t hash_str(std::string_view s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

Shared *new_shared()
{
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        _exit(2);
    }
    return static_cast<Shared *>(p);
}

std::string g_scratch_root;

std::string json_str(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        switch (c)
        {
            case '"':
                o += "\\\"";
                break;
            case '\\':
                o += "\\\\";
                break;
            case '\n':
                o += "\\n";
                break;
            case '\t':
                o += "\\t";
                break;
            default:
                if (c < 0x20 || c >= 0x7f)
                {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", c);
                    o += b;
                }
                else
                    o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

}  // namespace

Case::Case(uint64_t seed, unsigned size, Shared *rec) : state_(seed), size_(size), rec_(rec)
{
    if (rec_) rec_->n_choices = 0;
}

Case::Case(const std::vector<uint64_t> &choices, unsigned size, Shared *rec)
    : replay_(true), choices_(&choices), size_(size), rec_(rec)
{
    if (rec_) rec_->n_choices = 0;
}

uint64_t Case::next() { return splitmix(state_); }

uint64_t Case::draw(uint64_t bound)
{
    uint64_t v = 0;
    if (replay_)
    {
        if (pos_ < choices_->size()) v = (*choices_)[pos_];
        ++pos_;
        if (bound && v >= bound) v = bound - 1;
    }
    else if (bound == 0)
        v = next();
    else
        v = static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * bound) >> 64);
    if (rec_ && rec_->n_choices < max_choices) rec_->choices[rec_->n_choices++] = v;
    hash_ = (hash_ ^ v) * 1099511628211ULL;
    hash_ ^= hash_ >> 29;
    return v;
}

uint64_t Case::bits64() { return draw(0); }

int64_t Case::range_near(int64_t lo, int64_t hi, int64_t simple)
{
    const uint64_t n = static_cast<uint64_t>(hi - lo) + 1;
    const uint64_t k = draw(n);
    // k = 0 -> simple; then upward, then below.
    const uint64_t up = static_cast<uint64_t>(hi - simple);
    if (k <= up) return simple + static_cast<int64_t>(k);
    return simple - static_cast<int64_t>(k - up);
}

size_t Case::len(size_t lo, size_t hi)
{
    if (hi <= lo) return lo;
    size_t span = hi - lo;
    size_t cap = 1 + span * (size_ + 1) / 101;
    if (cap > span) cap = span;
    // A third of the lengths are small.
    if (draw(3) == 2) return lo + draw(cap + 1);
    const size_t small = std::min<size_t>(cap, std::max<size_t>(2, cap / 4));
    return lo + draw((draw(2) ? cap : small) + 1);
}

size_t Case::weighted(std::initializer_list<unsigned> w)
{
    unsigned sum = 0;
    for (auto x : w) sum += x;
    uint64_t k = draw(sum);
    size_t i = 0;
    for (auto x : w)
    {
        if (k < x) return i;
        k -= x;
        ++i;
    }
    return w.size() - 1;
}

double Case::dyadic(int max_abs, int frac_bits)
{
    const int64_t m = static_cast<int64_t>(max_abs) << frac_bits;
    const uint64_t k = draw(2 * static_cast<uint64_t>(m) + 1);
    const int64_t v = (k & 1) ? -static_cast<int64_t>((k + 1) / 2) : static_cast<int64_t>(k / 2);
    return static_cast<double>(v) / static_cast<double>(int64_t{1} << frac_bits);
}

void Case::label(std::string_view name)
{
    if (!rec_) return;
    for (auto &l : rec_->labels)
    {
        if (!l.name[0])
        {
            const size_t n = std::min(name.size(), label_len - 1);
            memcpy(l.name, name.data(), n);
            l.name[n] = 0;
            l.count = 1;
            return;
        }
        if (name.substr(0, label_len - 1) == l.name)
        {
            ++l.count;
            return;
        }
    }
}

std::string scratch_dir()
{
    const std::string d = g_scratch_root + "/" + std::to_string(getpid());
    std::filesystem::create_directories(d);
    return d;
}

void remove_scratch()
{
    std::error_code ec;
    std::filesystem::remove_all(g_scratch_root + "/" + std::to_string(getpid()), ec);
}

namespace
{

struct RunResult
{
    Status status = st_idle;
    std::string sig;
    std::string msg;
    std::string notes;
    uint64_t n_choices = 0;
};

void set_text(char *dst, size_t cap, const std::string &s)
{
    const size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

Status execute(const Prop &prop, Case &c, Shared *sh)
{
    try
    {
        prop.fn(c);
        return st_ok;
    }
    catch (const Discard &)
    {
        return st_discard;
    }
    catch (const Failure &f)
    {
        set_text(sh->sig, sizeof sh->sig, f.sig);
        set_text(sh->msg, sizeof sh->msg, f.msg + (c.noting() ? "\n" + c.notes() : ""));
    }
    catch (const std::exception &e)
    {
        set_text(sh->sig, sizeof sh->sig, "unexpected-exception");
        set_text(sh->msg, sizeof sh->msg, std::string("unexpected exception: ") + e.what() + (c.noting() ? "\n" + c.notes() : ""));
    }
    catch (...)
    {
        set_text(sh->sig, sizeof sh->sig, "unexpected-exception");
        set_text(sh->msg, sizeof sh->msg, "unexpected exception");
    }
    return st_fail;
}

void child_setup(bool quiet)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl
    {
        0, 0
    };
    setrlimit(RLIMIT_CORE, &rl);
    spdlog::set_level(spdlog::level::off);
    if (quiet)
    {
        const int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0)
        {
            dup2(fd, 1);
            dup2(fd, 2);
            close(fd);
        }
    }
}

// Runs one case in a forked child.
RunResult run_forked(const Prop &prop, const std::vector<uint64_t> &choices, unsigned size, bool noting, bool thorough, Shared *sh)
{
    sh->status = st_idle;
    sh->sig[0] = sh->msg[0] = 0;
    sh->n_choices = 0;
    fflush(stdout);
    fflush(stderr);
    const std::string errfile = g_scratch_root + "/stderr.txt";
    const pid_t pid = fork();
    if (pid == 0)
    {
        child_setup(!noting);
        if (noting)
        {
            const int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0)
            {
                dup2(fd, 2);
                dup2(fd, 1);
            }
        }
        Case c(choices, size, sh);
        c.set_noting(noting);
        c.set_thorough(thorough);
        sh->status = st_running;
        const Status st = execute(prop, c, sh);
        if (st == st_ok && noting) set_text(sh->msg, sizeof sh->msg, c.notes());
        sh->status = st;
        remove_scratch();
        _exit(0);
    }
    RunResult r;
    int wst = 0;
    const uint64_t t0 = now_ms();
    bool hang = false;
    unsigned naps = 0;
    while (true)
    {
        const pid_t w = waitpid(pid, &wst, WNOHANG);
        if (w == pid) break;
        if (hangs(now_ms() - t0, cpu_ms(pid), prop.hang_s))
        {
            kill(pid, SIGKILL);
            waitpid(pid, &wst, 0);
            hang = true;
            break;
        }
        usleep(naps++ < 40 ? 250 : 2000);
    }
    r.status = static_cast<Status>(sh->status.load());
    r.n_choices = sh->n_choices;
    r.sig = sh->sig;
    r.msg = sh->msg;
    if (hang)
    {
        r.status = st_fail;
        r.sig = "hang";
        r.msg = VP_STR("the case did not finish within " << prop.hang_s << " s");
    }
    else if (!WIFEXITED(wst) || WEXITSTATUS(wst) != 0 || r.status == st_running || r.status == st_idle)
    {
        // The child died: a crash (signal, sanitizer report, std::terminate) of the code under test.
        if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL)
        {
            r.status = st_idle;  // Ended from outside (memory): no verdict.
            r.sig = "killed";
        }
        else
        {
            r.status = st_fail;
            r.sig = "crash";
            r.msg = WIFSIGNALED(wst) ? VP_STR("process died from signal " << WTERMSIG(wst))
                                     : VP_STR("process exited with code " << WEXITSTATUS(wst));
            if (noting)
            {
                std::ifstream f(errfile);
                std::string line;
                size_t n = 0;
                while (n < 60 && std::getline(f, line))
                {
                    r.msg += "\n    " + line;
                    ++n;
                }
            }
        }
    }
    std::error_code ec;
    std::filesystem::remove_all(g_scratch_root + "/" + std::to_string(pid), ec);
    return r;
}

struct Found
{
    size_t prop = 0;
    uint64_t case_no = 0;
    unsigned size = 50;
    std::string sig;
    std::string msg;
    std::vector<uint64_t> choices;
};

std::vector<uint64_t> shrink(
    const Prop &prop, Found f, const std::function<bool(const std::vector<uint64_t> &, std::vector<uint64_t> &)> &still,
    double budget_s)
{
    const uint64_t deadline = now_ms() + static_cast<uint64_t>(budget_s * 1000);
    std::vector<uint64_t> best = std::move(f.choices);
    std::vector<uint64_t> used;
    auto attempt = [&](const std::vector<uint64_t> &cand)
    {
        if (now_ms() > deadline) return false;
        if (!still(cand, used)) return false;
        // `used` is what the run really consumed; it is never longer in effect.
        best = used.size() <= cand.size() ? used : cand;
        return true;
    };
    (void)prop;
    bool progress = true;
    while (progress && now_ms() < deadline)
    {
        progress = false;
        const auto before = best;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2)
        {
            for (size_t i = best.size() >= chunk ? best.size() - chunk : 0;;)
            {
                if (now_ms() > deadline) break;
                if (i < best.size())
                {
                    std::vector<uint64_t> cand(best.begin(), best.begin() + static_cast<long>(i));
                    if (i + chunk < best.size()) cand.insert(cand.end(), best.begin() + static_cast<long>(i + chunk), best.end());
                    if (cand != best) attempt(cand);
                }
                if (i == 0) break;
                i = i >= chunk ? i - chunk : 0;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk : {8, 4, 2, 1})
        {
            for (size_t i = 0; i + chunk <= best.size(); i += chunk)
            {
                std::vector<uint64_t> cand = best;
                bool nz = false;
                for (size_t j = i; j < i + chunk; ++j)
                {
                    nz |= cand[j] != 0;
                    cand[j] = 0;
                }
                if (nz) attempt(cand);
            }
        }
        for (size_t i = 0; i < best.size(); ++i)
        {
            if (best[i] < 2) continue;
            uint64_t lo = 0, hi = best[i];
            while (lo + 1 < hi && now_ms() < deadline)
            {
                const uint64_t mid = lo + (hi - lo) / 2;
                auto cand = best;
                cand[i] = mid;
                if (attempt(cand))
                {
                    if (i >= best.size()) break;
                    hi = best[i];
                }
                else
                    lo = mid;
            }
        }
        progress = best != before;
    }
    return best;
}

struct Known
{
    std::string key;
    std::string what;
};

// known_findings.jsonl: lines {"property": "C01", "key": "...", "what": "..."}; "fixed: ..." lines suppress nothing.
std::vector<Known> load_known(const std::string &path, const std::string &property)
{
    std::vector<Known> out;
    std::ifstream f(path);
    std::string line;
    auto field = [](const std::string &l, const std::string &k) -> std::string
    {
        const std::string pat = "\"" + k + "\": \"";
        const size_t p = l.find(pat);
        if (p == std::string::npos) return "";
        size_t q = p + pat.size();
        std::string v;
        while (q < l.size() && l[q] != '"')
        {
            if (l[q] == '\\') ++q;
            v += l[q++];
        }
        return v;
    };
    while (std::getline(f, line))
    {
        if (line.empty() || line[0] != '{') continue;
        if (field(line, "property") != property || field(line, "fixed").size()) continue;
        out.push_back({field(line, "key"), field(line, "what")});
    }
    return out;
}

void write_replay(const std::string &path, const std::string &property, const Prop &prop, const Found &f, uint64_t seed)
{
    std::ofstream o(path);
    o << "property " << property << "\n";
    o << "prop " << prop.name << "\n";
    o << "size " << f.size << "\n";
    o << "seed " << seed << "\n";
    o << "case " << f.case_no << "\n";
    o << "sig " << f.sig << "\n";
    o << "choices";
    for (auto c : f.choices) o << " " << c;
    o << "\n";
    o << "---\n" << f.msg << "\n";
}

}  // namespace

int run_main(
    int argc, char **argv, const std::string &property, const std::vector<Prop> &props,
    const std::vector<Finding> &findings, const std::vector<std::string> &assumptions)
{
    const uint64_t t_begin = now_ms();
    std::string tier = "quick", evidence, known_path = "/verif/known_findings.jsonl", replay_file, only, replay_dir = ".";
    uint64_t seed = 1;
    double budget = 0;
    double cases_factor = 1;
    double prior_s = 0;
    std::string level = "exploration";
    if (const char *e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
    if (const char *e = getenv("VERIF_TIER")) tier = e;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier")
            tier = val();
        else if (a == "--seed")
            seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence")
            evidence = val();
        else if (a == "--known")
            known_path = val();
        else if (a == "--replay")
            replay_file = val();
        else if (a == "--replay-dir")
            replay_dir = val();
        else if (a == "--budget")
            budget = atof(val().c_str());
        else if (a == "--cases")
            cases_factor = atof(val().c_str());
        else if (a == "--only")
            only = val();
        else if (a == "--prior")
            prior_s = atof(val().c_str());
    }
    const bool thorough = tier == "thorough";
    if (budget <= 0) budget = thorough ? 420 : 45;

    char tmpl[] = "/tmp/vp-XXXXXX";
    g_scratch_root = mkdtemp(tmpl);
    struct Cleanup
    {
        ~Cleanup()
        {
            std::error_code ec;
            std::filesystem::remove_all(g_scratch_root, ec);
        }
    } cleanup;

    Shared *one = new_shared();

    if (!replay_file.empty())
    {
        std::ifstream f(replay_file);
        std::string line, pname;
        unsigned size = 50;
        std::vector<uint64_t> choices;
        while (std::getline(f, line) && line != "---")
        {
            std::istringstream ls(line);
            std::string k;
            ls >> k;
            if (k == "prop")
                ls >> pname;
            else if (k == "size")
                ls >> size;
            else if (k == "choices")
            {
                uint64_t v;
                while (ls >> v) choices.push_back(v);
            }
        }
        for (const auto &p : props)
        {
            if (p.name != pname) continue;
            const int n = std::max(3, p.confirm);
            for (int k = 0; k < n; ++k)
            {
                const auto r = run_forked(p, choices, size, true, thorough, one);
                if (r.status == st_fail)
                {
                    std::cout << "VIOLATION property=" << property << " replay=" << replay_file << "\n"
                              << r.sig << ": " << r.msg << "\n";
                    return 1;
                }
            }
            std::cout << "replay passes\n" << one->msg << "\n";
            return 0;
        }
        if (pname.rfind("finding:", 0) == 0)
        {
            for (const auto &fd : findings)
            {
                if ("finding:" + fd.key != pname) continue;
                const std::string d = fd.fn();
                std::cout << (d.empty() ? "replay passes" : "VIOLATION property=" + property + " replay=" + replay_file + "\n" + d) << "\n";
                return d.empty() ? 0 : 1;
            }
        }
        std::cerr << "no such property in the replay file: " << pname << "\n";
        return 2;
    }

    // Known findings first: specific inputs.
    const auto known = load_known(known_path, property);
    int violations = 0;
    std::vector<std::string> known_lines;
    for (const auto &fd : findings)
    {
        if (!only.empty()) break;
        Prop fp;
        fp.name = "finding:" + fd.key;
        fp.fn = [&fd](Case &c)
        {
            const std::string d = fd.fn();
            if (!d.empty()) c.fail(fd.key, d);
        };
        const auto r = run_forked(fp, {}, 50, true, thorough, one);
        if (r.status != st_fail) continue;
        const auto k = std::find_if(known.begin(), known.end(), [&](const Known &x) { return x.key == fd.key; });
        if (k != known.end())
        {
            known_lines.push_back("KNOWN-FINDING: property=" + property + " " + k->what);
            std::cout << known_lines.back() << std::endl;
        }
        else
        {
            Found f;
            f.sig = r.sig;
            f.msg = r.msg;
            const std::string path = replay_dir + "/" + property + "-" + fd.key + ".replay";
            write_replay(path, property, fp, f, seed);
            std::cout << "VIOLATION property=" << property << " replay=" << path << "\n" << r.msg << std::endl;
            ++violations;
        }
    }

    std::vector<size_t> active;
    double share_sum = 0;
    unsigned J = 1;
    for (size_t i = 0; i < props.size(); ++i)
    {
        if (!only.empty() && props[i].name != only) continue;
        active.push_back(i);
        share_sum += props[i].share;
        J = std::max(J, props[i].workers);
    }
    std::vector<Shared *> sh(J);
    for (auto &s : sh) s = new_shared();

    std::vector<Found> unconfirmed;
    Found confirmed;
    bool have_confirmed = false;
    std::map<size_t, uint64_t> hang_count;

    for (const size_t pi : active)
    {
        if (have_confirmed || violations) break;
        const Prop &prop = props[pi];
        const uint64_t total = thorough ? UINT64_MAX : std::max<uint64_t>(1, static_cast<uint64_t>(prop.quick * cases_factor));
        const double prop_budget = budget * prop.share / share_sum;
        const uint64_t deadline = now_ms() + static_cast<uint64_t>(prop_budget * 1000);
        // Under load the quick tier runs over its time until a tenth of its cases are done.
        const uint64_t floor_cases = thorough ? 0 : std::max<uint64_t>(1, total / 10);
        const unsigned W = std::min<unsigned>(J, prop.workers);
        std::vector<pid_t> pids(W, 0);
        const uint64_t prop_hash = hash_str(property + "/" + prop.name);

        auto spawn = [&](unsigned w)
        {
            fflush(stdout);
            fflush(stderr);
            sh[w]->status = st_idle;
            sh[w]->sig[0] = sh[w]->msg[0] = 0;
            sh[w]->case_start_ms = now_ms();
            sh[w]->case_start_cpu_ms = 0;
            sh[w]->cur_prop = pi;
            const pid_t pid = fork();
            if (pid != 0)
            {
                pids[w] = pid;
                return;
            }
            child_setup(getenv("VP_LOUD") == nullptr);
            Shared *s = sh[w];
            std::unordered_set<uint64_t> seen;
            uint64_t i = s->next_case[pi];
            if (i == 0) i = w;
            for (; i < total; i += W)
            {
                if (now_ms() > deadline && i >= floor_cases) break;
                // The case index is recorded first, so that a crash is attributed to it.
                s->cur_case = i;
                s->next_case[pi] = i + W;
                uint64_t st = seed * 0x9e3779b97f4a7c15ULL ^ prop_hash;
                splitmix(st);
                st ^= i * 0xd1342543de82ef95ULL;
                splitmix(st);
                unsigned size = thorough ? static_cast<unsigned>(10 + (i / W) % 91)
                                         : static_cast<unsigned>(std::min<uint64_t>(100, 5 + (i % 200) / 2));
                size = std::max(size, prop.min_size);
                s->case_size = size;
                s->case_start_cpu_ms = cpu_ms(0);
                s->case_start_ms = now_ms();
                s->status = st_running;
                Case c(st, size, s);
                c.set_thorough(thorough);
                const Status r = execute(prop, c, s);
                s->slowest_ms[pi] = std::max<uint64_t>(s->slowest_ms[pi], cpu_ms(0) - s->case_start_cpu_ms);
                s->evaluations[pi]++;
                if (r == st_fail)
                {
                    s->status = st_fail;
                    _exit(3);
                }
                s->status = r;
                if (r == st_discard)
                    s->discarded[pi]++;
                else if (c.is_nontrivial())
                {
                    s->nontrivial[pi]++;
                    if (s->n_hashes < max_hashes && seen.insert(c.choice_hash()).second)
                        s->hashes[s->n_hashes++] = c.choice_hash() ^ prop_hash;
                }
            }
            remove_scratch();
            s->done = 1;
            _exit(0);
        };
        for (unsigned w = 0; w < W; ++w)
        {
            sh[w]->done = 0;
            spawn(w);
        }
        unsigned alive = W;
        auto kill_all = [&]
        {
            for (auto &p : pids)
            {
                if (p > 0)
                {
                    kill(p, SIGKILL);
                    waitpid(p, nullptr, 0);
                    std::error_code ec;
                    std::filesystem::remove_all(g_scratch_root + "/" + std::to_string(p), ec);
                    p = 0;
                }
            }
            alive = 0;
        };
        while (alive > 0)
        {
            usleep(5000);
            for (unsigned w = 0; w < W && alive > 0; ++w)
            {
                if (pids[w] == 0) continue;
                int wst = 0;
                const pid_t r = waitpid(pids[w], &wst, WNOHANG);
                bool failed = false;
                Found f;
                if (r == 0)
                {
                    const uint64_t t0 = sh[w]->case_start_ms;
                    const uint64_t cpu0 = sh[w]->case_start_cpu_ms, cpu = cpu_ms(pids[w]);
                    if (sh[w]->status == st_running && now_ms() > t0 &&
                        hangs(now_ms() - t0, cpu > cpu0 ? cpu - cpu0 : 0, prop.hang_s) && sh[w]->case_start_ms == t0)
                    {
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], &wst, 0);
                        failed = true;
                        f.sig = "hang";
                        f.msg = VP_STR("the case did not finish within " << prop.hang_s << " s");
                    }
                    else
                        continue;
                }
                std::error_code ec;
                std::filesystem::remove_all(g_scratch_root + "/" + std::to_string(pids[w]), ec);
                pids[w] = 0;
                --alive;
                if (!failed)
                {
                    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && sh[w]->done) continue;
                    if (sh[w]->status == st_fail)
                    {
                        failed = true;
                        f.sig = sh[w]->sig;
                        f.msg = sh[w]->msg;
                    }
                    else if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL)
                    {
                        std::cerr << "worker killed from outside; continuing\n";
                        spawn(w);
                        ++alive;
                        continue;
                    }
                    else
                    {
                        failed = true;
                        f.sig = "crash";
                        f.msg = "process died";
                        sh[w]->evaluations[pi]++;
                    }
                }
                f.prop = pi;
                f.case_no = sh[w]->cur_case;
                f.size = sh[w]->case_size;
                f.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->n_choices);
                // Confirm by replaying the case.
                std::string confirm_sig, confirm_msg;
                int refails = 0;
                const int n_confirm = f.sig == "hang" ? 2 : prop.confirm;
                for (int k = 0; k < n_confirm; ++k)
                {
                    const auto rr = run_forked(prop, f.choices, f.size, true, thorough, one);
                    if (rr.status == st_fail)
                    {
                        ++refails;
                        confirm_sig = rr.sig;
                        confirm_msg = rr.msg;
                        if (prop.confirm > 3 || f.sig == "hang") break;
                    }
                }
                if (refails > 0)
                {
                    kill_all();
                    f.sig = confirm_sig;
                    f.msg = confirm_msg;
                    confirmed = f;
                    have_confirmed = true;
                    break;
                }
                std::cerr << "unconfirmed failure in " << prop.name << " case " << f.case_no << ": " << f.sig << ": "
                          << f.msg << "\n";
                if (f.sig == "hang")
                    ++hang_count[pi];
                else
                    unconfirmed.push_back(f);
                // The same sub-property failing on three different cases is no accident.
                if (std::count_if(unconfirmed.begin(), unconfirmed.end(), [&](const Found &x) { return x.prop == pi; }) >= 3)
                {
                    kill_all();
                    confirmed = unconfirmed.back();
                    confirmed.msg += "\n(failed in three different cases, none of which fails every time)";
                    have_confirmed = true;
                    break;
                }
                spawn(w);
                ++alive;
            }
        }
        uint64_t ev = 0, nt = 0, di = 0;
        for (auto *s : sh)
        {
            ev += s->evaluations[pi];
            nt += s->nontrivial[pi];
            di += s->discarded[pi];
        }
        std::cout << property << " " << prop.name << ": " << ev << " cases, " << nt << " non-trivial, " << di
                  << " discarded" << std::endl;
        if (std::getenv("VP_SLOWEST"))
        {
            uint64_t slowest = 0;
            for (auto *s : sh) slowest = std::max<uint64_t>(slowest, s->slowest_ms[pi]);
            std::cout << "slowest case of " << prop.name << ": " << slowest << " ms of processor time" << std::endl;
        }
    }

    std::string replay_path;
    if (have_confirmed)
    {
        const Prop &prop = props[confirmed.prop];
        const std::string want_sig = confirmed.sig;
        const uint64_t t0 = now_ms();
        const char *limit = std::getenv("VP_SHRINK_S");
        const double shrink_s = want_sig == "hang" ? 0 : limit ? std::atof(limit) : (thorough ? 90 : 25);
        const auto original = confirmed.choices;
        Prop brief = prop;   // a candidate that hangs must not take the whole time
        brief.hang_s = std::min(brief.hang_s, 4.0);
        confirmed.choices = shrink(
            prop, confirmed,
            [&](const std::vector<uint64_t> &cand, std::vector<uint64_t> &used)
            {
                const auto r = run_forked(brief, cand, confirmed.size, false, thorough, one);
                used.assign(one->choices, one->choices + one->n_choices);
                return r.status == st_fail && r.sig == want_sig;
            },
            shrink_s);
        // The shrunk case must fail again, otherwise the original one is kept.
        bool ok = false;
        for (int k = 0; k < prop.confirm && !ok; ++k)
        {
            const auto r = run_forked(prop, confirmed.choices, confirmed.size, true, thorough, one);
            if (r.status == st_fail)
            {
                ok = true;
                confirmed.msg = r.msg;
                confirmed.sig = r.sig;
            }
        }
        if (!ok) confirmed.choices = original;
        replay_path = replay_dir + "/" + property + "-" + prop.name + ".replay";
        write_replay(replay_path, property, prop, confirmed, seed);
        std::cout << "VIOLATION property=" << property << " replay=" << replay_path << "\n";
        std::cout << "in " << prop.name << ", case " << confirmed.case_no << ", " << original.size() << " choices shrunk to "
                  << confirmed.choices.size() << " in " << (now_ms() - t0) / 1000.0 << " s\n";
        std::cout << confirmed.sig << ": " << confirmed.msg << std::endl;
        ++violations;
    }

    // Samples: re-run the first non-trivial cases with notes.
    std::vector<std::string> samples;
    for (const size_t pi : active)
    {
        if (have_confirmed) break;
        const Prop &prop = props[pi];
        const uint64_t prop_hash = hash_str(property + "/" + prop.name);
        unsigned got = 0;
        for (uint64_t i = 0; i < 40 && got < 2; ++i)
        {
            uint64_t st = seed * 0x9e3779b97f4a7c15ULL ^ prop_hash;
            splitmix(st);
            st ^= i * 0xd1342543de82ef95ULL;
            splitmix(st);
            one->n_choices = 0;
            one->msg[0] = 0;
            const unsigned sz = std::max<unsigned>(prop.min_size, 5 + i % 100);
            fflush(stdout);
            const pid_t pid = fork();
            if (pid == 0)
            {
                child_setup(true);
                alarm(20);
                Case c(st, sz, one);
                c.set_noting(true);
                c.set_thorough(thorough);
                if (execute(prop, c, one) == st_ok && c.is_nontrivial())
                {
                    set_text(one->msg, sizeof one->msg, c.notes());
                    remove_scratch();
                    _exit(0);
                }
                remove_scratch();
                _exit(1);
            }
            int wst = 0;
            waitpid(pid, &wst, 0);
            if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && one->msg[0])
            {
                std::string m = one->msg;
                if (m.size() > 1500) m = m.substr(0, 1500) + " ...";
                samples.push_back(prop.name + ": " + m);
                ++got;
            }
        }
    }

    uint64_t evaluations = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    uint64_t hash_overflow = 0;
    std::ostringstream per_prop;
    std::ostringstream rule;
    for (size_t k = 0; k < active.size(); ++k)
    {
        const size_t pi = active[k];
        uint64_t ev = 0, nt = 0, di = 0;
        for (auto *s : sh)
        {
            ev += s->evaluations[pi];
            nt += s->nontrivial[pi];
            di += s->discarded[pi];
        }
        evaluations += ev;
        per_prop << (k ? ",\n      " : "") << json_str(props[pi].name) << ": {\"cases\": " << ev << ", \"nontrivial\": " << nt
                 << ", \"discarded\": " << di << "}";
        rule << (k ? " | " : "") << props[pi].name << ": " << props[pi].rule;
    }
    for (auto *s : sh)
    {
        for (uint64_t i = 0; i < s->n_hashes; ++i) distinct.insert(s->hashes[i]);
        if (s->n_hashes == max_hashes) ++hash_overflow;
        for (const auto &l : s->labels)
            if (l.name[0]) labels[l.name] += l.count;
    }
    if (!evidence.empty())
    {
        std::ofstream o(evidence);
        o << "{\n  \"property\": " << json_str(property) << ",\n  \"tier\": " << json_str(tier) << ",\n  \"seed\": " << seed
          << ",\n  \"level\": " << json_str(level) << ",\n  \"coverage\": {\n";
        o << "    \"evaluations\": " << evaluations << ",\n    \"distinct_nontrivial\": " << distinct.size() << ",\n";
        o << "    \"rule\": " << json_str(rule.str()) << ",\n";
        o << "    \"samples\": [";
        if (samples.empty() && have_confirmed) samples.push_back(confirmed.msg);
        for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n      " : "\n      ") << json_str(samples[i]);
        o << "\n    ],\n    \"by_sub_property\": {\n      " << per_prop.str() << "\n    },\n    \"distribution\": {";
        bool first = true;
        for (const auto &[k, v] : labels)
        {
            o << (first ? "\n      " : ",\n      ") << json_str(k) << ": " << v;
            first = false;
        }
        o << "\n    },\n    \"distinct_count_is_lower_bound\": " << (hash_overflow ? "true" : "false");
        o << ",\n    \"unconfirmed_failures\": " << unconfirmed.size();
        o << ",\n    \"known_findings\": [";
        for (size_t i = 0; i < known_lines.size(); ++i) o << (i ? ", " : "") << json_str(known_lines[i]);
        o << "]\n  },\n  \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? ", " : "") << json_str(assumptions[i]);
        o << "],\n  \"wall_s\": " << prior_s + (now_ms() - t_begin) / 1000.0 << ",\n  \"violations\": " << violations << "\n}\n";
    }
    return violations ? 1 : 0;
}

}  // namespace vp
