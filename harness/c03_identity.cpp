// C03: UIDs identify, tag maps keep what was stored.
#include <atomic>
#include <thread>

#include "knp_gen.hpp"

using namespace kg;
using core::UID;

static std::array<uint8_t, 16> bytes(vp::Case &c)
{
    std::array<uint8_t, 16> b{};
    // Few values per byte, so that equal and nearly equal UIDs are common.
    const bool wide = c.chance(1, 4);
    for (auto &x : b) x = static_cast<uint8_t>(wide ? c.draw(256) : c.pick_of<int>({0, 0, 0, 0, 0, 0, 1, 0x7f, 0x80, 0xff}));
    return b;
}

static UID from_bytes(const std::array<uint8_t, 16> &b, unsigned how)
{
    boost::uuids::uuid u;
    std::copy(b.begin(), b.end(), u.begin());
    if (how == 0) return UID(b);
    if (how == 1) return UID(u);
    return UID(std::move(u));
}

static std::string hex_text(const std::array<uint8_t, 16> &b)
{
    std::string s;
    for (size_t i = 0; i < 16; ++i)
    {
        if (i == 4 || i == 6 || i == 8 || i == 10) s += '-';
        char t[3];
        snprintf(t, sizeof t, "%02x", b[i]);
        s += t;
    }
    return s;
}

static void uid_laws(vp::Case &c)
{
    auto ba = bytes(c);
    auto bb = c.chance(1, 2) ? ba : bytes(c);
    if (c.flag()) bb[c.draw(16)] ^= static_cast<uint8_t>(1U << c.draw(8));
    const auto bc = c.chance(1, 3) ? bb : bytes(c);
    VP_NOTE(c, hex_text(ba) << " " << hex_text(bb) << " " << hex_text(bc) << "\n");
    const UID a = from_bytes(ba, c.draw(3)), b = from_bytes(bb, c.draw(3)), d = from_bytes(bc, c.draw(3));
    VP_EQ(c, (a == b), (ba == bb), "equality", "");
    VP_EQ(c, (a != b), (ba != bb), "equality", "!=");
    VP_EQ(c, (b == a), (a == b), "equality", "symmetry");
    VP_CHECK(c, a == a && !(a != a) && !(a < a), "equality", "reflexive");
    // A strict total order.
    VP_EQ(c, (a < b) + (b < a) + (a == b), 1, "order", "trichotomy");
    if (a < b && b < d) VP_CHECK(c, a < d, "order", "transitive");
    if (a == b) VP_EQ(c, core::uid_hash()(a), core::uid_hash()(b), "hash", "equal UIDs");
    VP_EQ(c, static_cast<bool>(a), std::any_of(ba.begin(), ba.end(), [](uint8_t x) { return x; }), "bool", "");
    VP_EQ(c, static_cast<std::string>(a), hex_text(ba), "text", "string conversion");
    std::stringstream ss;
    ss << a << " " << b;
    VP_EQ(c, ss.str(), hex_text(ba) + " " + hex_text(bb), "text", "operator<<");
    UID ra(false), rb(true);
    ss >> ra >> rb;
    VP_CHECK(c, ra == a && rb == b, "text", "operator>>");
    const UID copy = a;
    VP_CHECK(c, copy == a, "copy", "");
    const boost::uuids::uuid &raw = a;
    VP_CHECK(c, std::equal(raw.begin(), raw.end(), ba.begin()), "raw", "");
    std::set<UID> s{a, b, d};
    std::unordered_set<UID, core::uid_hash> us{a, b, d};
    std::set<std::array<uint8_t, 16>> want{ba, bb, bc};
    VP_EQ(c, s.size(), want.size(), "set", "");
    VP_EQ(c, us.size(), want.size(), "hash-set", "");
    size_t differ = 0;
    for (size_t i = 0; i < 16; ++i) differ += ba[i] != bb[i];
    if (differ <= 1) c.nontrivial();
}

static void uid_generation(vp::Case &c)
{
    const size_t n_threads = c.range(1, 4), n = c.len(1, 300);
    VP_NOTE(c, n_threads << " threads generate " << n << " UIDs each\n");
    std::vector<std::vector<UID>> got(n_threads);
    std::vector<std::thread> th;
    for (size_t t = 0; t < n_threads; ++t)
        th.emplace_back(
            [&, t]
            {
                for (size_t i = 0; i < n; ++i) got[t].push_back(i % 2 ? UID() : UID(true));
            });
    for (auto &t : th) t.join();
    std::unordered_set<UID, core::uid_hash> all;
    for (auto &v : got)
        for (auto &u : v)
        {
            VP_CHECK(c, static_cast<bool>(u), "generated-nil", u);
            VP_CHECK(c, all.insert(u).second, "generated-duplicate", u);
        }
    VP_CHECK(c, !static_cast<bool>(UID(false)), "nil", "");
    // The sequential generator used for reproducible runs.
    if (n_threads > 1 && n > 10) c.nontrivial();
}

static void sequential_uids(vp::Case &c)
{
    // Not so far that the counter would wrap, which takes more UIDs than anybody makes.
    const auto any_start = [&] { return std::min<uint64_t>(c.chance(1, 3) ? c.draw(1000) + 1 : (c.bits64() >> c.draw(60)) | 1, ~uint64_t(0) - 10000); };
    const uint64_t start = any_start();
    const size_t n = c.len(1, 600), n_threads = c.chance(1, 2) ? 1 : c.range(2, 4);
    VP_NOTE(c, "sequence of " << n << " from " << start << " in " << n_threads << " threads\n");
    core::continuously_uid_generator gen;
    auto run = [&](uint64_t first)
    {
        core::continuously_uid_generator::reset(first);
        std::vector<std::string> v;
        for (size_t i = 0; i < n; ++i) v.push_back(std::string(UID(gen())));
        return v;
    };
    const auto v1 = run(start), v2 = run(start);
    VP_CHECK(c, v1 == v2, "sequential", "not reproducible after reset");
    std::set<std::string> all(v1.begin(), v1.end());
    VP_EQ(c, all.size(), v1.size(), "sequential", "distinct");
    VP_CHECK(c, !all.count(std::string(UID(false))), "sequential", "a nil UID");

    // Different values of the counter are different UIDs: near ones, and those that differ in one bit.
    const uint64_t other = c.flag() ? any_start() : std::min<uint64_t>(start ^ (uint64_t(1) << c.draw(64)), ~uint64_t(0) - 10000);
    if (other && (other > start ? other - start : start - other) >= n)
    {
        VP_NOTE(c, "and from " << other << "\n");
        for (auto &u : run(other)) VP_CHECK(c, all.insert(u).second, "sequential", "UIDs " << u << " of counters from " << start << " and from " << other);
        c.label("two-ranges");
    }

    if (n_threads > 1)
    {
        core::continuously_uid_generator::reset(start);
        std::vector<std::vector<UID>> got(n_threads);
        std::vector<std::thread> th;
        std::atomic<size_t> ready{0};
        for (auto &v : got)
            th.emplace_back(
                [&]
                {
                    v.reserve(n);
                    ++ready;
                    while (ready < n_threads) std::this_thread::yield();
                    for (size_t i = 0; i < n; ++i) v.emplace_back(gen());
                });
        for (auto &t : th) t.join();
        std::set<UID> together;
        for (auto &v : got) together.insert(v.begin(), v.end());
        VP_EQ(c, together.size(), n * n_threads, "sequential-threads", "distinct UIDs of " << n_threads << " threads");
        c.label("threads");
    }
    if (n > 3) c.nontrivial();
}

static void tag_map(vp::Case &c)
{
    core::TagMap tags;
    // Model: name -> (type, text)
    std::map<std::string, std::pair<int, std::string>> model;
    const std::vector<std::string> names{"a", "b", "name", "", "io_type", "a "};
    VP_CHECK(c, tags.empty(), "empty", "new map");
    auto check = [&](core::TagMap &t, const std::string &n)
    {
        const core::TagMap &ct = t;
        VP_EQ(c, ct.exists(n), (model.count(n) > 0), "exists", n);
        VP_EQ(c, ct.empty(), model.empty(), "empty", "");
        if (!model.count(n))
        {
            VP_CHECK(c, vp::throws([&] { (void)ct.get_tag(n); }), "missing", "const get of a missing tag returns: " << n);
            VP_CHECK(c, vp::throws([&] { (void)ct.get_tag<int>(n); }), "missing", "const typed get of a missing tag returns: " << n);
            VP_EQ(c, ct.exists(n), false, "exists", "after a failed get of " << n);
            return;
        }
        const auto &[type, text] = model[n];
        auto typed = [&](int want_type, auto getter, auto cgetter)
        {
            if (type == want_type)
            {
                VP_EQ(c, VP_STR(getter()), text, "value", n);
                VP_EQ(c, VP_STR(cgetter()), text, "value", "const " << n);
            }
            else
            {
                VP_CHECK(c, vp::throws([&] { (void)cgetter(); }), "type", "const typed get with a wrong type returns: " << n);
                VP_CHECK(c, vp::throws([&] { (void)getter(); }), "type", "typed get with a wrong type returns: " << n);
            }
        };
        typed(0, [&] { return t.get_tag<int>(n); }, [&] { return ct.get_tag<int>(n); });
        typed(1, [&] { return t.get_tag<std::string>(n); }, [&] { return ct.get_tag<std::string>(n); });
        typed(2, [&] { return t.get_tag<double>(n); }, [&] { return ct.get_tag<double>(n); });
        typed(3, [&] { return std::string(t.get_tag<UID>(n)); }, [&] { return std::string(ct.get_tag<UID>(n)); });
    };
    const size_t n_ops = c.len(2, 20);
    unsigned overwrites = 0, stores = 0;
    for (size_t i = 0; i < n_ops; ++i)
    {
        const std::string n = c.pick(names);
        if (c.chance(2, 3))
        {
            const int type = static_cast<int>(c.draw(4));
            std::any v;
            std::string text;
            if (type == 0)
            {
                const int x = static_cast<int>(c.range(-100, 100));
                v = x;
                text = VP_STR(x);
            }
            else if (type == 1)
            {
                text = "s" + std::to_string(c.draw(50));
                v = text;
            }
            else if (type == 2)
            {
                const double x = c.dyadic(10, 2);
                v = x;
                text = VP_STR(x);
            }
            else
            {
                const UID u = make_uid(c.draw(100));
                v = u;
                text = std::string(u);
            }
            VP_NOTE(c, "store " << n << " := " << text << "\n");
            overwrites += model.count(n);
            ++stores;
            if (c.flag())
                tags[n] = v;
            else
                tags.get_tag(n) = v;
            model[n] = {type, text};
        }
        else if (c.flag())
        {
            core::TagMap copy = tags;
            copy[n] = 12345;
            check(tags, n);
            tags = core::TagMap(tags);
        }
        check(tags, n);
    }
    for (const auto &n : names) check(tags, n);
    if (overwrites >= 1 && stores >= 3) c.nontrivial();
}

int main(int argc, char **argv)
{
    std::vector<vp::Prop> props{
        {"uid_laws", "three UIDs of few distinct bytes, often equal or one bit apart: equality, order, hash, text laws; non-trivial: the first two differ in at most one byte", uid_laws, 150000},
        {"uid_generation", "1-4 threads generate up to 300 UIDs each; non-trivial: several threads and more than 10 UIDs", uid_generation, 2000},
        {"sequential_uids", "the sequential generator restarted from any value; non-trivial: more than 3 values", sequential_uids, 3000},
        {"tag_map", "history of 2-20 stores, copies and typed reads over 6 names and 4 types; non-trivial: at least one overwrite", tag_map, 60000},
    };
    return vp::run_main(argc, argv, "C03", props);
}
