// C24: projection creators connect exactly the pairs they promise.
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>

#include <boost/unordered_map.hpp>

#include <deque>
#include <map>

#include "knp_gen.hpp"

using namespace knp;
namespace pr = knp::framework::projection;
namespace cr = knp::framework::projection::creators;
namespace sg = knp::framework::projection::synapse_generators;
namespace pg = knp::framework::projection::parameters_generators;

namespace
{
template <class S>
using Params = typename core::Projection<S>::SynapseParameters;
template <class S>
using Synapse = typename core::Projection<S>::Synapse;
using Pair = std::pair<size_t, size_t>;

size_t gen_size(vp::Case &c) { return c.chance(1, 10) ? c.range(1, c.chance(1, 8) ? 300 : 40) : c.len(1, 9); }

// Parameters that tell which pair they were generated for.
template <class S>
Params<S> params_of(size_t from, size_t to)
{
    Params<S> p;
    p.weight_ = static_cast<float>(from * 3000 + to);
    p.delay_ = static_cast<uint32_t>(1 + from + 2 * to);
    p.output_type_ = static_cast<kg::st::OutputType>((from + to) % 3);
    return p;
}

template <class S>
std::string text(const Params<S> &p)
{
    return kg::synapse_str<S>(Synapse<S>{p, 0, 0});
}

// Calls of a parameter generator.
struct Calls
{
    std::multiset<Pair> pairs;
};

template <class S>
std::multiset<Pair> connections(const core::Projection<S> &p)
{
    std::multiset<Pair> r;
    for (auto &s : p) r.insert({std::get<core::source_neuron_id>(s), std::get<core::target_neuron_id>(s)});
    return r;
}

std::string text(const std::multiset<Pair> &s)
{
    std::string r;
    for (auto &[a, b] : s) r += VP_STR(a << "->" << b << " ");
    return r;
}

template <class S>
void check_ends(vp::Case &c, const core::Projection<S> &p, const core::UID &from, const core::UID &to)
{
    VP_CHECK(c, p.get_presynaptic() == from && p.get_postsynaptic() == to, "ends", "the projection connects other populations");
    VP_CHECK(c, p.get_uid() && !(p.get_uid() == from) && !(p.get_uid() == to), "ends", "UID of the projection");
}

template <class S>
void check_pairs(vp::Case &c, const core::Projection<S> &p, const std::multiset<Pair> &expected, bool defaults)
{
    VP_EQ(c, p.size(), expected.size(), "count", "number of synapses");
    const auto got = connections(p);
    VP_CHECK(c, got == expected, "pairs", "connections " << text(got) << ", expected " << text(expected));
    for (auto &s : p)
    {
        const auto from = std::get<core::source_neuron_id>(s), to = std::get<core::target_neuron_id>(s);
        const auto e = text<S>(defaults ? Params<S>() : params_of<S>(from, to)), a = text<S>(std::get<core::synapse_data>(s));
        VP_CHECK(c, a == e, "parameters", "synapse " << from << "->" << to << ": " << a << ", expected " << e);
    }
}

template <class S>
void fixed_pairs(vp::Case &c)
{
    const auto from = kg::make_uid(1), to = kg::make_uid(2);
    const bool huge = c.chance(1, 250);
    const size_t n = huge ? c.range(257, 400) : gen_size(c), m = huge ? c.range(257, 300) : gen_size(c), kind = c.draw(7);
    const bool defaults = c.chance(1, 6);
    const char *names[] = {"all_to_all", "aligned", "exclusive", "one_to_one", "index_based", "connect_populations", "connect_populations with a generator"};
    VP_NOTE(c, names[kind] << " " << n << " " << m << (defaults ? " default parameters" : "") << "\n");
    std::multiset<Pair> expected;
    pg::SynGen2ParamsType<S> gen2 = [](size_t a, size_t b) { return params_of<S>(a, b); };
    pg::SynGen1ParamType<S> gen1 = [](size_t a) { return params_of<S>(a, a); };
    switch (kind)
    {
        case 0:
        case 5:
        {
            for (size_t a = 0; a < n; ++a)
                for (size_t b = 0; b < m; ++b) expected.insert({a, b});
            if (kind == 0)
            {
                const auto p = defaults ? cr::all_to_all<S>(from, to, n, m) : cr::all_to_all<S>(from, to, n, m, gen2);
                check_ends(c, p, from, to);
                check_pairs(c, p, expected, defaults);
                break;
            }
            core::Population<kg::nt::BLIFATNeuron> src([](size_t) { return kg::nt::neuron_parameters<kg::nt::BLIFATNeuron>(); }, n);
            core::Population<kg::nt::LIFNeuron> dst([](size_t) { return kg::nt::neuron_parameters<kg::nt::LIFNeuron>(); }, m);
            const auto p = defaults ? pr::connect_populations<S>(src, dst) : pr::connect_populations<S>(src, dst, gen2);
            check_ends(c, p, src.get_uid(), dst.get_uid());
            check_pairs(c, p, expected, defaults);
            break;
        }
        case 1:
        {
            const auto p = defaults ? cr::aligned<S>(from, to, n, m) : cr::aligned<S>(from, to, n, m, gen2);
            check_ends(c, p, from, to);
            // Every neuron of the larger population once, in order; those of the smaller one in turn, evenly.
            const bool to_fewer = n >= m;
            const size_t large = std::max(n, m), small = std::min(n, m);
            std::map<size_t, size_t> partner;
            for (auto &[a, b] : connections(p))
            {
                const size_t x = to_fewer ? a : b, y = to_fewer ? b : a;
                VP_CHECK(c, x < large && y < small, "pairs", "connection " << a << "->" << b);
                VP_CHECK(c, partner.emplace(x, y).second, "pairs", "neuron " << x << " is connected twice");
            }
            VP_EQ(c, partner.size(), large, "count", "neurons connected");
            VP_EQ(c, p.size(), large, "count", "number of synapses");
            std::vector<size_t> share(small);
            size_t last = 0;
            for (auto &[x, y] : partner)
            {
                VP_CHECK(c, y >= last, "pairs", "connections are not consecutive: " << text(connections(p)));
                last = y;
                ++share[y];
                if (large % small == 0) VP_CHECK(c, y == x / (large / small), "pairs", "connections " << text(connections(p)));
            }
            const auto [lo, hi] = std::minmax_element(share.begin(), share.end());
            VP_CHECK(c, *hi - *lo <= 1, "pairs", "connections are not even: " << text(connections(p)));
            check_pairs(c, p, connections(p), defaults);
            if (large % small) c.label("sizes not divisible");
            break;
        }
        case 2:
        {
            for (size_t a = 0; a < n; ++a)
                for (size_t b = 0; b < n; ++b)
                    if (a != b) expected.insert({a, b});
            const auto p = defaults ? cr::exclusive<S>(from, to, n) : cr::exclusive<S>(from, to, n, gen2);
            check_ends(c, p, from, to);
            check_pairs(c, p, expected, defaults);
            break;
        }
        case 3:
        {
            for (size_t a = 0; a < n; ++a) expected.insert({a, a});
            const auto p = defaults ? cr::one_to_one<S>(from, to, n) : cr::one_to_one<S>(from, to, n, gen1);
            check_ends(c, p, from, to);
            check_pairs(c, p, expected, defaults);
            break;
        }
        case 4:
        {
            std::set<Pair> chosen;
            for (size_t a = 0; a < n; ++a)
                for (size_t b = 0; b < m; ++b)
                    if (c.flag()) chosen.insert({a, b});
            expected = {chosen.begin(), chosen.end()};
            Calls calls;
            const auto p = cr::index_based<S>(
                from, to, n, m,
                [&](size_t a, size_t b) -> std::optional<Params<S>>
                {
                    calls.pairs.insert({a, b});
                    if (!chosen.count({a, b})) return std::nullopt;
                    return params_of<S>(a, b);
                });
            check_ends(c, p, from, to);
            check_pairs(c, p, expected, false);
            std::multiset<Pair> all;
            for (size_t a = 0; a < n; ++a)
                for (size_t b = 0; b < m; ++b) all.insert({a, b});
            VP_CHECK(c, calls.pairs == all, "calls", "the rule was asked about " << text(calls.pairs));
            break;
        }
        default:
        {
            core::Population<kg::nt::BLIFATNeuron> src([](size_t) { return kg::nt::neuron_parameters<kg::nt::BLIFATNeuron>(); }, n);
            core::Population<kg::nt::AltAILIF> dst([](size_t) { return kg::nt::neuron_parameters<kg::nt::AltAILIF>(); }, m);
            std::vector<size_t> asked;
            const size_t iterations = c.len(0, 30);
            std::vector<bool> there(iterations);
            for (auto &&t : there) t = c.flag();
            const auto p = pr::connect_populations<S>(
                src, dst,
                [&](size_t i) -> std::optional<Synapse<S>>
                {
                    asked.push_back(i);
                    if (i >= there.size() || !there[i]) return std::nullopt;
                    return Synapse<S>{params_of<S>(i % n, i % m), i % n, i % m};
                },
                iterations);
            for (size_t i = 0; i < iterations; ++i)
                if (there[i]) expected.insert({i % n, i % m});
            check_ends(c, p, src.get_uid(), dst.get_uid());
            check_pairs(c, p, expected, false);
            VP_EQ(c, asked.size(), iterations, "calls", "calls of the generator");
            for (size_t i = 0; i < iterations; ++i) VP_EQ(c, asked[i], i, "calls", "index the generator was asked for");
        }
    }
    c.label(names[kind]);
    if (n >= 2 && m >= 2 && n != m) c.nontrivial();
}

// Whether k of n independent trials with this probability is not out of the question: by the Chernoff bound, a correct
// generator fails this once in 10^14 times.
bool plausible(size_t k, size_t n, double p)
{
    if (!n) return !k;
    const double q = static_cast<double>(k) / static_cast<double>(n);
    auto term = [](double x, double y) { return x <= 0 ? 0 : y <= 0 ? 1e9 : x * std::log(x / y); };
    return static_cast<double>(n) * (term(q, p) + term(1 - q, 1 - p)) < 33;
}

template <class S>
void random_pairs(vp::Case &c)
{
    const auto from = kg::make_uid(1), to = kg::make_uid(2);
    const bool large = c.chance(1, 40);
    const size_t n = large ? 60 : gen_size(c), m = large ? 50 : gen_size(c), kind = c.draw(3);
    const bool defaults = c.chance(1, 6);
    pg::SynGen2ParamsType<S> gen2 = [](size_t a, size_t b) { return params_of<S>(a, b); };
    switch (kind)
    {
        case 0:
        {
            const double p = c.weighted({4, 1, 1}) == 0 ? static_cast<double>(c.draw(17)) / 16 : c.flag() ? 0 : 1;
            VP_NOTE(c, "fixed_probability " << n << " " << m << " " << p << "\n");
            if (c.chance(1, 10))
                VP_CHECK(
                    c, vp::throws([&] { (void)cr::fixed_probability<S>(from, to, n, m, 1 + p + 0.125); }) && vp::throws([&] { (void)cr::fixed_probability<S>(from, to, n, m, -p - 0.125); }),
                    "probability", "a probability out of range was accepted");
            const auto pj = defaults ? cr::fixed_probability<S>(from, to, n, m, p) : cr::fixed_probability<S>(from, to, n, m, p, gen2);
            check_ends(c, pj, from, to);
            const auto got = connections(pj);
            std::vector<size_t> by_from(n), by_to(m);
            for (auto &x : got)
            {
                VP_CHECK(c, x.first < n && x.second < m, "pairs", "connection " << x.first << "->" << x.second);
                VP_EQ(c, got.count(x), 1u, "pairs", "connections of a pair");
                ++by_from[x.first];
                ++by_to[x.second];
            }
            check_pairs(c, pj, got, defaults);
            if (p == 0) VP_CHECK(c, got.empty(), "probability", "connections with probability 0");
            else if (p == 1) VP_EQ(c, got.size(), n * m, "probability", "connections with probability 1");
            else
            {
                VP_CHECK(c, plausible(got.size(), n * m, p), "probability", got.size() << " connections of " << n * m << " with probability " << p);
                for (auto k : by_from) VP_CHECK(c, plausible(k, m, p), "probability", k << " connections of one presynaptic neuron to " << m << " with probability " << p);
                for (auto k : by_to) VP_CHECK(c, plausible(k, n, p), "probability", k << " connections of one postsynaptic neuron to " << n << " with probability " << p);
            }
            break;
        }
        default:
        {
            const bool post = kind == 1;
            const size_t count = c.draw(large ? 40 : c.chance(1, 12) ? 250 : 8);
            VP_NOTE(c, (post ? "fixed_number_post " : "fixed_number_pre ") << n << " " << m << " " << count << "\n");
            const auto pj = post ? (defaults ? cr::fixed_number_post<S>(from, to, n, m, count) : cr::fixed_number_post<S>(from, to, n, m, count, gen2))
                                 : (defaults ? cr::fixed_number_pre<S>(from, to, n, m, count) : cr::fixed_number_pre<S>(from, to, n, m, count, gen2));
            check_ends(c, pj, from, to);
            const auto got = connections(pj);
            std::vector<size_t> fixed(post ? n : m), other(post ? m : n);
            for (auto &x : got)
            {
                VP_CHECK(c, x.first < n && x.second < m, "pairs", "connection " << x.first << "->" << x.second);
                ++fixed[post ? x.first : x.second];
                ++other[post ? x.second : x.first];
            }
            for (size_t i = 0; i < fixed.size(); ++i) VP_EQ(c, fixed[i], count, "count", "connections of neuron " << i);
            check_pairs(c, pj, got, defaults);
            // The other ends are uniform.
            for (auto k : other)
                VP_CHECK(c, plausible(k, got.size(), 1.0 / static_cast<double>(other.size())), "uniform", k << " of " << got.size() << " random ends in one neuron of " << other.size());
        }
    }
    if (n >= 2 && m >= 2) c.nontrivial();
}

template <class S>
void given(vp::Case &c)
{
    const auto from = kg::make_uid(1), to = kg::make_uid(2);
    const size_t n = c.chance(1, 30) ? c.len(0, 1500) : c.len(0, 30), ends = n > 30 ? 60 : 6, kind = c.draw(4);
    std::vector<Synapse<S>> source;
    for (size_t i = 0; i < n; ++i) source.emplace_back(kg::arbitrary_synapse<S>(c), c.draw(ends), c.draw(ends));
    auto texts = [](const auto &p)
    {
        std::vector<std::string> r;
        for (auto &s : p) r.push_back(kg::synapse_str<S>(s));
        return r;
    };
    auto sorted = [](std::vector<std::string> v)
    {
        std::sort(v.begin(), v.end());
        return v;
    };
    auto check = [&](const core::Projection<S> &p, const std::vector<std::string> &e)
    {
        check_ends(c, p, from, to);
        const auto a = sorted(texts(p)), b = sorted(e);
        VP_CHECK(c, a == b, "synapses", "synapses [" << vp::join(a, "; ") << "], expected [" << vp::join(b, "; ") << "]");
    };
    if (kind < 2)
    {
        VP_NOTE(c, "from_container of " << n << "\n");
        if (kind) check(cr::from_container<S, std::vector>(from, to, source), texts(source));
        else check(cr::from_container<S, std::deque>(from, to, std::deque<Synapse<S>>(source.begin(), source.end())), texts(source));
        if (n >= 2) c.nontrivial();
        return;
    }
    VP_NOTE(c, "from_map of up to " << n << "\n");
    std::map<std::tuple<size_t, size_t>, Params<S>> m;
    for (auto &s : source) m.emplace(std::make_tuple(std::get<core::source_neuron_id>(s), std::get<core::target_neuron_id>(s)), std::get<core::synapse_data>(s));
    std::vector<std::string> e;
    for (auto &[k, p] : m) e.push_back(kg::synapse_str<S>(Synapse<S>{p, std::get<0>(k), std::get<1>(k)}));
    if (kind == 2) check(cr::from_map<S, std::map>(from, to, m), e);
    else check(cr::from_map<S, boost::unordered_map>(from, to, boost::unordered_map<std::tuple<size_t, size_t>, Params<S>>(m.begin(), m.end())), e);
    if (m.size() >= 2) c.nontrivial();
}

template <class D, class S>
void clone(vp::Case &c)
{
    const auto from = kg::make_uid(1), to = kg::make_uid(2);
    const size_t n = c.chance(1, 30) ? c.len(0, 1500) : c.len(0, 30), ends = n > 30 ? 60 : 6;
    std::vector<Synapse<S>> list;
    for (size_t i = 0; i < n; ++i) list.emplace_back(kg::arbitrary_synapse<S>(c), c.draw(ends), c.draw(ends));
    core::Projection<S> source(from, to, [&](size_t i) -> std::optional<Synapse<S>> { return list[i]; }, n);
    if (c.flag())
    {
        const size_t out = c.draw(ends);
        source.remove_presynaptic_neuron_synapses(out);
        list.erase(std::remove_if(list.begin(), list.end(), [&](auto &s) { return std::get<core::source_neuron_id>(s) == out; }), list.end());
    }
    VP_NOTE(c, "clone of " << list.size() << " synapses\n");
    const bool defaults = c.chance(1, 6);
    std::optional<core::UID> a, b;
    if (c.flag()) a = kg::make_uid(8);
    if (c.flag()) b = kg::make_uid(9);
    const auto p = defaults ? cr::clone_projection<D, S>(source, pg::default_synapse_gen_1param<D>, a, b)
                            : cr::clone_projection<D, S>(source, [](size_t i) { return params_of<D>(i, 3); }, a, b);
    check_ends(c, p, a.value_or(from), b.value_or(to));
    VP_CHECK(c, !(p.get_uid() == source.get_uid()), "ends", "the clone has the UID of its source");
    VP_EQ(c, p.size(), list.size(), "count", "synapses of the clone");
    // Each synapse of the source has its clone, with the parameters of its index.
    std::multiset<std::string> got, expected;
    for (auto &s : p) got.insert(kg::synapse_str<D>(s));
    for (size_t i = 0; i < source.size(); ++i)
        expected.insert(kg::synapse_str<D>(Synapse<D>{defaults ? Params<D>() : params_of<D>(i, 3), std::get<core::source_neuron_id>(source[i]), std::get<core::target_neuron_id>(source[i])}));
    VP_CHECK(c, got == expected, "synapses", "[" << vp::join(got, "; ") << "], expected [" << vp::join(expected, "; ") << "]");
    pg::CopySynapseGen<D> copier(params_of<D>(c.draw(5), c.draw(5)));
    VP_CHECK(c, text<D>(copier(c.draw(9), c.draw(9))) == text<D>(copier(0, 0)), "copy", "copies of synapse parameters differ");
    const auto base = kg::arbitrary_synapse<D>(c);
    VP_CHECK(c, text<D>(pg::CopySynapseGen<D>(base)(c.draw(9), c.draw(9))) == text<D>(base), "copy", "copy of synapse parameters");
    if (list.size() >= 2) c.nontrivial();
}

#define ALL_TYPES(f) \
    [](vp::Case &c) \
    { \
        switch (c.draw(3)) \
        { \
            case 0: return f<kg::st::DeltaSynapse>(c); \
            case 1: return f<kg::st::AdditiveSTDPDeltaSynapse>(c); \
            default: return f<kg::st::SynapticResourceSTDPDeltaSynapse>(c); \
        } \
    }
}  // namespace

int main(int argc, char **argv)
{
    using D = kg::st::DeltaSynapse;
    using A = kg::st::AdditiveSTDPDeltaSynapse;
    using R = kg::st::SynapticResourceSTDPDeltaSynapse;
    return vp::run_main(
        argc, argv, "C24",
        {
            {"fixed", "populations of 1-300 neurons; non-trivial: two different sizes of at least 2", ALL_TYPES(fixed_pairs), 20000},
            {"random", "populations of 1-60 neurons; non-trivial: sizes of at least 2", ALL_TYPES(random_pairs), 10000},
            {"given", "containers and maps of up to 1500 synapses; non-trivial: at least 2", ALL_TYPES(given), 10000},
            {"clone", "projections of up to 1500 synapses; non-trivial: at least 2",
             [](vp::Case &c)
             {
                 switch (c.draw(4))
                 {
                     case 0: return clone<D, D>(c);
                     case 1: return clone<D, R>(c);
                     case 2: return clone<A, D>(c);
                     default: return clone<R, A>(c);
                 }
             },
             10000},
        },
        {}, {"populations have at least one neuron", "random creators are held to 8 standard deviations"});
}
