// C26: normalisation maps parameters exactly as its function says and touches nothing else.
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/normalizers.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>

#include "knp_net.hpp"

using namespace knp;
namespace no = knp::framework::normalization;

namespace
{
// A function for normalisation, and what it should do to a value.
struct Function
{
    size_t kind;
    double in0, in1, out0, out1;
    std::string text;

    double operator()(double v) const
    {
        switch (kind)
        {
            case 0: return out0 + (v - in0) * (out1 - out0) / (in1 - in0);
            case 1: return std::min(std::max(v, in0), in1);
            case 2: return -v;
            default: return 7;
        }
    }
};

Function gen_function(vp::Case &c)
{
    Function f;
    f.kind = c.weighted({4, 2, 1, 1});
    f.in0 = c.dyadic(20, 2);
    f.in1 = f.in0 + static_cast<double>(c.range(1, 200)) / 4;
    if (f.kind == 0 && c.chance(1, 4)) std::swap(f.in0, f.in1);
    f.out0 = c.dyadic(20, 2);
    f.out1 = c.dyadic(20, 2);
    const char *names[] = {"rescale", "clamp", "negate", "set to 7"};
    f.text = VP_STR(names[f.kind] << " " << f.in0 << ".." << f.in1 << " to " << f.out0 << ".." << f.out1);
    return f;
}

// Accessors of other fields, which count their calls.
thread_local size_t gets, sets;

template <class S>
struct DelayAccessor
{
    using P = typename core::Projection<S>::SynapseParameters;
    double operator()(const P &p) const
    {
        ++gets;
        return p.delay_;
    }
    void operator()(P &p, const double &v) const
    {
        ++sets;
        p.delay_ = static_cast<uint32_t>(v < 1 ? 1 : v);
    }
};

template <class N>
struct ThresholdAccessor
{
    using P = typename core::Population<N>::NeuronParameters;
    double operator()(const P &p) const
    {
        ++gets;
        return p.activation_threshold_;
    }
    void operator()(P &p, const double &v) const
    {
        ++sets;
        using T = decltype(p.activation_threshold_);
        p.activation_threshold_ = static_cast<T>(std::is_unsigned_v<T> && v < 0 ? 0 : v);
    }
};

bool close(double a, double b, bool single)
{
    return a == b || std::abs(a - b) <= (single ? 2e-5 : 1e-10) * std::max({1.0, std::abs(a), std::abs(b), 1000.0});
}

// The corrector as the code gets it: with double or float values.
template <class V>
no::ValueCorrector<V> corrector(const Function &f)
{
    if (f.kind == 0)
        return no::Rescaler<V>(static_cast<V>(f.in0), static_cast<V>(f.in1), static_cast<V>(f.out0), static_cast<V>(f.out1));
    return [f](const V &v) { return static_cast<V>(f(static_cast<double>(v))); };
}

// A field of an entity: name and value.
template <class S>
std::vector<std::pair<std::string, std::string>> synapse_fields(const typename core::Projection<S>::Synapse &s)
{
    std::vector<std::pair<std::string, std::string>> r{{"from", std::to_string(std::get<core::source_neuron_id>(s))}, {"to", std::to_string(std::get<core::target_neuron_id>(s))}};
    kg::SynapseFields<S>::each(std::get<core::synapse_data>(s), [&](const char *n, const auto &v) { r.emplace_back(n, kg::value_str(v)); });
    return r;
}
template <class N>
std::vector<std::pair<std::string, std::string>> fields(const kg::nt::neuron_parameters<N> &p)
{
    std::vector<std::pair<std::string, std::string>> r;
    kg::NeuronFields<N>::each(p, [&](const char *n, const auto &v) { r.emplace_back(n, kg::value_str(v)); });
    return r;
}

// Compares an entity with what it was: the field changed by the function, the others equal.
template <class T>
void compare(vp::Case &c, const std::vector<std::pair<std::string, std::string>> &before, const std::vector<std::pair<std::string, std::string>> &after, const std::string &field, T old_value,
             T new_value, double expected, bool single, const std::string &where)
{
    VP_CHECK(c, close(static_cast<double>(new_value), expected, single), "value", where << ": " << field << " was " << old_value << ", is " << new_value << ", expected " << expected);
    for (size_t i = 0; i < before.size(); ++i)
        if (before[i].first != field) VP_CHECK(c, before[i] == after[i], "untouched", where << ": " << before[i].first << " was " << before[i].second << ", is " << after[i].second);
}

// What the function gives, as the setter stores it.
template <class P>
double stored_delay(const Function &f, const P &p)
{
    const double v = f(p.delay_);
    return v < 1 ? 1 : v;
}

template <class S>
void check_projection(vp::Case &c, const core::Projection<S> &before, const core::Projection<S> &after, const Function &f, bool delay, const std::string &where)
{
    VP_EQ(c, after.size(), before.size(), "size", where << ": synapses");
    VP_CHECK(c, after.get_uid() == before.get_uid() && after.get_presynaptic() == before.get_presynaptic() && after.get_postsynaptic() == before.get_postsynaptic() && after.is_locked() == before.is_locked(), "untouched", where << ": UIDs or lock");
    for (size_t i = 0; i < before.size(); ++i)
    {
        const auto &x = std::get<core::synapse_data>(before[i]), &y = std::get<core::synapse_data>(after[i]);
        if (delay)
        {
            const double e = stored_delay(f, x);
            VP_CHECK(c, std::abs(static_cast<double>(y.delay_) - e) < 1.01, "value", where << ", synapse " << i << ": delay was " << x.delay_ << ", is " << y.delay_ << ", expected " << e);
            compare(c, synapse_fields<S>(before[i]), synapse_fields<S>(after[i]), "delay", x.delay_, y.delay_, y.delay_, true, VP_STR(where << ", synapse " << i));
        }
        else
            compare(c, synapse_fields<S>(before[i]), synapse_fields<S>(after[i]), "weight", x.weight_, y.weight_, f(x.weight_), true, VP_STR(where << ", synapse " << i));
    }
}

template <class N>
void check_population(vp::Case &c, const core::Population<N> &before, const core::Population<N> &after, const Function &f, bool threshold, const std::string &where)
{
    VP_EQ(c, after.size(), before.size(), "size", where << ": neurons");
    VP_CHECK(c, after.get_uid() == before.get_uid(), "untouched", where << ": UID");
    for (size_t i = 0; i < before.size(); ++i)
    {
        const auto x = fields<N>(before[i]), y = fields<N>(after[i]);
        const auto at = VP_STR(where << ", neuron " << i);
        if (threshold)
        {
            using T = std::decay_t<decltype(before[i].activation_threshold_)>;
            double e = f(static_cast<double>(before[i].activation_threshold_));
            if constexpr (std::is_integral_v<T>)
            {
                if (std::is_unsigned_v<T> && e < 0) e = 0;
                VP_CHECK(c, std::abs(static_cast<double>(after[i].activation_threshold_) - e) < 1.01, "value", at << ": threshold");
                e = static_cast<double>(after[i].activation_threshold_);
            }
            compare(c, x, y, "activation_threshold", before[i].activation_threshold_, after[i].activation_threshold_, e, true, at);
        }
        else
        {
            using T = std::decay_t<decltype(before[i].potential_)>;
            double e = f(static_cast<double>(before[i].potential_));
            if constexpr (std::is_integral_v<T>)
            {
                VP_CHECK(c, std::abs(static_cast<double>(after[i].potential_) - e) < 1.01, "value", at << ": potential");
                e = static_cast<double>(after[i].potential_);
            }
            compare(c, x, y, "potential", before[i].potential_, after[i].potential_, e, true, at);
        }
    }
}

// Moderate values, so that integer fields do not overflow.
template <class N>
core::Population<N> gen_pop(vp::Case &c, size_t i)
{
    return core::Population<N>(
        kg::make_uid(100 + i),
        [&](size_t)
        {
            auto p = kg::arbitrary_neuron<N>(c);
            p.potential_ = static_cast<decltype(p.potential_)>(c.dyadic(50, 2));
            p.activation_threshold_ = static_cast<decltype(p.activation_threshold_)>(c.range(0, 60));
            return p;
        },
        c.len(0, 6));
}

template <class S>
core::Projection<S> gen_proj(vp::Case &c, size_t i)
{
    core::Projection<S> p(
        kg::make_uid(200 + i), kg::make_uid(1), kg::make_uid(2),
        [&](size_t) -> std::optional<typename core::Projection<S>::Synapse>
        {
            auto s = kg::arbitrary_synapse<S>(c);
            s.delay_ = static_cast<uint32_t>(c.range(1, 50));
            s.weight_ = static_cast<float>(c.dyadic(50, 3));
            return typename core::Projection<S>::Synapse{s, c.draw(5), c.draw(5)};
        },
        c.len(0, 8));
    if (c.flag()) p.unlock_weights();
    return p;
}

core::AllPopulationsVariant any_pop(vp::Case &c, size_t i)
{
    switch (c.draw(5))
    {
        case 0: return gen_pop<kg::nt::BLIFATNeuron>(c, i);
        case 1: return gen_pop<kg::nt::LIFNeuron>(c, i);
        case 2: return gen_pop<kg::nt::AltAILIF>(c, i);
        case 3: return gen_pop<kg::nt::SynapticResourceSTDPBLIFATNeuron>(c, i);
        default: return gen_pop<kg::nt::SynapticResourceSTDPAltAILIFNeuron>(c, i);
    }
}

core::AllProjectionsVariant any_proj(vp::Case &c, size_t i)
{
    switch (c.draw(3))
    {
        case 0: return gen_proj<kg::st::DeltaSynapse>(c, i);
        case 1: return gen_proj<kg::st::AdditiveSTDPDeltaSynapse>(c, i);
        default: return gen_proj<kg::st::SynapticResourceSTDPDeltaSynapse>(c, i);
    }
}

// One population or projection.
void single(vp::Case &c)
{
    const auto f = gen_function(c);
    VP_NOTE(c, f.text << "\n");
    const bool other = c.flag();
    size_t size = 0;
    gets = sets = 0;
    if (c.flag())
    {
        auto v = any_pop(c, 0);
        const auto before = v;
        VP_NOTE(c, kg::brief(v) << (other ? "threshold\n" : "potential\n"));
        std::visit(
            [&](auto &p)
            {
                using N = typename std::decay_t<decltype(p)>::PopulationNeuronType;
                size = p.size();
                if (other) no::normalize_neurons<N>(p, ThresholdAccessor<N>(), ThresholdAccessor<N>(), corrector<double>(f));
                else if (c.flag()) no::normalize_neurons<N>(p, no::PotentialAccessor<N>(), no::PotentialAccessor<N>(), corrector<double>(f));
                else no::normalize_neurons<N>(p, no::PotentialAccessor<N>(), no::PotentialAccessor<N>(), corrector<float>(f));
                check_population(c, std::get<std::decay_t<decltype(p)>>(before), p, f, other, "population");
            },
            v);
    }
    else
    {
        auto v = any_proj(c, 0);
        const auto before = v;
        VP_NOTE(c, kg::brief(v) << (other ? "delay\n" : "weight\n"));
        std::visit(
            [&](auto &p)
            {
                using S = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
                size = p.size();
                if (other) no::normalize_synapses<S>(p, DelayAccessor<S>(), DelayAccessor<S>(), corrector<double>(f));
                else if (c.flag()) no::normalize_synapses<S>(p, no::WeightAccessor<S>(), no::WeightAccessor<S>(), corrector<double>(f));
                else no::normalize_synapses<S>(p, no::WeightAccessor<S>(), no::WeightAccessor<S>(), corrector<float>(f));
                check_projection(c, std::get<std::decay_t<decltype(p)>>(before), p, f, other, "projection");
            },
            v);
    }
    if (other)
    {
        VP_EQ(c, gets, size, "calls", "values read");
        VP_EQ(c, sets, size, "calls", "values written");
    }
    if (size >= 2 && f.kind <= 1) c.nontrivial();
}

// All populations or projections of a network, in place or in a copy.
void network(vp::Case &c)
{
    const auto f = gen_function(c);
    VP_NOTE(c, f.text << "\n");
    framework::Network net(kg::make_uid(7));
    std::vector<core::AllPopulationsVariant> pops;
    std::vector<core::AllProjectionsVariant> projs;
    for (size_t i = c.len(0, 4); i; --i)
    {
        pops.push_back(any_pop(c, i));
        net.add_population(core::AllPopulationsVariant(pops.back()));
    }
    for (size_t i = c.len(0, 4); i; --i)
    {
        projs.push_back(any_proj(c, i));
        net.add_projection(core::AllProjectionsVariant(projs.back()));
    }
    if (c.noting())
    {
        for (auto &p : pops) VP_NOTE(c, kg::brief(p) << "\n");
        for (auto &p : projs) VP_NOTE(c, kg::brief(p) << "\n");
    }
    const Function identity{1, -1e300, 1e300, 0, 0, ""};
    auto check = [&](const framework::Network &n, const Function &on_neurons, bool threshold, const Function &on_synapses, bool delay, const std::string &where)
    {
        VP_EQ(c, n.populations_count(), pops.size(), "size", where << ": populations");
        VP_EQ(c, n.projections_count(), projs.size(), "size", where << ": projections");
        for (size_t i = 0; i < pops.size(); ++i)
            std::visit(
                [&](auto &p)
                {
                    using P = std::decay_t<decltype(p)>;
                    check_population(c, p, n.get_population<typename P::PopulationNeuronType>(p.get_uid()), on_neurons, threshold, VP_STR(where << ", population " << i));
                },
                pops[i]);
        for (size_t i = 0; i < projs.size(); ++i)
            std::visit(
                [&](auto &p)
                {
                    using P = std::decay_t<decltype(p)>;
                    check_projection(c, p, n.get_projection<typename P::ProjectionSynapseType>(p.get_uid()), on_synapses, delay, VP_STR(where << ", projection " << i));
                },
                projs[i]);
    };
    const bool synapses = c.flag(), other = c.flag(), copy = c.flag();
    VP_NOTE(c, (synapses ? "synapses" : "neurons") << (copy ? ", copy" : ", in place") << (other ? ", other field" : "") << "\n");
    auto compute = [&](auto &&neurons, auto &&syns)
    {
        if (synapses) return syns();
        return neurons();
    };
    if (copy)
    {
        const auto result = compute(
            [&] {
                return other ? no::normalize_neurons<ThresholdAccessor, ThresholdAccessor>(std::as_const(net), corrector<double>(f))
                             : no::normalize_neurons<no::PotentialAccessor, no::PotentialAccessor>(std::as_const(net), corrector<double>(f));
            },
            [&] {
                return other ? no::normalize_synapses<DelayAccessor, DelayAccessor>(std::as_const(net), corrector<double>(f))
                             : no::normalize_synapses<no::WeightAccessor, no::WeightAccessor>(std::as_const(net), corrector<double>(f));
            });
        check(net, identity, false, identity, false, "source");
        check(result, synapses ? identity : f, other, synapses ? f : identity, other, "copy");
    }
    else
    {
        compute(
            [&]
            {
                if (other) no::normalize_neurons<ThresholdAccessor, ThresholdAccessor>(net, corrector<double>(f));
                else no::normalize_neurons<no::PotentialAccessor, no::PotentialAccessor>(net, corrector<double>(f));
            },
            [&]
            {
                if (other) no::normalize_synapses<DelayAccessor, DelayAccessor>(net, corrector<double>(f));
                else no::normalize_synapses<no::WeightAccessor, no::WeightAccessor>(net, corrector<double>(f));
            });
        check(net, synapses ? identity : f, other, synapses ? f : identity, other, "network");
    }
    if (pops.size() >= 2 || projs.size() >= 2) c.nontrivial();
}

// Ends of an interval go to the ends of the other, order is kept, and the way back gives the value back.
template <class V>
void rescaler(vp::Case &c)
{
    const auto f = gen_function(c);
    const V i0 = static_cast<V>(f.in0), i1 = static_cast<V>(f.in1), o0 = static_cast<V>(f.out0), o1 = static_cast<V>(f.out1);
    VP_NOTE(c, i0 << ".." << i1 << " to " << o0 << ".." << o1 << "\n");
    no::Rescaler<V> r(i0, i1, o0, o1);
    const bool single = sizeof(V) == 4;
    VP_CHECK(c, r(i0) == o0, "ends", "start goes to " << r(i0));
    VP_CHECK(c, close(r(i1), o1, single), "ends", "end goes to " << r(i1));
    for (size_t n = c.len(1, 6); n; --n)
    {
        const V x = static_cast<V>(c.dyadic(60, 4)), y = static_cast<V>(c.dyadic(60, 4));
        const double e = static_cast<double>(o0) + (static_cast<double>(x) - i0) * (static_cast<double>(o1) - o0) / (static_cast<double>(i1) - i0);
        VP_CHECK(c, close(r(x), e, single), "value", x << " goes to " << r(x) << ", expected " << e);
        if (o0 != o1)
        {
            const bool falls = (o1 < o0) != (i1 < i0);
            VP_CHECK(c, x > y || (falls ? r(x) >= r(y) : r(x) <= r(y)), "order", x << " and " << y << " go to " << r(x) << " and " << r(y));
            no::Rescaler<V> back(o0, o1, i0, i1);
            const double scale = std::max(1.0, std::abs((static_cast<double>(i1) - i0) / (static_cast<double>(o1) - o0)));
            VP_CHECK(c, std::abs(back(r(x)) - x) <= (single ? 1e-4 : 1e-9) * scale * std::max(1.0, std::abs(e)), "back", x << " comes back as " << back(r(x)));
            c.nontrivial();
        }
    }
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C26",
        {
            {"single", "a population or projection of any type with 0-8 elements, rescaled, clamped, negated or set by two accessors each; non-trivial: at least 2 elements, rescaled or clamped", single, 20000},
            {"network", "0-4 populations and projections, in place or copied; non-trivial: at least 2 of one kind", network, 10000},
            {"rescaler", "intervals in both directions; non-trivial: output interval not empty", [](vp::Case &c) { c.flag() ? rescaler<double>(c) : rescaler<float>(c); }, 20000},
        },
        {}, {"values are rescaled in floating point"});
}
