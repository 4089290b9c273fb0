// Populations and projections of any type as variants: generation and exact text.
#pragma once

#include "knp_gen.hpp"

namespace kg
{
template <class T>
struct Tag
{
    using type = T;
};

constexpr size_t n_neuron_types = 5, n_synapse_types = 3;

template <class F>
void with_neuron(size_t i, F &&f)
{
    switch (i)
    {
        case 0: f(Tag<nt::BLIFATNeuron>()); break;
        case 1: f(Tag<nt::LIFNeuron>()); break;
        case 2: f(Tag<nt::AltAILIF>()); break;
        case 3: f(Tag<nt::SynapticResourceSTDPBLIFATNeuron>()); break;
        default: f(Tag<nt::SynapticResourceSTDPAltAILIFNeuron>()); break;
    }
}

template <class F>
void with_synapse(size_t i, F &&f)
{
    switch (i)
    {
        case 0: f(Tag<st::DeltaSynapse>()); break;
        case 1: f(Tag<st::SynapticResourceSTDPDeltaSynapse>()); break;
        default: f(Tag<st::AdditiveSTDPDeltaSynapse>()); break;
    }
}

template <class T>
struct PopTraits;
template <class N>
struct PopTraits<core::Population<N>>
{
    using neuron = N;
};
template <class T>
struct ProjTraits;
template <class S>
struct ProjTraits<core::Projection<S>>
{
    using synapse = S;
};

template <class N>
std::string pop_text(const core::Population<N> &p)
{
    std::string s = VP_STR(NeuronFields<N>::name << " " << std::string(p.get_uid()) << " n=" << p.size());
    for (const auto &x : p) s += "\n  " + neuron_str<N>(x);
    return s;
}

template <class S>
std::string proj_text(const core::Projection<S> &p, bool with_lock = true)
{
    std::string s = VP_STR(
        SynapseFields<S>::name << " " << std::string(p.get_uid()) << " " << std::string(p.get_presynaptic()) << "->"
                               << std::string(p.get_postsynaptic()) << " n=" << p.size());
    if (with_lock) s += p.is_locked() ? " locked" : " unlocked";
    for (const auto &x : p) s += "\n  " + synapse_str<S>(x);
    return s;
}

// Shorter texts for reports: only the parameters that differ from the defaults.
inline std::string brief(const core::AllPopulationsVariant &v)
{
    return std::visit(
        [](const auto &p)
        {
            using N = typename PopTraits<std::decay_t<decltype(p)>>::neuron;
            std::string s = VP_STR(NeuronFields<N>::name << " population " << std::string(p.get_uid()) << " n=" << p.size());
            for (const auto &x : p) s += "\n  " + neuron_str<N>(x, true);
            return s;
        },
        v);
}
inline std::string brief(const core::AllProjectionsVariant &v)
{
    return std::visit(
        [](const auto &p)
        {
            using S = typename ProjTraits<std::decay_t<decltype(p)>>::synapse;
            std::string s = VP_STR(
                SynapseFields<S>::name << " projection " << std::string(p.get_uid()) << " " << std::string(p.get_presynaptic()) << "->"
                                       << std::string(p.get_postsynaptic()) << (p.is_locked() ? " locked" : " unlocked"));
            for (const auto &x : p) s += "\n  " + synapse_str<S>(x, true);
            return s;
        },
        v);
}

inline std::string text(const core::AllPopulationsVariant &v)
{
    return std::visit([](const auto &p) { return pop_text(p); }, v);
}
inline std::string text(const core::AllProjectionsVariant &v)
{
    return std::visit([](const auto &p) { return proj_text(p); }, v);
}

template <class V>
core::UID uid_of(const V &v)
{
    return std::visit([](const auto &p) { return p.get_uid(); }, v);
}

// A population with arbitrary parameters.
inline core::AllPopulationsVariant any_population(vp::Case &c, size_t type, const core::UID &uid, size_t n)
{
    std::optional<core::AllPopulationsVariant> res;
    with_neuron(
        type,
        [&](auto t)
        {
            using N = typename decltype(t)::type;
            res.emplace(core::Population<N>(uid, [&](size_t) { return std::make_optional(arbitrary_neuron<N>(c)); }, n));
        });
    return std::move(*res);
}

inline core::AllProjectionsVariant any_projection(
    vp::Case &c, size_t type, const core::UID &uid, const core::UID &pre, const core::UID &post, size_t n_pre, size_t n_post, size_t n)
{
    std::optional<core::AllProjectionsVariant> res;
    with_synapse(
        type,
        [&](auto t)
        {
            using S = typename decltype(t)::type;
            using Syn = typename core::Projection<S>::Synapse;
            res.emplace(core::Projection<S>(
                uid, pre, post,
                [&](size_t) -> std::optional<Syn> {
                    auto p = arbitrary_synapse<S>(c);
                    const size_t a = c.draw(n_pre), b = c.draw(n_post);
                    return Syn{p, a, b};
                },
                n));
            if (c.flag()) std::get<core::Projection<S>>(*res).lock_weights();
            else std::get<core::Projection<S>>(*res).unlock_weights();
        });
    return std::move(*res);
}
}  // namespace kg
