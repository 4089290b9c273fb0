// Field lists, generators and printers for the parameter structures of the platform.
#pragma once

#include <knp/core/population.h>
#include <knp/core/projection.h>
#include <knp/neuron-traits/all_traits.h>
#include <knp/synapse-traits/all_traits.h>

#include <cmath>
#include <cstring>
#include <type_traits>

#include "vp.hpp"

namespace kg
{
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
namespace core = knp::core;

// Calls f(name, field) for each field.
template <class F, class P>
void blifat_fields(P &p, F &&f)
{
#define KG(x) f(#x, p.x##_)
    KG(n_time_steps_since_last_firing);
    KG(activation_threshold);
    KG(additional_threshold);
    KG(dynamic_threshold);
    KG(threshold_decay);
    KG(threshold_increment);
    KG(postsynaptic_trace);
    KG(postsynaptic_trace_decay);
    KG(postsynaptic_trace_increment);
    KG(inhibitory_conductance);
    KG(inhibitory_conductance_decay);
    KG(potential);
    KG(pre_impact_potential);
    KG(potential_decay);
    KG(bursting_phase);
    KG(bursting_period);
    KG(reflexive_weight);
    KG(reversal_inhibitory_potential);
    KG(absolute_refractory_period);
    KG(potential_reset_value);
    KG(min_potential);
    KG(total_blocking_period);
    KG(dopamine_value);
    KG(stochastic_stimulation);
    KG(random_number_generator_state);
}

template <class F, class P>
void lif_fields(P &p, F &&f)
{
    KG(potential);
    KG(potential_reset_value);
    KG(activation_threshold);
    KG(leak_coefficient);
    KG(refract_counter);
    KG(refract_period);
}

template <class F, class P>
void altai_fields(P &p, F &&f)
{
    KG(is_diff);
    KG(is_reset);
    KG(leak_rev);
    KG(saturate);
    KG(do_not_save);
    KG(potential);
    KG(pre_impact_potential);
    KG(activation_threshold);
    KG(negative_activation_threshold);
    KG(potential_leak);
    KG(potential_reset_value);
    KG(dopamine_value);
    KG(additional_threshold);
    KG(activity_time);
}

template <class F, class P>
void stdp_neuron_fields(P &p, F &&f)
{
    KG(synapse_sum_threshold_coefficient);
    KG(dopamine_plasticity_time);
    KG(free_synaptic_resource);
    KG(synaptic_resource_threshold);
    KG(resource_drain_coefficient);
    KG(stability);
    KG(stability_change_parameter);
    KG(stability_change_at_isi);
    KG(isi_max);
    KG(d_h);
    KG(isi_status);
    KG(last_step);
    KG(last_spike_step);
    KG(first_isi_spike);
    KG(is_being_forced);
}

template <class N>
struct NeuronFields;

template <>
struct NeuronFields<nt::BLIFATNeuron>
{
    static constexpr const char *name = "BLIFAT";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        blifat_fields(p, f);
    }
};
template <>
struct NeuronFields<nt::LIFNeuron>
{
    static constexpr const char *name = "LIF";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        lif_fields(p, f);
    }
};
template <>
struct NeuronFields<nt::AltAILIF>
{
    static constexpr const char *name = "AltAI";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        altai_fields(p, f);
    }
};
template <>
struct NeuronFields<nt::SynapticResourceSTDPBLIFATNeuron>
{
    static constexpr const char *name = "STDP-BLIFAT";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        blifat_fields(p, f);
        stdp_neuron_fields(p, f);
    }
};
template <>
struct NeuronFields<nt::SynapticResourceSTDPAltAILIFNeuron>
{
    static constexpr const char *name = "STDP-AltAI";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        altai_fields(p, f);
        stdp_neuron_fields(p, f);
    }
};

template <class F, class P>
void delta_fields(P &p, F &&f)
{
    KG(weight);
    KG(delay);
    KG(output_type);
}

template <class S>
struct SynapseFields;
template <>
struct SynapseFields<st::DeltaSynapse>
{
    static constexpr const char *name = "Delta";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        delta_fields(p, f);
    }
};
template <>
struct SynapseFields<st::AdditiveSTDPDeltaSynapse>
{
    static constexpr const char *name = "AdditiveSTDPDelta";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        delta_fields(p, f);
        f("tau_plus", p.rule_.tau_plus_);
        f("tau_minus", p.rule_.tau_minus_);
        f("presynaptic_spike_times", p.rule_.presynaptic_spike_times_);
        f("postsynaptic_spike_times", p.rule_.postsynaptic_spike_times_);
    }
};
template <>
struct SynapseFields<st::SynapticResourceSTDPDeltaSynapse>
{
    static constexpr const char *name = "ResourceSTDPDelta";
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        delta_fields(p, f);
        f("synaptic_resource", p.rule_.synaptic_resource_);
        f("w_min", p.rule_.w_min_);
        f("w_max", p.rule_.w_max_);
        f("d_u", p.rule_.d_u_);
        f("dopamine_plasticity_period", p.rule_.dopamine_plasticity_period_);
        f("last_spike_step", p.rule_.last_spike_step_);
        f("had_hebbian_update", p.rule_.had_hebbian_update_);
        f("has_contributed", p.rule_.has_contributed_);
    }
};
#undef KG

// Values as text: exact, so that equal texts mean equal values.
template <class T>
std::string value_str(const T &v)
{
    if constexpr (std::is_enum_v<T>)
        return std::to_string(static_cast<long long>(v));
    else if constexpr (std::is_floating_point_v<T>)
    {
        char b[64];
        snprintf(b, sizeof b, "%.17g", static_cast<double>(v));
        return b;
    }
    else if constexpr (std::is_arithmetic_v<T>)
        return std::to_string(v);
    else
        return "[" + vp::join(v) + "]";
}

template <class N>
std::string neuron_str(const nt::neuron_parameters<N> &p, bool only_changed = false)
{
    std::string s;
    nt::neuron_parameters<N> def;
    std::vector<std::string> defs;
    if (only_changed) NeuronFields<N>::each(def, [&](const char *, const auto &v) { defs.push_back(value_str(v)); });
    size_t i = 0;
    NeuronFields<N>::each(
        p,
        [&](const char *n, const auto &v)
        {
            const std::string t = value_str(v);
            if (!only_changed || t != defs[i]) s += std::string(s.empty() ? "" : " ") + n + "=" + t;
            ++i;
        });
    return s;
}

template <class S>
std::string synapse_str(const typename core::Projection<S>::Synapse &syn, bool only_changed = false)
{
    std::string s = VP_STR(std::get<core::source_neuron_id>(syn) << "->" << std::get<core::target_neuron_id>(syn));
    st::synapse_parameters<S> def;
    std::vector<std::string> defs;
    if (only_changed) SynapseFields<S>::each(def, [&](const char *, const auto &v) { defs.push_back(value_str(v)); });
    size_t i = 0;
    SynapseFields<S>::each(
        std::get<core::synapse_data>(syn),
        [&](const char *n, const auto &v)
        {
            const std::string t = value_str(v);
            if (!only_changed || t != defs[i]) s += std::string(" ") + n + "=" + t;
            ++i;
        });
    return s;
}

// Fills every field with an arbitrary (not necessarily meaningful) value: for containers and round trips.
template <class T>
void arbitrary_value(vp::Case &c, T &v)
{
    if constexpr (std::is_same_v<T, bool>)
        v = c.flag();
    else if constexpr (std::is_same_v<T, st::OutputType>)
        v = static_cast<st::OutputType>(c.range(0, 4));
    else if constexpr (std::is_same_v<T, nt::ISIPeriodType>)
        v = static_cast<nt::ISIPeriodType>(c.range(0, 3));
    else if constexpr (std::is_floating_point_v<T>)
        v = static_cast<T>(c.dyadic(100, 4));
    else if constexpr (std::is_integral_v<T>)
    {
        if (c.chance(1, 6))
            v = std::numeric_limits<T>::max();
        else
            v = static_cast<T>(c.range(0, 100));
    }
    else
    {
        v.clear();
        for (size_t n = c.range(0, 3); n; --n) v.push_back(static_cast<typename T::value_type>(c.range(0, 50)));
    }
}

template <class N>
nt::neuron_parameters<N> arbitrary_neuron(vp::Case &c)
{
    nt::neuron_parameters<N> p;
    NeuronFields<N>::each(p, [&](const char *, auto &v) { if (c.chance(1, 3)) arbitrary_value(c, v); });
    return p;
}

template <class S>
st::synapse_parameters<S> arbitrary_synapse(vp::Case &c)
{
    st::synapse_parameters<S> p;
    SynapseFields<S>::each(p, [&](const char *, auto &v) { if (c.chance(2, 3)) arbitrary_value(c, v); });
    if (p.delay_ == 0) p.delay_ = 1;
    return p;
}

// Deterministic UIDs: replays print the same history.
inline core::UID make_uid(uint64_t n)
{
    boost::uuids::uuid u = boost::uuids::nil_uuid();
    for (int i = 0; i < 8; ++i) *(u.begin() + 15 - i) = static_cast<uint8_t>(n >> (8 * i));
    *u.begin() = 0xA5;
    return core::UID(u);
}

inline core::UID random_uid(vp::Case &c)
{
    boost::uuids::uuid u;
    const uint64_t a = c.bits64(), b = c.bits64();
    for (int i = 0; i < 8; ++i)
    {
        *(u.begin() + i) = static_cast<uint8_t>(a >> (8 * i));
        *(u.begin() + 8 + i) = static_cast<uint8_t>(b >> (8 * i));
    }
    return core::UID(u);
}

}  // namespace kg
