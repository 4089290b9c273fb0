// Reference model of a network on a CPU backend: neurons, synapses, delays and plasticity, written from the
// documentation of the platform and independent of its code (plain vectors, signed arithmetic, no search index).
#pragma once

#include <knp/core/messaging/messaging.h>

#include <algorithm>
#include <map>
#include <set>

#include "knp_net.hpp"

namespace ref
{
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
namespace core = knp::core;
using core::UID;
using Out = st::OutputType;
using SpikeMessage = core::messaging::SpikeMessage;
using ImpactMessage = core::messaging::SynapticImpactMessage;
using Impact = core::messaging::SynapticImpact;

template <class N>
using NP = nt::neuron_parameters<N>;
using Blifat = nt::BLIFATNeuron;
using Lif = nt::LIFNeuron;
using Altai = nt::AltAILIF;
using StdpBlifat = nt::SynapticResourceSTDPBLIFATNeuron;
using StdpAltai = nt::SynapticResourceSTDPAltAILIFNeuron;
using Delta = st::DeltaSynapse;
using Resource = st::SynapticResourceSTDPDeltaSynapse;
using Additive = st::AdditiveSTDPDeltaSynapse;

// Set when a comparison with a threshold depends on rounding: the run is only judged up to that point.
struct Ambiguity
{
    bool seen = false;
    // Rounded values: equality depends on rounding, too.
    void near(double a, double b, double eps, bool rounded = false)
    {
        const double d = std::fabs(a - b);
        if ((d > 0 || rounded) && d < eps * (1 + std::fabs(a) + std::fabs(b))) seen = true;
    }
};

// A value with a long fraction: the arithmetic that led to it, or goes on from it, is not exact.
inline bool rounded(double v) { return std::isfinite(v) && v * 0x1p20 != std::nearbyint(v * 0x1p20); }

struct Unsupported
{
};

// --- BLIFAT -------------------------------------------------------------------------------------------------

inline void pre(NP<Blifat> &n)
{
    if (n.n_time_steps_since_last_firing_ + 1 != 0) n.n_time_steps_since_last_firing_ += 1;
    n.dynamic_threshold_ = n.dynamic_threshold_ * n.threshold_decay_;
    n.postsynaptic_trace_ = n.postsynaptic_trace_ * n.postsynaptic_trace_decay_;
    n.inhibitory_conductance_ = n.inhibitory_conductance_ * n.inhibitory_conductance_decay_;
    n.potential_ = n.potential_ * n.potential_decay_;
    if (n.bursting_phase_ > 0)
    {
        n.bursting_phase_ -= 1;
        if (n.bursting_phase_ == 0) n.potential_ += n.reflexive_weight_;
    }
    n.pre_impact_potential_ = n.potential_;
}

inline void impact(NP<Blifat> &n, Out type, float value)
{
    const double v = value;
    if (type == Out::EXCITATORY) n.potential_ += v;
    else if (type == Out::INHIBITORY_CURRENT) n.potential_ -= v;
    else if (type == Out::INHIBITORY_CONDUCTANCE) n.inhibitory_conductance_ += v;
    else if (type == Out::DOPAMINE) n.dopamine_value_ += v;
    else if (type == Out::BLOCKING) n.total_blocking_period_ = static_cast<int64_t>(std::trunc(v));
    else throw Unsupported{};
}

inline bool post(NP<Blifat> &n, Ambiguity &amb)
{
    const int64_t blocking = n.total_blocking_period_;
    if (blocking <= 0) n.potential_ = n.pre_impact_potential_;
    if (blocking == -1) n.total_blocking_period_ = INT64_MAX;
    else if (blocking < 0) n.total_blocking_period_ = blocking + 1;
    else if (blocking > 0) n.total_blocking_period_ = blocking - 1;

    const double g = n.inhibitory_conductance_;
    amb.near(g, 1.0, 1e-9, rounded(g));
    const bool inexact = rounded(g) || rounded(n.pre_impact_potential_) || rounded(n.potential_) || rounded(n.dynamic_threshold_);
    n.potential_ = g < 1.0 ? n.potential_ * (1 - g) + n.reversal_inhibitory_potential_ * g : n.reversal_inhibitory_potential_;

    const double threshold = n.activation_threshold_ + n.dynamic_threshold_ + n.additional_threshold_;
    bool spike = false;
    if (n.n_time_steps_since_last_firing_ > n.absolute_refractory_period_)
    {
        amb.near(n.potential_, threshold, 1e-9, inexact);
        spike = n.potential_ >= threshold;
    }
    if (spike)
    {
        n.dynamic_threshold_ += n.threshold_increment_;
        n.postsynaptic_trace_ += n.postsynaptic_trace_increment_;
        n.potential_ = n.potential_reset_value_;
        n.bursting_phase_ = n.bursting_period_;
        n.n_time_steps_since_last_firing_ = 0;
    }
    n.potential_ = std::max(n.potential_, n.min_potential_);
    return spike;
}

// --- AltAI --------------------------------------------------------------------------------------------------

inline void pre(NP<Altai> &n)
{
    if (n.do_not_save_) n.potential_ = n.potential_reset_value_;
    else n.potential_ = std::round(n.potential_);
    n.pre_impact_potential_ = n.potential_;
}

inline void impact(NP<Altai> &n, Out type, float value)
{
    if (type == Out::EXCITATORY) n.potential_ += value;
    else if (type == Out::INHIBITORY_CURRENT) n.potential_ -= value;
    else if (type == Out::DOPAMINE) n.dopamine_value_ += value;
    else if (type == Out::BLOCKING)
    {
        const bool neg_now = n.activity_time_ < 0, neg_new = std::signbit(value);
        const double now = std::fabs(static_cast<double>(n.activity_time_));
        if (neg_now != neg_new || now <= std::fabs(value)) n.activity_time_ = static_cast<int64_t>(std::trunc(value));
    }
    else throw Unsupported{};
}

inline bool post(NP<Altai> &n, Ambiguity &amb)
{
    float p = n.potential_;
    p += (n.leak_rev_ && p < 0) ? -n.potential_leak_ : n.potential_leak_;

    if (n.activity_time_ > 0) n.activity_time_ -= 1;
    else if (n.activity_time_ < 0) n.activity_time_ += 1;
    if (n.activity_time_ == 0) n.activity_time_ = INT64_MAX;

    const double threshold = n.activation_threshold_ + n.additional_threshold_;
    amb.near(p, threshold, 1e-6);
    bool spike = false, reset = false;
    if (p >= threshold)
    {
        spike = n.activity_time_ > 0;
        if (n.is_diff_) p = static_cast<float>(p - threshold);
        if (n.is_reset_)
        {
            p = n.potential_reset_value_;
            reset = true;
        }
    }
    const float lower = -static_cast<float>(n.negative_activation_threshold_);
    amb.near(p, lower, 1e-6);
    if (!reset && p <= lower)
    {
        if (n.saturate_) p = lower;
        else if (n.is_reset_) p = -static_cast<float>(n.potential_reset_value_);
        else if (n.is_diff_) p += n.negative_activation_threshold_;
    }
    n.potential_ = p;
    return spike;
}

// --- LIF ----------------------------------------------------------------------------------------------------

inline void pre(NP<Lif> &n)
{
    if (n.refract_counter_ == 0) n.potential_ = n.potential_ * n.leak_coefficient_;
}

inline void impact(NP<Lif> &n, Out type, float value)
{
    if (type != Out::EXCITATORY && type != Out::INHIBITORY_CURRENT) throw Unsupported{};
    if (n.refract_counter_ == 0) n.potential_ += type == Out::EXCITATORY ? value : -value;
}

inline bool post(NP<Lif> &n, Ambiguity &amb)
{
    if (n.refract_counter_ > 0)
    {
        n.refract_counter_ -= 1;
        return false;
    }
    amb.near(n.potential_, n.activation_threshold_, 1e-6);
    if (!(n.potential_ > n.activation_threshold_)) return false;
    n.potential_ = n.potential_reset_value_;
    n.refract_counter_ = n.refract_period_;
    return true;
}

// --- all types ----------------------------------------------------------------------------------------------

template <class N>
struct Stdp : std::false_type
{
    using base = N;
};
template <class B>
struct Stdp<nt::SynapticResourceSTDPNeuron<B>> : std::true_type
{
    using base = B;
};

template <class N>
void neuron_pre(NP<N> &n)
{
    pre(static_cast<NP<typename Stdp<N>::base> &>(n));
    if constexpr (Stdp<N>::value)
    {
        n.dopamine_value_ = 0;
        n.is_being_forced_ = false;
    }
}

template <class N>
void neuron_impact(NP<N> &n, Out type, float value, bool forcing)
{
    impact(static_cast<NP<typename Stdp<N>::base> &>(n), type, value);
    if constexpr (Stdp<N>::value)
        if (type == Out::EXCITATORY && forcing) n.is_being_forced_ = true;
}

template <class N>
bool neuron_post(NP<N> &n, Ambiguity &amb)
{
    return post(static_cast<NP<typename Stdp<N>::base> &>(n), amb);
}

template <class N>
bool supports(Out t)
{
    using B = typename Stdp<N>::base;
    if (std::is_same_v<B, Lif>) return t == Out::EXCITATORY || t == Out::INHIBITORY_CURRENT;
    if (std::is_same_v<B, Altai>) return t != Out::INHIBITORY_CONDUCTANCE;
    return true;
}

// --- networks -----------------------------------------------------------------------------------------------

template <class N>
struct Pop
{
    using neuron = N;
    UID uid;
    std::vector<NP<N>> neurons;
};

template <class S>
struct Proj
{
    using synapse = S;
    UID uid, from, to;
    bool locked = true;
    std::vector<typename core::Projection<S>::Synapse> synapses;
    std::map<UID, bool> trainers;  // additive STDP: population -> also delivers spikes
    std::map<uint64_t, ImpactMessage> queue;
};

using AnyPop = std::variant<Pop<Blifat>, Pop<Lif>, Pop<Altai>, Pop<StdpBlifat>, Pop<StdpAltai>>;
using AnyProj = std::variant<Proj<Delta>, Proj<Resource>, Proj<Additive>>;

inline AnyPop make_pop(const core::AllPopulationsVariant &v)
{
    return std::visit(
        [](const auto &p) -> AnyPop
        {
            using N = typename kg::PopTraits<std::decay_t<decltype(p)>>::neuron;
            return Pop<N>{p.get_uid(), std::vector<NP<N>>(p.begin(), p.end())};
        },
        v);
}

inline AnyProj make_proj(const core::AllProjectionsVariant &v)
{
    return std::visit(
        [](const auto &p) -> AnyProj
        {
            using S = typename kg::ProjTraits<std::decay_t<decltype(p)>>::synapse;
            Proj<S> r{p.get_uid(), p.get_presynaptic(), p.get_postsynaptic(), p.is_locked()};
            r.synapses.assign(p.begin(), p.end());
            if constexpr (std::is_same_v<S, Additive>)
                for (auto &[uid, kind] : p.get_shared_parameters().stdp_populations_)
                    r.trainers[uid] = kind == std::decay_t<decltype(p)>::SharedSynapseParameters::ProcessingType::STDPAndSpike;
            return r;
        },
        v);
}

template <class S>
auto &params(S &s)
{
    return std::get<core::synapse_data>(s);
}
template <class S>
uint64_t source(const S &s)
{
    return std::get<core::source_neuron_id>(s);
}
template <class S>
uint64_t target(const S &s)
{
    return std::get<core::target_neuron_id>(s);
}

// --- resource STDP ------------------------------------------------------------------------------------------

using ResourceParams = st::synapse_parameters<Resource>;

inline void resource_weight(ResourceParams &s)
{
    const auto &r = s.rule_;
    const float positive = r.synaptic_resource_ > 0 ? r.synaptic_resource_ : 0;
    const float span = r.w_max_ - r.w_min_;
    s.weight_ = r.w_min_ + span * positive / (span + positive);
}

inline float stability_factor(float stability)
{
    return stability <= 0 ? 1.F : static_cast<float>(std::pow(2.0, -static_cast<double>(stability)));
}

struct TrainStats
{
    unsigned spikes = 0, continued = 0, forced = 0, dopamine = 0, renormalised = 0, hebbian = 0, contributed = 0;
};

template <class B>
void train(
    Pop<nt::SynapticResourceSTDPNeuron<B>> &pop, const std::vector<Proj<Resource> *> &projections,
    const std::vector<uint64_t> &spikes, uint64_t step, TrainStats &stats, Ambiguity &amb)
{
    using Isi = nt::ISIPeriodType;
    auto incoming = [&](uint64_t neuron)
    {
        std::vector<ResourceParams *> r;
        for (auto *p : projections)
            for (auto &s : p->synapses)
                if (target(s) == neuron) r.push_back(&params(s));
        return r;
    };
    const auto now = static_cast<int64_t>(step);

    for (uint64_t i : spikes)
    {
        auto &n = pop.neurons[i];
        const auto synapses = incoming(i);
        ++stats.spikes;
        n.last_spike_step_ = step;
        if (n.is_being_forced_)
        {
            n.isi_status_ = Isi::is_forced;
            ++stats.forced;
        }
        else
        {
            const int64_t gap = now - static_cast<int64_t>(n.last_step_);
            if (n.isi_status_ == Isi::not_in_period || n.isi_status_ == Isi::is_forced)
            {
                n.isi_status_ = Isi::period_started;
                n.first_isi_spike_ = step;
            }
            else if (n.isi_status_ == Isi::period_started)
            {
                if (gap < n.isi_max_) n.isi_status_ = Isi::period_continued;
            }
            else if (gap >= n.isi_max_ || n.dopamine_value_ != 0)
            {
                n.isi_status_ = Isi::period_started;
                n.first_isi_spike_ = step;
            }
            n.last_step_ = step;
        }
        const bool continued = n.isi_status_ == Isi::period_continued;
        if (continued) ++stats.continued;
        if (n.isi_status_ == Isi::period_started) n.stability_ -= n.stability_change_at_isi_;

        double positive = 0;
        for (auto *s : synapses)
        {
            if (s->weight_ > 0) positive += s->weight_;
            const int64_t arrival = static_cast<int64_t>(s->rule_.last_spike_step_) + s->delay_ - 1;
            const bool spiked = arrival <= now && arrival >= now - static_cast<int64_t>(s->rule_.dopamine_plasticity_period_);
            if (spiked) ++stats.contributed;
            if (spiked || !continued) s->rule_.has_contributed_ = spiked;
            if (!continued) s->rule_.had_hebbian_update_ = false;
        }
        n.additional_threshold_ = positive * n.synapse_sum_threshold_coefficient_;

        if (n.isi_status_ != Isi::is_forced)
            for (auto *s : synapses)
            {
                auto &r = s->rule_;
                r.synaptic_resource_ -= r.d_u_;
                n.free_synaptic_resource_ += r.d_u_;
                if (r.has_contributed_ && !r.had_hebbian_update_)
                {
                    const float change = n.d_h_ * stability_factor(n.stability_);
                    r.synaptic_resource_ += change;
                    n.free_synaptic_resource_ -= change;
                    r.had_hebbian_update_ = true;
                    ++stats.hebbian;
                }
            }
        for (auto *s : synapses) resource_weight(*s);
    }

    for (uint64_t i = 0; i < pop.neurons.size(); ++i)
    {
        auto &n = pop.neurons[i];
        const double dopamine = n.dopamine_value_;
        if (dopamine == 0 || (dopamine < 0 && n.isi_status_ == Isi::is_forced)) continue;
        ++stats.dopamine;
        const auto synapses = incoming(i);
        if (now - static_cast<int64_t>(n.last_spike_step_) <= static_cast<int64_t>(n.dopamine_plasticity_time_))
            for (auto *s : synapses)
                if (s->rule_.has_contributed_)
                {
                    const float change = static_cast<float>(dopamine * stability_factor(n.stability_));
                    s->rule_.synaptic_resource_ += change;
                    n.free_synaptic_resource_ -= change;
                }
        if (n.is_being_forced_ || dopamine < 0)
            n.stability_ = std::max(static_cast<float>(n.stability_ - dopamine * n.stability_change_parameter_), 0.F);
        else
        {
            const double since_start = static_cast<double>(now) - static_cast<double>(n.first_isi_spike_);
            const double factor = std::max(2.0 - std::fabs(since_start - n.isi_max_) / n.isi_max_, -1.0);
            n.stability_ = static_cast<float>(n.stability_ + n.stability_change_parameter_ * dopamine * factor);
        }
        for (auto *s : synapses) resource_weight(*s);
    }

    for (uint64_t i = 0; i < pop.neurons.size(); ++i)
    {
        auto &n = pop.neurons[i];
        const bool in_period = now - static_cast<int64_t>(n.last_step_) <= static_cast<int64_t>(n.isi_max_) && n.isi_status_ != Isi::is_forced;
        if (in_period) continue;
        amb.near(std::fabs(n.free_synaptic_resource_), n.synaptic_resource_threshold_, 1e-5, rounded(n.free_synaptic_resource_));
        if (std::fabs(n.free_synaptic_resource_) < n.synaptic_resource_threshold_) continue;
        const auto synapses = incoming(i);
        for (auto *s : synapses)
        {
            s->rule_.synaptic_resource_ += n.free_synaptic_resource_ / static_cast<float>(synapses.size() + n.resource_drain_coefficient_);
            resource_weight(*s);
        }
        if (!synapses.empty()) ++stats.renormalised;
        n.free_synaptic_resource_ = 0;
    }
}

// --- additive STDP ------------------------------------------------------------------------------------------

using AdditiveParams = st::synapse_parameters<Additive>;

// Change of the weight for one pair of spikes: W(s), s = t_post - t_pre, amplitudes 1 and -1.
inline double stdp_pair(double s, double tau_plus, double tau_minus)
{
    return s >= 0 ? std::exp(-s / tau_plus) : -std::exp(s / tau_minus);
}

// --- a step of a network ------------------------------------------------------------------------------------

struct StepResult
{
    std::map<UID, std::vector<uint64_t>> spikes;       // by population, only non-empty
    std::map<UID, ImpactMessage> impacts;              // by projection, sent at this step
    bool unsupported = false;
};

class Network
{
public:
    std::vector<AnyPop> pops;
    std::vector<AnyProj> projs;
    std::map<UID, std::set<UID>> spike_feeds;   // projection -> extra senders of spikes
    std::map<UID, std::set<UID>> impact_feeds;  // population -> extra senders of impacts
    uint64_t step = 0;
    Ambiguity amb;
    TrainStats stats;
    unsigned long delivered = 0, weight_changes = 0, ltd_pairs = 0, ltp_pairs = 0;

    void add(const core::AllPopulationsVariant &v) { pops.push_back(make_pop(v)); }
    void add(const core::AllProjectionsVariant &v) { projs.push_back(make_proj(v)); }

    StepResult run(const std::vector<SpikeMessage> &spikes_in, const std::vector<ImpactMessage> &impacts_in)
    {
        StepResult res;
        std::vector<ImpactMessage> arriving = std::move(in_flight_);
        in_flight_.clear();
        arriving.insert(arriving.end(), impacts_in.begin(), impacts_in.end());

        for (auto &any : pops)
            std::visit([&](auto &p) { step_population(p, arriving, res); }, any);

        std::vector<SpikeMessage> sent = spikes_in;
        for (auto &[uid, idx] : res.spikes)
        {
            SpikeMessage m{{uid, step}, {}};
            for (auto i : idx) m.neuron_indexes_.push_back(static_cast<core::messaging::SpikeIndex>(i));
            sent.push_back(m);
        }
        for (auto &any : projs)
            std::visit([&](auto &p) { step_projection(p, sent, res); }, any);
        ++step;
        return res;
    }

    // Takes over the values of the impacts just sent (already compared with the expected ones), so that rounding of a
    // weight does not show in what they do to the neurons.
    void adopt(const std::vector<ImpactMessage> &actual)
    {
        for (auto &mine : in_flight_)
            for (auto &m : actual)
            {
                if (m.header_.sender_uid_ != mine.header_.sender_uid_) continue;
                std::map<uint64_t, std::vector<float>> values;
                for (auto i = m.impacts_.rbegin(); i != m.impacts_.rend(); ++i) values[i->connection_index_].push_back(i->impact_value_);
                for (auto &i : mine.impacts_)
                {
                    auto &v = values[i.connection_index_];
                    if (v.empty()) continue;
                    i.impact_value_ = v.back();
                    v.pop_back();
                }
            }
    }

private:
    std::vector<ImpactMessage> in_flight_;

    template <class P>
    void step_population(P &pop, const std::vector<ImpactMessage> &arriving, StepResult &res)
    {
        using N = typename P::neuron;
        for (auto &n : pop.neurons) neuron_pre<N>(n);
        for (auto &m : arriving)
        {
            bool mine = impact_feeds[pop.uid].count(m.header_.sender_uid_) != 0;
            for (auto &q : projs)
                std::visit([&](auto &p) { mine = mine || (p.uid == m.header_.sender_uid_ && p.to == pop.uid); }, q);
            if (!mine) continue;
            for (auto &i : m.impacts_)
            {
                ++delivered;
                try
                {
                    neuron_impact<N>(pop.neurons.at(i.postsynaptic_neuron_index_), i.synapse_type_, i.impact_value_, m.is_forcing_);
                }
                catch (const Unsupported &)
                {
                    res.unsupported = true;
                }
            }
        }
        std::vector<uint64_t> spikes;
        for (uint64_t i = 0; i < pop.neurons.size(); ++i)
            if (neuron_post<N>(pop.neurons[i], amb)) spikes.push_back(i);
        if constexpr (Stdp<N>::value)
        {
            std::vector<Proj<Resource> *> plastic;
            for (auto &q : projs)
                if (auto *p = std::get_if<Proj<Resource>>(&q); p && !p->locked && p->to == pop.uid) plastic.push_back(p);
            train(pop, plastic, spikes, step, stats, amb);
        }
        if (!spikes.empty()) res.spikes[pop.uid] = spikes;
    }

    template <class P>
    void step_projection(P &proj, const std::vector<SpikeMessage> &sent, StepResult &res)
    {
        using S = typename P::synapse;
        for (auto &m : sent)
        {
            const UID &from = m.header_.sender_uid_;
            bool deliver = (proj.from && proj.from == from) || spike_feeds[proj.uid].count(from);
            if constexpr (std::is_same_v<S, Additive>)
            {
                auto t = proj.trainers.find(from);
                if (t != proj.trainers.end())
                {
                    deliver = t->second;
                    for (auto i : m.neuron_indexes_)
                        for (auto &s : proj.synapses)
                        {
                            auto &r = params(s).rule_;
                            const double limit = r.tau_minus_ + r.tau_plus_;
                            if (target(s) == i && r.postsynaptic_spike_times_.size() < limit) r.postsynaptic_spike_times_.push_back(m.header_.send_time_);
                        }
                    if (t->second)
                        for (auto i : m.neuron_indexes_)
                            for (auto &s : proj.synapses)
                            {
                                auto &r = params(s).rule_;
                                const double limit = r.tau_minus_ + r.tau_plus_;
                                if (source(s) == i && r.presynaptic_spike_times_.size() < limit)
                                    r.presynaptic_spike_times_.push_back(m.header_.send_time_);
                            }
                }
            }
            if (!deliver) continue;
            for (auto i : m.neuron_indexes_)
                for (uint64_t k = 0; k < proj.synapses.size(); ++k)
                {
                    auto &s = proj.synapses[k];
                    if (source(s) != i) continue;
                    if constexpr (std::is_same_v<S, Resource>) params(s).rule_.last_spike_step_ = step;
                    auto &q = proj.queue[step + params(s).delay_ - 1];
                    q.header_.sender_uid_ = proj.uid;
                    q.presynaptic_population_uid_ = proj.from;
                    q.postsynaptic_population_uid_ = proj.to;
                    q.is_forcing_ = std::is_same_v<S, Delta>;
                    q.impacts_.push_back(Impact{
                        k, params(s).weight_, params(s).output_type_, static_cast<uint32_t>(source(s)), static_cast<uint32_t>(target(s))});
                }
        }
        if constexpr (std::is_same_v<S, Additive>)
            for (auto &s : proj.synapses)
            {
                auto &r = params(s).rule_;
                const float period = r.tau_plus_ + r.tau_minus_;
                if (r.presynaptic_spike_times_.size() < period || r.postsynaptic_spike_times_.size() < period) continue;
                double sum = 0;
                for (auto a : r.presynaptic_spike_times_)
                    for (auto b : r.postsynaptic_spike_times_)
                    {
                        const double d = static_cast<double>(b) - static_cast<double>(a);
                        (d >= 0 ? ltp_pairs : ltd_pairs) += 1;
                        sum += stdp_pair(d, r.tau_plus_, r.tau_minus_);
                    }
                params(s).weight_ = static_cast<float>(params(s).weight_ + sum);
                ++weight_changes;
                r.presynaptic_spike_times_.clear();
                r.postsynaptic_spike_times_.clear();
            }
        auto due = proj.queue.find(step);
        if (due != proj.queue.end())
        {
            res.impacts[proj.uid] = due->second;
            in_flight_.push_back(due->second);
            proj.queue.erase(due);
        }
    }
};

// --- comparison ---------------------------------------------------------------------------------------------

inline bool close(double a, double b, double eps)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= eps * (1 + std::fabs(a) + std::fabs(b));
}

template <class T>
bool field_equal(const T &a, const T &b, double scale)
{
    if constexpr (std::is_same_v<T, double>) return close(a, b, scale * 1e-9);
    else if constexpr (std::is_same_v<T, float>) return close(a, b, scale * 1e-5);
    else return a == b;
}

template <class Fields, class P>
std::string diff_fields(P &actual, P &expected, double scale)
{
    std::string out;
    // Both objects have the same type, so a field lies at the same offset in both.
    Fields::each(
        expected,
        [&](const char *name, auto &e)
        {
            using T = std::decay_t<decltype(e)>;
            const auto off = reinterpret_cast<const char *>(&e) - reinterpret_cast<const char *>(&expected);
            const T &a = *reinterpret_cast<const T *>(reinterpret_cast<const char *>(&actual) + off);
            if (!field_equal<T>(a, e, scale)) out += std::string(out.empty() ? "" : ", ") + name + " = " + kg::value_str(a) + ", expected " + kg::value_str(e);
        });
    return out;
}

// Empty when equal. Copies the actual values over the expected ones (they are equal within the tolerance), so that
// rounding does not accumulate.
template <class N>
std::string diff_pop(const core::Population<N> &actual, Pop<N> &expected, double scale = 1)
{
    if (actual.size() != expected.neurons.size()) return "number of neurons";
    for (size_t i = 0; i < actual.size(); ++i)
    {
        auto a = actual[i];
        const std::string d = diff_fields<kg::NeuronFields<N>>(a, expected.neurons[i], scale);
        if (!d.empty()) return VP_STR(kg::NeuronFields<N>::name << " neuron " << i << ": " << d);
        expected.neurons[i] = a;
    }
    return "";
}

template <class S>
std::string diff_proj(const core::Projection<S> &actual, Proj<S> &expected, double scale = 1)
{
    if (actual.size() != expected.synapses.size()) return "number of synapses";
    for (size_t i = 0; i < actual.size(); ++i)
    {
        auto a = actual[i];
        auto &e = expected.synapses[i];
        if (source(a) != source(e) || target(a) != target(e)) return VP_STR("end points of synapse " << i);
        const std::string d = diff_fields<kg::SynapseFields<S>>(params(a), params(e), scale);
        if (!d.empty()) return VP_STR(kg::SynapseFields<S>::name << " synapse " << i << " (" << source(a) << "->" << target(a) << "): " << d);
        params(e) = params(a);
    }
    if (actual.is_locked() != expected.locked) return "lock state";
    return "";
}

// Takes over what learning writes into neurons, for checks that do not judge learning.
inline void adopt_training(const core::AllPopulationsVariant &actual, AnyPop &expected)
{
    std::visit(
        [&](auto &e)
        {
            using N = typename std::decay_t<decltype(e)>::neuron;
            if constexpr (Stdp<N>::value)
                if (auto *a = std::get_if<core::Population<N>>(&actual))
                    for (size_t i = 0; i < e.neurons.size() && i < a->size(); ++i)
                    {
                        auto &n = e.neurons[i];
                        const auto x = (*a)[i];
                        n.additional_threshold_ = x.additional_threshold_;
                        n.free_synaptic_resource_ = x.free_synaptic_resource_;
                        n.stability_ = x.stability_;
                        n.isi_status_ = x.isi_status_;
                        n.last_step_ = x.last_step_;
                        n.last_spike_step_ = x.last_spike_step_;
                        n.first_isi_spike_ = x.first_isi_spike_;
                    }
        },
        expected);
}

inline std::string diff_pop_any(const core::AllPopulationsVariant &actual, AnyPop &expected, double scale = 1)
{
    return std::visit(
        [&](auto &e) -> std::string
        {
            using N = typename std::decay_t<decltype(e)>::neuron;
            auto *a = std::get_if<core::Population<N>>(&actual);
            if (!a) return "type of the population";
            if (a->get_uid() != e.uid) return "UID of the population";
            return diff_pop<N>(*a, e, scale);
        },
        expected);
}

inline std::string diff_proj_any(const core::AllProjectionsVariant &actual, AnyProj &expected, double scale = 1)
{
    return std::visit(
        [&](auto &e) -> std::string
        {
            using S = typename std::decay_t<decltype(e)>::synapse;
            auto *a = std::get_if<core::Projection<S>>(&actual);
            if (!a) return "type of the projection";
            if (a->get_uid() != e.uid || a->get_presynaptic() != e.from || a->get_postsynaptic() != e.to) return "UIDs of the projection";
            return diff_proj<S>(*a, e, scale);
        },
        expected);
}

// Impacts by synapse: how often, total value, type and end points.
struct ImpactSum
{
    unsigned count = 0;
    double value = 0;
    int type = 0;
    uint64_t from = 0, to = 0;
};

inline std::string diff_impacts(const ImpactMessage &actual, const ImpactMessage &expected)
{
    if (actual.presynaptic_population_uid_ != expected.presynaptic_population_uid_) return "presynaptic population UID";
    if (actual.postsynaptic_population_uid_ != expected.postsynaptic_population_uid_) return "postsynaptic population UID";
    if (actual.is_forcing_ != expected.is_forcing_) return "forcing flag";
    auto sum = [](const ImpactMessage &m)
    {
        std::map<uint64_t, ImpactSum> r;
        for (auto &i : m.impacts_)
        {
            auto &s = r[i.connection_index_];
            ++s.count;
            s.value += i.impact_value_;
            s.type = static_cast<int>(i.synapse_type_);
            s.from = i.presynaptic_neuron_index_;
            s.to = i.postsynaptic_neuron_index_;
        }
        return r;
    };
    auto a = sum(actual), e = sum(expected);
    for (auto &[k, x] : e)
    {
        auto it = a.find(k);
        if (it == a.end()) return VP_STR("impact of synapse " << k << " is missing");
        auto &y = it->second;
        if (x.count != y.count) return VP_STR("synapse " << k << " has " << y.count << " impacts, expected " << x.count);
        if (!close(x.value, y.value, 1e-5)) return VP_STR("synapse " << k << " has impact " << y.value << ", expected " << x.value);
        if (x.type != y.type) return VP_STR("type of impact of synapse " << k);
        if (x.from != y.from || x.to != y.to) return VP_STR("end points of impact of synapse " << k);
    }
    for (auto &[k, x] : a)
        if (!e.count(k)) return VP_STR("unexpected impact of synapse " << k);
    return "";
}
}  // namespace ref
