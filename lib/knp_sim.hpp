// Backends under test and generators of neurons, synapses and networks for the checks of the CPU backends.
#pragma once

#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>

#include <memory>

#include "knp_ref.hpp"

namespace sim
{
using namespace ref;
using SingleBackend = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MultiBackend = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;

struct Config
{
    bool multi = false;
    size_t threads = 1, pop_part = 10, proj_part = 1000;
    std::string str() const
    {
        return multi ? VP_STR("multi-threaded backend (" << threads << " threads, parts of " << pop_part << " neurons and " << proj_part << " synapses)")
                     : std::string("single-threaded backend");
    }
};

// MT parts: small enough that populations and projections are divided.
inline Config multi_config(vp::Case &c)
{
    Config k;
    k.multi = true;
    k.threads = c.range(1, 4);
    k.pop_part = c.flag() ? c.range(1, 4) : c.range(1, 1000);
    k.proj_part = c.flag() ? c.range(1, 7) : c.range(1, 1000);
    return k;
}

inline Config any_config(vp::Case &c, bool multi_possible = true)
{
    return multi_possible && c.chance(1, 3) ? multi_config(c) : Config{};
}

inline bool multi_supports_neuron(size_t type) { return type == 0 || type == 1 || type == 3; }
inline bool multi_supports_synapse(size_t type) { return type != 2; }

// A backend with an observer: an endpoint subscribed to everything the populations and projections send.
class Sim
{
public:
    explicit Sim(const Config &k) : config(k)
    {
        if (k.multi) multi_ = std::make_unique<MultiBackend>(k.threads, k.pop_part, k.proj_part);
        else single_ = std::make_unique<SingleBackend>();
        external = std::make_unique<core::MessageEndpoint>(backend().get_message_bus().create_endpoint());
    }

    core::Backend &backend() { return config.multi ? static_cast<core::Backend &>(*multi_) : *single_; }

    void load(const std::vector<core::AllPopulationsVariant> &pops, const std::vector<core::AllProjectionsVariant> &projs)
    {
        backend().load_all_populations(pops);
        backend().load_all_projections(projs);
        std::vector<UID> a, b;
        for (auto &p : pops) a.push_back(kg::uid_of(p));
        for (auto &p : projs) b.push_back(kg::uid_of(p));
        if (!a.empty()) external->subscribe<SpikeMessage>(watcher(), a);
        if (!b.empty()) external->subscribe<ImpactMessage>(watcher(), b);
    }

    void init() { backend()._init(); }

    void feed_spikes(const UID &projection, const UID &from) { backend().subscribe<SpikeMessage>(projection, {from}); }
    void feed_impacts(const UID &population, const UID &from) { backend().subscribe<ImpactMessage>(population, {from}); }

    // One step, with messages sent by the outside world before it.
    void step(const std::vector<SpikeMessage> &spikes_in, const std::vector<ImpactMessage> &impacts_in)
    {
        for (auto &m : spikes_in) external->send_message(m);
        for (auto &m : impacts_in) external->send_message(m);
        spikes.clear();
        impacts.clear();
        backend()._step();
        external->receive_all_messages();
        spikes = external->unload_messages<SpikeMessage>(watcher());
        impacts = external->unload_messages<ImpactMessage>(watcher());
    }

    std::vector<core::AllPopulationsVariant> populations()
    {
        std::vector<core::AllPopulationsVariant> r;
        each([&](auto &b) {
            for (auto it = b.begin_populations(); it != b.end_populations(); ++it)
                r.push_back(std::visit([](const auto &p) -> core::AllPopulationsVariant { return p; }, *it));
        });
        return r;
    }

    std::vector<core::AllProjectionsVariant> projections()
    {
        std::vector<core::AllProjectionsVariant> r;
        each([&](auto &b) {
            for (auto it = b.begin_projections(); it != b.end_projections(); ++it)
                r.push_back(std::visit([](const auto &p) -> core::AllProjectionsVariant { return p; }, it->arg_));
        });
        return r;
    }

    template <class F>
    void each(F &&f)
    {
        if (config.multi) f(*multi_);
        else f(*single_);
    }

    static UID watcher() { return kg::make_uid(77777); }

    const Config config;
    std::vector<SpikeMessage> spikes;
    std::vector<ImpactMessage> impacts;
    std::unique_ptr<core::MessageEndpoint> external;

private:
    std::unique_ptr<SingleBackend> single_;
    std::unique_ptr<MultiBackend> multi_;
};

// --- comparison of a step -----------------------------------------------------------------------------------

inline void check_messages(vp::Case &c, const Sim &s, const StepResult &expected, uint64_t step)
{
    std::set<UID> seen;
    for (auto &m : s.spikes)
    {
        const UID &uid = m.header_.sender_uid_;
        VP_CHECK(c, seen.insert(uid).second, "spike-message-twice", "step " << step << ": population " << std::string(uid) << " sent two spike messages");
        VP_EQ(c, m.header_.send_time_, step, "spike-message-step", "population " << std::string(uid));
        auto it = expected.spikes.find(uid);
        std::vector<uint64_t> a(m.neuron_indexes_.begin(), m.neuron_indexes_.end()), e;
        if (it != expected.spikes.end()) e = it->second;
        std::sort(a.begin(), a.end());
        VP_CHECK(c, a == e, "spikes", "step " << step << ": population " << std::string(uid) << " spikes [" << vp::join(a) << "], expected [" << vp::join(e) << "]");
    }
    for (auto &[uid, e] : expected.spikes)
        VP_CHECK(c, seen.count(uid), "spikes", "step " << step << ": population " << std::string(uid) << " sent no spikes, expected [" << vp::join(e) << "]");
    seen.clear();
    for (auto &m : s.impacts)
    {
        const UID &uid = m.header_.sender_uid_;
        VP_CHECK(c, seen.insert(uid).second, "impact-message-twice", "step " << step << ": projection " << std::string(uid) << " sent two impact messages");
        auto it = expected.impacts.find(uid);
        VP_CHECK(c, it != expected.impacts.end(), "impacts", "step " << step << ": projection " << std::string(uid) << " sent impacts, none expected: " << m);
        const std::string d = diff_impacts(m, it->second);
        VP_CHECK(c, d.empty(), "impacts", "step " << step << ": projection " << std::string(uid) << ": " << d);
    }
    for (auto &[uid, e] : expected.impacts)
        VP_CHECK(c, seen.count(uid), "impacts", "step " << step << ": projection " << std::string(uid) << " sent no impacts, expected " << e);
}

inline void check_state(vp::Case &c, Sim &s, ref::Network &net, uint64_t step, double scale = 1, bool judge_training = true)
{
    net.adopt(s.impacts);
    const auto pops = s.populations();
    VP_EQ(c, pops.size(), net.pops.size(), "state", "step " << step << ": populations");
    for (size_t i = 0; i < pops.size(); ++i)
    {
        if (!judge_training) adopt_training(pops[i], net.pops[i]);
        const std::string d = diff_pop_any(pops[i], net.pops[i], scale);
        VP_CHECK(c, d.empty(), "state", "after step " << step << ", population " << i << ": " << d);
    }
    const auto projs = s.projections();
    VP_EQ(c, projs.size(), net.projs.size(), "state", "step " << step << ": projections");
    for (size_t i = 0; i < projs.size(); ++i)
    {
        const std::string d = diff_proj_any(projs[i], net.projs[i], scale);
        VP_CHECK(c, d.empty(), "state", "after step " << step << ", projection " << i << ": " << d);
    }
}

// --- generators ---------------------------------------------------------------------------------------------

inline double decay(vp::Case &c) { return c.pick_of({1.0, 0.0, 0.5, 0.75, 0.25, 0.875, 0.9}); }

// Around the limits of narrower types.
inline int64_t wide_value(vp::Case &c)
{
    return c.pick_of({int64_t{1} << 7, int64_t{1} << 8, int64_t{1} << 15, int64_t{1} << 16, int64_t{1} << 24}) + c.range_near(-2, 2, 0);
}

inline int64_t wide_signed(vp::Case &c)
{
    const int64_t v = wide_value(c);
    return c.flag() ? v : -v;
}

inline void gen(vp::Case &c, NP<Blifat> &n)
{
    n.activation_threshold_ = c.chance(1, 3) ? c.dyadic(4, 2) : 1.0;
    if (c.chance(1, 2)) n.potential_decay_ = decay(c);
    if (c.chance(1, 2)) n.absolute_refractory_period_ = c.range(0, 4);
    if (c.chance(1, 3))
    {
        n.dynamic_threshold_ = c.dyadic(2, 2);
        n.threshold_decay_ = decay(c);
        n.threshold_increment_ = c.dyadic(2, 2);
    }
    if (c.chance(1, 4)) n.additional_threshold_ = c.dyadic(2, 2);
    if (c.chance(1, 4))
    {
        n.postsynaptic_trace_ = c.dyadic(2, 2);
        n.postsynaptic_trace_decay_ = decay(c);
        n.postsynaptic_trace_increment_ = c.dyadic(2, 2);
    }
    if (c.chance(1, 3))
    {
        n.inhibitory_conductance_ = c.pick_of({0.0, 0.25, 0.5, 1.0, 1.5});
        n.inhibitory_conductance_decay_ = decay(c);
        n.reversal_inhibitory_potential_ = c.dyadic(2, 2);
    }
    if (c.chance(1, 3)) n.potential_ = c.dyadic(4, 2);
    if (c.chance(1, 3)) n.potential_reset_value_ = c.dyadic(2, 2);
    if (c.chance(1, 3))
    {
        n.bursting_period_ = c.range(0, 4);
        n.bursting_phase_ = c.range(0, 3);
        n.reflexive_weight_ = c.dyadic(3, 1);
    }
    if (c.chance(1, 4)) n.min_potential_ = c.dyadic(3, 2);
    if (c.chance(1, 4)) n.total_blocking_period_ = c.range_near(-4, 4, 1);
    if (c.chance(1, 4)) n.n_time_steps_since_last_firing_ = c.range(0, 5);
    if (c.chance(1, 8)) n.dopamine_value_ = c.dyadic(2, 2);
    if (c.chance(1, 8)) n.pre_impact_potential_ = c.dyadic(2, 2);
    if (c.chance(1, 20))
    {
        // Big values.
        n.potential_ = c.dyadic(3000, 2);
        n.activation_threshold_ = c.dyadic(3000, 2);
        if (c.flag()) n.threshold_increment_ = c.dyadic(1000, 2);
        if (c.flag()) n.potential_reset_value_ = c.dyadic(3000, 2);
        if (c.flag()) n.reversal_inhibitory_potential_ = c.dyadic(1000, 2);
        if (c.flag()) n.min_potential_ = c.dyadic(3000, 2);
    }
    if (c.chance(1, 12))
    {
        // Wide periods and counters.
        if (c.flag()) n.total_blocking_period_ = wide_signed(c);
        if (c.flag()) n.bursting_phase_ = wide_value(c);
        if (c.flag()) n.bursting_period_ = wide_value(c);
        if (c.flag()) n.absolute_refractory_period_ = wide_value(c);
        if (c.flag())
            n.n_time_steps_since_last_firing_ =
                c.flag() ? wide_value(c) : c.flag() ? (uint64_t{1} << 32) + c.range_near(-3, 3, 0) : std::numeric_limits<size_t>::max() - c.range(0, 3);
    }
}

// Periods of hundreds of steps.
inline void gen_lasting(vp::Case &c, NP<Blifat> &n)
{
    if (c.flag()) n.absolute_refractory_period_ = c.range(0, 300);
    if (c.flag()) n.bursting_period_ = c.range(0, 300);
    if (c.flag()) n.bursting_phase_ = c.range(0, 300);
    if (c.chance(1, 4)) n.total_blocking_period_ = c.range_near(-300, 300, 1);
    if (c.chance(1, 3)) n.n_time_steps_since_last_firing_ = c.range(0, 300);
}

inline void gen(vp::Case &c, NP<Lif> &n)
{
    n.activation_threshold_ = static_cast<float>(c.chance(1, 2) ? c.dyadic(4, 2) : 1.0);
    if (c.chance(1, 2)) n.leak_coefficient_ = static_cast<float>(decay(c));
    if (c.chance(1, 2)) n.potential_ = static_cast<float>(c.dyadic(4, 2));
    if (c.chance(1, 2)) n.potential_reset_value_ = static_cast<float>(c.dyadic(2, 2));
    if (c.chance(2, 3)) n.refract_period_ = c.range(0, 5);
    if (c.chance(1, 4)) n.refract_counter_ = c.range(0, 5);
    if (c.chance(1, 20))
    {
        n.potential_ = static_cast<float>(c.dyadic(3000, 2));
        n.activation_threshold_ = static_cast<float>(c.dyadic(3000, 2));
        if (c.flag()) n.potential_reset_value_ = static_cast<float>(c.dyadic(3000, 2));
    }
    if (c.chance(1, 12))
    {
        n.refract_period_ = wide_value(c);
        if (c.flag()) n.refract_counter_ = wide_value(c);
    }
}

inline void gen_lasting(vp::Case &c, NP<Lif> &n)
{
    n.refract_period_ = c.range(0, 300);
    if (c.flag()) n.refract_counter_ = c.range(0, 300);
}

inline void gen(vp::Case &c, NP<Altai> &n)
{
    n.is_diff_ = c.flag();
    n.is_reset_ = c.flag();
    n.leak_rev_ = c.flag();
    n.saturate_ = c.flag();
    n.do_not_save_ = c.chance(1, 4);
    n.activation_threshold_ = c.range(0, 6);
    n.negative_activation_threshold_ = c.flag() ? c.range(0, 8) : 30000;
    n.potential_leak_ = c.range_near(-3, 3, 0);
    n.potential_reset_value_ = c.chance(1, 2) ? c.range(0, 4) : 0;
    if (c.chance(1, 3)) n.potential_ = static_cast<float>(c.dyadic(10, 2));
    if (c.chance(1, 3)) n.additional_threshold_ = c.dyadic(2, 2);
    if (c.chance(1, 2)) n.activity_time_ = c.range_near(-4, 4, 0);
    if (c.chance(1, 8)) n.dopamine_value_ = c.dyadic(2, 2);
    if (c.chance(1, 10))
    {
        n.potential_ = static_cast<float>(c.dyadic(70000, 2));
        if (c.flag()) n.activation_threshold_ = c.range(0, 65535);
        if (c.flag()) n.negative_activation_threshold_ = c.range(0, 65535);
        if (c.flag()) n.potential_reset_value_ = c.range(0, 65535);
        if (c.flag()) n.potential_leak_ = c.range_near(-32768, 32767, 0);
    }
    if (c.chance(1, 12)) n.activity_time_ = wide_signed(c);
}

inline void gen_lasting(vp::Case &c, NP<Altai> &n)
{
    n.activity_time_ = c.range_near(-300, 300, 0);
}

template <class B>
void gen_stdp(vp::Case &c, NP<nt::SynapticResourceSTDPNeuron<B>> &n)
{
    n.isi_max_ = c.range(1, 8);
    n.dopamine_plasticity_time_ = c.range(0, 8);
    if (c.chance(1, 2)) n.synapse_sum_threshold_coefficient_ = static_cast<float>(c.dyadic(1, 3));
    n.free_synaptic_resource_ = static_cast<float>(c.dyadic(4, 2));
    n.synaptic_resource_threshold_ = c.chance(1, 4) ? std::numeric_limits<float>::max() : static_cast<float>(c.range(0, 16) / 8.0);
    n.resource_drain_coefficient_ = c.range(0, 4);
    if (c.chance(1, 2)) n.stability_ = static_cast<float>(c.dyadic(3, 1));
    if (c.chance(2, 3)) n.stability_change_parameter_ = static_cast<float>(c.dyadic(1, 3));
    if (c.chance(1, 2)) n.stability_change_at_isi_ = static_cast<float>(c.dyadic(1, 3));
    n.d_h_ = static_cast<float>(c.dyadic(2, 2));
}

template <class N>
NP<N> gen_neuron(vp::Case &c, bool lasting = false)
{
    NP<N> n;
    gen(c, static_cast<NP<typename Stdp<N>::base> &>(n));
    if (lasting) gen_lasting(c, static_cast<NP<typename Stdp<N>::base> &>(n));
    if constexpr (Stdp<N>::value) gen_stdp(c, n);
    return n;
}

struct NeuronShape
{
    size_t type;
    size_t size;
    UID uid;
    bool lasting = false;
};

inline core::AllPopulationsVariant gen_population(vp::Case &c, const NeuronShape &s)
{
    std::optional<core::AllPopulationsVariant> res;
    kg::with_neuron(
        s.type,
        [&](auto t)
        {
            using N = typename decltype(t)::type;
            // Often all neurons of a population are alike.
            const bool alike = c.flag();
            const auto first = gen_neuron<N>(c, s.lasting);
            res.emplace(core::Population<N>(
                s.uid, [&](size_t i) { return std::make_optional(alike || i == 0 ? first : gen_neuron<N>(c, s.lasting)); }, s.size));
        });
    return std::move(*res);
}

inline std::vector<Out> output_types(size_t neuron_type, bool blocking)
{
    std::vector<Out> r{Out::EXCITATORY, Out::INHIBITORY_CURRENT};
    kg::with_neuron(
        neuron_type,
        [&](auto t)
        {
            using N = typename decltype(t)::type;
            for (auto o : {Out::INHIBITORY_CONDUCTANCE, Out::DOPAMINE, Out::BLOCKING})
                if (supports<N>(o) && (o != Out::BLOCKING || blocking)) r.push_back(o);
        });
    return r;
}

// Weights are dyadic, so that sums are exact. All blocking impacts of a network have one value: several of them on one
// neuron give the same result in any order.
inline float gen_weight(vp::Case &c, Out type, int blocking_value)
{
    switch (type)
    {
        case Out::BLOCKING: return static_cast<float>(blocking_value);
        case Out::INHIBITORY_CONDUCTANCE: return static_cast<float>(c.range(0, 6) / 4.0);
        default:
            if (c.chance(1, 100)) return static_cast<float>(c.dyadic(4000, 2));
            return static_cast<float>(c.chance(1, 6) ? c.dyadic(3, 2) : c.range(1, 12) / 4.0);
    }
}

template <class S>
void gen_rule(vp::Case &c, st::synapse_parameters<S> &s)
{
    if constexpr (std::is_same_v<S, Resource>)
    {
        auto &r = s.rule_;
        r.w_min_ = static_cast<float>(c.chance(1, 3) ? c.range(-4, 0) / 4.0 : 0);
        r.w_max_ = r.w_min_ + static_cast<float>(c.range(1, 12) / 4.0);
        r.synaptic_resource_ = static_cast<float>(c.dyadic(3, 2));
        if (c.chance(1, 3)) r.d_u_ = static_cast<float>(c.range(0, 4) / 8.0);
        r.dopamine_plasticity_period_ = c.range(0, 8);
    }
    if constexpr (std::is_same_v<S, Additive>)
    {
        s.rule_.tau_plus_ = static_cast<float>(c.range(1, 3)) / (c.flag() ? 1 : 2);
        s.rule_.tau_minus_ = static_cast<float>(c.range(1, 3)) / (c.flag() ? 1 : 2);
    }
}

struct ProjShape
{
    size_t type;
    UID uid, from, to;
    size_t n_from, n_to, size;
    std::vector<Out> outputs;
    int blocking_value = 1;
    unsigned max_delay = 4;
};

inline core::AllProjectionsVariant gen_projection(vp::Case &c, const ProjShape &s)
{
    std::optional<core::AllProjectionsVariant> res;
    kg::with_synapse(
        s.type,
        [&](auto t)
        {
            using S = typename decltype(t)::type;
            using Syn = typename core::Projection<S>::Synapse;
            const unsigned far = s.max_delay > 12 ? s.max_delay : c.chance(1, 10) ? 12 : s.max_delay;
            const unsigned common_delay = c.range(1, s.max_delay);
            const bool alike = c.flag();
            res.emplace(core::Projection<S>(
                s.uid, s.from, s.to,
                [&](size_t) -> std::optional<Syn>
                {
                    st::synapse_parameters<S> p;
                    p.delay_ = alike ? common_delay : c.range(1, far);
                    p.output_type_ = c.chance(2, 3) ? Out::EXCITATORY : c.pick(s.outputs);
                    p.weight_ = gen_weight(c, p.output_type_, s.blocking_value);
                    gen_rule<S>(c, p);
                    const size_t a = c.draw(s.n_from), b = c.draw(s.n_to);
                    return Syn{p, a, b};
                },
                s.size));
        });
    return std::move(*res);
}
}  // namespace sim
