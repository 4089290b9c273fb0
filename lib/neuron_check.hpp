// C08-C10: one population, arbitrary impacts, compared with the reference after every step.
#pragma once

#include "knp_sim.hpp"

namespace sim
{
inline ImpactMessage gen_impacts(vp::Case &c, const UID &from, const UID &to, uint64_t step, size_t neurons, const std::vector<Out> &outs, int blocking, size_t n)
{
    ImpactMessage m{{from, step}, kg::make_uid(5), to, c.flag(), {}};
    for (; n; --n)
    {
        const Out o = c.chance(1, 2) ? Out::EXCITATORY : c.pick(outs);
        m.impacts_.push_back(Impact{c.draw(4), gen_weight(c, o, blocking), o, static_cast<uint32_t>(c.draw(3)), static_cast<uint32_t>(c.draw(neurons))});
    }
    return m;
}

template <class N>
void neuron_run(vp::Case &c, const Config &k, size_t type, bool lasting = false)
{
    NeuronShape shape{type, c.len(1, lasting ? 3 : 7), kg::make_uid(1), lasting};
    auto pop = gen_population(c, shape);
    Sim s(k);
    s.load({pop}, {});
    s.init();
    const UID src[2] = {kg::make_uid(10), kg::make_uid(11)};
    ref::Network net;
    net.add(pop);
    for (auto &u : src)
    {
        s.feed_impacts(shape.uid, u);
        net.impact_feeds[shape.uid].insert(u);
    }
    VP_NOTE(c, k.str() << "\n" << kg::brief(pop) << "\n");
    const auto outs = output_types(type, true);
    const size_t steps = lasting ? c.range(300, 700) : c.len(2, 40);
    unsigned spikes = 0, quiet_after = 0, blockings = 0;
    for (uint64_t step = 0; step < steps; ++step)
    {
        std::vector<ImpactMessage> in;
        const size_t msgs = lasting ? c.weighted({8, 1, 0}) : c.weighted({2, 4, 1});
        // One value for all blocking impacts of a step: their result does not depend on the order of the messages.
        const int blocking = static_cast<int>(c.chance(1, 6) ? wide_signed(c) : c.range_near(-4, 5, 1));
        for (size_t i = 0; i < msgs; ++i) in.push_back(gen_impacts(c, src[i % 2], shape.uid, step, shape.size, outs, blocking, c.len(1, 6)));
        for (auto &m : in)
            for (auto &i : m.impacts_) blockings += i.synapse_type_ == Out::BLOCKING;
        for (auto &m : in) VP_NOTE(c, "step " << step << ": impacts " << m << "\n");
        s.step({}, in);
        const auto expected = net.run({}, in);
        if (net.amb.seen)
        {
            c.label("stopped at a comparison that depends on rounding");
            break;
        }
        check_messages(c, s, expected, step);
        check_state(c, s, net, step, 1, false);
        if (!expected.spikes.empty()) ++spikes;
        else if (spikes) ++quiet_after;
    }
    if (blockings) c.label("with blocking impacts");
    if (spikes >= 2 && quiet_after >= 1) c.nontrivial();
}

// An impact type the neuron does not support is rejected by an exception.
template <class N>
void unsupported_run(vp::Case &c, size_t type)
{
    std::vector<Out> bad;
    for (auto o : {Out::EXCITATORY, Out::INHIBITORY_CURRENT, Out::INHIBITORY_CONDUCTANCE, Out::DOPAMINE, Out::BLOCKING})
        if (!supports<N>(o)) bad.push_back(o);
    NeuronShape shape{type, c.len(1, 4), kg::make_uid(1)};
    auto pop = gen_population(c, shape);
    Sim s(Config{});
    s.load({pop}, {});
    s.init();
    const UID src = kg::make_uid(10);
    s.feed_impacts(shape.uid, src);
    auto good = output_types(type, true);
    const size_t steps = c.range(0, 4);
    for (uint64_t i = 0; i < steps; ++i) s.step({}, {gen_impacts(c, src, shape.uid, i, shape.size, good, 1, c.len(0, 4))});
    auto m = gen_impacts(c, src, shape.uid, steps, shape.size, good, 1, c.len(1, 5));
    const size_t at = c.draw(m.impacts_.size());
    m.impacts_[at].synapse_type_ = bad.empty() ? static_cast<Out>(17) : c.pick(bad);
    VP_NOTE(c, kg::brief(pop) << "\nstep " << steps << ": impacts " << m << "\n");
    c.nontrivial();
    VP_CHECK(c, vp::throws([&] { s.step({}, {m}); }), "unsupported-impact", "the step accepted an impact of type " << static_cast<int>(m.impacts_[at].synapse_type_));
}
}  // namespace sim
