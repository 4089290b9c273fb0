// Generated networks with input channels, for the checks of whole networks.
#pragma once

#include "knp_sim.hpp"

namespace sim
{
struct NetOptions
{
    std::vector<size_t> neuron_types{0, 1, 2, 3, 4};
    std::vector<size_t> synapse_types{0};
    bool blocking = true;
    size_t max_pops = 4, max_neurons = 6, max_projs = 6, max_synapses = 24;
    unsigned unlocked = 0;            // chance of a projection to be unlocked, in quarters
    bool lost_targets = true;         // with odd_ends: projections to populations that are not there
    bool odd_ends = true;             // projections without postsynaptic population, or fed only by channels
    bool dopamine_projection = false; // adds a projection of dopamine synapses to plastic populations
};

struct GeneratedNet
{
    std::vector<core::AllPopulationsVariant> pops;
    std::vector<NeuronShape> shapes;
    std::vector<core::AllProjectionsVariant> projs;
    std::vector<ProjShape> proj_shapes;
    std::vector<std::set<size_t>> feeds;  // channels of each projection
    size_t channels = 0;
    size_t channel_width = 5;
};

inline UID pop_uid(size_t i) { return kg::make_uid(100 + i); }
inline UID proj_uid(size_t i) { return kg::make_uid(200 + i); }
inline UID channel_uid(size_t i) { return kg::make_uid(300 + i); }

inline GeneratedNet gen_net(vp::Case &c, const NetOptions &o)
{
    GeneratedNet g;
    const size_t n_pops = c.range(1, o.max_pops);
    for (size_t i = 0; i < n_pops; ++i)
    {
        NeuronShape s{c.pick(o.neuron_types), static_cast<size_t>(c.len(1, o.max_neurons)), pop_uid(i)};
        g.pops.push_back(gen_population(c, s));
        g.shapes.push_back(s);
    }
    g.channels = c.range(1, 3);
    const int blocking_value = static_cast<int>(c.range_near(-3, 4, 1));
    const size_t n_projs = c.len(1, o.max_projs);
    for (size_t i = 0; i < n_projs; ++i)
    {
        ProjShape s;
        s.type = c.pick(o.synapse_types);
        s.uid = proj_uid(i);
        s.blocking_value = blocking_value;
        const bool first = i == 0;  // the first one feeds the network
        const size_t from = c.draw(n_pops);
        const bool input_only = first || (o.odd_ends && c.chance(1, 4));
        s.from = input_only ? (c.flag() ? UID{false} : channel_uid(7)) : pop_uid(from);
        s.n_from = input_only ? g.channel_width : g.shapes[from].size;
        const size_t to = c.draw(n_pops);
        const bool no_target = !first && o.odd_ends && c.chance(1, 12) && o.lost_targets;
        s.to = no_target ? (c.flag() ? UID{false} : kg::make_uid(9999)) : pop_uid(to);
        s.n_to = no_target ? 5 : g.shapes[to].size;
        s.size = c.len(0, o.max_synapses);
        // Learning would give blocking synapses of one neuron different values, and the order in which they apply counts.
        s.outputs = output_types(no_target ? 0 : g.shapes[to].type, o.blocking && !(s.type == 1 && o.unlocked));
        if (o.dopamine_projection && !no_target && g.shapes[to].type >= 3 && c.chance(1, 3))
            s.outputs = {Out::DOPAMINE}, s.type = 0;
        g.projs.push_back(gen_projection(c, s));
        if (c.chance(o.unlocked, 4)) std::visit([](auto &p) { p.unlock_weights(); }, g.projs.back());
        std::set<size_t> f;
        if (first || input_only || c.chance(1, 4)) f.insert(c.draw(g.channels));
        if (c.chance(1, 6)) f.insert(c.draw(g.channels));
        g.feeds.push_back(f);
        g.proj_shapes.push_back(s);
    }
    return g;
}

inline void note_net(vp::Case &c, const GeneratedNet &g)
{
    if (!c.noting()) return;
    for (auto &p : g.pops) VP_NOTE(c, kg::brief(p) << "\n");
    for (size_t i = 0; i < g.projs.size(); ++i)
    {
        VP_NOTE(c, kg::brief(g.projs[i]) << "\n");
        if (!g.feeds[i].empty()) VP_NOTE(c, "  fed by channels " << vp::join(g.feeds[i]) << "\n");
    }
}

inline void start(Sim &s, const GeneratedNet &g)
{
    s.load(g.pops, g.projs);
    s.init();
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (auto ch : g.feeds[i]) s.feed_spikes(g.proj_shapes[i].uid, channel_uid(ch));
}

inline ref::Network reference(const GeneratedNet &g)
{
    ref::Network net;
    for (auto &p : g.pops) net.add(p);
    for (auto &p : g.projs) net.add(p);
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (auto ch : g.feeds[i]) net.spike_feeds[g.proj_shapes[i].uid].insert(channel_uid(ch));
    return net;
}

// Spikes of the input channels at a step: any indexes, possibly repeated or not used by any synapse.
inline std::vector<SpikeMessage> gen_input(vp::Case &c, const GeneratedNet &g, uint64_t step, bool repeats)
{
    std::vector<SpikeMessage> r;
    for (size_t ch = 0; ch < g.channels; ++ch)
    {
        const size_t msgs = c.weighted({3, 6, repeats ? 1u : 0u});
        for (size_t k = 0; k < msgs; ++k)
        {
            SpikeMessage m{{channel_uid(ch), step}, {}};
            if (repeats)
                for (size_t n = c.range(0, 5); n; --n) m.neuron_indexes_.push_back(c.draw(g.channel_width + 1));
            else
                for (size_t i = 0; i <= g.channel_width; ++i)
                    if (c.flag()) m.neuron_indexes_.push_back(i);
            r.push_back(m);
        }
    }
    return r;
}

inline void note_input(vp::Case &c, uint64_t step, const std::vector<SpikeMessage> &in)
{
    for (auto &m : in) VP_NOTE(c, "step " << step << ": input spikes " << m << "\n");
}
}  // namespace sim
