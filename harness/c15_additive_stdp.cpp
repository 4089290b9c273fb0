// C15: additive STDP changes weights only as its rule says.
#include "knp_netgen.hpp"

using namespace sim;

namespace
{
void learning(vp::Case &c)
{
    NetOptions o;
    o.neuron_types = {0, 1, 2, 3};
    o.synapse_types = {2, 2, 2, 0};
    o.max_neurons = 5;
    // Weights of this rule become any real numbers, so that blocking values would depend on the order of impacts.
    o.blocking = false;
    auto g = gen_net(c, o);
    // The populations and channels that train each projection.
    using Kind = core::Projection<Additive>::SharedSynapseParameters::ProcessingType;
    bool both = false;
    for (size_t i = 0; i < g.projs.size(); ++i)
    {
        auto *p = std::get_if<core::Projection<Additive>>(&g.projs[i]);
        if (!p) continue;
        auto &trainers = p->get_shared_parameters().stdp_populations_;
        auto kind = [&] { return c.flag() ? Kind::STDPOnly : Kind::STDPAndSpike; };
        if (c.chance(3, 4) && p->get_presynaptic()) trainers[p->get_presynaptic()] = c.chance(1, 6) ? Kind::STDPOnly : Kind::STDPAndSpike;
        if (c.chance(3, 4) && p->get_postsynaptic()) trainers[p->get_postsynaptic()] = kind();
        if (c.chance(1, 3)) trainers[channel_uid(c.draw(g.channels))] = kind();
        if (c.chance(1, 6)) trainers[c.pick(g.shapes).uid] = kind();
        both = both || trainers.size() > 1;
        // Spike times recorded before the run: as many as the rule keeps.
        if (c.chance(1, 6) && p->size())
        {
            auto &r = std::get<core::synapse_data>((*p)[c.draw(p->size())]).rule_;
            if (r.tau_plus_ + r.tau_minus_ > 1) r.presynaptic_spike_times_ = {0};
        }
    }
    note_net(c, g);
    if (c.noting())
        for (auto &v : g.projs)
            if (auto *p = std::get_if<core::Projection<Additive>>(&v))
                for (auto &[uid, kind] : std::map<UID, Kind>(p->get_shared_parameters().stdp_populations_.begin(), p->get_shared_parameters().stdp_populations_.end()))
                    VP_NOTE(c, std::string(p->get_uid()) << " is trained by " << std::string(uid) << (kind == Kind::STDPOnly ? " (STDP only)\n" : " (STDP and spikes)\n"));
    Sim s{Config{}};
    start(s, g);
    auto net = reference(g);
    const size_t steps = c.len(4, 40);
    for (uint64_t step = 0; step < steps; ++step)
    {
        const auto in = gen_input(c, g, step, c.chance(1, 4));
        note_input(c, step, in);
        s.step(in, {});
        const auto e = net.run(in, {});
        if (net.amb.seen)
        {
            c.label("stopped at a comparison that depends on rounding");
            break;
        }
        check_messages(c, s, e, step);
        check_state(c, s, net, step, 1, false);
    }
    if (net.ltp_pairs) c.label("potentiating pairs");
    if (net.ltd_pairs) c.label("depressing pairs");
    if (both) c.label("several trainers");
    if (net.weight_changes >= 2 && net.ltp_pairs && net.ltd_pairs) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C15",
        {
            {"single",
             "network of 1-4 populations with additive-STDP projections trained by their presynaptic and postsynaptic populations, channels or others, as STDP only or STDP and spikes, up to 40 steps; "
             "spike histories, weights and every other parameter compared with the reference rule after every step; non-trivial: at least 2 weight changes with potentiating and depressing pairs",
             learning, 8000},
        },
        {}, {"only the single-threaded backend supports this rule", "a spike of a training population counts as a postsynaptic spike of the synapses that end at its index; one of kind STDPAndSpike also as a presynaptic spike of those that start there"});
}
