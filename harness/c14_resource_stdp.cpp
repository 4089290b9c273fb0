// C14: synaptic resource STDP changes weights only as its rule says.
#include "knp_netgen.hpp"

using namespace sim;

namespace
{
template <class F>
void each_resource(Sim &s, F &&f)
{
    for (auto &v : s.projections())
        if (auto *p = std::get_if<core::Projection<Resource>>(&v)) f(*p);
}

// Resource of each plastic neuron: its own and that of its synapses. Independent of the reference model.
struct Balance
{
    double total = 0, free = 0, scale = 1;
    size_t drain = 0, synapses = 0;
    bool locked = false;
};

std::map<std::pair<UID, size_t>, Balance> balances(Sim &s)
{
    std::map<std::pair<UID, size_t>, Balance> r;
    for (auto &v : s.populations())
        std::visit(
            [&](auto &p)
            {
                using N = typename kg::PopTraits<std::decay_t<decltype(p)>>::neuron;
                if constexpr (Stdp<N>::value)
                    for (size_t i = 0; i < p.size(); ++i)
                    {
                        auto &b = r[{p.get_uid(), i}];
                        b.total = b.free = p[i].free_synaptic_resource_;
                        b.scale += std::fabs(b.free);
                        b.drain = p[i].resource_drain_coefficient_;
                    }
            },
            v);
    each_resource(
        s,
        [&](auto &p)
        {
            for (size_t i = 0; i < p.size(); ++i)
            {
                auto it = r.find({p.get_postsynaptic(), target(p[i])});
                if (it == r.end()) continue;
                const double x = std::get<core::synapse_data>(p[i]).rule_.synaptic_resource_;
                it->second.total += x;
                it->second.scale += std::fabs(x);
                if (!p.is_locked()) ++it->second.synapses;
            }
        });
    return r;
}

void learning(vp::Case &c, bool multi)
{
    NetOptions o;
    o.neuron_types = multi ? std::vector<size_t>{3, 3, 3, 0} : std::vector<size_t>{3, 3, 4, 4, 0, 2};
    o.synapse_types = {0, 1, 1, 1};
    o.unlocked = 3;
    o.dopamine_projection = true;
    o.max_neurons = 5;
    auto g = gen_net(c, o);
    const auto k = multi ? multi_config(c) : Config{};
    VP_NOTE(c, k.str() << "\n");
    note_net(c, g);
    Sim s(k);
    start(s, g);
    auto net = reference(g);
    const UID source = kg::make_uid(11);
    const bool teacher = c.chance(2, 3);  // forcing and dopamine impacts from outside
    if (teacher)
        for (auto &p : g.shapes)
            if (p.type >= 3)
            {
                s.feed_impacts(p.uid, source);
                net.impact_feeds[p.uid].insert(source);
            }
    const size_t steps = c.len(4, 40);
    std::set<std::pair<UID, size_t>> learned;  // synapses whose weight the rule has computed
    unsigned long changed_weights = 0;
    for (uint64_t step = 0; step < steps; ++step)
    {
        if (c.chance(1, 10))
        {
            const bool on = c.chance(2, 3);
            VP_NOTE(c, "step " << step << ": " << (on ? "start" : "stop") << " learning\n");
            on ? s.backend().start_learning() : s.backend().stop_learning();
            for (auto &p : net.projs) std::visit([&](auto &x) { x.locked = !on; }, p);
        }
        const auto in = gen_input(c, g, step, false);
        note_input(c, step, in);
        std::vector<ImpactMessage> direct;
        if (teacher && c.chance(1, 3))
        {
            size_t width = 100;
            for (auto &p : g.shapes)
                if (p.type >= 3) width = std::min(width, p.size);
            ImpactMessage m{{source, step}, source, g.shapes[0].uid, c.flag(), {}};
            for (size_t n = c.range(1, 3); n; --n)
            {
                const bool dopamine = c.flag();
                const float v = static_cast<float>(dopamine ? c.range_near(-4, 4, 1) / 2.0 : c.range(1, 12) / 2.0);
                m.impacts_.push_back(Impact{0, v, dopamine ? Out::DOPAMINE : Out::EXCITATORY, 0, static_cast<uint32_t>(c.draw(width))});
            }
            VP_NOTE(c, "step " << step << ": direct impacts " << m << "\n");
            direct.push_back(m);
        }
        const auto before = balances(s);
        std::map<std::pair<UID, size_t>, st::synapse_parameters<Resource>> old;
        each_resource(
            s,
            [&](auto &p)
            {
                for (size_t i = 0; i < p.size(); ++i) old[{p.get_uid(), i}] = std::get<core::synapse_data>(p[i]);
            });
        s.step(in, direct);
        const auto e = net.run(in, direct);
        if (net.amb.seen)
        {
            c.label("stopped at a comparison that depends on rounding");
            break;
        }
        // Invariants of the rule that hold whatever the history.
        each_resource(
            s,
            [&](auto &p)
            {
                for (size_t i = 0; i < p.size(); ++i)
                {
                    const auto &now = std::get<core::synapse_data>(p[i]);
                    const auto &was = old[{p.get_uid(), i}];
                    if (now.weight_ != was.weight_) learned.insert({p.get_uid(), i}), ++changed_weights;
                    if (!learned.count({p.get_uid(), i})) continue;
                    const float eps = 1e-5F * (1 + std::fabs(now.rule_.w_max_) + std::fabs(now.rule_.w_min_));
                    VP_CHECK(
                        c, now.weight_ >= now.rule_.w_min_ - eps && now.weight_ <= now.rule_.w_max_ + eps, "weight-bounds",
                        "after step " << step << ", synapse " << i << " of " << std::string(p.get_uid()) << ": weight " << now.weight_ << " outside [" << now.rule_.w_min_ << ", " << now.rule_.w_max_ << "]");
                }
            });
        for (auto &[key, b] : balances(s))
        {
            const auto &a = before.at(key);
            // Without synapses there is nothing to distribute the free resource to.
            if (!b.synapses) continue;
            // What redistribution drains is lost only when the free resource is given away entirely.
            if (b.free == 0 && b.drain != 0) continue;
            VP_CHECK(
                c, std::fabs(a.total - b.total) <= 1e-4 * (a.scale + b.scale), "conservation",
                "step " << step << ", neuron " << key.second << " of " << std::string(key.first) << ": total resource " << a.total << " became " << b.total);
        }
        check_messages(c, s, e, step);
        check_state(c, s, net, step, 1, true);
    }
    if (net.stats.hebbian) c.label("hebbian update");
    if (net.stats.dopamine) c.label("dopamine");
    if (net.stats.forced) c.label("forced spikes");
    if (net.stats.continued) c.label("ISI period continued");
    if (net.stats.renormalised) c.label("redistribution");
    if (changed_weights >= 3 && net.stats.hebbian && net.stats.spikes >= 3) c.nontrivial();
}

// The rule credits a synapse that has had no spike: its last spike step is 0, a step like any other.
std::string never_spiked()
{
    Sim s{Config{}};
    nt::neuron_parameters<StdpBlifat> n;
    n.activation_threshold_ = 0.5;
    n.isi_max_ = 5;
    n.d_h_ = 1;
    core::Population<StdpBlifat> pop(kg::make_uid(1), [&](size_t) { return std::make_optional(n); }, 1);
    st::synapse_parameters<Resource> w;
    w.weight_ = 0;
    w.rule_.w_min_ = 0;
    w.rule_.w_max_ = 1;
    w.rule_.dopamine_plasticity_period_ = 5;
    core::Projection<Resource> plastic(kg::make_uid(2), kg::make_uid(3), kg::make_uid(1), [&](size_t) { return std::make_optional(core::Projection<Resource>::Synapse{w, 0, 0}); }, 1);
    plastic.unlock_weights();
    s.load({pop}, {plastic});
    s.init();
    s.feed_impacts(kg::make_uid(1), kg::make_uid(4));
    for (uint64_t step = 0; step < 3; ++step)
        s.step({}, {ImpactMessage{{kg::make_uid(4), step}, kg::make_uid(4), kg::make_uid(1), false, {Impact{0, 5.0F, Out::EXCITATORY, 0, 0}}}});
    const auto p = std::get<core::Projection<Resource>>(s.projections()[0]);
    const auto r = std::get<core::synapse_data>(p[0]).rule_.synaptic_resource_;
    return r == 0 ? "" : VP_STR("resource STDP: a synapse that never carried a spike has last_spike_step_ 0 and is credited as if it had carried one at step 0 (resource " << r << ")");
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule =
        "network of 1-4 populations of resource-STDP neurons (and others) with unlocked and locked projections, dopamine projections, forcing and dopamine impacts from outside, learning switched on and off, "
        "up to 40 steps; neurons and synapses compared with the reference rule after every step, weight bounds and conservation of resource checked on the actual state; "
        "non-trivial: at least 3 weight changes, 3 spikes and a hebbian update";
    return vp::run_main(
        argc, argv, "C14",
        {
            {"single", rule, [](vp::Case &c) { learning(c, false); }, 7000},
            {"multi", rule, [](vp::Case &c) { learning(c, true); }, 2500},
        },
        {{"never-spiked-synapse", never_spiked}},
        {"isi_max is at least 1 and w_max greater than w_min", "a synapse's last spike step is taken as given: 0 means step 0"});
}
