// C16: locked projections never change.
#include "knp_netgen.hpp"

using namespace sim;

namespace
{
struct Frozen
{
    bool locked;
    std::vector<std::tuple<uint64_t, uint64_t, float, unsigned, Out, float>> synapses;  // last: synaptic resource
};

std::map<UID, Frozen> freeze(Sim &s)
{
    std::map<UID, Frozen> r;
    for (auto &v : s.projections())
        std::visit(
            [&](auto &p)
            {
                using S = typename kg::ProjTraits<std::decay_t<decltype(p)>>::synapse;
                // The rule of additive STDP does not know the lock: see the known findings.
                if constexpr (std::is_same_v<S, Additive>) return;
                Frozen f{p.is_locked(), {}};
                for (size_t i = 0; i < p.size(); ++i)
                {
                    const auto &x = std::get<core::synapse_data>(p[i]);
                    float resource = 0;
                    if constexpr (std::is_same_v<S, Resource>) resource = x.rule_.synaptic_resource_;
                    f.synapses.emplace_back(source(p[i]), target(p[i]), x.weight_, x.delay_, x.output_type_, resource);
                }
                r[p.get_uid()] = f;
            },
            v);
    return r;
}

void locks(vp::Case &c, const Config &k)
{
    NetOptions o;
    o.neuron_types = k.multi ? std::vector<size_t>{0, 3, 3, 3} : std::vector<size_t>{0, 3, 3, 4, 4};
    o.synapse_types = k.multi ? std::vector<size_t>{0, 1, 1, 1} : std::vector<size_t>{0, 1, 1, 1, 1, 2};
    o.unlocked = 2;
    o.dopamine_projection = true;
    o.max_neurons = 5;
    auto g = gen_net(c, o);
    VP_NOTE(c, k.str() << "\n");
    note_net(c, g);
    Sim s(k);
    start(s, g);
    auto net = reference(g);
    auto lock_state = [&](const std::string &after)
    {
        const auto projs = s.projections();
        for (size_t i = 0; i < projs.size(); ++i)
        {
            const bool is = std::visit([](auto &p) { return p.is_locked(); }, projs[i]);
            const bool should = std::visit([](auto &p) { return p.locked; }, net.projs[i]);
            VP_EQ(c, is, should, "lock-state", "projection " << i << " after " << after);
        }
    };
    lock_state("loading");
    const size_t steps = c.len(4, 40);
    unsigned long changed = 0, held = 0, spikes_at_locked = 0;
    for (uint64_t step = 0; step < steps; ++step)
    {
        if (c.chance(1, 4))
        {
            const size_t kind = c.draw(3);
            if (kind == 0)
            {
                const bool on = c.flag();
                VP_NOTE(c, "step " << step << ": " << (on ? "start" : "stop") << " learning\n");
                on ? s.backend().start_learning() : s.backend().stop_learning();
                for (auto &p : net.projs) std::visit([&](auto &x) { x.locked = !on; }, p);
                lock_state(on ? "start_learning" : "stop_learning");
            }
            else
            {
                const size_t which = c.draw(g.projs.size());
                const bool lock = kind == 1;
                VP_NOTE(c, "step " << step << ": " << (lock ? "lock" : "unlock") << " projection " << which << "\n");
                s.each(
                    [&](auto &b)
                    {
                        auto it = b.begin_projections();
                        std::advance(it, which);
                        std::visit([&](auto &p) { lock ? p.lock_weights() : p.unlock_weights(); }, it->arg_);
                    });
                std::visit([&](auto &x) { x.locked = lock; }, net.projs[which]);
                lock_state("locking one projection");
            }
        }
        const auto in = gen_input(c, g, step, false);
        note_input(c, step, in);
        const auto before = freeze(s);
        s.step(in, {});
        const auto e = net.run(in, {});
        if (net.amb.seen)
        {
            c.label("stopped at a comparison that depends on rounding");
            break;
        }
        for (auto &[uid, now] : freeze(s))
        {
            const auto &was = before.at(uid);
            const bool same = now.synapses == was.synapses;
            VP_EQ(c, now.locked, was.locked, "lock-state", "step " << step << " changed the lock of " << std::string(uid));
            if (!was.locked)
            {
                changed += !same;
                continue;
            }
            ++held;
            if (e.impacts.count(uid)) ++spikes_at_locked;
            for (size_t i = 0; i < now.synapses.size() && i < was.synapses.size(); ++i)
                VP_CHECK(
                    c, now.synapses[i] == was.synapses[i], "locked-changed",
                    "step " << step << ", locked projection " << std::string(uid) << ", synapse " << i << ": weight " << std::get<2>(was.synapses[i]) << " became " << std::get<2>(now.synapses[i])
                            << ", resource " << std::get<5>(was.synapses[i]) << " became " << std::get<5>(now.synapses[i]));
            VP_EQ(c, now.synapses.size(), was.synapses.size(), "locked-changed", "step " << step << ", locked projection " << std::string(uid));
        }
        check_messages(c, s, e, step);
        check_state(c, s, net, step, 1, true);
    }
    if (changed >= 2 && held >= 4 && spikes_at_locked >= 2) c.nontrivial();
}

// Additive STDP learns although its projection is locked.
std::string additive_ignores_lock()
{
    Sim s{Config{}};
    nt::neuron_parameters<Blifat> n;
    core::Population<Blifat> pop(kg::make_uid(1), [&](size_t) { return std::make_optional(n); }, 1);
    st::synapse_parameters<Additive> w;
    w.weight_ = 2;
    w.delay_ = 1;
    w.output_type_ = Out::EXCITATORY;
    w.rule_.tau_plus_ = w.rule_.tau_minus_ = 1;
    core::Projection<Additive> p(kg::make_uid(2), UID{false}, kg::make_uid(1), [&](size_t) { return std::make_optional(core::Projection<Additive>::Synapse{w, 0, 0}); }, 1);
    p.get_shared_parameters().stdp_populations_[kg::make_uid(3)] = core::Projection<Additive>::SharedSynapseParameters::ProcessingType::STDPAndSpike;
    p.lock_weights();
    s.load({pop}, {p});
    s.init();
    for (uint64_t step = 0; step < 4; ++step) s.step({SpikeMessage{{kg::make_uid(3), step}, {0}}}, {});
    const auto q = std::get<core::Projection<Additive>>(s.projections()[0]);
    const float now = std::get<core::synapse_data>(q[0]).weight_;
    return now == 2 ? "" : VP_STR("additive STDP changes the weights of a locked projection (weight 2 became " << now << ")");
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule =
        "network of 1-4 populations and up to 6 projections of every synapse type, projections locked and unlocked one by one and all together during up to 40 steps; "
        "locked projections compared before and after each step, everything compared with the reference; non-trivial: a locked projection was held at 4 steps and carried spikes at 2, an unlocked one changed at 2";
    return vp::run_main(
        argc, argv, "C16",
        {
            {"single", rule, [](vp::Case &c) { locks(c, Config{}); }, 6000},
            {"multi", rule, [](vp::Case &c) { locks(c, multi_config(c)); }, 2500},
        },
        {{"additive-ignores-lock", additive_ignores_lock}}, {"the step of a synapse's last spike is recorded in locked projections, too"});
}
