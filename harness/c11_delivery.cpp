// C11: a spike is delivered through every synapse exactly once, after its delay.
#include "knp_netgen.hpp"

#include <random>
#include <unordered_map>

using namespace sim;

namespace
{
// Changes a synapse, adds or removes some, on the backend and in the reference alike.
void edit(vp::Case &c, Sim &s, ref::Network &net, const GeneratedNet &g)
{
    const size_t which = c.draw(net.projs.size());
    const size_t kind = c.draw(3);
    const uint64_t a = c.draw(g.proj_shapes[which].n_from), b = c.draw(g.proj_shapes[which].n_to);
    const unsigned delay = c.range(1, 4);
    const float w = static_cast<float>(c.range(1, 8) / 4.0);
    const uint64_t pos = c.draw(64);
    s.each(
        [&](auto &backend)
        {
            auto it = backend.begin_projections();
            std::advance(it, which);
            std::visit(
                [&](auto &p)
                {
                    using S = typename kg::ProjTraits<std::decay_t<decltype(p)>>::synapse;
                    auto &r = std::get<Proj<S>>(net.projs[which]);
                    if (kind == 0 && p.size())
                    {
                        VP_NOTE(c, "set weight of synapse " << pos % p.size() << " of projection " << which << " to " << w << "\n");
                        auto &x = std::get<core::synapse_data>(p[pos % p.size()]);
                        if (x.output_type_ == Out::BLOCKING) return;
                        x.weight_ = w;
                        params(r.synapses[pos % p.size()]).weight_ = w;
                    }
                    else if (kind == 1)
                    {
                        VP_NOTE(c, "add synapse " << a << "->" << b << " delay " << delay << " weight " << w << " to projection " << which << "\n");
                        st::synapse_parameters<S> x;
                        x.weight_ = w;
                        x.delay_ = delay;
                        x.output_type_ = Out::EXCITATORY;
                        p.add_synapses([&](size_t) { return typename core::Projection<S>::Synapse{x, a, b}; }, 1);
                        r.synapses.push_back({x, a, b});
                    }
                    else if (p.size())
                    {
                        VP_NOTE(c, "remove synapse " << pos % p.size() << " of projection " << which << "\n");
                        p.remove_synapse(pos % p.size());
                        r.synapses.erase(r.synapses.begin() + pos % r.synapses.size());
                    }
                },
                it->arg_);
        });
}

void delivery(vp::Case &c, const Config &k, bool repeats)
{
    NetOptions o;
    o.synapse_types = {0, 0, 1, 2};
    if (k.multi)
    {
        o.neuron_types = {0, 1, 3};
        o.synapse_types = {0, 0, 1};
    }
    auto g = gen_net(c, o);
    VP_NOTE(c, k.str() << "\n");
    note_net(c, g);
    Sim s(k);
    start(s, g);
    auto net = reference(g);
    const size_t steps = c.len(3, 30);
    bool shared_source = false, edited = false;
    unsigned long emitted = 0, sent = 0;
    const bool edits = c.chance(1, 3);
    for (uint64_t step = 0; step < steps; ++step)
    {
        if (edits && c.chance(1, 5))
        {
            edit(c, s, net, g);
            edited = true;
        }
        const auto in = gen_input(c, g, step, repeats);
        note_input(c, step, in);
        s.step(in, {});
        const auto e = net.run(in, {});
        if (net.amb.seen)
        {
            c.label("stopped at a comparison that depends on rounding");
            break;
        }
        check_messages(c, s, e, step);
        check_state(c, s, net, step, 1, false);
        emitted += e.spikes.size();
        for (auto &[u, m] : e.impacts) sent += m.impacts_.size();
    }
    for (auto &p : g.proj_shapes)
        for (auto &q : g.proj_shapes) shared_source = shared_source || (p.uid != q.uid && p.from == q.from && p.from && p.to == q.to);
    if (shared_source) c.label("parallel projections");
    if (edited) c.label("edited during the run");
    if (emitted >= 3 && net.delivered >= 10 && sent >= 10) c.nontrivial();
}

// Many neurons and synapses and long delays. The contents come from a generator seeded by one choice.
template <class S>
void large(vp::Case &c, const Config &k)
{
    std::mt19937_64 rng(c.bits64());
    auto below = [&](uint64_t n) { return rng() % n; };
    const size_t n_pre = 1 + below(uint64_t{1} << c.range(1, 17)), n_post = 1 + below(uint64_t{1} << c.range(1, 14)), n_syn = below(uint64_t{1} << c.range(1, 12));
    const unsigned max_delay = 1 + below(uint64_t{1} << c.range(0, 9));
    const size_t steps = c.range(1, 400), fire_every = c.range(1, 40);
    const bool huge_delays = c.chance(1, 4), repeated = c.chance(1, 4);
    const UID post = kg::make_uid(1), proj = kg::make_uid(2), channel = kg::make_uid(3), watcher = kg::make_uid(4);
    core::Population<Lif> pop(
        post, [](size_t) { NP<Lif> n; n.activation_threshold_ = std::numeric_limits<float>::max(); n.leak_coefficient_ = 1; return n; }, n_post);
    std::vector<typename core::Projection<S>::Synapse> synapses;
    for (size_t i = 0; i < n_syn; ++i)
    {
        st::synapse_parameters<S> p;
        p.weight_ = static_cast<float>(1 + below(64)) / 4;
        p.delay_ = 1 + below(max_delay);
        // Far beyond the run.
        if (huge_delays && below(4) == 0) p.delay_ += below(2) ? uint32_t{1} << (8 + below(24)) : 0x7fffffff + below(0x7ffffff0);
        p.output_type_ = below(3) ? Out::EXCITATORY : Out::INHIBITORY_CURRENT;
        // Some neurons have many synapses.
        synapses.push_back({p, below(3) ? below(n_pre) : below(std::min<size_t>(n_pre, 3)), below(n_post)});
    }
    core::Projection<S> projection(proj, UID{false}, post, [&](size_t i) { return std::make_optional(synapses[i]); }, n_syn);
    VP_NOTE(c, k.str() << "\n" << n_syn << " synapses from " << n_pre << " to " << n_post << " neurons, delays up to " << max_delay << ", " << steps << " steps\n");
    Sim s(k);
    s.load({pop}, {projection});
    s.init();
    s.feed_spikes(proj, channel);
    // step -> (postsynaptic neuron, connection) -> number of impacts
    std::map<uint64_t, std::map<size_t, size_t>> expected;
    std::vector<double> potential(n_post);
    std::unordered_map<size_t, std::vector<size_t>> from;
    for (size_t i = 0; i < n_syn; ++i) from[std::get<core::source_neuron_id>(synapses[i])].push_back(i);
    unsigned long delivered = 0;
    for (uint64_t step = 0; step < steps; ++step)
    {
        std::vector<SpikeMessage> in;
        if (below(fire_every) == 0)
        {
            SpikeMessage m{{channel, step}, {}};
            std::set<size_t> spikes;
            const size_t n = below(2) ? 1 + below(4) : below(std::min<size_t>(n_pre, 500));
            for (size_t i = 0; i < n; ++i) spikes.insert(below(4) ? below(n_pre) : below(std::min<size_t>(n_pre, 3)));
            for (auto i : spikes)
            {
                m.neuron_indexes_.push_back(i);
                size_t times = 1;
                if (repeated && below(40) == 0)  // A neuron that fires many times within the step.
                    for (const size_t more = below(2) ? below(4) : below(600); times <= more; ++times) m.neuron_indexes_.push_back(i);
                for (auto x : from[i]) expected[step + std::get<core::synapse_data>(synapses[x]).delay_ - 1][x] += times;
            }
            in.push_back(m);
        }
        s.step(in, {});
        std::map<size_t, size_t> seen;
        for (auto &m : s.impacts)
        {
            VP_CHECK(c, m.header_.sender_uid_ == proj && m.postsynaptic_population_uid_ == post && m.presynaptic_population_uid_ == UID{false}, "impact-header", "step " << step << ": " << m);
            for (auto &i : m.impacts_)
            {
                VP_CHECK(c, i.connection_index_ < n_syn, "impact", "step " << step << ": connection " << i.connection_index_);
                auto &[p, a, b] = synapses[i.connection_index_];
                VP_CHECK(
                    c, i.presynaptic_neuron_index_ == a && i.postsynaptic_neuron_index_ == b && i.synapse_type_ == p.output_type_ && i.impact_value_ == p.weight_,
                    "impact", "step " << step << ": connection " << i.connection_index_ << " from " << a << " to " << b << " weight " << p.weight_ << ": impact " << i.presynaptic_neuron_index_
                                      << " to " << i.postsynaptic_neuron_index_ << " value " << i.impact_value_);
                ++seen[i.connection_index_];
            }
        }
        for (auto &[x, n] : expected[step])
        {
            VP_EQ(c, seen[x], n, "impacts", "step " << step << ": impacts of connection " << x);
            const auto &p = std::get<core::synapse_data>(synapses[x]);
            potential[std::get<core::target_neuron_id>(synapses[x])] += (p.output_type_ == Out::EXCITATORY ? 1 : -1) * static_cast<double>(p.weight_) * n;
            delivered += n;
        }
        VP_EQ(c, seen.size(), expected[step].size(), "impacts", "step " << step << ": connections that sent impacts");
        expected.erase(step);
    }
    // Impacts of the last step reach the neurons in the next one.
    s.step({}, {});
    auto pops = s.populations();
    const auto &result = std::get<core::Population<Lif>>(pops[0]);
    for (size_t i = 0; i < n_post; ++i) VP_EQ(c, static_cast<double>(result[i].potential_), potential[i], "delivered", "neuron " << i << " after " << steps << " steps");
    if (delivered >= 10) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule =
        "network of 1-4 populations and up to 6 projections (recurrent, parallel, dangling, fed by channels) with delays 1-12, up to 30 steps of generated input spikes, "
        "some with edits of synapses in between; every spike and impact message, neuron and synapse compared with the reference after every step; "
        "non-trivial: at least 3 spike messages of populations and 10 impacts sent and delivered";
    const std::string big =
        "one projection of up to 4096 synapses from up to 131072 neurons (fed by a channel) to up to 16384 neurons, delays up to 512, up to 400 steps with up to 500 spikes in a message: the impacts of "
        "every step are exactly the due ones, the potentials are their sums; non-trivial: at least 10 impacts delivered";
    return vp::run_main(
        argc, argv, "C11",
        {
            {"single", rule, [](vp::Case &c) { delivery(c, Config{}, false); }, 6000},
            {"single_repeated_spikes", rule, [](vp::Case &c) { delivery(c, Config{}, true); }, 4000},
            {"multi", rule, [](vp::Case &c) { delivery(c, multi_config(c), false); }, 3000},
            {"multi_repeated_spikes", rule, [](vp::Case &c) { delivery(c, multi_config(c), true); }, 1500},
            {"large_single", big, [](vp::Case &c) { c.chance(1, 2) ? large<st::DeltaSynapse>(c, Config{}) : large<st::SynapticResourceSTDPDeltaSynapse>(c, Config{}); }, 400, 0.4},
            {"large_multi", big, [](vp::Case &c) { auto k = multi_config(c); c.chance(1, 2) ? large<st::DeltaSynapse>(c, k) : large<st::SynapticResourceSTDPDeltaSynapse>(c, k); }, 150, 0.3},
        },
        {}, {"delays are at least 1 step", "weights are locked (learning is judged by C14 and C15)"});
}
