// C12: the multi-threaded backend computes what the single-threaded one does.
#include "knp_netgen.hpp"

#include <random>

using namespace sim;

namespace
{
template <class M, class Key>
std::vector<std::string> sorted(const std::vector<M> &v, Key &&key)
{
    std::vector<std::string> r;
    for (auto &m : v) r.push_back(key(m));
    std::sort(r.begin(), r.end());
    return r;
}

std::string spike_text(const SpikeMessage &m)
{
    auto i = m.neuron_indexes_;
    std::sort(i.begin(), i.end());
    return VP_STR("spikes of " << std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << ": " << vp::join(i));
}

std::string impact_text(const ImpactMessage &m)
{
    std::vector<std::string> i;
    for (auto &x : m.impacts_)
        i.push_back(VP_STR(x.connection_index_ << ":" << kg::value_str(x.impact_value_) << "/" << static_cast<int>(x.synapse_type_) << "/" << x.presynaptic_neuron_index_ << ">" << x.postsynaptic_neuron_index_));
    std::sort(i.begin(), i.end());
    return VP_STR("impacts of " << std::string(m.header_.sender_uid_) << " " << std::string(m.presynaptic_population_uid_) << "->" << std::string(m.postsynaptic_population_uid_)
                                << (m.is_forcing_ ? " forcing" : "") << ": " << vp::join(i, ", "));
}

void compare(vp::Case &c, bool plastic, bool direct)
{
    NetOptions o;
    o.neuron_types = plastic ? std::vector<size_t>{0, 1, 3, 3, 3} : std::vector<size_t>{0, 1, 3};
    o.synapse_types = plastic ? std::vector<size_t>{0, 1, 1} : std::vector<size_t>{0, 0, 1};
    o.unlocked = plastic ? 3 : 0;
    o.dopamine_projection = plastic;
    o.max_neurons = 12;
    o.max_synapses = 60;
    auto g = gen_net(c, o);
    const auto k = multi_config(c);
    VP_NOTE(c, k.str() << "\n");
    note_net(c, g);
    Sim single{Config{}}, multi(k);
    start(single, g);
    start(multi, g);
    auto net = reference(g);  // only to notice steps whose result depends on the order of additions
    const UID source = kg::make_uid(11);
    if (direct)
        for (auto &p : g.shapes)
        {
            single.feed_impacts(p.uid, source);
            multi.feed_impacts(p.uid, source);
            net.impact_feeds[p.uid].insert(source);
        }
    const size_t steps = c.len(3, 30);
    unsigned long spikes = 0, impacts = 0;
    bool learning_switched = false;
    for (uint64_t step = 0; step < steps; ++step)
    {
        if (plastic && c.chance(1, 8))
        {
            const bool on = c.flag();
            VP_NOTE(c, "step " << step << ": " << (on ? "start" : "stop") << " learning\n");
            for (auto *s : {&single, &multi}) on ? s->backend().start_learning() : s->backend().stop_learning();
            for (auto &p : net.projs) std::visit([&](auto &x) { x.locked = !on; }, p);
            learning_switched = true;
        }
        const auto in = gen_input(c, g, step, true);
        note_input(c, step, in);
        std::vector<ImpactMessage> direct_in;
        if (direct && c.flag())
        {
            // Every population subscribed to the source takes the message: only impacts that all of them can take.
            size_t width = 100;
            for (auto &p : g.shapes) width = std::min(width, p.size);
            ImpactMessage m{{source, step}, source, g.shapes[0].uid, c.flag(), {}};
            for (size_t n = c.range(1, 5); n; --n)
                m.impacts_.push_back(Impact{0, static_cast<float>(c.range(1, 12) / 4.0), c.flag() ? Out::EXCITATORY : Out::INHIBITORY_CURRENT, 0, static_cast<uint32_t>(c.draw(width))});
            VP_NOTE(c, "step " << step << ": direct impacts " << m << "\n");
            direct_in.push_back(m);
        }
        single.step(in, direct_in);
        multi.step(in, direct_in);
        net.run(in, direct_in);
        if (net.amb.seen)
        {
            c.label("stopped at a comparison that depends on rounding");
            break;
        }
        const auto a = sorted(multi.spikes, spike_text), b = sorted(single.spikes, spike_text);
        VP_CHECK(c, a == b, "spikes", "step " << step << ": multi-threaded [" << vp::join(a, "; ") << "], single-threaded [" << vp::join(b, "; ") << "]");
        const auto x = sorted(multi.impacts, impact_text), y = sorted(single.impacts, impact_text);
        VP_CHECK(c, x == y, "impacts", "step " << step << ": multi-threaded [" << vp::join(x, "; ") << "], single-threaded [" << vp::join(y, "; ") << "]");
        const auto ps = single.populations(), pm = multi.populations();
        VP_EQ(c, pm.size(), ps.size(), "state", "populations");
        for (size_t i = 0; i < ps.size(); ++i)
        {
            auto e = make_pop(ps[i]);
            const std::string d = diff_pop_any(pm[i], e);
            VP_CHECK(c, d.empty(), "state", "after step " << step << ", population " << i << " (actual: multi-threaded, expected: single-threaded): " << d);
            (void)diff_pop_any(ps[i], net.pops[i], 1e12);  // follow the single-threaded backend
            net.pops[i] = make_pop(ps[i]);
        }
        const auto js = single.projections(), jm = multi.projections();
        VP_EQ(c, jm.size(), js.size(), "state", "projections");
        for (size_t i = 0; i < js.size(); ++i)
        {
            auto e = make_proj(js[i]);
            const std::string d = diff_proj_any(jm[i], e);
            VP_CHECK(c, d.empty(), "state", "after step " << step << ", projection " << i << " (actual: multi-threaded, expected: single-threaded): " << d);
            std::visit(
                [&](auto &r)
                {
                    auto &n = std::get<std::decay_t<decltype(r)>>(e);
                    r.synapses = n.synapses;
                },
                net.projs[i]);
        }
        spikes += single.spikes.size();
        for (auto &m : single.impacts) impacts += m.impacts_.size();
    }
    bool divided = false;
    for (auto &p : g.shapes) divided = divided || p.size > k.pop_part;
    for (auto &p : g.proj_shapes) divided = divided || p.size > k.proj_part;
    if (divided) c.label("divided into parts");
    if (learning_switched) c.label("learning switched");
    if (plastic && net.stats.hebbian) c.label("hebbian updates");
    if (divided && k.threads > 1 && spikes >= 3 && impacts >= 10) c.nontrivial();
}
// Thousands of neurons and synapses: many parts at the backend's own part sizes. All sums are exact in float, so that the order of additions does not matter.
template <class N>
void large(vp::Case &c)
{
    std::mt19937_64 rng(c.bits64());
    auto below = [&](uint64_t n) { return rng() % n; };
    Config k;
    k.multi = true;
    k.threads = c.range(1, 8);
    if (c.flag())
    {
        k.pop_part = 1 + below(uint64_t{1} << c.range(1, 11));
        k.proj_part = 1 + below(uint64_t{1} << c.range(1, 14));
    }
    const bool huge = c.chance(1, 25);
    const size_t n = huge ? 65000 + below(20000) : 2 + below(uint64_t{1} << c.range(1, 12)),
                 n_syn = huge ? 65000 + below(20000) : below(uint64_t{1} << c.range(1, 15)), n_in = below(uint64_t{1} << c.range(1, 13));
    const uint64_t max_delay = 1 + below(uint64_t{1} << c.range(0, huge ? 2 : 6)), steps = c.range(3, huge ? 6 : 40), rate = 1 + below(20);
    const UID pop_uid = kg::make_uid(1), rec_uid = kg::make_uid(2), in_uid = kg::make_uid(3), channel = kg::make_uid(4);
    std::vector<NP<N>> neurons(n);
    for (auto &p : neurons)
    {
        p.activation_threshold_ = static_cast<float>(1 + below(40)) / 4;
        if constexpr (std::is_same_v<N, Lif>) p.leak_coefficient_ = 1;
        else
        {
            p.potential_decay_ = 1;
            p.absolute_refractory_period_ = static_cast<uint32_t>(below(4));
            p.min_potential_ = static_cast<double>(-static_cast<int64_t>(below(1000)));
        }
    }
    auto make = [&](size_t count)
    {
        std::vector<typename core::Projection<st::DeltaSynapse>::Synapse> r;
        for (size_t i = 0; i < count; ++i)
        {
            st::synapse_parameters<st::DeltaSynapse> p;
            p.weight_ = static_cast<float>(1 + below(16)) / 4;
            p.delay_ = static_cast<uint32_t>(1 + below(max_delay));
            p.output_type_ = below(3) ? Out::EXCITATORY : Out::INHIBITORY_CURRENT;
            r.push_back({p, below(n), below(n)});
        }
        return r;
    };
    const auto rec = make(n_syn), in = make(n_in);
    auto load = [&](Sim &s)
    {
        core::Population<N> pop(pop_uid, [&](size_t i) { return neurons[i]; }, n);
        core::Projection<st::DeltaSynapse> a(rec_uid, pop_uid, pop_uid, [&](size_t i) { return std::make_optional(rec[i]); }, n_syn),
            b(in_uid, UID{false}, pop_uid, [&](size_t i) { return std::make_optional(in[i]); }, n_in);
        s.load({pop}, {a, b});
        s.init();
        s.feed_spikes(in_uid, channel);
    };
    VP_NOTE(c, k.str() << "\n" << n << " neurons, " << n_syn << " recurrent and " << n_in << " input synapses, delays up to " << max_delay << ", " << steps << " steps\n");
    Sim single{Config{}}, multi(k);
    load(single);
    load(multi);
    unsigned long spikes = 0, impacts = 0;
    for (uint64_t step = 0; step < steps; ++step)
    {
        SpikeMessage m{{channel, step}, {}};
        for (size_t i = 0; i < n; ++i)
            if (below(20) < rate) m.neuron_indexes_.push_back(i);
        std::vector<SpikeMessage> message;
        if (below(4)) message.push_back(m);
        single.step(message, {});
        multi.step(message, {});
        const auto a = sorted(multi.spikes, spike_text), b = sorted(single.spikes, spike_text);
        VP_CHECK(c, a == b, "spikes", "step " << step << ": messages of spikes differ");
        const auto x = sorted(multi.impacts, impact_text), y = sorted(single.impacts, impact_text);
        VP_CHECK(c, x == y, "impacts", "step " << step << ": messages of impacts differ");
        for (auto &s : single.spikes) spikes += s.neuron_indexes_.size();
        for (auto &s : single.impacts) impacts += s.impacts_.size();
    }
    const auto ps = single.populations(), pm = multi.populations();
    auto e = make_pop(ps[0]);
    const std::string d = diff_pop_any(pm[0], e);
    VP_CHECK(c, d.empty(), "state", "after " << steps << " steps (actual: multi-threaded, expected: single-threaded): " << d);
    if (k.threads > 1 && n > k.pop_part && spikes > 20 && impacts > 100) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule =
        "the same generated network (up to 4 populations of 12 neurons, 6 projections of 60 synapses) and input history on both backends, with 1-4 threads and generated part sizes; "
        "messages and states compared after every step; non-trivial: divided into parts, more than one thread, at least 3 spike messages and 10 impacts";
    return vp::run_main(
        argc, argv, "C12",
        {
            {"inference", rule, [](vp::Case &c) { compare(c, false, false); }, 2500},
            {"learning", rule + ", unlocked resource-STDP projections, learning switched on and off", [](vp::Case &c) { compare(c, true, false); }, 2500},
            {"direct_impacts", rule + ", impacts sent to populations by an endpoint", [](vp::Case &c) { compare(c, false, true); }, 1000},
            {"large",
             "a population of up to 4096 neurons with up to 32768 recurrent and 8192 input synapses on both backends, delays up to 64, up to 40 steps, 1-8 threads, default and generated part sizes; "
             "non-trivial: divided into parts, more than one thread, more than 20 spikes and 100 impacts",
             [](vp::Case &c) { c.flag() ? large<Lif>(c) : large<Blifat>(c); }, 120, 0.4, 120},
        },
        {}, {"neurons and synapses both backends support", "impacts of one step on one neuron are compared up to the order of their addition"});
}
