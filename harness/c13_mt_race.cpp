// C13: no data races in the multi-threaded backend, and the same result whenever a run is repeated.
#include <atomic>
#include <thread>

#include "knp_netgen.hpp"

using namespace sim;

namespace
{
struct History
{
    std::vector<std::vector<SpikeMessage>> spikes;
    std::vector<std::vector<ImpactMessage>> impacts;
    std::vector<core::AllPopulationsVariant> pops;
    std::vector<core::AllProjectionsVariant> projs;
};

std::string canonical(std::vector<SpikeMessage> v)
{
    std::vector<std::string> r;
    for (auto &m : v)
    {
        std::sort(m.neuron_indexes_.begin(), m.neuron_indexes_.end());
        r.push_back(VP_STR(m));
    }
    std::sort(r.begin(), r.end());
    return vp::join(r, "; ");
}

std::string canonical(const std::vector<ImpactMessage> &v)
{
    std::vector<std::string> r;
    for (auto &m : v)
    {
        std::vector<std::string> i;
        for (auto &x : m.impacts_) i.push_back(VP_STR(x));
        std::sort(i.begin(), i.end());
        r.push_back(VP_STR(std::string(m.header_.sender_uid_) << " " << m.is_forcing_ << " " << vp::join(i, ", ")));
    }
    std::sort(r.begin(), r.end());
    return vp::join(r, "; ");
}

struct Plan
{
    GeneratedNet g;
    std::vector<std::vector<SpikeMessage>> input;
    std::vector<int> learning;  // per step: 0 nothing, 1 start, 2 stop
    size_t chatter = 0;         // messages another thread sends meanwhile, to nobody
};

History run(vp::Case &c, const Plan &p, const Config &k)
{
    Sim s(k);
    start(s, p.g);
    History h;
    std::atomic<bool> go{false};
    std::thread outside;
    std::unique_ptr<core::MessageEndpoint> ep;
    if (p.chatter)
    {
        ep = std::make_unique<core::MessageEndpoint>(s.backend().get_message_bus().create_endpoint());
        outside = std::thread(
            [&]
            {
                while (!go) std::this_thread::yield();
                for (size_t i = 0; i < p.chatter; ++i)
                {
                    ep->send_message(SpikeMessage{{kg::make_uid(5555), i}, {1}});
                    if (i % 8 == 0) std::this_thread::yield();
                }
            });
    }
    struct Join
    {
        std::thread &t;
        ~Join()
        {
            if (t.joinable()) t.join();
        }
    } join{outside};
    go = true;
    for (uint64_t step = 0; step < p.input.size(); ++step)
    {
        if (p.learning[step] == 1) s.backend().start_learning();
        if (p.learning[step] == 2) s.backend().stop_learning();
        s.step(p.input[step], {});
        h.spikes.push_back(s.spikes);
        h.impacts.push_back(s.impacts);
    }
    h.pops = s.populations();
    h.projs = s.projections();
    (void)c;
    return h;
}

void compare(vp::Case &c, const History &a, const History &b, const std::string &what)
{
    for (size_t i = 0; i < a.spikes.size(); ++i)
    {
        const auto x = canonical(a.spikes[i]), y = canonical(b.spikes[i]);
        VP_CHECK(c, x == y, "repeat-spikes", what << ", step " << i << ": [" << y << "], in the first run [" << x << "]");
        const auto u = canonical(a.impacts[i]), v = canonical(b.impacts[i]);
        VP_CHECK(c, u == v, "repeat-impacts", what << ", step " << i << ": [" << v << "], in the first run [" << u << "]");
    }
    for (size_t i = 0; i < a.pops.size(); ++i)
    {
        auto e = make_pop(a.pops[i]);
        const std::string d = diff_pop_any(b.pops[i], e);
        VP_CHECK(c, d.empty(), "repeat-state", what << ", population " << i << ": " << d);
    }
    for (size_t i = 0; i < a.projs.size(); ++i)
    {
        auto e = make_proj(a.projs[i]);
        const std::string d = diff_proj_any(b.projs[i], e);
        VP_CHECK(c, d.empty(), "repeat-state", what << ", projection " << i << ": " << d);
    }
}

void races(vp::Case &c, bool plastic)
{
    NetOptions o;
    o.neuron_types = plastic ? std::vector<size_t>{0, 1, 3, 3, 3} : std::vector<size_t>{0, 1, 3};
    o.synapse_types = plastic ? std::vector<size_t>{0, 1, 1} : std::vector<size_t>{0, 0, 1};
    o.unlocked = plastic ? 3 : 0;
    o.dopamine_projection = plastic;
    o.max_neurons = 24;
    o.max_synapses = 120;
    Plan p;
    p.g = gen_net(c, o);
    Config k;
    k.multi = true;
    k.threads = c.range(2, 6);
    k.pop_part = c.range(1, 5);
    k.proj_part = c.range(1, 12);
    Config other = multi_config(c);
    p.chatter = c.chance(1, 4) ? c.range(1, 200) : 0;
    VP_NOTE(c, k.str() << "\nthen " << other.str() << "\n" << (p.chatter ? "another thread sends messages meanwhile\n" : ""));
    note_net(c, p.g);
    for (size_t steps = c.len(3, 20), i = 0; i < steps; ++i)
    {
        p.learning.push_back(plastic && c.chance(1, 8) ? static_cast<int>(c.range(1, 2)) : 0);
        p.input.push_back(gen_input(c, p.g, i, true));
        if (p.learning.back()) VP_NOTE(c, "step " << i << ": " << (p.learning.back() == 1 ? "start" : "stop") << " learning\n");
        note_input(c, i, p.input.back());
    }
    const auto first = run(c, p, k);
    compare(c, first, run(c, p, k), "repeated run");
    compare(c, first, run(c, p, other), "run with other threads and parts");
    size_t parts = 0, messages = 0, impacts = 0;
    for (auto &s : p.g.shapes) parts += (s.size + k.pop_part - 1) / k.pop_part;
    for (auto &s : p.g.proj_shapes) parts += (s.size + k.proj_part - 1) / k.proj_part;
    for (auto &m : first.spikes) messages += m.size();
    for (auto &m : first.impacts)
        for (auto &x : m) impacts += x.impacts_.size();
    if (p.chatter) c.label("messages sent meanwhile");
    if (parts >= 6 && messages >= 3 && impacts >= 10) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule =
        "generated network of up to 4 populations of 24 neurons and 6 projections of 120 synapses, run twice with 2-6 threads and small parts and once with another configuration, under ThreadSanitizer; "
        "any race report and any difference in messages or final state is a violation; non-trivial: at least 6 parts, 3 spike messages and 10 impacts";
    return vp::run_main(
        argc, argv, "C13",
        {
            {"inference", rule, [](vp::Case &c) { races(c, false); }, 500},
            {"learning", rule + "; resource STDP", [](vp::Case &c) { races(c, true); }, 500},
        },
        {}, {"schedules are those the operating system produces under ThreadSanitizer; they are sampled, not enumerated"});
}
