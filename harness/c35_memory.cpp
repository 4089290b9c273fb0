// C35: running takes no more and more memory, and what is destroyed gives it back.
#include <knp/framework/model.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/monitoring/model.h>
#include <knp/framework/network.h>

#include <sanitizer/allocator_interface.h>

#include <thread>

#include "knp_netgen.hpp"

using namespace sim;

namespace
{
int64_t live() { return static_cast<int64_t>(__sanitizer_get_current_allocated_bytes()); }

// Steps until n, 4n, 16n and 64n: memory that is taken by every step grows each time by a part of the steps.
template <class Run>
bool grows(vp::Case &c, size_t n, const char *what, Run &&run)
{
    size_t done = 0;
    run(n);
    done = n;
    int64_t before = live();
    std::string history = VP_STR(before);
    for (int round = 0; round < 3; ++round)
    {
        run(3 * done);
        const int64_t now = live();
        history += VP_STR(" " << now);
        if (now - before < static_cast<int64_t>(3 * done)) return false;
        before = now;
        done *= 4;
    }
    VP_FAIL(c, what, "bytes in use after " << n << " steps and then four times as many each: " << history);
}

GeneratedNet network(vp::Case &c, const Config &k)
{
    NetOptions o;
    o.synapse_types = {0, 1, 2};
    o.unlocked = 3;
    o.lost_targets = false;
    if (k.multi)
    {
        o.neuron_types = {0, 1, 3};
        o.synapse_types = {0, 1};
    }
    return gen_net(c, o);
}

// A periodic input.
std::vector<std::vector<SpikeMessage>> input(vp::Case &c, const GeneratedNet &g)
{
    std::vector<std::vector<SpikeMessage>> r(c.range(1, 4));
    for (size_t i = 0; i < r.size(); ++i)
    {
        r[i] = gen_input(c, g, i, true);
        note_input(c, i, r[i]);
    }
    VP_NOTE(c, "repeated every " << r.size() << " steps\n");
    return r;
}

void stepping(vp::Case &c)
{
    const Config k = any_config(c);
    const auto g = network(c, k);
    VP_NOTE(c, k.str() << "\n");
    note_net(c, g);
    auto in = input(c, g);
    Sim s(k);
    start(s, g);
    size_t step = 0, spikes = 0, impacts = 0;
    auto run = [&](size_t n)
    {
        for (; n; --n, ++step)
        {
            auto &m = in[step % in.size()];
            for (auto &x : m) x.header_.send_time_ = step;
            s.step(m, {});
            spikes += s.spikes.size();
            impacts += s.impacts.size();
        }
    };
    // What is removed while the others go on leaves nothing behind that gathers their messages.
    if (c.chance(1, 3))
    {
        run(c.range(0, 8));
        std::vector<UID> pops, projs;
        for (auto &p : g.shapes)
            if (c.chance(1, 3)) pops.push_back(p.uid);
        for (auto &p : g.proj_shapes)
            if (c.chance(1, 2)) projs.push_back(p.uid);
        VP_NOTE(c, "after " << step << " steps " << pops.size() << " populations and " << projs.size() << " projections are removed\n");
        s.backend().remove_projections(projs);
        s.backend().remove_populations(pops);
    }
    grows(c, 40, "grows", run);
    if (spikes > 5 && impacts > 5) c.nontrivial();
}

// A model run by an executor, with channels that are read, an observer and loggers.
void executor(vp::Case &c)
{
    const Config k = any_config(c);
    auto g = network(c, k);
    VP_NOTE(c, k.str() << "\n");
    note_net(c, g);
    knp::framework::Network net;
    for (auto &p : g.pops) std::visit([&](auto &x) { net.add_population(x); }, p);
    for (auto &p : g.projs) std::visit([&](auto &x) { net.add_projection(x); }, p);
    knp::framework::Model model(std::move(net));
    knp::framework::ModelLoader::InputChannelMap channels;
    const size_t period = c.range(1, 4);
    std::vector<std::vector<uint32_t>> data;
    for (size_t i = 0; i < period; ++i)
    {
        data.emplace_back();
        for (size_t x = 0; x <= g.channel_width; ++x)
            if (c.flag()) data.back().push_back(static_cast<uint32_t>(x));
        VP_NOTE(c, "input " << i << ": " << vp::join(data.back()) << "\n");
    }
    auto generator = [&](uint64_t step) { return data[step % period]; };
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (auto ch : g.feeds[i])
        {
            channels[channel_uid(ch)] = generator;
            model.add_input_channel(channel_uid(ch), g.proj_shapes[i].uid);
        }
    std::set<UID> outs;
    for (size_t i = c.range(0, 2); i; --i)
    {
        const size_t p = c.draw(g.shapes.size());
        const UID uid = kg::make_uid(400 + p);
        outs.insert(uid);
        model.add_output_channel(uid, g.shapes[p].uid);
    }
    std::shared_ptr<core::Backend> backend;
    if (k.multi) backend = std::make_shared<MultiBackend>(k.threads, k.pop_part, k.proj_part);
    else backend = std::make_shared<SingleBackend>();
    knp::framework::ModelExecutor ex(model, backend, channels);
    size_t seen = 0;
    std::vector<UID> all;
    for (auto &s : g.shapes) all.push_back(s.uid);
    const bool observe = c.flag();
    if (observe) ex.add_observer<SpikeMessage>([&](const std::vector<SpikeMessage> &m) { seen += m.size(); }, all);
    std::ofstream null("/dev/null");
    const bool log = c.flag();
    if (log) knp::framework::monitoring::model::add_spikes_logger(ex, g.shapes.empty() ? std::map<UID, std::string>{} : std::map<UID, std::string>{{g.shapes[0].uid, "first"}}, null);
    VP_NOTE(c, outs.size() << " output channels" << (observe ? ", an observer" : "") << (log ? ", a logger" : "") << "\n");
    grows(
        c, 40, "executor-grows",
        [&](size_t n)
        {
            // Runs go on from the step at which the last one stopped. The channels are read after each run of 20 steps.
            for (size_t part; n; n -= part)
            {
                part = std::min<size_t>(n, 20);
                const uint64_t end = backend->get_step() + part;
                ex.start([&](core::Step s) { return s < end; });
                auto &loader = ex.get_loader();
                for (auto &u : outs)
                {
                    auto &ch = loader.get_output_channel(u);
                    ch.update();
                    seen += ch.read_some_from_buffer(0, end + 10).size();
                }
            }
        });
    if (seen > 5) c.nontrivial();
}

// Objects made and destroyed over and over.
void objects(vp::Case &c)
{
    const Config k = any_config(c);
    const auto g = network(c, k);
    const auto in = input(c, g);
    const int kind = static_cast<int>(c.draw(3));
    // A bus forgets the end points that are gone when it routes messages next.
    const size_t steps = kind == 1 ? c.range(1, 6) : c.range(0, 5);
    VP_NOTE(c, k.str() << ", " << steps << " steps each, kind " << kind << "\n");
    note_net(c, g);
    Sim *shared = nullptr;
    std::unique_ptr<Sim> holder;
    if (kind == 1)
    {
        holder = std::make_unique<Sim>(k);
        shared = holder.get();
        start(*shared, g);
    }
    size_t step = 0;
    grows(
        c, 6, kind == 0 ? "backend-leaks" : kind == 1 ? "endpoint-leaks" : "network-leaks",
        [&](size_t n)
        {
            for (; n; --n)
            {
                if (kind == 0)
                {
                    Sim s(k);
                    start(s, g);
                    for (size_t i = 0; i < steps; ++i)
                    {
                        auto m = in[i % in.size()];
                        for (auto &x : m) x.header_.send_time_ = i;
                        s.step(m, {});
                    }
                }
                else if (kind == 1)
                {
                    // End points come and go on a bus that stays, with messages that nobody takes.
                    auto e = shared->backend().get_message_bus().create_endpoint();
                    std::vector<UID> all;
                    for (auto &p : g.shapes) all.push_back(p.uid);
                    e.subscribe<SpikeMessage>(kg::make_uid(888), all);
                    for (size_t i = 0; i < steps; ++i, ++step)
                    {
                        auto m = in[i % in.size()];
                        for (auto &x : m) x.header_.send_time_ = step;
                        shared->step(m, {});
                    }
                    if (steps % 2) e.receive_all_messages();
                }
                else
                {
                    knp::framework::Network net;
                    for (auto &p : g.pops) std::visit([&](auto &x) { net.add_population(x); }, p);
                    for (auto &p : g.projs) std::visit([&](auto &x) { net.add_projection(x); }, p);
                    for (size_t i = 0; i < steps && i < g.pops.size(); ++i) net.remove_population(g.shapes[i].uid);
                    for (size_t i = 0; i < steps && i < g.projs.size(); ++i) net.remove_projection(g.proj_shapes[i].uid);
                }
            }
        });
    if (steps && g.pops.size() > 1) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C35",
        {
            {"stepping", "networks on both backends stepped 40, 160, ... times with periodic input, messages being taken; non-trivial: spikes and impacts", stepping, 1500},
            {"executor", "the same run by an executor with channels, an observer and a logger; non-trivial: messages seen", executor, 700},
            {"objects", "backends, end points or networks made, used and destroyed 6, 24, ... times; non-trivial: 2 or more populations and a step", objects, 700},
        },
        {}, {"bytes in use as the allocator of AddressSanitizer counts them; growth by less than a byte for each step is not seen"});
}
