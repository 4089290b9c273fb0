// C23: observers and monitors see exactly the messages of their senders.
#include <knp/framework/model_executor.h>
#include <knp/framework/monitoring/model.h>
#include <knp/framework/monitoring/observer.h>

#include <iterator>
#include <sstream>

#include "knp_netgen.hpp"

using namespace sim;
namespace fw = knp::framework;
namespace mon = knp::framework::monitoring;

namespace
{
using Spikes = core::messaging::SpikeData;
using Messages = std::vector<SpikeMessage>;
using Impacts = std::vector<ImpactMessage>;
using ResourceProjection = core::Projection<kg::st::SynapticResourceSTDPDeltaSynapse>;

std::string text(const SpikeMessage &m) { return VP_STR(std::string(m.header_.sender_uid_) << "@" << m.header_.send_time_ << ": " << vp::join(m.neuron_indexes_)); }
std::string text(const ImpactMessage &m) { return VP_STR(m); }

template <class M>
std::vector<std::string> texts(const std::vector<M> &v, const std::set<UID> *senders = nullptr)
{
    std::vector<std::string> r;
    for (auto &m : v)
        if (!senders || senders->count(m.header_.sender_uid_)) r.push_back(text(m));
    std::sort(r.begin(), r.end());
    return r;
}

// An observer in the executor: what its processor was called with since it was added.
template <class M>
struct Watch
{
    std::set<UID> senders;
    size_t since;  // Calls before.
    std::vector<std::vector<M>> calls;
};

// What a logger wrote.
struct Logger
{
    enum Kind
    {
        spikes,
        aggregated,
        weights,
        status
    } kind;
    size_t since;
    size_t period;
    std::map<UID, std::string> names;
    UID projection;
    std::ostringstream log;
    std::map<std::string, size_t> accumulator;
};

struct Weight
{
    size_t to, from;
    std::string text;
};

void executor(vp::Case &c)
{
    NetOptions o;
    o.max_projs = 6;
    o.synapse_types = {0, 1, 1, 2};
    o.unlocked = 2;
    auto g = gen_net(c, o);
    note_net(c, g);
    fw::Network n;
    for (auto &p : g.pops) n.add_population(core::AllPopulationsVariant(p));
    for (auto &p : g.projs) n.add_projection(core::AllProjectionsVariant(p));
    fw::Model model(std::move(n));
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (auto ch : g.feeds[i]) model.add_input_channel(channel_uid(ch), g.proj_shapes[i].uid);
    const size_t total = c.len(1, 24);
    std::vector<std::vector<Spikes>> input(g.channels, std::vector<Spikes>(total));
    for (auto &ch : input)
        for (auto &s : ch)
            if (c.chance(2, 3))
            {
                for (size_t i = 0; i <= g.channel_width; ++i)
                    if (c.flag()) s.push_back(static_cast<uint32_t>(i));
                // Indexes that no synapse has, which are delivered all the same.
                if (c.chance(1, 40))
                    for (uint32_t i = static_cast<uint32_t>(c.range(1000, 1u << c.range(12, 31))), n = static_cast<uint32_t>(c.range(1, 1500)); n; --n) s.push_back(i + n);
            }
    fw::ModelLoader::InputChannelMap map;
    for (size_t i = 0; i < g.channels; ++i)
        map[channel_uid(i)] = [&, i](core::Step s) { return s < total ? input[i][s] : Spikes{}; };
    auto backend = std::make_shared<SingleBackend>();
    fw::ModelExecutor exec(model, backend, map);
    std::vector<UID> senders, projections;
    for (auto &p : g.shapes) senders.push_back(p.uid);
    for (size_t i = 0; i < g.channels; ++i) senders.push_back(channel_uid(i));
    senders.push_back(kg::make_uid(4242));  // Sends nothing.
    // A handler sends messages of its own, in the name of its UID.
    if (c.chance(1, 3))
    {
        const auto handler = kg::make_uid(4243);
        std::vector<UID> from, to;
        for (auto &u : senders) if (c.flag()) from.push_back(u);
        for (auto &p : g.proj_shapes) if (c.chance(1, 3)) to.push_back(p.uid);
        const auto index = static_cast<uint32_t>(c.draw(3));
        VP_NOTE(c, "handler of " << from.size() << " senders to " << to.size() << " projections\n");
        exec.add_spike_message_handler([index](Messages &m) { return m.empty() ? Spikes{} : Spikes{index, index + 1}; }, from, to, handler);
        senders.push_back(handler);
    }
    std::vector<UID> resource;
    for (size_t i = 0; i < g.projs.size(); ++i)
    {
        projections.push_back(g.proj_shapes[i].uid);
        if (std::holds_alternative<ResourceProjection>(g.projs[i])) resource.push_back(g.proj_shapes[i].uid);
    }
    // The history, through an end point of our own. The observer added first only tells when to look.
    auto endpoint = backend->get_message_bus().create_endpoint();
    const auto me = kg::make_uid(777777);
    endpoint.subscribe<SpikeMessage>(me, senders);
    endpoint.subscribe<ImpactMessage>(me, projections);
    std::vector<uint64_t> at;  // Steps of the backend when observers were called, and what they are to see.
    std::vector<Messages> spikes;
    std::vector<Impacts> impacts;
    std::vector<std::map<UID, std::vector<Weight>>> weights;
    exec.add_observer<SpikeMessage>(
        [&](const Messages &m)
        {
            VP_CHECK(c, m.empty(), "observer", "an observer without senders got messages");
            endpoint.receive_all_messages();
            at.push_back(backend->get_step());
            spikes.push_back(endpoint.unload_messages<SpikeMessage>(me));
            impacts.push_back(endpoint.unload_messages<ImpactMessage>(me));
            weights.emplace_back();
            for (auto it = backend->begin_projections(); it != backend->end_projections(); ++it)
                if (auto p = std::get_if<ResourceProjection>(&it->arg_))
                {
                    auto &w = weights.back()[p->get_uid()];
                    for (auto &s : *p)
                    {
                        const auto &rule = std::get<core::synapse_data>(s).rule_;
                        std::ostringstream t;
                        t << rule.synaptic_resource_ << "|" << rule.last_spike_step_;
                        w.push_back({std::get<core::target_neuron_id>(s), std::get<core::source_neuron_id>(s), t.str()});
                    }
                }
        },
        {});

    std::vector<std::unique_ptr<Watch<SpikeMessage>>> spike_watches;
    std::vector<std::unique_ptr<Watch<ImpactMessage>>> impact_watches;
    std::vector<std::unique_ptr<Logger>> loggers;
    const std::vector<std::string> all_names = {"INPUT", "L", "output", "A b", "z9", "Zz"};
    auto some = [&](const std::vector<UID> &v)
    {
        std::vector<UID> r;
        for (size_t k = c.len(0, 5); k; --k) r.push_back(c.pick(v));  // May name a sender twice.
        return r;
    };
    auto add = [&](size_t since)
    {
        switch (c.weighted({3, 2, 3, 3, 3, 2}))
        {
            case 0:
            {
                auto s = some(senders);
                spike_watches.push_back(std::make_unique<Watch<SpikeMessage>>(Watch<SpikeMessage>{{s.begin(), s.end()}, since, {}}));
                auto *w = spike_watches.back().get();
                exec.add_observer<SpikeMessage>([w](const Messages &m) { w->calls.push_back(m); }, s);
                VP_NOTE(c, "observer of spikes of " << w->senders.size() << " senders\n");
                return;
            }
            case 1:
            {
                auto s = some(projections);
                impact_watches.push_back(std::make_unique<Watch<ImpactMessage>>(Watch<ImpactMessage>{{s.begin(), s.end()}, since, {}}));
                auto *w = impact_watches.back().get();
                exec.add_observer<ImpactMessage>([w](const Impacts &m) { w->calls.push_back(m); }, s);
                VP_NOTE(c, "observer of impacts of " << w->senders.size() << " senders\n");
                return;
            }
            default:;
        }
        auto l = std::make_unique<Logger>();
        l->since = since;
        l->period = c.range(1, 6);
        l->kind = static_cast<Logger::Kind>(c.draw(4));
        if (l->kind == Logger::weights && resource.empty()) l->kind = Logger::spikes;
        for (auto &s : some(senders)) l->names[s] = c.pick(all_names);
        switch (l->kind)
        {
            case Logger::spikes:
                VP_NOTE(c, "log of spikes of " << l->names.size() << " senders\n");
                mon::model::add_spikes_logger(exec, l->names, l->log);
                break;
            case Logger::aggregated:
                VP_NOTE(c, "aggregated log of " << l->names.size() << " senders, period " << l->period << "\n");
                if (c.flag()) l->accumulator["before"] = 5;
                mon::model::add_aggregated_spikes_logger(model, l->names, exec, l->accumulator, l->log, l->period);
                break;
            case Logger::weights:
                l->projection = c.chance(1, 8) ? kg::make_uid(31337) : c.pick(resource);
                VP_NOTE(c, "log of weights of " << std::string(l->projection) << ", period " << l->period << "\n");
                mon::model::add_projection_weights_logger(l->log, exec, l->projection, l->period);
                break;
            case Logger::status:
                VP_NOTE(c, "status log, period " << l->period << "\n");
                mon::model::add_status_logger(exec, model, l->log, l->period);
                break;
        }
        loggers.push_back(std::move(l));
    };
    for (size_t k = c.len(1, 5); k; --k) add(0);
    uint64_t step = 0;
    unsigned runs = 0;
    bool apart = false;
    while (step < total)
    {
        const uint64_t until = step + c.len(1, total - step);
        VP_NOTE(c, "run up to step " << until << "\n");
        const size_t before = at.size();
        exec.start([&](core::Step s) { return s < until; });
        VP_EQ(c, at.size() - before, until - step, "observer", "calls of an observer without senders");
        for (size_t k = before; k < at.size(); ++k) VP_EQ(c, at[k], step + (k - before) + 1, "observer", "step of the backend at a call of an observer");
        step = until;
        ++runs;
        if (step < total && loggers.size() < 8 && c.chance(1, 3)) add(at.size());
        if (step < total && c.chance(1, 4))
            // Without the executor: its observers get these messages with those of the next step they are called after.
            for (size_t k = c.len(1, total - step); k; --k, ++step)
            {
                VP_NOTE(c, "step " << step << " of the backend alone\n");
                backend->_step();
                apart = true;
            }
    }
    if (c.noting())
        for (auto &s : spikes)
            for (auto &m : s) VP_NOTE(c, text(m) << "\n");

    const size_t calls = at.size();
    auto check_watches = [&](auto &watches, auto &history, const char *of)
    {
        for (auto &w : watches)
        {
            VP_EQ(c, w->calls.size(), calls - w->since, "observer", "calls of an observer of " << of);
            for (size_t k = w->since; k < calls; ++k)
            {
                const auto a = texts(w->calls[k - w->since]), e = texts(history[k], &w->senders);
                VP_CHECK(c, a == e, "observer", "observer of " << of << ", step " << at[k] - 1 << ": [" << vp::join(a, "; ") << "], expected [" << vp::join(e, "; ") << "]");
            }
        }
    };
    check_watches(spike_watches, spikes, "spikes");
    check_watches(impact_watches, impacts, "impacts");
    size_t logged = 0;
    std::set<UID> populations;
    for (auto &p : g.shapes) populations.insert(p.uid);
    for (auto &l : loggers)
    {
        std::ostringstream expected;
        auto actual = l->log.str();
        switch (l->kind)
        {
            case Logger::spikes:
            {
                // A block of each message; blocks of one step in any order.
                auto sorted = [](const std::string &t)
                {
                    std::vector<std::pair<uint64_t, std::string>> blocks;
                    size_t at = 0;
                    std::string rest;
                    while (at < t.size())
                    {
                        size_t next = t.find("Step: ", at + 1);
                        if (next == std::string::npos) next = t.size();
                        const auto b = t.substr(at, next - at);
                        blocks.emplace_back(b.compare(0, 6, "Step: ") ? 0 : std::strtoull(b.c_str() + 6, nullptr, 10), b);
                        at = next;
                    }
                    for (auto i = blocks.begin(); i != blocks.end();)
                    {
                        auto end = std::find_if(i, blocks.end(), [i](auto &b) { return b.first != i->first; });
                        std::sort(i, end);
                        i = end;
                    }
                    for (auto &b : blocks) rest += b.second;
                    return rest;
                };
                for (size_t k = l->since; k < calls; ++k)
                    for (auto &m : spikes[k])
                    {
                        auto name = l->names.find(m.header_.sender_uid_);
                        if (name == l->names.end()) continue;
                        ++logged;
                        expected << "Step: " << m.header_.send_time_ << "\nSender: " << name->second << "\n";
                        for (auto i : m.neuron_indexes_) expected << i << " ";
                        expected << "\n";
                    }
                actual = sorted(actual);
                expected.str(sorted(expected.str()));
                break;
            }
            case Logger::aggregated:
            {
                // A line at each multiple of the period: spikes of the steps before, the step that has just ended excluded.
                std::set<std::string> header;
                for (auto &[u, name] : l->names) header.insert(name);
                expected << "Index";
                for (auto &h : header) expected << ", " << h;
                expected << "\n";
                std::map<std::string, size_t> zero, count;
                for (auto &h : header) zero[h] = 0;
                count = zero;
                for (size_t k = l->since; k < calls; ++k)
                {
                    if (at[k] % l->period == 0)
                    {
                        expected << at[k];
                        for (auto &[name, n] : count) expected << ", " << n;
                        expected << "\n";
                        count = zero;
                    }
                    for (auto &m : spikes[k])
                    {
                        auto name = l->names.find(m.header_.sender_uid_);
                        if (name == l->names.end()) continue;
                        count[name->second] += m.neuron_indexes_.size();
                        ++logged;
                    }
                }
                VP_CHECK(c, l->accumulator == count, "aggregated", "counts since the last line differ");
                break;
            }
            case Logger::weights:
            {
                std::istringstream in(actual);
                std::string line;
                auto next = [&]  // Blank lines do not count.
                {
                    while (std::getline(in, line))
                        if (!line.empty()) return true;
                    line.clear();
                    return false;
                };
                for (size_t k = l->since; k < calls; ++k)
                {
                    if (at[k] % l->period) continue;
                    next();
                    VP_EQ(c, line, VP_STR("Step: " << at[k]), "weights", "line of a step");
                    if (l->projection == kg::make_uid(31337)) continue;
                    // Synapses by neuron and source; several of one pair in any order.
                    std::map<size_t, std::map<size_t, std::multiset<std::string>>> by_neuron;
                    for (auto &w : weights[k][l->projection]) by_neuron[w.to][w.from].insert(w.text);
                    for (auto &[neuron, by_source] : by_neuron)
                    {
                        next();
                        VP_EQ(c, line, VP_STR("Neuron " << neuron), "weights", "step " << at[k]);
                        next();
                        std::istringstream words(line);
                        for (auto &[source, values] : by_source)
                        {
                            std::multiset<std::string> got;
                            for (size_t v = 0; v < values.size(); ++v)
                            {
                                std::string word;
                                words >> word;
                                got.insert(word);
                            }
                            ++logged;
                            c.label("weights logged");
                            VP_CHECK(c, got == values, "weights", "step " << at[k] << ", synapses " << source << " -> " << neuron << ": " << vp::join(got) << ", expected " << vp::join(values));
                        }
                        std::string more;
                        VP_CHECK(c, !(words >> more), "weights", "step " << at[k] << ", neuron " << neuron << ": '" << more << "' after its synapses");
                    }
                }
                VP_CHECK(c, !next(), "weights", "line '" << line << "' after the last step");
                continue;
            }
            case Logger::status:
            {
                size_t count = 0;
                for (size_t k = l->since; k < calls; ++k)
                {
                    for (auto &m : spikes[k]) count += populations.count(m.header_.sender_uid_);
                    if (at[k] % l->period || !count) continue;
                    expected << count << "\n";
                    ++logged;
                    count = 0;
                }
                break;
            }
        }
        const char *names[] = {"spikes", "aggregated", "weights", "status"};
        VP_CHECK(c, actual == expected.str(), names[l->kind], "log '" << actual << "', expected '" << expected.str() << "'");
    }
    size_t observed = 0;
    for (auto &w : spike_watches)
        for (auto &call : w->calls) observed += call.size();
    if (observed >= 2 || logged >= 2) c.nontrivial();
    if (runs >= 2) c.label("several runs");
    if (apart) c.label("steps without observers");
}

// Observers on a bus, without an executor.
template <class M>
M message(UID sender, uint64_t step, size_t id);
template <>
SpikeMessage message(UID sender, uint64_t step, size_t id) { return {{sender, step}, {static_cast<uint32_t>(id)}}; }
template <>
ImpactMessage message(UID sender, uint64_t step, size_t id) { return {{sender, step}, kg::make_uid(1), kg::make_uid(2), false, {{id, 1.0f, kg::st::OutputType::EXCITATORY, 1, 2}}}; }

template <class M>
void standalone(vp::Case &c)
{
    auto bus = core::MessageBus::construct_bus();
    auto sender = bus->create_endpoint();
    struct Seen
    {
        std::set<UID> senders;
        std::vector<M> pending, under_way;
        std::vector<std::vector<M>> calls;
    };
    std::vector<std::unique_ptr<Seen>> seen;
    std::vector<mon::MessageObserver<M>> observers;
    const bool variant = c.flag();
    std::vector<mon::AnyObserverVariant> variants;
    const size_t n = c.range(1, 4);
    for (size_t i = 0; i < n; ++i)
    {
        seen.push_back(std::make_unique<Seen>());
        auto *s = seen.back().get();
        mon::MessageObserver<M> ob(bus->create_endpoint(), [s](const std::vector<M> &m) { s->calls.push_back(m); }, kg::make_uid(500 + i));
        VP_CHECK(c, ob.get_uid() == kg::make_uid(500 + i), "uid", "UID of an observer");
        for (size_t k = 1; k <= 4; ++k)
            if (c.flag())
            {
                s->senders.insert(kg::make_uid(k));
                ob.subscribe({kg::make_uid(k)});
                VP_NOTE(c, "observer " << i << " subscribes to " << k << "\n");
            }
        if (variant) variants.emplace_back(std::move(ob));
        else observers.push_back(std::move(ob));
    }
    std::vector<std::pair<size_t, M>> unrouted;
    size_t id = 0, got = 0;
    const size_t ops = c.len(2, 40);
    for (size_t op = 0; op < ops; ++op)
    {
        switch (c.weighted({2, 8, 4, 4}))
        {
            case 0:
            {
                const size_t i = c.draw(n);
                std::vector<UID> s;
                for (size_t k = c.range(0, 3); k; --k) s.push_back(kg::make_uid(1 + c.draw(4)));
                VP_NOTE(c, "observer " << i << " subscribes to " << s.size() << "\n");
                if (variant) std::visit([&](auto &o) { o.subscribe(s); }, variants[i]);
                else observers[i].subscribe(s);
                seen[i]->senders.insert(s.begin(), s.end());
                break;
            }
            case 1:
            {
                const auto from = kg::make_uid(1 + c.draw(4));
                const auto m = message<M>(from, op, id++);
                VP_NOTE(c, "send " << text(m) << "\n");
                sender.send_message(m);
                unrouted.emplace_back(0, m);
                break;
            }
            case 2:
                VP_NOTE(c, "route\n");
                bus->route_messages();
                for (auto &s : seen)
                    for (auto &[k, m] : unrouted)
                        if (s->senders.count(m.header_.sender_uid_)) s->under_way.push_back(m);
                unrouted.clear();
                break;
            default:
            {
                const size_t i = c.draw(n);
                auto &s = *seen[i];
                VP_NOTE(c, "update of observer " << i << "\n");
                const size_t before = s.calls.size();
                if (variant) std::visit([](auto &o) { o.update(); }, variants[i]);
                else observers[i].update();
                VP_EQ(c, s.calls.size(), before + 1, "observer", "calls of the processor by an update");
                std::vector<std::string> a, e;
                for (auto &m : s.calls.back()) a.push_back(text(m));
                for (auto &m : s.under_way) e.push_back(text(m));
                VP_CHECK(c, a == e, "observer", "observer " << i << " got [" << vp::join(a, "; ") << "], expected [" << vp::join(e, "; ") << "]");
                got += e.size();
                s.under_way.clear();
            }
        }
    }
    if (got >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C23",
        {
            {"executor", "network of 1-4 populations and up to 6 projections with observers of any senders and all loggers, added before the first run or between runs, up to 24 steps; non-trivial: at least 2 messages observed or logged", executor, 8000},
            {"standalone", "1-4 observers on a bus, up to 40 operations; non-trivial: at least 2 messages observed", [](vp::Case &c) { c.flag() ? standalone<SpikeMessage>(c) : standalone<ImpactMessage>(c); }, 10000},
        },
        {}, {"logging periods are at least 1"});
}
