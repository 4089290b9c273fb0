// C20: input and output channels connect exactly the entities they name.
#include <knp/framework/model_executor.h>

#include "knp_netgen.hpp"

using namespace sim;
namespace fw = knp::framework;

namespace
{
using Spikes = core::messaging::SpikeData;

// What is registered with the executor besides channels.
struct Handler
{
    UID uid;
    std::vector<UID> senders;
    std::vector<UID> receivers;
    int quiet = -1;  // index to send when its senders are silent
    std::shared_ptr<uint64_t> calls = std::make_shared<uint64_t>(0);
};

std::vector<std::string> spike_texts(const std::vector<SpikeMessage> &v)
{
    std::vector<std::string> r;
    for (auto &m : v)
    {
        auto i = m.neuron_indexes_;
        std::sort(i.begin(), i.end());
        r.push_back(VP_STR("spikes of " << std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << ": " << vp::join(i)));
    }
    std::sort(r.begin(), r.end());
    return r;
}

// The handlers of the test: indexes of all messages, each once, up to 8.
Spikes merge(const std::vector<SpikeMessage> &messages, int quiet)
{
    if (messages.empty() && quiet >= 0) return {static_cast<core::messaging::SpikeIndex>(quiet)};
    std::set<uint64_t> s;
    for (auto &m : messages)
        for (auto i : m.neuron_indexes_)
            if (i < 8) s.insert(i);
    return {s.begin(), s.end()};
}

core::tags::IOType io_of(core::TagMap tags, bool &present)
{
    present = true;
    try
    {
        return tags.get_tag<core::tags::IOType>(core::tags::io_type_tag);
    }
    catch (...)
    {
        present = false;
        return core::tags::IOType::input;
    }
}

template <class Backend>
void models(vp::Case &c, std::shared_ptr<Backend> backend, bool multi)
{
    NetOptions o;
    if (multi)
    {
        o.neuron_types = {0, 1, 3};
        o.synapse_types = {0, 1};
    }
    else
        o.synapse_types = {0, 1, 2};
    o.max_projs = 8;
    auto g = gen_net(c, o);
    note_net(c, g);
    // UIDs of channels: any number of them, so that they share buckets of hash tables in every way.
    const size_t n_in = c.len(1, 8), n_out = c.len(0, 8);
    const size_t salt = c.draw(1000) * 100;
    auto in_uid = [&](size_t i) { return kg::make_uid(10000 + salt + i); };
    auto out_uid = [&](size_t i) { return kg::make_uid(20000 + salt + i); };
    std::vector<std::set<size_t>> in(n_in), out(n_out);   // projections and populations of each channel
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (size_t k = c.weighted({1, 4, 2, 1}); k; --k) in[c.draw(n_in)].insert(i);
    for (auto &s : out)
        for (size_t k = c.range(1, 3); k; --k) s.insert(c.draw(g.pops.size()));

    // Tags they have before they are loaded.
    std::map<size_t, core::tags::IOType> pop_tags, proj_tags;
    auto preset = [&](auto &entities, auto &tags)
    {
        for (size_t i = 0; i < entities.size(); ++i)
            if (c.chance(1, 6))
            {
                tags[i] = c.flag() ? core::tags::IOType::input : core::tags::IOType::output;
                std::visit([&](auto &e) { e.get_tags()[core::tags::io_type_tag] = tags[i]; }, entities[i]);
            }
    };
    preset(g.pops, pop_tags);
    preset(g.projs, proj_tags);

    fw::Network network;
    for (auto &p : g.pops) network.add_population(core::AllPopulationsVariant(p));
    for (auto &p : g.projs) network.add_projection(core::AllProjectionsVariant(p));
    fw::Model model(std::move(network));
    size_t links = 0;
    for (size_t i = 0; i < n_in; ++i)
        for (auto p : in[i])
        {
            ++links;
            VP_NOTE(c, "input channel " << i << " -> projection " << p << "\n");
            if (c.flag()) model.add_input_channel(in_uid(i), g.proj_shapes[p].uid);
            else std::visit([&](auto &x) { model.connect_input_projection(in_uid(i), x); }, g.projs[p]);
        }
    for (size_t i = 0; i < n_out; ++i)
        for (auto p : out[i])
        {
            VP_NOTE(c, "output channel " << i << " <- population " << p << "\n");
            if (c.flag()) model.add_output_channel(out_uid(i), g.shapes[p].uid);
            else std::visit([&](auto &x) { model.connect_output_population(out_uid(i), x); }, g.pops[p]);
        }
    if (c.chance(1, 8))
    {
        VP_CHECK(c, vp::throws([&] { model.add_input_channel(in_uid(0), kg::make_uid(99)); }), "unknown-entity", "channel to a projection that does not exist");
        VP_CHECK(c, vp::throws([&] { model.add_output_channel(out_uid(0), kg::make_uid(99)); }), "unknown-entity", "channel from a population that does not exist");
    }

    // Input of each channel at each step.
    const size_t total = c.len(2, 24);
    std::vector<std::vector<Spikes>> input(n_in, std::vector<Spikes>(total));
    for (auto &ch : input)
        for (auto &s : ch)
            if (c.flag())
            {
                for (size_t n = c.range(0, 4); n; --n) s.push_back(c.draw(g.channel_width + 1));
                // Indexes that no synapse has, which are delivered all the same.
                if (c.chance(1, 40))
                    for (uint32_t i = static_cast<uint32_t>(c.range(1000, 1u << c.range(12, 31))), n = static_cast<uint32_t>(c.range(1, 1500)); n; --n) s.push_back(i + n);
            }
    std::vector<std::vector<uint64_t>> asked(n_in);
    fw::ModelExecutor *executor = nullptr;
    std::optional<uint64_t> generator_stop;
    fw::ModelLoader::InputChannelMap map;
    for (size_t i = 0; i < n_in; ++i)
        map[in_uid(i)] = [&, i](core::Step step)
        {
            asked[i].push_back(step);
            if (generator_stop && step == *generator_stop) executor->stop();
            return step < total ? input[i][step] : Spikes{};
        };
    const bool extra_generator = c.chance(1, 6);   // for a channel the model does not have
    unsigned extra_asked = 0;
    if (extra_generator) map[kg::make_uid(5555)] = [&](core::Step) { ++extra_asked; return Spikes{0}; };
    if (c.chance(1, 10))
    {
        auto less = map;
        size_t missing = n_in;
        for (size_t i = 0; i < n_in; ++i)
            if (!in[i].empty()) missing = i;
        if (missing < n_in)
        {
            less.erase(in_uid(missing));
            auto model2 = model;
            VP_CHECK(c, vp::throws([&] { fw::ModelExecutor x(model2, std::make_shared<SingleBackend>(), less); }), "missing-generator", "no generator for channel " << missing << ", and no exception");
        }
    }

    fw::ModelExecutor exec(model, backend, map);
    executor = &exec;
    VP_CHECK(c, exec.get_backend() == backend, "backend", "the executor has another backend");

    auto net = reference(g);
    net.spike_feeds.clear();
    for (size_t i = 0; i < n_in; ++i)
        for (auto p : in[i]) net.spike_feeds[g.proj_shapes[p].uid].insert(in_uid(i));

    // Handlers.
    std::vector<Handler> handlers;
    for (size_t i = c.weighted({3, 2, 1}); i; --i)
    {
        Handler h;
        h.uid = kg::make_uid(400 + i);
        for (auto &p : g.shapes) if (c.flag()) h.senders.push_back(p.uid);
        for (auto &p : g.proj_shapes) if (c.chance(1, 3)) h.receivers.push_back(p.uid);
        if (c.chance(1, 4)) h.quiet = c.draw(6);
        if (h.senders.empty() && h.quiet < 0) continue;
        VP_NOTE(c, "handler " << std::string(h.uid) << " of " << h.senders.size() << " populations to");
        for (auto &r : h.receivers) VP_NOTE(c, " " << std::string(r));
        VP_NOTE(c, (h.quiet < 0 ? std::string() : VP_STR(", " << h.quiet << " when they are silent")) << "\n");
        exec.add_spike_message_handler([quiet = h.quiet, calls = h.calls](std::vector<SpikeMessage> &m) { ++*calls; return merge(m, quiet); }, h.senders, h.receivers, h.uid);
        for (auto &r : h.receivers) net.spike_feeds[r].insert(h.uid);
        handlers.push_back(h);
    }
    VP_EQ(c, exec.get_message_handlers().size(), handlers.size(), "handlers", "number of handlers");
    // Observers of everything.
    std::vector<SpikeMessage> seen_spikes;
    std::vector<ImpactMessage> seen_impacts;
    std::vector<UID> pop_uids, proj_uids;
    for (auto &p : g.shapes) pop_uids.push_back(p.uid);
    for (auto &p : g.proj_shapes) proj_uids.push_back(p.uid);
    for (auto &h : handlers) pop_uids.push_back(h.uid);
    for (size_t i = 0; i < n_in; ++i) pop_uids.push_back(in_uid(i));
    exec.add_observer<SpikeMessage>([&](const std::vector<SpikeMessage> &m) { seen_spikes.insert(seen_spikes.end(), m.begin(), m.end()); }, pop_uids);
    exec.add_observer<ImpactMessage>([&](const std::vector<ImpactMessage> &m) { seen_impacts.insert(seen_impacts.end(), m.begin(), m.end()); }, proj_uids);

    // An observer that stops the run, as an application does on what it sees.
    uint64_t stop_at = ~0ull;
    exec.add_observer<SpikeMessage>([&](const std::vector<SpikeMessage> &) { if (backend->get_step() == stop_at) exec.stop(); }, {});

    auto &loader = exec.get_loader();
    size_t used_in = 0;
    for (auto &s : in) used_in += !s.empty();
    VP_EQ(c, loader.get_inputs().size(), used_in, "channels", "number of input channels");
    VP_EQ(c, loader.get_outputs().size(), n_out, "channels", "number of output channels");
    const auto &cloader = loader;
    for (size_t i = 0; i < n_in; ++i)
    {
        if (in[i].empty()) VP_CHECK(c, vp::throws([&] { (void)loader.get_input_channel(in_uid(i)); }), "channels", "an input channel without projections exists");
        else VP_CHECK(c, loader.get_input_channel(in_uid(i)).get_uid() == in_uid(i) && cloader.get_input_channel(in_uid(i)).get_uid() == in_uid(i), "channels", "UID of input channel " << i);
    }
    for (size_t i = 0; i < n_out; ++i)
        VP_CHECK(c, loader.get_output_channel(out_uid(i)).get_uid() == out_uid(i) && cloader.get_output_channel(out_uid(i)).get_uid() == out_uid(i), "channels", "UID of output channel " << i);
    VP_CHECK(c, vp::throws([&] { (void)loader.get_output_channel(kg::make_uid(5)); }) && vp::throws([&] { (void)loader.get_input_channel(kg::make_uid(5)); }), "channels", "a channel that does not exist was found");

    // Tags in the backend: input projections and output populations, no others.
    {
        for (auto &ch : in)
            for (auto p : ch) proj_tags[p] = core::tags::IOType::input;
        for (auto &ch : out)
            for (auto p : ch) pop_tags[p] = core::tags::IOType::output;
        size_t i = 0;
        for (auto it = backend->begin_projections(); it != backend->end_projections(); ++it, ++i)
        {
            bool present;
            const auto io = std::visit([&](auto &p) { return io_of(p.get_tags(), present); }, it->arg_);
            VP_EQ(c, present, proj_tags.count(i) != 0, "tags", "projection " << i << " has a tag");
            if (present) VP_CHECK(c, io == proj_tags[i], "tags", "tag of projection " << i);
        }
        VP_EQ(c, i, g.projs.size(), "load", "projections in the backend");
        i = 0;
        for (auto it = backend->begin_populations(); it != backend->end_populations(); ++it, ++i)
        {
            bool present;
            const auto io = std::visit([&](auto &p) { return io_of(p.get_tags(), present); }, *it);
            VP_EQ(c, present, pop_tags.count(i) != 0, "tags", "population " << i << " has a tag");
            if (present) VP_CHECK(c, io == pop_tags[i], "tags", "tag of population " << i);
        }
        VP_EQ(c, i, g.pops.size(), "load", "populations in the backend");
    }

    uint64_t step = 0;
    std::vector<std::map<uint64_t, std::vector<SpikeMessage>>> pending(n_out);  // not yet read, by step
    std::vector<SpikeMessage> from_handlers;
    unsigned long delivered = 0, injected = 0;
    unsigned runs = 0;
    bool ambiguous = false;
    while (step < total && !ambiguous)
    {
        const uint64_t until = step + c.len(c.chance(1, 6) && runs < 20 ? 0 : 1, std::min<size_t>(8, total - step));
        // What ends the run: the predicate, or stop() called by an observer after the last step or by a generator in it.
        const size_t ending = until == step ? 0 : c.weighted({6, 1, 1, used_in ? 1u : 0u, used_in ? 1u : 0u});
        VP_NOTE(c, "run up to step " << until << (ending == 0 ? ", ended by the predicate" : ending <= 2 ? ", stopped by an observer" : ", stopped by a generator") << (ending % 2 ? ", no predicate" : "") << "\n");
        std::vector<uint64_t> predicate_asked;
        for (auto &a : asked) a.clear();
        seen_spikes.clear();
        seen_impacts.clear();
        if (ending == 1 || ending == 2) stop_at = until;
        if (ending >= 3) generator_stop = until - 1;
        if (ending % 2) exec.start();
        else
            exec.start(
                [&](core::Step s)
                {
                    predicate_asked.push_back(s);
                    return ending || s < until;
                });
        stop_at = ~0ull;
        generator_stop.reset();
        ++runs;
        if (ending) c.label("stopped by an observer or a generator");
        VP_CHECK(c, !backend->running(), "stop", "the backend runs after the run");
        VP_EQ(c, backend->get_step(), until, "steps", "steps executed");
        std::vector<uint64_t> executed;
        for (uint64_t s = step; s < until; ++s) executed.push_back(s);
        auto plus = executed;
        if (!ending) plus.push_back(until);
        if (ending % 2) plus.clear();
        VP_CHECK(c, predicate_asked == plus, "predicate", "predicate asked at steps " << vp::join(predicate_asked) << ", expected " << vp::join(plus));
        for (size_t i = 0; i < n_in; ++i)
        {
            const auto e = in[i].empty() ? std::vector<uint64_t>{} : executed;
            VP_CHECK(c, asked[i] == e, "generator", "generator of channel " << i << " asked at steps " << vp::join(asked[i]) << ", executed " << vp::join(e));
        }
        std::vector<SpikeMessage> spikes;
        std::vector<ImpactMessage> impacts;
        for (; step < until; ++step)
        {
            std::vector<SpikeMessage> now = from_handlers;
            for (size_t i = 0; i < n_in; ++i)
                if (!in[i].empty() && !input[i][step].empty()) now.push_back(SpikeMessage{{in_uid(i), step}, input[i][step]});
            for (auto &m : now)
            {
                VP_NOTE(c, "step " << step << ": " << m << "\n");
                spikes.push_back(m);
                ++injected;
            }
            const auto r = net.run(now, {});
            from_handlers.clear();
            std::map<UID, SpikeMessage> emitted;
            for (auto &[uid, idx] : r.spikes)
            {
                SpikeMessage m{{uid, step}, {}};
                for (auto x : idx) m.neuron_indexes_.push_back(x);
                emitted[uid] = m;
                spikes.push_back(m);
            }
            for (auto &[uid, m] : r.impacts) impacts.push_back(m);
            for (auto &h : handlers)
            {
                std::vector<SpikeMessage> got;
                for (auto &s : h.senders)
                    if (emitted.count(s)) got.push_back(emitted[s]);
                const auto d = merge(got, h.quiet);
                if (!d.empty()) from_handlers.push_back(SpikeMessage{{h.uid, step + 1}, d});
            }
            for (size_t i = 0; i < n_out; ++i)
                for (auto p : out[i])
                    if (emitted.count(g.shapes[p].uid))
                    {
                        pending[i][step].push_back(emitted[g.shapes[p].uid]);
                        ++delivered;
                    }
            if (net.amb.seen) ambiguous = true;
        }
        if (ambiguous)
        {
            c.label("stopped at a comparison that depends on rounding");
            break;
        }
        for (auto &h : handlers) VP_EQ(c, *h.calls, step, "handlers", "calls of handler " << std::string(h.uid) << ", one for each step");
        // A handler's message of the last step is under way until the next step.
        const auto a = spike_texts(seen_spikes), e = spike_texts(spikes);
        VP_CHECK(c, a == e, "spikes", "observed [" << vp::join(a, "; ") << "], expected [" << vp::join(e, "; ") << "]");
        VP_EQ(c, seen_impacts.size(), impacts.size(), "impacts", "number of impact messages observed");
        for (auto &m : impacts)
        {
            auto it = std::find_if(seen_impacts.begin(), seen_impacts.end(), [&](auto &x) {
                return x.header_.sender_uid_ == m.header_.sender_uid_ && diff_impacts(x, m).empty();
            });
            VP_CHECK(c, it != seen_impacts.end(), "impacts", "no such impacts were observed: " << m);
            seen_impacts.erase(it);
        }
        size_t i = 0;
        for (auto it = backend->begin_populations(); it != backend->end_populations(); ++it, ++i)
        {
            const auto d = diff_pop_any(std::visit([](auto &p) -> core::AllPopulationsVariant { return p; }, *it), net.pops[i]);
            VP_CHECK(c, d.empty(), "state", "before step " << step << ", population " << i << ": " << d);
        }
        for (size_t ch = 0; ch < n_out; ++ch)
        {
            auto &channel = loader.get_output_channel(out_uid(ch));
            for (size_t reads = c.draw(3); reads; --reads)
            {
                const uint64_t from = c.draw(step + 2), to = c.chance(1, 6) ? ~0ull - c.draw(2) : c.chance(1, 8) ? c.draw(step + 2) : from + c.draw(6);
                std::vector<SpikeMessage> expected;
                for (auto it = pending[ch].begin(); it != pending[ch].end();)
                {
                    if (it->first < from || it->first > to)
                    {
                        ++it;
                        continue;
                    }
                    expected.insert(expected.end(), it->second.begin(), it->second.end());
                    it = pending[ch].erase(it);
                }
                const auto got = channel.read_some_from_buffer(from, to);
                const auto x = spike_texts(got), y = spike_texts(expected);
                VP_CHECK(c, x == y, "output", "output channel " << ch << ", steps " << from << " to " << to << ": [" << vp::join(x, "; ") << "], expected [" << vp::join(y, "; ") << "]");
                VP_CHECK(c, std::is_sorted(got.begin(), got.end(), [](auto &l, auto &r) { return l.header_.send_time_ < r.header_.send_time_; }), "output-order", "messages of output channel " << ch << " are not in the order of steps");
            }
            if (c.flag())
            {
                std::vector<SpikeMessage> all;
                for (auto &[s, v] : pending[ch]) all.insert(all.end(), v.begin(), v.end());
                const auto x = spike_texts(channel.update()), y = spike_texts(all);
                VP_CHECK(c, x == y, "output", "output channel " << ch << ": [" << vp::join(x, "; ") << "], expected [" << vp::join(y, "; ") << "]");
            }
        }
    }
    // The executor passes learning on to the backend.
    for (size_t n = c.draw(3); n; --n)
    {
        const bool on = c.flag();
        on ? exec.start_learning() : exec.stop_learning();
        for (auto it = backend->begin_projections(); it != backend->end_projections(); ++it)
            VP_EQ(c, std::visit([](auto &p) { return p.is_locked(); }, it->arg_), !on, "learning", "lock after " << (on ? "start" : "stop") << "_learning()");
    }
    VP_EQ(c, extra_asked, 0u, "generator", "a generator without channel was asked");
    if (n_in >= 5) c.label("5 or more input channels");
    if (!handlers.empty()) c.label("handlers");
    if (links >= 2 && injected >= 3 && delivered >= 2 && runs >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule =
        "network of 1-4 populations and up to 8 projections with 1-8 input and 0-8 output channels, message handlers and observers, run up to 24 steps in several runs, output read by intervals; "
        "non-trivial: at least 2 associations of input channels, 3 messages injected, 2 delivered to output channels, 2 runs";
    return vp::run_main(
        argc, argv, "C20",
        {
            {"single", rule, [](vp::Case &c) { models(c, std::make_shared<SingleBackend>(), false); }, 5000},
            {"multi", rule,
             [](vp::Case &c)
             {
                 const auto k = multi_config(c);
                 VP_NOTE(c, k.str() << "\n");
                 models(c, std::make_shared<MultiBackend>(k.threads, k.pop_part, k.proj_part), true);
             },
             1500},
        },
        {}, {"handlers and observers are added before the first run"});
}
