// C22: message handlers apply their documented selection.
#include <knp/framework/message_handlers.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/projection/wta.h>

#include "knp_netgen.hpp"

using namespace sim;
namespace fw = knp::framework;
namespace md = knp::framework::modifier;

namespace
{
using Spikes = core::messaging::SpikeData;
using Messages = std::vector<SpikeMessage>;

std::map<uint64_t, size_t> counted(const Spikes &s)
{
    std::map<uint64_t, size_t> r;
    for (auto i : s) ++r[i];
    return r;
}

bool part_of(const Spikes &part, const Spikes &whole)
{
    auto w = counted(whole);
    for (auto &[i, n] : counted(part))
        if (n > w[i]) return false;
    return true;
}

// The group of an index: the number of borders that do not exceed it.
size_t group_of(const std::vector<size_t> &borders, uint64_t index)
{
    size_t n = 0;
    for (auto b : borders) n += b <= index;
    return n;
}

std::vector<Spikes> in_groups(const std::vector<size_t> &borders, const Spikes &s)
{
    std::vector<Spikes> r(borders.size() + 1);
    for (auto i : s) r[group_of(borders, i)].push_back(i);
    return r;
}

Spikes gen_spikes(vp::Case &c, size_t width)
{
    Spikes s;
    if (c.chance(1, 12))  // With repetitions.
    {
        for (size_t n = c.len(0, 12); n; --n) s.push_back(static_cast<uint32_t>(c.draw(width)));
        return s;
    }
    if (width > 64)
    {
        // Many spikes: the contents come from a generator seeded by one choice.
        std::mt19937_64 rng(c.bits64());
        const uint64_t keep = c.range(1, 8);
        for (size_t i = 0; i < width; ++i)
            if (rng() % 8 < keep) s.push_back(static_cast<uint32_t>(i));
        if (c.flag()) std::shuffle(s.begin(), s.end(), rng);
        return s;
    }
    for (size_t i = 0; i < width; ++i)
        if (c.flag()) s.push_back(static_cast<uint32_t>(i));
    if (c.flag())  // Any order.
        for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[c.draw(i)]);
    return s;
}

// The lowest index and border of a case.
thread_local uint64_t base;

size_t gen_width(vp::Case &c)
{
    base = c.chance(1, 12) ? c.pick_of<uint64_t>({240, 65500, 0x7ffffff8, 0xfffffff0 - 3000}) : 0;
    return c.chance(1, 12) ? c.range(65, 3000) : c.range(1, 14);
}

size_t gen_winners(vp::Case &c, size_t width)
{
    return c.chance(1, 12) ? c.pick_of<size_t>({1000000, 0x100000000, SIZE_MAX / 2, SIZE_MAX}) : width > 64 && c.flag() ? c.draw(width) : c.draw(6);
}

Messages gen_messages(vp::Case &c, size_t width)
{
    Messages m;
    const size_t n = c.weighted({1, 8, 2, 1});
    for (size_t i = 0; i < n; ++i)
    {
        m.push_back(SpikeMessage{{kg::make_uid(1 + i), c.draw(100)}, gen_spikes(c, width)});
        for (auto &index : m.back().neuron_indexes_) index += static_cast<uint32_t>(base);
    }
    return m;
}

std::vector<size_t> gen_borders(vp::Case &c, size_t width)
{
    std::vector<size_t> b;
    for (size_t n = c.len(0, 6); n; --n) b.push_back(c.chance(1, 20) ? c.pick_of<size_t>({0xffffffff, 0x100000000, SIZE_MAX}) : base + c.draw(width + 2));
    if (c.chance(2, 3)) std::sort(b.begin(), b.end());
    return b;
}

std::string text(const Messages &m)
{
    std::string r;
    for (auto &x : m) r += VP_STR(x << "; ");
    return r;
}

// Random winners of a message. The same seed gives the same selection.
void k_wta(vp::Case &c)
{
    const size_t width = gen_width(c), winners = gen_winners(c, width);
    const int seed = static_cast<int>(c.range_near(-50, 50, 0));
    md::KWtaRandomHandler h(winners, seed), same(winners, seed);
    VP_NOTE(c, winners << " winners, seed " << seed << "\n");
    unsigned selected = 0;
    for (size_t n = c.len(1, 8); n; --n)
    {
        const auto in = gen_messages(c, width);
        VP_NOTE(c, text(in) << "\n");
        auto copy = in, copy2 = in;
        const auto out = h(copy);
        VP_CHECK(c, out == same(copy2), "seed", "another handler with the same seed selects otherwise");
        const Spikes whole = in.empty() ? Spikes{} : in[0].neuron_indexes_;
        VP_EQ(c, out.size(), std::min(winners, whole.size()), "winners", "number of winners, selected: " << vp::join(out));
        VP_CHECK(c, part_of(out, whole), "winners", "selected " << vp::join(out));
        selected += whole.size() > winners && winners;
    }
    // All indexes can win.
    if (winners && winners < 100 && c.chance(1, 10))
    {
        const size_t n = winners + c.range(1, 4);
        if (n < 20)
        {
            std::set<uint64_t> won;
            for (size_t i = 0; i < 600 && won.size() < n; ++i)
            {
                Messages m{SpikeMessage{{kg::make_uid(1), i}, {}}};
                for (size_t k = 0; k < n; ++k) m[0].neuron_indexes_.push_back(static_cast<uint32_t>(k));
                for (auto x : h(m)) won.insert(x);
            }
            VP_EQ(c, won.size(), n, "random", "of " << n << " indexes, those that won once in 600 selections of " << winners);
        }
    }
    if (selected >= 2) c.nontrivial();
}

void group_wta(vp::Case &c)
{
    const size_t width = gen_width(c), winners = gen_winners(c, width);
    const int seed = static_cast<int>(c.range_near(-50, 50, 0));
    const auto borders = gen_borders(c, width);
    md::GroupWtaRandomHandler h(borders, winners, seed), same(borders, winners, seed);
    VP_NOTE(c, "borders " << vp::join(borders) << ", " << winners << " winning groups, seed " << seed << "\n");
    unsigned selected = 0;
    for (size_t n = c.len(1, 8); n; --n)
    {
        const auto in = gen_messages(c, width);
        VP_NOTE(c, text(in) << "\n");
        auto copy = in;
        const auto out = h(copy);
        VP_CHECK(c, copy == in, "unchanged", "the messages changed");
        VP_CHECK(c, out == same(in), "seed", "another handler with the same seed selects otherwise");
        if (in.empty())
        {
            VP_CHECK(c, out.empty(), "groups", "spikes without messages");
            continue;
        }
        // The spikes of each group are all there or none; a group that is not there has no more spikes than any that is.
        const auto all = in_groups(borders, in[0].neuron_indexes_), got = in_groups(borders, out);
        size_t won = 0, filled = 0, least = ~size_t(0), best_loser = 0;
        for (size_t i = 0; i < all.size(); ++i)
        {
            if (all[i].empty() && got[i].empty()) continue;
            ++filled;
            if (got[i].empty())
            {
                best_loser = std::max(best_loser, all[i].size());
                continue;
            }
            VP_CHECK(c, counted(got[i]) == counted(all[i]), "groups", "group " << i << ": " << vp::join(got[i]) << " of " << vp::join(all[i]));
            ++won;
            least = std::min(least, all[i].size());
        }
        VP_EQ(c, won, std::min(filled, winners), "groups", "number of groups that pass, selected: " << vp::join(out));
        VP_CHECK(c, best_loser <= least, "groups", "a group with " << best_loser << " spikes lost, one with " << least << " won: " << vp::join(out));
        selected += filled > winners && winners;
    }
    if (winners && winners < 100 && c.chance(1, 10))
    {
        const size_t groups = winners + c.range(1, 4);
        if (groups < 20)
        {
            std::vector<size_t> b;
            for (size_t i = 1; i < groups; ++i) b.push_back(2 * i);
            md::GroupWtaRandomHandler tie(b, winners, seed);
            std::set<size_t> won;
            Messages m{SpikeMessage{{kg::make_uid(1), 0}, {}}};
            for (size_t k = 0; k < 2 * groups; ++k) m[0].neuron_indexes_.push_back(static_cast<uint32_t>(k));
            for (size_t i = 0; i < 600 && won.size() < groups; ++i)
                for (auto x : tie(m)) won.insert(group_of(b, x));
            VP_EQ(c, won.size(), groups, "random", "of " << groups << " groups with the same number of spikes, those that won once in 600 selections of " << winners);
        }
    }
    if (selected >= 2) c.nontrivial();
}

// Whether a selection of at most `winners` spikes of each group is one of the message.
std::string per_group_problem(const std::vector<size_t> &borders, size_t winners, const Spikes &whole, const Spikes &out)
{
    const auto all = in_groups(borders, whole), got = in_groups(borders, out);
    for (size_t i = 0; i < all.size(); ++i)
    {
        if (got[i].size() != std::min(all[i].size(), winners)) return VP_STR("group " << i << " has " << got[i].size() << " winners of " << all[i].size() << " spikes");
        if (!part_of(got[i], all[i])) return VP_STR("group " << i << ": " << vp::join(got[i]) << " of " << vp::join(all[i]));
    }
    return "";
}

void per_group(vp::Case &c)
{
    const size_t width = gen_width(c), winners = gen_winners(c, width);
    const int seed = static_cast<int>(c.range_near(-50, 50, 0));
    const auto borders = gen_borders(c, width);
    md::KWtaPerGroup h(borders, winners, seed), same(borders, winners, seed);
    VP_NOTE(c, "borders " << vp::join(borders) << ", " << winners << " winners of each group, seed " << seed << "\n");
    unsigned selected = 0;
    for (size_t n = c.len(1, 8); n; --n)
    {
        const auto in = gen_messages(c, width);
        VP_NOTE(c, text(in) << "\n");
        auto copy = in;
        const auto out = h(copy);
        VP_CHECK(c, copy == in, "unchanged", "the messages changed");
        VP_CHECK(c, out == same(in), "seed", "another handler with the same seed selects otherwise");
        const auto whole = in.empty() ? Spikes{} : in[0].neuron_indexes_;
        const auto problem = per_group_problem(borders, winners, whole, out);
        VP_CHECK(c, problem.empty(), "winners", problem << ", selected: " << vp::join(out));
        selected += out.size() < whole.size() && winners;
    }
    if (winners && winners < 100 && c.chance(1, 10))
    {
        const size_t size = winners + c.range(1, 4), groups = c.range(1, 3);
        if (size < 20)
        {
            std::vector<size_t> b;
            for (size_t i = 1; i < groups; ++i) b.push_back(size * i);
            md::KWtaPerGroup fair(b, winners, seed);
            std::set<uint64_t> won;
            Messages m{SpikeMessage{{kg::make_uid(1), 0}, {}}};
            for (size_t k = 0; k < size * groups; ++k) m[0].neuron_indexes_.push_back(static_cast<uint32_t>(k));
            for (size_t i = 0; i < 800 && won.size() < size * groups; ++i)
                for (auto x : fair(m)) won.insert(x);
            VP_EQ(c, won.size(), size * groups, "random", "of " << groups << " groups of " << size << " spikes, those that won once in 800 selections of " << winners);
        }
    }
    if (selected >= 2) c.nontrivial();
}

void unions(vp::Case &c)
{
    md::SpikeUnionHandler h;
    size_t messages = 0, common = 0;
    for (size_t n = c.len(1, 6); n; --n)
    {
        Messages in;
        const size_t width = c.chance(1, 12) ? c.range(65, 3000) : 12;
        for (size_t k = c.len(0, 6); k; --k) in.push_back(SpikeMessage{{kg::make_uid(k), c.draw(9)}, gen_spikes(c, width)});
        if (c.chance(1, 12))
            for (auto &m : in)
                for (auto &index : m.neuron_indexes_) index += 0x7ffffff8 + (index % 3) * 4096;
        VP_NOTE(c, text(in) << "\n");
        auto copy = in;
        auto out = h(copy);
        VP_CHECK(c, copy == in, "unchanged", "the messages changed");
        std::set<uint64_t> expected;
        size_t total = 0;
        for (auto &m : in)
        {
            expected.insert(m.neuron_indexes_.begin(), m.neuron_indexes_.end());
            total += m.neuron_indexes_.size();
        }
        messages = std::max(messages, in.size());
        common += expected.size() < total;
        std::sort(out.begin(), out.end());
        VP_CHECK(c, std::equal(out.begin(), out.end(), expected.begin(), expected.end()), "union", "union " << vp::join(out) << ", expected " << vp::join(expected));
    }
    if (messages >= 2 && common) c.nontrivial();
}

// Winner-take-all handlers in a network that runs.
void network(vp::Case &c)
{
    NetOptions o;
    o.max_projs = 8;
    auto g = gen_net(c, o);
    note_net(c, g);
    fw::Network n;
    for (auto &p : g.pops) n.add_population(core::AllPopulationsVariant(p));
    for (auto &p : g.projs) n.add_projection(core::AllProjectionsVariant(p));
    fw::Model model(std::move(n));
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (auto ch : g.feeds[i]) model.add_input_channel(channel_uid(ch), g.proj_shapes[i].uid);
    const size_t total = c.len(1, 16);
    std::vector<std::vector<Spikes>> input(g.channels, std::vector<Spikes>(total));
    for (auto &ch : input)
        for (auto &s : ch)
            for (size_t i = 0; i <= g.channel_width; ++i)
                if (c.chance(2, 3)) s.push_back(static_cast<uint32_t>(i));
    fw::ModelLoader::InputChannelMap map;
    for (size_t i = 0; i < g.channels; ++i)
        map[channel_uid(i)] = [&, i](core::Step s) { return s < total ? input[i][s] : Spikes{}; };
    auto backend = std::make_shared<SingleBackend>();
    fw::ModelExecutor exec(model, backend, map);

    // Everybody's spikes, seen through an end point of our own.
    std::vector<UID> senders;
    for (auto &p : g.shapes) senders.push_back(p.uid);
    std::set<size_t> used;
    for (auto &f : g.feeds) used.insert(f.begin(), f.end());
    for (auto ch : used) senders.push_back(channel_uid(ch));
    std::vector<std::pair<std::vector<UID>, std::vector<UID>>> data;
    for (size_t i = c.weighted({0, 3, 3, 1}); i; --i)
    {
        data.emplace_back();
        data.back().first.push_back(c.pick(senders));
        for (auto &p : g.proj_shapes)
            if (c.chance(1, 2)) data.back().second.push_back(p.uid);
    }
    const size_t winners = c.chance(1, 20) ? SIZE_MAX : c.range(0, 3);
    base = 0;
    const auto borders = gen_borders(c, 6);
    const auto uids = fw::projection::add_wta_handlers(exec, winners, borders, data);
    VP_EQ(c, uids.size(), data.size(), "wta", "UIDs of handlers");
    VP_EQ(c, exec.get_message_handlers().size(), data.size(), "wta", "handlers");
    VP_NOTE(c, winners << " winners, borders " << vp::join(borders) << "\n");
    auto net = reference(g);
    for (size_t i = 0; i < data.size(); ++i)
    {
        VP_CHECK(c, uids[i] && std::count(uids.begin(), uids.end(), uids[i]) == 1, "wta", "UID of handler " << i);
        for (auto &r : data[i].second) net.spike_feeds[r].insert(uids[i]);
        if (c.noting())
        {
            VP_NOTE(c, "handler " << i << ": " << std::string(data[i].first[0]) << " ->");
            for (auto &r : data[i].second) VP_NOTE(c, " " << std::string(r));
            VP_NOTE(c, "\n");
        }
    }
    auto all = senders;
    all.insert(all.end(), uids.begin(), uids.end());
    std::vector<UID> projections;
    for (auto &p : g.proj_shapes) projections.push_back(p.uid);
    auto endpoint = backend->get_message_bus().create_endpoint();
    const auto me = kg::make_uid(777777);
    endpoint.subscribe<SpikeMessage>(me, all);
    endpoint.subscribe<ImpactMessage>(me, projections);
    std::vector<Messages> spikes(total);
    std::vector<std::vector<ImpactMessage>> impacts(total);
    uint64_t done = 0;
    exec.add_observer<SpikeMessage>(
        [&](const Messages &)
        {
            endpoint.receive_all_messages();
            spikes[done] = endpoint.unload_messages<SpikeMessage>(me);
            impacts[done] = endpoint.unload_messages<ImpactMessage>(me);
            ++done;
        },
        {});
    exec.start([&](core::Step s) { return s < total; });
    VP_EQ(c, done, total, "wta", "steps");
    unsigned selections = 0;
    for (uint64_t step = 0; step < total; ++step)
    {
        // What handlers sent and what they should have.
        Messages feed;
        for (size_t i = 0; i < uids.size(); ++i)
        {
            Spikes source, out;
            if (step)
                for (auto &m : spikes[step - 1])
                    if (m.header_.sender_uid_ == data[i].first[0]) source = m.neuron_indexes_;
            size_t count = 0;
            for (auto &m : spikes[step])
                if (m.header_.sender_uid_ == uids[i])
                {
                    ++count;
                    out = m.neuron_indexes_;
                    VP_EQ(c, m.header_.send_time_, step, "step", "step of a message of handler " << i);
                }
            VP_EQ(c, count, size_t(winners && !source.empty()), "wta", "step " << step << ": messages of handler " << i << ", spikes before: " << vp::join(source));
            const auto problem = per_group_problem(borders, winners, source, out);
            VP_CHECK(c, problem.empty(), "wta", "step " << step << ", handler " << i << ": " << problem << ", selected " << vp::join(out) << " of " << vp::join(source));
            selections += out.size() && out.size() < source.size();
        }
        for (auto &m : spikes[step])
            if (std::find_if(g.shapes.begin(), g.shapes.end(), [&](auto &p) { return p.uid == m.header_.sender_uid_; }) == g.shapes.end())
            {
                VP_NOTE(c, "step " << step << ": " << m << "\n");
                feed.push_back(m);
            }
        // The projections it is connected to got them, no others.
        const auto r = net.run(feed, {});
        if (net.amb.seen) break;
        auto seen = impacts[step];
        VP_EQ(c, seen.size(), r.impacts.size(), "receivers", "step " << step << ": number of impact messages");
        for (auto &[uid, m] : r.impacts)
        {
            auto it = std::find_if(seen.begin(), seen.end(), [&, &m = m](auto &x) { return x.header_.sender_uid_ == m.header_.sender_uid_ && diff_impacts(x, m).empty(); });
            VP_CHECK(c, it != seen.end(), "receivers", "step " << step << ": no such impacts were observed: " << m);
        }
    }
    if (selections >= 1) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule = "1-8 messages over up to 14 indexes, up to 6 borders in any order, up to 4 winners; non-trivial: at least 2 messages of which only a part is selected";
    return vp::run_main(
        argc, argv, "C22",
        {
            {"k-wta", rule, k_wta, 20000},
            {"group-wta", rule, group_wta, 20000},
            {"k-wta-per-group", rule, per_group, 20000},
            {"union", "up to 6 messages; non-trivial: an index in two messages", unions, 10000},
            {"network", "network of 1-4 populations and up to 8 projections with up to 3 winner-take-all handlers, run up to 16 steps; non-trivial: a handler selects a part of the spikes", network, 4000},
        },
        {}, {"each winner-take-all handler has one sender: only the first message of a step counts"});
}
