// C21: input converters and output readout report exactly the data.
#include <knp/core/message_bus.h>
#include <knp/framework/io/in_converters/index_converter.h>
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/input_channel.h>
#include <knp/framework/io/input_interpreters.h>
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>
#include <knp/framework/io/output_channel.h>

#include <map>
#include <set>
#include <sstream>

#include "knp_gen.hpp"

using namespace knp;
namespace in = knp::framework::io::input;
namespace out = knp::framework::io::output;
using Spikes = core::messaging::SpikeData;
using SpikeMessage = core::messaging::SpikeMessage;

namespace
{
std::string spaces(vp::Case &c)
{
    const char *s[] = {" ", "\n", "  ", "\t", " \n"};
    return s[c.weighted({6, 3, 1, 1, 1})];
}

template <class T>
T value(vp::Case &c)
{
    if constexpr (std::is_same_v<T, bool>) return c.flag();
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(c.dyadic(4, 2));
    else return static_cast<T>(c.range_near(std::is_signed_v<T> ? -5 : 0, 9, 1));
}

// What a sequence of values encodes, step by step; the stream may end anywhere.
template <class T>
void sequence(vp::Case &c)
{
    const size_t n = c.len(0, 60);
    std::vector<T> values;
    std::ostringstream text;
    for (size_t i = 0; i < n; ++i)
    {
        values.push_back(value<T>(c));
        if (i || c.chance(1, 4)) text << spaces(c);
        text << values.back();
    }
    if (c.flag()) text << spaces(c);
    size_t size = c.len(0, 12);
    const bool threshold = c.flag();
    const T limit = value<T>(c);
    std::function<bool(T)> f = threshold ? std::function<bool(T)>(in::interpret_with_threshold<T>(limit)) : std::function<bool(T)>(in::interpret_as_bool<T>);
    VP_NOTE(c, "values '" << text.str() << "', size " << size << (threshold ? VP_STR(", threshold " << limit) : std::string(", not zero")) << "\n");
    in::SequenceConverter<T> converter(std::make_unique<std::istringstream>(text.str()), f, size);
    size_t at = 0;
    unsigned long hits = 0;
    const size_t steps = c.len(1, 12);
    for (size_t step = 0; step < steps; ++step)
    {
        if (c.chance(1, 8))
        {
            size = c.len(0, 12);
            VP_NOTE(c, "size " << size << "\n");
            converter.set_size(size);
        }
        Spikes expected;
        for (size_t i = 0; i < size; ++i, ++at)
            if (at < n && (threshold ? values[at] >= limit : values[at] != T(0))) expected.push_back(static_cast<core::messaging::SpikeIndex>(i));
        const auto got = c.flag() ? converter(step) : converter();
        VP_CHECK(c, got == expected, "sequence", "step " << step << ": [" << vp::join(got) << "], expected [" << vp::join(expected) << "]");
        hits += expected.size();
    }
    if (n && at >= n) c.label("stream ends");
    if (hits >= 2 && size >= 2) c.nontrivial();
}

void sequences(vp::Case &c)
{
    switch (c.draw(5))
    {
        case 0: return sequence<int>(c);
        case 1: return sequence<float>(c);
        case 2: return sequence<bool>(c);
        case 3: return sequence<unsigned>(c);
        default: return sequence<double>(c);
    }
}

// Lines of indexes, one line for a step.
void indexes(vp::Case &c)
{
    const char delim = ", ;|\t/"[c.draw(6)];
    const size_t lines = c.len(0, 10);
    std::vector<Spikes> data(lines);
    std::string text;
    size_t many = 0;
    for (size_t i = 0; i < lines; ++i)
    {
        for (size_t n = c.len(0, 8); n; --n)
            data[i].push_back(static_cast<core::messaging::SpikeIndex>(c.weighted({6, 2, 1}) == 0 ? c.draw(10) : c.flag() ? c.draw(100000) : 0xffffffffu - c.draw(3)));
        for (size_t k = 0; k < data[i].size(); ++k)
        {
            if (k) text += delim;
            if (k && delim != ' ' && c.chance(1, 6)) text += ' ';
            text += std::to_string(data[i][k]);
        }
        if (!data[i].empty() && c.chance(1, 6)) text += delim;
        if (i + 1 < lines || c.flag()) text += '\n';
        many = std::max(many, data[i].size());
    }
    VP_NOTE(c, "text '" << text << "'\n");
    in::IndexConverter converter = delim == ',' && c.flag() ? in::IndexConverter(std::make_unique<std::istringstream>(text)) : in::IndexConverter(std::make_unique<std::istringstream>(text), delim);
    for (size_t step = 0; step < lines + 3; ++step)
    {
        const auto got = c.flag() ? converter(step) : converter();
        const auto expected = step < lines ? data[step] : Spikes{};
        VP_CHECK(c, got == expected, "indexes", "step " << step << ": [" << vp::join(got) << "], expected [" << vp::join(expected) << "]");
    }
    if (lines >= 2 && many >= 2) c.nontrivial();
}

struct Entry
{
    uint64_t step;
    size_t sender;
    Spikes spikes;
};

std::vector<std::string> texts(const std::vector<Entry> &v)
{
    // Messages of different senders in one step have no order.
    auto sorted = v;
    for (auto i = sorted.begin(); i != sorted.end();)
    {
        auto end = std::find_if(i, sorted.end(), [i](auto &e) { return e.step != i->step; });
        std::stable_sort(i, end, [](auto &a, auto &b) { return a.sender < b.sender; });
        i = end;
    }
    std::vector<std::string> r;
    for (auto &e : sorted) r.push_back(VP_STR("step " << e.step << " sender " << e.sender << ": " << vp::join(e.spikes)));
    return r;
}

// Input channels and plain senders on a bus, an output channel read by intervals of steps and converted.
void channels(vp::Case &c)
{
    auto bus = core::MessageBus::construct_bus();
    const auto out_uid = kg::make_uid(1);
    auto sender_uid = [](size_t i) { return kg::make_uid(10 + i); };
    constexpr size_t n_senders = 4;
    std::set<size_t> subscribed;
    std::vector<core::UID> uids;
    for (size_t i = 0; i < n_senders; ++i)
        if (c.chance(2, 3))
        {
            subscribed.insert(i);
            uids.push_back(sender_uid(i));
        }
    auto endpoint = bus->create_endpoint();
    endpoint.subscribe<SpikeMessage>(out_uid, uids);
    out::OutputChannel made(out_uid, std::move(endpoint));
    out::OutputChannel channel(std::move(made));
    VP_CHECK(c, channel.get_uid() == out_uid, "uid", "UID of the output channel");
    std::vector<Spikes> next(n_senders);
    std::vector<uint64_t> asked;
    std::vector<std::unique_ptr<in::InputChannel>> inputs;
    for (size_t i = 0; i < n_senders; ++i)
    {
        in::DataGenerator g = [&next, &asked, i](core::Step s) { asked.push_back(s); return next[i]; };
        inputs.push_back(c.flag() ? std::make_unique<in::InputChannel>(sender_uid(i), bus->create_endpoint(), g) : std::make_unique<in::InputChannel>(sender_uid(i), bus->create_endpoint(), std::move(g)));
        VP_CHECK(c, inputs[i]->get_uid() == sender_uid(i), "uid", "UID of input channel " << i);
    }
    // Another receiver, connected through the helper.
    auto watcher = bus->create_endpoint();
    const size_t watched = c.draw(n_senders);
    in::connect_input(*inputs[watched], watcher, kg::make_uid(2));
    std::vector<Entry> watcher_expected;

    std::vector<Entry> under_way, buffer;   // routed but not taken, in the buffer of the channel
    std::vector<Entry> unrouted;
    uint64_t step = c.chance(1, 6) ? c.draw(1000000) : c.chance(1, 8) ? c.pick_of({(uint64_t{1} << 32) - 10, ~uint64_t{0} - 200000}) : 0;
    const uint64_t first = step;
    VP_NOTE(c, "output channel of senders " << vp::join(subscribed) << "\n");
    auto take = [&] { buffer.insert(buffer.end(), under_way.begin(), under_way.end()); under_way.clear(); };
    auto as_entries = [&](const std::vector<SpikeMessage> &v)
    {
        std::vector<Entry> r;
        for (auto &m : v)
        {
            size_t who = 99;
            for (size_t i = 0; i < n_senders; ++i) if (m.header_.sender_uid_ == sender_uid(i)) who = i;
            r.push_back({m.header_.send_time_, who, m.neuron_indexes_});
        }
        return r;
    };
    auto interval = [&](uint64_t from, uint64_t to)
    {
        std::vector<Entry> r, rest;
        for (auto &e : buffer) (e.step >= from && e.step <= to ? r : rest).push_back(e);
        buffer = rest;
        return r;
    };
    auto route = [&]
    {
        bus->route_messages();
        for (auto &e : unrouted)
        {
            if (subscribed.count(e.sender)) under_way.push_back(e);
            if (e.sender == watched) watcher_expected.push_back(e);
        }
        unrouted.clear();
        watcher.receive_all_messages();
        const auto got = texts(as_entries(watcher.unload_messages<SpikeMessage>(kg::make_uid(2))));
        VP_CHECK(c, got == texts(watcher_expected), "connect-input", "endpoint connected to input channel " << watched << " got [" << vp::join(got, "; ") << "], expected [" << vp::join(texts(watcher_expected), "; ") << "]");
        watcher_expected.clear();
    };
    size_t reads = 0;
    unsigned long read_messages = 0;
    const size_t ops = c.len(2, 60);
    for (size_t op = 0; op < ops; ++op)
    {
        switch (c.weighted({8, 4, 2, 2, 4}))
        {
            case 0:
            {
                if (c.chance(1, 100))
                {
                    // Many messages between two looks at the channel.
                    const size_t n = c.range(50, 1500), i = c.draw(n_senders);
                    VP_NOTE(c, "from step " << step << ", sender " << i << " sends in each of " << n << " steps\n");
                    for (size_t k = 0; k < n; ++k)
                    {
                        next[i] = {static_cast<core::messaging::SpikeIndex>(k % 12)};
                        inputs[i]->send(step);
                        unrouted.push_back({step, i, next[i]});
                        route();
                        ++step;
                        if (k % 16 == 0)
                        {
                            take();
                            (void)channel.update();
                        }
                    }
                    break;
                }
                const size_t i = c.draw(n_senders);
                next[i].clear();
                for (size_t n = c.range(0, 5); n; --n) next[i].push_back(static_cast<core::messaging::SpikeIndex>(c.draw(12)));
                if (c.chance(1, 8)) next[i].push_back(c.pick_of<core::messaging::SpikeIndex>({255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}));
                if (c.chance(1, 30)) next[i].insert(next[i].end(), c.range(200, 400), static_cast<core::messaging::SpikeIndex>(c.draw(12)));
                asked.clear();
                VP_NOTE(c, "step " << step << ": sender " << i << " sends " << vp::join(next[i]) << "\n");
                const bool sent = inputs[i]->send(step);
                VP_CHECK(c, asked == std::vector<uint64_t>{step}, "generator", "generator asked for steps " << vp::join(asked));
                VP_EQ(c, sent, !next[i].empty(), "send", "send() tells whether it sent");
                if (sent) unrouted.push_back({step, i, next[i]});
                break;
            }
            case 1:
                VP_NOTE(c, "route\n");
                route();  // As a backend does; otherwise messages of different steps could swap.
                step += c.range(1, 3);
                break;
            case 2:
            {
                VP_NOTE(c, "route\n");
                route();
                break;
            }
            case 3:
            {
                VP_NOTE(c, "update\n");
                take();
                const auto got = texts(as_entries(channel.update()));
                VP_CHECK(c, got == texts(buffer), "update", "update() returned [" << vp::join(got, "; ") << "], expected [" << vp::join(texts(buffer), "; ") << "]");
                break;
            }
            default:
            {
                const uint64_t from = c.chance(1, 6) ? 0 : first + c.draw(step - first + 3);
                const uint64_t to = c.chance(1, 6) ? ~0ull : c.chance(1, 8) ? from - (from ? 1 : 0) : from + c.draw(6);
                const size_t kind = c.draw(5);
                // A set can be asked for without limit.
                const size_t size = kind == 4 && c.chance(1, 5) ? c.pick_of<size_t>({65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x100000000 * 3, SIZE_MAX}) : c.len(0, 14);
                const char *names[] = {"read", "read", "count", "bits", "set"};
                VP_NOTE(c, names[kind] << " steps " << from << " to " << to << (kind > 1 ? VP_STR(" size " << size) : std::string()) << "\n");
                if (kind > 1) take();
                const auto expected = interval(from, to);
                ++reads;
                read_messages += expected.size();
                if (kind <= 1)
                {
                    const auto got = texts(as_entries(channel.read_some_from_buffer(from, to)));
                    VP_CHECK(c, got == texts(expected), "read", "steps " << from << " to " << to << ": [" << vp::join(got, "; ") << "], expected [" << vp::join(texts(expected), "; ") << "]");
                    break;
                }
                if (kind == 4)
                {
                    std::set<core::messaging::SpikeIndex> s;
                    for (auto &e : expected)
                        for (auto i : e.spikes)
                            if (i < size) s.insert(i);
                    const auto got = out::output_channel_get<std::set<core::messaging::SpikeIndex>>(channel, out::ConvertToSet(size), from, to);
                    VP_CHECK(c, got == s, "set", "set " << vp::join(got) << ", expected " << vp::join(s));
                    break;
                }
                std::vector<size_t> count(size);
                for (auto &e : expected)
                    for (auto i : e.spikes)
                        if (i < size) ++count[i];
                if (kind == 2)
                {
                    const auto got = out::output_channel_get<std::vector<size_t>>(channel, [size](const std::vector<SpikeMessage> &m) { return out::converter_count(m, size); }, from, to);
                    VP_CHECK(c, got == count, "count", "counts " << vp::join(got) << ", expected " << vp::join(count));
                }
                else
                {
                    std::vector<bool> bits(size);
                    for (size_t i = 0; i < size; ++i) bits[i] = count[i] != 0;
                    const auto got = out::output_channel_get<std::vector<bool>>(channel, [size](const std::vector<SpikeMessage> &m) { return out::converter_bitwise(m, size); }, from, to);
                    VP_CHECK(c, got == bits, "bits", "bits " << vp::join(got) << ", expected " << vp::join(bits));
                }
            }
        }
    }
    if (reads >= 2 && read_messages >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C21",
        {
            {"sequence", "0-60 values of five types, read 0-12 at a step beyond the end of the stream; non-trivial: at least 2 spikes", sequences, 30000},
            {"indexes", "0-10 lines of 0-8 indexes with any delimiter; non-trivial: at least 2 lines, one with at least 2 indexes", indexes, 20000},
            {"channels", "4 input channels, an output channel of some of them, up to 60 operations: sending, routing, updating and reading intervals of steps by all converters; non-trivial: at least 2 reads and 2 messages read", channels, 20000},
        },
        {}, {"messages reach an output channel in the order of their steps", "indexes in a line are separated by one delimiter"});
}
