// C05: concurrent senders, routers and receivers of the in-process bus.
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>

#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <thread>

#include "knp_gen.hpp"

using namespace knp;
namespace cm = knp::core::messaging;

namespace
{
core::UID sender(size_t i) { return kg::make_uid(100 + i); }
core::UID receiver(size_t i) { return kg::make_uid(200 + i); }

void pause(unsigned kind)
{
    switch (kind)
    {
        case 1:
            std::this_thread::yield();
            break;
        case 2:
            std::this_thread::sleep_for(std::chrono::microseconds(20));
            break;
        case 3:
            for (volatile int i = 0; i < 200; ++i) {}
            break;
        default:
            break;
    }
}
}  // namespace

void concurrent(vp::Case &c)
{
    const size_t n_send = 1 + c.draw(4), n_recv = 1 + c.draw(3), n_route = 1 + c.draw(2);
    const bool create_late = c.chance(1, 3);   // other endpoints come and go meanwhile
    const unsigned pause_kind = static_cast<unsigned>(c.draw(4));
    std::vector<size_t> counts;
    for (size_t i = 0; i < n_send; ++i) counts.push_back(c.len(1, 60));
    std::vector<std::set<size_t>> subs(n_recv);
    size_t links = 0;
    for (auto &s : subs)
        for (size_t i = 0; i < n_send; ++i)
            if (c.chance(2, 3)) links += s.insert(i).second;
    VP_NOTE(c, n_send << " senders of [" << vp::join(counts) << "] messages, " << n_recv << " receivers, " << n_route << " routers, pause " << pause_kind << (create_late ? ", endpoints come and go" : "") << "\n");
    for (auto &s : subs) VP_NOTE(c, "receiver of [" << vp::join(s) << "]\n");

    auto bus = core::MessageBus::construct_cpu_bus();
    std::vector<std::unique_ptr<core::MessageEndpoint>> send_ep, recv_ep;
    for (size_t i = 0; i < n_send; ++i) send_ep.push_back(std::make_unique<core::MessageEndpoint>(bus->create_endpoint()));
    for (size_t i = 0; i < n_recv; ++i)
    {
        recv_ep.push_back(std::make_unique<core::MessageEndpoint>(bus->create_endpoint()));
        std::vector<core::UID> uids;
        for (size_t s : subs[i]) uids.push_back(sender(s));
        recv_ep[i]->subscribe<cm::SpikeMessage>(receiver(i), uids);
    }

    std::atomic<bool> go{false}, sent{false}, routed{false};
    std::atomic<size_t> routed_count{0};
    auto wait = [&] { while (!go) std::this_thread::yield(); };
    std::vector<std::vector<cm::SpikeMessage>> got(n_recv);
    std::vector<std::thread> senders, routers, receivers;
    for (size_t i = 0; i < n_send; ++i)
        senders.emplace_back(
            [&, i]
            {
                wait();
                for (size_t k = 0; k < counts[i]; ++k)
                {
                    send_ep[i]->send_message(cm::SpikeMessage{{sender(i), k}, {static_cast<cm::SpikeIndex>(k), 7}});
                    if (k % 4 == 0) pause(pause_kind);
                }
            });
    for (size_t i = 0; i < n_route; ++i)
        routers.emplace_back(
            [&, i]
            {
                wait();
                while (!sent)
                {
                    routed_count += bus->route_messages();
                    if (create_late && i == 0)
                    {
                        auto extra = bus->create_endpoint();
                        bus->route_messages();
                    }
                    pause((pause_kind + i) % 4);
                }
            });
    for (size_t i = 0; i < n_recv; ++i)
        receivers.emplace_back(
            [&, i]
            {
                wait();
                auto take = [&]
                {
                    recv_ep[i]->receive_all_messages();
                    for (auto &m : recv_ep[i]->unload_messages<cm::SpikeMessage>(receiver(i))) got[i].push_back(std::move(m));
                };
                while (!routed)
                {
                    take();
                    pause((pause_kind + 1) % 4);
                }
                take();
            });
    go = true;
    for (auto &t : senders) t.join();
    sent = true;
    for (auto &t : routers) t.join();
    bus->route_messages();
    routed = true;
    for (auto &t : receivers) t.join();

    for (size_t i = 0; i < n_recv; ++i)
    {
        std::map<size_t, std::vector<size_t>> by_sender;
        for (auto &m : got[i])
        {
            size_t s = SIZE_MAX;
            for (size_t k : subs[i])
                if (m.header_.sender_uid_ == sender(k)) s = k;
            VP_CHECK(c, s != SIZE_MAX, "extra-message", "receiver " << i << " got a message of a sender it is not subscribed to");
            VP_CHECK(c, m.neuron_indexes_.size() == 2 && m.neuron_indexes_[0] == m.header_.send_time_ && m.neuron_indexes_[1] == 7, "content", "receiver " << i);
            by_sender[s].push_back(m.header_.send_time_);
        }
        for (size_t s : subs[i])
        {
            auto &v = by_sender[s];
            std::vector<size_t> sorted = v;
            std::sort(sorted.begin(), sorted.end());
            VP_CHECK(c, std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end(), "duplicate", "receiver " << i << " of sender " << s);
            VP_EQ(c, v.size(), counts[s], "lost", "receiver " << i << " of sender " << s);
            // Two routing threads may pass two batches of one sender at once; one keeps the order.
            if (n_route == 1) VP_CHECK(c, v == sorted, "order", "receiver " << i << " of sender " << s << ": [" << vp::join(v) << "]");
        }
    }
    if (n_send + n_recv >= 3 && links >= 2) c.nontrivial();
    c.label(VP_STR(n_send << " senders, " << n_recv << " receivers, " << n_route << " routers"));
}

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C05",
        {{"concurrent",
          "1-4 sender threads (up to 60 messages each), 1-2 routing threads and 1-3 receiver threads on one CPU bus, random "
          "subscriptions and pauses, under ThreadSanitizer; every message is counted at every receiver; non-trivial: at least "
          "three sending and receiving threads and two subscriptions",
          concurrent, 3000, 1, 60, 20}},
        {}, {"subscriptions are made before the threads start", "thread schedules are those the operating system produced"});
}
