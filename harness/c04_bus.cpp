// C04: messages reach exactly their subscribers, once and in order, on both transports.
#include <knp/core/backend.h>
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>

#include <chrono>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <thread>

#include "knp_gen.hpp"

using namespace knp;
namespace cm = knp::core::messaging;

namespace
{
constexpr size_t n_senders = 5, n_receivers = 4;

// Receivers of a case may have the UIDs of senders.
thread_local bool same_uids = false;
core::UID sender(size_t i) { return kg::make_uid(100 + i); }
core::UID receiver(size_t i) { return kg::make_uid((same_uids ? 100 : 200) + i); }

// What was sent: `id` is unique in the history.
struct Sent
{
    bool impact;
    size_t sender;
    size_t from;   // number of the endpoint it was sent through
    size_t id;
    cm::MessageVariant message;
};

std::string text(const cm::SpikeMessage &m)
{
    return VP_STR("S " << std::string(m.header_.sender_uid_) << " " << m.header_.send_time_ << " [" << vp::join(m.neuron_indexes_) << "]");
}

std::string text(const cm::SynapticImpactMessage &m)
{
    std::string s = VP_STR(
        "I " << std::string(m.header_.sender_uid_) << " " << m.header_.send_time_ << " " << std::string(m.presynaptic_population_uid_)
             << " " << std::string(m.postsynaptic_population_uid_) << " " << m.is_forcing_ << " [");
    for (const auto &i : m.impacts_)
        s += VP_STR(i.connection_index_ << "," << i.impact_value_ << "," << static_cast<int>(i.synapse_type_) << "," << i.presynaptic_neuron_index_ << "," << i.postsynaptic_neuron_index_ << ";");
    return s + "]";
}

size_t id_of(const cm::SpikeMessage &m) { return m.neuron_indexes_.empty() ? SIZE_MAX : m.neuron_indexes_[0]; }
size_t id_of(const cm::SynapticImpactMessage &m) { return m.impacts_.empty() ? SIZE_MAX : m.impacts_[0].connection_index_; }

struct Sub
{
    std::set<size_t> senders;
    std::vector<const Sent *> queue;
};

struct Ep
{
    std::optional<core::MessageEndpoint> ep;
    size_t number;
    std::map<std::pair<bool, size_t>, Sub> subs;
    std::set<size_t> ever;               // senders this endpoint has ever been subscribed to through subscribe()
    std::vector<const Sent *> pending;   // routed, not received yet
};
}  // namespace

void history(vp::Case &c, bool zmq)
{
    same_uids = c.chance(1, 3);
    if (same_uids) VP_NOTE(c, "receivers have the UIDs of senders\n");
    auto bus = zmq ? core::MessageBus::construct_zmq_bus() : core::MessageBus::construct_cpu_bus();
    std::list<Ep> eps;
    std::list<Sent> log;
    std::vector<const Sent *> unrouted;
    size_t created = 0, next_id = 1;
    bool fresh = false;
    unsigned delivered_total = 0, rejected_total = 0, routes = 0, changes = 0;

    auto create = [&]
    {
        eps.emplace_back();
        eps.back().ep.emplace(bus->create_endpoint());
        eps.back().number = created++;
        fresh = true;
        VP_NOTE(c, "create endpoint e" << created - 1 << "\n");
    };
    auto route = [&]
    {
        // ZeroMQ attaches a new subscriber asynchronously.
        if (zmq && fresh) std::this_thread::sleep_for(std::chrono::milliseconds(8));
        fresh = false;
        const size_t n = bus->route_messages();
        if (!zmq) VP_EQ(c, n, unrouted.size(), "route-count", "messages routed");
        for (auto *m : unrouted)
            for (auto &e : eps) e.pending.push_back(m);
        routes += !unrouted.empty();
        unrouted.clear();
    };
    auto drain_all = [&](Ep &e)
    {
        if (e.pending.empty()) return;
        // With pauses between the messages or without.
        const size_t received = e.pending.size() < 5 && c.chance(1, 10) ? e.ep->receive_all_messages(std::chrono::milliseconds(1)) : e.ep->receive_all_messages();
        size_t wanted = 0;
        for (auto *m : e.pending)
            wanted += std::any_of(e.subs.begin(), e.subs.end(), [m](auto &s) { return s.first.first == m->impact && s.second.senders.count(m->sender); });
        VP_CHECK(c, received >= wanted && received <= e.pending.size(), "receive-count", "receive_all_messages of e" << e.number << " = " << received << ", " << wanted << " messages for its subscriptions, " << e.pending.size() << " sent");
        for (auto *m : e.pending)
            for (auto &[key, sub] : e.subs)
            {
                if (key.first == m->impact && sub.senders.count(m->sender))
                {
                    sub.queue.push_back(m);
                    ++delivered_total;
                }
                else
                    ++rejected_total;
            }
        e.pending.clear();
    };
    auto pick = [&]() -> Ep & { return *std::next(eps.begin(), static_cast<long>(c.draw(eps.size()))); };

    auto check_messages = [&](const auto &got, Sub &sub, const Ep &e, size_t recv, const char *when)
    {
        const std::string where = VP_STR(when << " receiver r" << recv << " of e" << e.number << (zmq ? " (zmq)" : " (cpu)"));
        std::map<size_t, const Sent *> want;
        for (auto *m : sub.queue) want[m->id] = m;
        std::map<size_t, size_t> last;   // endpoint of the sender -> last id
        std::set<size_t> seen;
        for (const auto &m : got)
        {
            const size_t id = id_of(m);
            VP_CHECK(c, want.count(id), "extra-message", where << ": got " << text(m));
            VP_CHECK(c, seen.insert(id).second, "duplicate", where << ": got twice " << text(m));
            const Sent &s = *want[id];
            using M = std::decay_t<decltype(m)>;
            VP_EQ(c, text(m), text(std::get<M>(s.message)), "content", where);
            VP_CHECK(c, !last.count(s.from) || last[s.from] < id, "order", where << ": message " << id << " sent through e" << s.from << " came after message " << last[s.from]);
            last[s.from] = id;
        }
        for (auto &[id, m] : want)
            VP_CHECK(c, seen.count(id), "lost", where << ": message " << id << " sent through e" << m->from << " is missing; got " << got.size() << " of " << want.size());
    };
    auto check_sub = [&](Ep &e, bool impact, size_t recv, bool unload)
    {
        Sub &sub = e.subs.at({impact, recv});
        auto peek = [&](auto tag)
        {
            using M = decltype(tag);
            constexpr size_t index = core::MessageEndpoint::get_type_index<cm::MessageVariant, M>;
            if (unload)
            {
                check_messages(e.ep->unload_messages<M>(receiver(recv)), sub, e, recv, "unload");
                sub.queue.clear();
                VP_CHECK(c, e.ep->unload_messages<M>(receiver(recv)).empty(), "unload-twice", "a second unload returns messages again");
            }
            else
            {
                const auto &all = e.ep->get_endpoint_subscriptions();
                auto it = all.find({index, receiver(recv)});
                VP_CHECK(c, it != all.end(), "subscriptions", "receiver r" << recv << " is missing");
                check_messages(std::get<index>(it->second).get_messages(), sub, e, recv, "peek");
            }
        };
        if (impact)
            peek(cm::SynapticImpactMessage());
        else
            peek(cm::SpikeMessage());
    };
    auto check_structure = [&](Ep &e)
    {
        const auto &all = e.ep->get_endpoint_subscriptions();
        VP_EQ(c, all.size(), e.subs.size(), "subscriptions", "number of subscriptions of e" << e.number);
        for (auto &[key, sub] : e.subs)
        {
            const size_t index = key.first ? core::MessageEndpoint::get_type_index<cm::MessageVariant, cm::SynapticImpactMessage>
                                           : core::MessageEndpoint::get_type_index<cm::MessageVariant, cm::SpikeMessage>;
            auto it = all.find({index, receiver(key.second)});
            VP_CHECK(c, it != all.end(), "subscriptions", "missing subscription of r" << key.second);
            std::visit(
                [&](const auto &s)
                {
                    VP_CHECK(c, s.get_receiver_uid() == receiver(key.second), "subscriptions", "receiver UID");
                    VP_EQ(c, s.get_senders().size(), sub.senders.size(), "senders", "r" << key.second);
                    for (size_t i = 0; i < n_senders; ++i) VP_EQ(c, s.has_sender(sender(i)), sub.senders.count(i) == 1, "senders", "r" << key.second << " s" << i);
                },
                it->second);
        }
    };
    auto sub_call = [&](bool impact, auto &&f)
    {
        if (impact)
            f(cm::SynapticImpactMessage());
        else
            f(cm::SpikeMessage());
    };

    auto subscribe = [&](Ep &e)
    {
        drain_all(e);
        const bool impact = c.flag();
        const size_t r = c.draw(n_receivers);
        std::set<size_t> add;
        std::vector<core::UID> uids;
        for (size_t k = c.range(0, 3); k; --k)
        {
            const size_t s = c.draw(n_senders);
            add.insert(s);
            uids.push_back(sender(s));
        }
        VP_NOTE(c, "e" << e.number << " subscribes r" << r << (impact ? " (impact)" : " (spikes)") << " to [" << vp::join(add) << "]\n");
        Sub &sub = e.subs[{impact, r}];
        sub.senders.insert(add.begin(), add.end());
        e.ever.insert(add.begin(), add.end());
        sub_call(impact, [&](auto tag) {
            auto &ref = e.ep->subscribe<decltype(tag)>(receiver(r), uids);
            VP_EQ(c, ref.get_senders().size(), sub.senders.size(), "senders", "after subscribe");
        });
        check_structure(e);
    };

    for (size_t i = 1 + c.len(1, zmq ? 3 : 4); i; --i)
    {
        create();
        for (size_t k = c.range(0, 2); k; --k) subscribe(eps.back());
    }
    const size_t n_ops = c.len(4, zmq ? 40 : 60);
    for (size_t op = 0; op < n_ops; ++op)
    {
        if (eps.empty()) create();
        switch (c.weighted({10, 6, 6, 4, 3, 2, 2, 2, 1, 1, 2}))
        {
            case 0:   // send
            {
                Ep &e = pick();
                Sent s{c.flag(), c.draw(n_senders), e.number, next_id++, cm::SpikeMessage()};
                const cm::MessageHeader header{sender(s.sender), c.draw(5)};
                if (s.impact)
                {
                    cm::SynapticImpactMessage m{header, kg::make_uid(300 + c.draw(3)), kg::make_uid(310 + c.draw(3)), c.flag(), {}};
                    m.impacts_.push_back({s.id, 1, kg::st::OutputType::EXCITATORY, 0, 0});
                    for (size_t k = c.range(0, 3); k; --k)
                        m.impacts_.push_back({c.draw(9), static_cast<float>(c.dyadic(9, 3)), static_cast<kg::st::OutputType>(c.draw(5)), static_cast<uint32_t>(c.draw(9)), static_cast<uint32_t>(c.draw(9))});
                    s.message = m;
                }
                else
                {
                    cm::SpikeMessage m{header, {}};
                    m.neuron_indexes_.push_back(static_cast<cm::SpikeIndex>(s.id));
                    for (size_t k = c.range(0, 3); k; --k) m.neuron_indexes_.push_back(static_cast<cm::SpikeIndex>(c.draw(9)));
                    s.message = m;
                }
                VP_NOTE(c, "e" << e.number << " sends #" << s.id << " as s" << s.sender << (s.impact ? " (impact)\n" : " (spikes)\n"));
                e.ep->send_message(s.message);
                log.push_back(s);
                unrouted.push_back(&log.back());
                break;
            }
            case 1:
                VP_NOTE(c, "route\n");
                route();
                break;
            case 2:
            {
                Ep &e = pick();
                VP_NOTE(c, "e" << e.number << " receives\n");
                drain_all(e);
                break;
            }
            case 3:   // subscribe or extend
            {
                subscribe(pick());
                ++changes;
                break;
            }
            case 4:   // add / remove a sender through the subscription
            {
                Ep &e = pick();
                if (e.subs.empty()) break;
                drain_all(e);
                auto it = std::next(e.subs.begin(), static_cast<long>(c.draw(e.subs.size())));
                const size_t s = c.draw(n_senders);
                const bool add = c.flag();
                // Adding a sender the endpoint never subscribed to: see the known findings.
                if (add && !e.ever.count(s)) break;
                // Several at once, some of them twice or already there.
                std::vector<size_t> many;
                if (add && c.chance(1, 3))
                    for (size_t k = c.range(0, 4); k; --k)
                        if (const size_t other = c.draw(n_senders); e.ever.count(other)) many.push_back(other);
                VP_NOTE(c, "e" << e.number << " r" << it->first.second << (add ? " adds" : " removes") << " s" << s << "\n");
                sub_call(it->first.first, [&](auto tag) {
                    auto &ref = e.ep->subscribe<decltype(tag)>(receiver(it->first.second), {});
                    const size_t had = it->second.senders.count(s);
                    if (!many.empty())
                    {
                        VP_NOTE(c, "  and [" << vp::join(many) << "] at once\n");
                        auto now = it->second.senders;
                        std::vector<core::UID> uids{sender(s)};
                        for (size_t other : many) uids.push_back(sender(other));
                        now.insert(s);
                        now.insert(many.begin(), many.end());
                        VP_EQ(c, ref.add_senders(uids), now.size() - it->second.senders.size(), "sender-count", "add_senders");
                        it->second.senders = now;
                    }
                    else if (add)
                        VP_EQ(c, ref.add_sender(sender(s)), 1 - had, "sender-count", "add_sender");
                    else
                        VP_EQ(c, ref.remove_sender(sender(s)), had, "sender-count", "remove_sender");
                });
                if (add)
                    it->second.senders.insert(s);
                else
                    it->second.senders.erase(s);
                check_structure(e);
                ++changes;
                break;
            }
            case 5:   // unsubscribe
            {
                Ep &e = pick();
                drain_all(e);
                const bool impact = c.flag();
                const size_t r = c.draw(n_receivers);
                VP_NOTE(c, "e" << e.number << " unsubscribes r" << r << (impact ? " (impact)\n" : " (spikes)\n"));
                const bool had = e.subs.erase({impact, r}) == 1;
                sub_call(impact, [&](auto tag) { VP_EQ(c, e.ep->unsubscribe<decltype(tag)>(receiver(r)), had, "unsubscribe", ""); });
                check_structure(e);
                changes += had;
                break;
            }
            case 6:   // remove a receiver
            {
                Ep &e = pick();
                drain_all(e);
                const size_t r = c.draw(n_receivers);
                VP_NOTE(c, "e" << e.number << " removes receiver r" << r << "\n");
                e.subs.erase({false, r});
                e.subs.erase({true, r});
                e.ep->remove_receiver(receiver(r));
                check_structure(e);
                ++changes;
                break;
            }
            case 7:
                if (eps.size() < 6) create();
                break;
            case 8:   // destroy an endpoint (what it sent is routed before)
            {
                VP_NOTE(c, "route, ");
                route();
                Ep &e = pick();
                VP_NOTE(c, "destroy e" << e.number << "\n");
                eps.remove_if([&](const Ep &x) { return &x == &e; });
                ++changes;
                break;
            }
            case 9:   // move an endpoint
            {
                Ep &e = pick();
                VP_NOTE(c, "move e" << e.number << "\n");
                core::MessageEndpoint moved(std::move(*e.ep));
                e.ep.emplace(std::move(moved));
                break;
            }
            case 10:
            {
                Ep &e = pick();
                if (e.subs.empty()) break;
                auto it = std::next(e.subs.begin(), static_cast<long>(c.draw(e.subs.size())));
                const bool unload = c.flag();
                VP_NOTE(c, "e" << e.number << " r" << it->first.second << (unload ? " unloads\n" : " looks\n"));
                check_sub(e, it->first.first, it->first.second, unload);
                break;
            }
        }
    }
    route();
    for (auto &e : eps)
    {
        drain_all(e);
        check_structure(e);
        for (auto &[key, sub] : e.subs) check_sub(e, key.first, key.second, true);
        VP_CHECK(c, !e.ep->receive_message(), "queue-not-empty", "e" << e.number << " still has messages after all were received");
        VP_CHECK(c, e.ep->unload_messages<cm::SpikeMessage>(kg::make_uid(999)).empty(), "unknown-receiver", "");
    }
    if (delivered_total >= 2 && rejected_total >= 1 && routes >= 1 && changes >= 1) c.nontrivial();
    c.label(VP_STR("deliveries: " << (delivered_total == 0 ? "0" : delivered_total < 5 ? "1-4" : delivered_total < 20 ? "5-19" : "20+")));
}

// Many messages in flight: nothing may be lost or block, however many wait to be routed or received.
void volume(vp::Case &c)
{
    const bool zmq = c.flag();
    auto bus = zmq ? core::MessageBus::construct_zmq_bus() : core::MessageBus::construct_cpu_bus();
    auto a = bus->create_endpoint(), b = bus->create_endpoint();
    b.subscribe<cm::SpikeMessage>(receiver(0), {sender(0)});
    if (zmq) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    size_t sent = 0;
    for (size_t batch = 1 + c.draw(3); batch; --batch)
    {
        const size_t n = c.pick_of<size_t>({1, 10, 500, 1001, 2500, 5000});
        VP_NOTE(c, (zmq ? "zmq" : "cpu") << ": send " << n << " messages, route" << "\n");
        for (size_t i = 0; i < n; ++i) a.send_message(cm::SpikeMessage{{sender(0), sent}, {static_cast<cm::SpikeIndex>(sent++)}});
        bus->route_messages();
        if (n > 1000) c.nontrivial();
    }
    if (zmq) std::this_thread::sleep_for(std::chrono::milliseconds(5));
    b.receive_all_messages();
    auto got = b.unload_messages<cm::SpikeMessage>(receiver(0));
    VP_EQ(c, got.size(), sent, "lost", "messages received");
    for (size_t i = 0; i < got.size(); ++i) VP_CHECK(c, got[i].neuron_indexes_.size() == 1 && got[i].neuron_indexes_[0] == i, "order", "message " << i);
}

// Messages of every size: a bus must not take any of them for something else.
void sizes(vp::Case &c)
{
    const bool zmq = c.chance(2, 3), impacts = c.flag();
    auto bus = zmq ? core::MessageBus::construct_zmq_bus() : core::MessageBus::construct_cpu_bus();
    auto a = bus->create_endpoint(), b = bus->create_endpoint();
    b.subscribe<cm::SpikeMessage>(receiver(0), {sender(0)});
    b.subscribe<cm::SynapticImpactMessage>(receiver(0), {sender(0)});
    if (zmq) std::this_thread::sleep_for(std::chrono::milliseconds(8));
    const size_t first = c.chance(1, 4) ? c.draw(30000) : c.draw(300), n = c.len(1, 100);
    VP_NOTE(c, (zmq ? "zmq" : "cpu") << ": " << n << (impacts ? " impact" : " spike") << " messages of " << first << " and more elements\n");
    std::vector<cm::SpikeMessage> spikes;
    std::vector<cm::SynapticImpactMessage> impact_messages;
    for (size_t size = first; size < first + n; ++size)
    {
        if (impacts)
        {
            cm::SynapticImpactMessage m{{sender(0), size}, kg::make_uid(300), kg::make_uid(310), size % 2 == 0, {}};
            for (size_t k = 0; k < size; ++k) m.impacts_.push_back({k, static_cast<float>(k), static_cast<kg::st::OutputType>(k % 5), static_cast<uint32_t>(k), static_cast<uint32_t>(size)});
            a.send_message(m);
            impact_messages.push_back(std::move(m));
        }
        else
        {
            cm::SpikeMessage m{{sender(0), size}, {}};
            for (size_t k = 0; k < size; ++k) m.neuron_indexes_.push_back(static_cast<cm::SpikeIndex>(k ^ size));
            a.send_message(m);
            spikes.push_back(std::move(m));
        }
    }
    bus->route_messages();
    if (zmq) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    b.receive_all_messages();
    const auto got = b.unload_messages<cm::SpikeMessage>(receiver(0));
    const auto got_impacts = b.unload_messages<cm::SynapticImpactMessage>(receiver(0));
    VP_EQ(c, got.size(), spikes.size(), "lost", "spike messages received");
    VP_EQ(c, got_impacts.size(), impact_messages.size(), "lost", "impact messages received");
    for (size_t i = 0; i < got.size(); ++i) VP_CHECK(c, got[i].header_.send_time_ == spikes[i].header_.send_time_ && got[i].neuron_indexes_ == spikes[i].neuron_indexes_, "content", "message of " << first + i << " spikes");
    for (size_t i = 0; i < got_impacts.size(); ++i) VP_CHECK(c, got_impacts[i].impacts_.size() < 400 ? text(got_impacts[i]) == text(impact_messages[i]) : got_impacts[i].impacts_.size() == impact_messages[i].impacts_.size(), "content", "message of " << first + i << " impacts");
    if (n > 5) c.nontrivial();
}

// A backend without network, over the bus that it is given.
class Stub : public core::Backend
{
public:
    Stub() = default;
    explicit Stub(std::shared_ptr<core::MessageBus> b) : Backend(std::move(b)) {}
    explicit Stub(core::MessageBus &&b) : Backend(std::move(b)) {}
    bool plasticity_supported() const override { return false; }
    std::vector<std::string> get_supported_neurons() const override { return {}; }
    std::vector<std::string> get_supported_synapses() const override { return {}; }
    std::vector<size_t> get_supported_population_indexes() const override { return {}; }
    std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
    void load_all_projections(const std::vector<core::AllProjectionsVariant> &) override {}
    void load_all_populations(const std::vector<core::AllPopulationsVariant> &) override {}
    void remove_projections(const std::vector<core::UID> &) override {}
    void remove_populations(const std::vector<core::UID> &) override {}
    std::vector<std::unique_ptr<core::Device>> get_devices() const override { return {}; }
    void stop_learning() override {}
    void start_learning() override {}
    DataRanges get_network_data() const override { return {}; }
    void _init() override {}
    void _step() override { (void)gad_step(); }
};

// Backends, each with a bus of its own or on one that exists, with end points made before and after: what is sent over a
// bus reaches everything on that bus that subscribes to it, and nothing on another bus.
void backends(vp::Case &c)
{
    struct On
    {
        std::unique_ptr<Stub> backend;
        size_t bus;
        size_t made;  // 0: own bus, 1: shared bus, 2: bus moved into it
    };
    struct End
    {
        std::unique_ptr<core::MessageEndpoint> own;
        core::MessageEndpoint *ep;
        size_t bus;
        std::set<size_t> senders;
        std::vector<size_t> wanted;
    };
    std::vector<std::shared_ptr<core::MessageBus>> buses;  // null: known by the backend only
    std::vector<On> on;
    std::vector<End> ends;
    for (size_t n = c.range(1, 4); n; --n)
    {
        const size_t made = c.draw(3);
        if (made == 0)
        {
            buses.push_back(nullptr);
            on.push_back({std::make_unique<Stub>(), buses.size() - 1, made});
        }
        else
        {
            std::vector<size_t> shared;
            for (size_t i = 0; i < buses.size(); ++i)
                if (buses[i]) shared.push_back(i);
            size_t bus = buses.size();
            if (made == 1 && !shared.empty() && c.flag()) bus = c.pick(shared);
            else buses.push_back(core::MessageBus::construct_cpu_bus());
            for (size_t k = c.draw(2); k; --k)
            {
                ends.push_back({std::make_unique<core::MessageEndpoint>(buses[bus]->create_endpoint()), nullptr, bus, {}, {}});
                ends.back().ep = ends.back().own.get();
            }
            if (made == 1) on.push_back({std::make_unique<Stub>(buses[bus]), bus, made});
            else
            {
                on.push_back({std::make_unique<Stub>(std::move(*buses[bus])), bus, made});
                buses[bus] = nullptr;
            }
            if (made == 1) VP_CHECK(c, &on.back().backend->get_message_bus() == buses[bus].get(), "bus", "the backend has another bus than the one given");
        }
        VP_NOTE(c, "backend " << on.size() - 1 << (made == 0 ? " with its own bus " : made == 1 ? " on the shared bus " : " with the moved bus ") << on.back().bus << "\n");
        VP_CHECK(c, !on.back().backend->running() && on.back().backend->get_step() == 0, "state", "of a new backend");
    }
    for (auto &b : on)
    {
        if (c.flag())
        {
            ends.push_back({std::make_unique<core::MessageEndpoint>(b.backend->get_message_bus().create_endpoint()), nullptr, b.bus, {}, {}});
            ends.back().ep = ends.back().own.get();
        }
        ends.push_back({nullptr, &b.backend->get_message_endpoint(), b.bus, {}, {}});
    }
    for (auto &e : ends)
        for (size_t i = 0; i < 3; ++i)
            if (c.flag())
            {
                e.senders.insert(i);
                if (!e.own)
                    for (auto &b : on)
                        if (&b.backend->get_message_endpoint() == e.ep)
                        {
                            b.backend->subscribe<cm::SpikeMessage>(receiver(0), {sender(i)});
                            break;
                        }
                if (e.own) e.ep->subscribe<cm::SpikeMessage>(receiver(0), {sender(i)});
            }
    size_t id = 0, matched = 0, kept = 0;
    for (size_t n = c.len(1, 12); n; --n)
    {
        const size_t from = c.draw(ends.size()), s = c.draw(3);
        VP_NOTE(c, "#" << id << " of s" << s << " through e" << from << " on bus " << ends[from].bus << "\n");
        ends[from].ep->send_message(cm::SpikeMessage{{sender(s), id}, {static_cast<cm::SpikeIndex>(id)}});
        for (auto &e : ends)
            if (e.senders.count(s)) e.bus == ends[from].bus ? (e.wanted.push_back(id), ++matched) : ++kept;
        ++id;
        if (c.chance(1, 3))
            for (auto &b : on) b.backend->get_message_bus().route_messages();
    }
    for (auto &b : on) std::as_const(*b.backend).get_message_endpoint(), b.backend->get_message_bus().route_messages();
    for (size_t i = 0; i < ends.size(); ++i)
    {
        auto &e = ends[i];
        e.ep->receive_all_messages();
        std::multiset<size_t> got, want(e.wanted.begin(), e.wanted.end());
        for (auto &m : e.ep->unload_messages<cm::SpikeMessage>(receiver(0))) got.insert(m.header_.send_time_);
        VP_CHECK(c, got == want, "delivery", "e" << i << " on bus " << e.bus << " got [" << vp::join(got) << "], expected [" << vp::join(want) << "]");
    }
    // A bus lives as long as a backend needs it.
    buses.clear();
    for (auto &b : on) b.backend->get_message_bus().route_messages();
    ends.clear();
    if (c.flag()) on.erase(on.begin());
    for (auto &b : on) b.backend->get_message_bus().route_messages();
    if (matched && kept) c.nontrivial();
}

// A subscription by itself: a set of senders that reports how it changed, and a list of messages.
template <class M>
void subscription_of(vp::Case &c)
{
    const size_t n_senders = 1 + c.draw(8);
    std::set<size_t> model;
    std::vector<size_t> messages;
    auto many = [&]
    {
        std::vector<size_t> v;
        for (size_t k = c.len(0, 6); k; --k) v.push_back(c.draw(n_senders));
        return v;
    };
    auto uids = [](const std::vector<size_t> &v)
    {
        std::vector<core::UID> r;
        for (size_t x : v) r.push_back(sender(x));
        return r;
    };
    const auto first = many();
    const size_t r = c.draw(4);
    VP_NOTE(c, "r" << r << " of [" << vp::join(first) << "]\n");
    core::Subscription<M> sub(receiver(r), uids(first));
    model.insert(first.begin(), first.end());
    size_t changed = 0, same = 0;
    auto count = [&](size_t got, size_t before, const char *what)
    {
        const size_t want = model.size() > before ? model.size() - before : before - model.size();
        (want ? changed : same)++;
        VP_EQ(c, got, want, "sender-count", what);
    };
    for (size_t k = c.len(1, 20); k; --k)
    {
        const size_t before = model.size();
        switch (c.draw(6))
        {
            case 0:
            {
                const auto v = many();
                VP_NOTE(c, "add [" << vp::join(v) << "]\n");
                model.insert(v.begin(), v.end());
                count(sub.add_senders(uids(v)), before, "add_senders");
                break;
            }
            case 1:
            {
                const size_t s = c.draw(n_senders);
                VP_NOTE(c, "add " << s << "\n");
                model.insert(s);
                count(sub.add_sender(sender(s)), before, "add_sender");
                break;
            }
            case 2:
            {
                const size_t s = c.draw(n_senders);
                VP_NOTE(c, "remove " << s << "\n");
                model.erase(s);
                count(sub.remove_sender(sender(s)), before, "remove_sender");
                break;
            }
            case 3:
            {
                M m;
                m.header_ = {sender(c.draw(n_senders)), messages.size() + 1};
                messages.push_back(m.header_.send_time_);
                VP_NOTE(c, "message " << messages.back() << "\n");
                if (c.flag()) sub.add_message(m);
                else sub.add_message(std::move(m));
                break;
            }
            case 4:
                if (!c.chance(1, 3)) break;
                VP_NOTE(c, "clear\n");
                messages.clear();
                sub.clear_messages();
                break;
            case 5:
            {
                VP_NOTE(c, "copy, move\n");
                auto copy = sub;
                copy.add_sender(sender(77));
                copy.clear_messages();
                core::Subscription<M> moved(core::Subscription<M>{sub});
                VP_EQ(c, moved.get_messages().size(), messages.size(), "copy", "messages of a copy");
                VP_EQ(c, moved.get_senders().size(), model.size(), "copy", "senders of a copy");
                VP_CHECK(c, moved.get_receiver_uid() == receiver(r), "copy", "receiver of a copy");
                break;
            }
        }
        VP_CHECK(c, sub.get_receiver_uid() == receiver(r), "receiver", "");
        VP_EQ(c, sub.get_senders().size(), model.size(), "senders", "number of senders");
        for (size_t s = 0; s < n_senders; ++s) VP_EQ(c, sub.has_sender(sender(s)), model.count(s) == 1, "senders", "sender " << s);
        for (const auto *list : {&std::as_const(sub).get_messages(), &std::as_const(sub.get_messages())})
        {
            VP_EQ(c, list->size(), messages.size(), "messages", "number of messages");
            for (size_t i = 0; i < messages.size(); ++i) VP_EQ(c, (*list)[i].header_.send_time_, messages[i], "messages", "message " << i);
        }
    }
    if (changed && same) c.nontrivial();
}

void subscription(vp::Case &c)
{
    if (c.flag()) subscription_of<cm::SpikeMessage>(c);
    else subscription_of<cm::SynapticImpactMessage>(c);
}

std::string add_sender_by_reference()
{
    auto bus = core::MessageBus::construct_cpu_bus();
    auto a = bus->create_endpoint(), b = bus->create_endpoint();
    auto &sub = b.subscribe<cm::SpikeMessage>(receiver(0), {});
    sub.add_sender(sender(0));
    a.send_message(cm::SpikeMessage{{sender(0), 0}, {1}});
    bus->route_messages();
    b.receive_all_messages();
    return b.unload_messages<cm::SpikeMessage>(receiver(0)).size() == 1
               ? ""
               : "CPU bus: a sender added by Subscription::add_sender on the subscription that subscribe() returned is not delivered";
}

int main(int argc, char **argv)
{
    const std::string rule =
        "history of 4-60 operations (send, route, receive, subscribe, add/remove sender, unsubscribe, remove receiver, create, "
        "destroy, move, look, unload) on up to 6 endpoints, 5 senders, 4 receivers, 2 message types, against a model of the "
        "subscriptions; non-trivial: at least two deliveries, one message kept from a subscription and one change of subscriptions";
    std::vector<vp::Prop> props{
        {"cpu_bus_history", rule, [](vp::Case &c) { history(c, false); }, 60000},
        {"zmq_bus_history", rule, [](vp::Case &c) { history(c, true); }, 1500, 0.6},
        {"volume", "1-3 batches of up to 5000 messages, routed, received at the end; non-trivial: a batch of over 1000", volume, 60, 0.3, 20},
        {"backends", "1-4 backends with buses of their own, given or shared, end points before and after, up to 12 messages; non-trivial: a message delivered and one kept on its bus", backends, 6000, 0.3},
        {"subscription", "a subscription by itself, up to 20 additions, removals, messages and copies against a set and a list; non-trivial: a change and a call that changes nothing", subscription, 20000, 0.3},
        {"sizes", "1-100 messages of consecutive sizes from 0 to 30000 elements over either bus; non-trivial: more than five", sizes, 250, 0.5},
    };
    return vp::run_main(
        argc, argv, "C04", props, {{"add-sender-by-reference", add_sender_by_reference}},
        {"pending messages of an endpoint are received before its subscriptions change, and routed before an endpoint is destroyed",
         "a ZeroMQ endpoint is given 8 ms to attach before messages are routed to it"});
}
