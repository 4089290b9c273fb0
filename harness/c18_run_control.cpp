// C18: a backend runs exactly the steps it was asked to.
#include <atomic>
#include <chrono>
#include <thread>

#include <knp/devices/cpu.h>

#include "knp_netgen.hpp"

using namespace sim;

namespace
{
struct Stop : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// Whatever the caller's code throws: also what is not a standard exception.
[[noreturn]] void throw_any(bool plain, const char *what)
{
    if (plain) throw 5;
    throw Stop(what);
}

class FakeDevice : public core::Device
{
public:
    explicit FakeDevice(size_t id) { base_.uid_ = kg::make_uid(id); }
    core::DeviceType get_type() const override { return core::DeviceType::NPU; }
    const std::string get_name() const override { return "fake"; }
    float get_power() const override { return 0; }
};

// A backend without network, with a list of devices of its own.
class Stub : public core::Backend
{
public:
    bool plasticity_supported() const override { return false; }
    std::vector<std::string> get_supported_neurons() const override { return {}; }
    std::vector<std::string> get_supported_synapses() const override { return {}; }
    std::vector<size_t> get_supported_population_indexes() const override { return {}; }
    std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
    void load_all_projections(const std::vector<core::AllProjectionsVariant> &) override {}
    void load_all_populations(const std::vector<core::AllPopulationsVariant> &) override {}
    void remove_projections(const std::vector<UID> &) override {}
    void remove_populations(const std::vector<UID> &) override {}
    std::vector<std::unique_ptr<core::Device>> get_devices() const override
    {
        std::vector<std::unique_ptr<core::Device>> r;
        for (auto id : devices) r.push_back(std::make_unique<FakeDevice>(id));
        return r;
    }
    void stop_learning() override {}
    void start_learning() override {}
    DataRanges get_network_data() const override { return {}; }
    void _init() override {}
    void _step() override { (void)gad_step(); }
    std::vector<size_t> devices;
};

// Records what the base class asks of a backend.
template <class Base>
class Logged : public Base
{
public:
    using Base::Base;
    void _init() override
    {
        log.push_back(VP_STR("init running=" << this->running()));
        if (init_fails) throw_any(plain, "init");
        Base::_init();
    }
    void _step() override
    {
        log.push_back(VP_STR("step " << this->get_step() << " running=" << this->running()));
        if (fail_at == this->get_step()) throw_any(plain, "step");
        Base::_step();
        if (stop_at == this->get_step() - 1) this->stop();
    }
    std::vector<std::string> log;
    bool init_fails = false, plain = false;
    uint64_t fail_at = ~0ull, stop_at = ~0ull;
};

template <class B>
void histories(vp::Case &c, B &b, const std::function<void()> &after_step)
{
    uint64_t steps = 0;      // executed so far
    bool initialized = false;
    unsigned runs = 0, ended_by = 0;
    const size_t ops = c.len(1, 12);
    for (size_t op = 0; op < ops; ++op)
    {
        std::vector<std::string> expected;
        b.log.clear();
        b.fail_at = b.stop_at = ~0ull;
        b.init_fails = false;
        b.plain = c.chance(1, 3);
        auto expect_init = [&]
        {
            if (!initialized) expected.push_back("init running=0");
            initialized = true;
        };
        const size_t kind = c.weighted({6, 5, 4, 2, 1, 1, 2, 1});
        switch (kind)
        {
            case 0:  // predicate
            case 1:  // before and after
            case 2:  // no predicate
            {
                const uint64_t n = c.len(0, 6);   // steps that take place
                const uint64_t first = steps;
                // How the run ends.
                enum { pre, post, stopped, thrown, pre_thrown, post_thrown };
                unsigned how;
                if (kind == 0) how = c.pick_of({pre, stopped, thrown, pre_thrown});
                else if (kind == 1) how = static_cast<unsigned>(c.draw(6));
                else how = c.flag() ? stopped : thrown;
                // A predicate that ends the run may also stop the backend, or uninitialise it.
                const unsigned extra = how == pre || how == post ? static_cast<unsigned>(c.weighted({6, 2, 1})) : 0;
                const bool has_pre = kind == 0 || (kind == 1 && (how == pre || how == pre_thrown || c.chance(3, 4)));
                const bool has_post = kind == 1 && (how == post || how == post_thrown || c.chance(3, 4));
                // Ends after at least one step if the step or what follows it ends the run.
                const uint64_t full = (how == post || how == stopped || how == post_thrown) ? std::max<uint64_t>(n, 1) : n;
                VP_NOTE(c, "start with" << (kind == 2 ? " nothing" : kind == 0 ? " a predicate" : VP_STR((has_pre ? " a predicate before" : " nothing before") << (has_post ? " and one after" : " and nothing after")))
                    << "; " << full << " steps, then " << (how == pre ? "predicate before ends" : how == post ? "predicate after ends" : how == stopped ? "stopped in a step" : how == thrown ? "step throws" : how == pre_thrown ? "predicate before throws" : "predicate after throws") << (extra == 1 ? ", having stopped" : extra == 2 ? ", having uninitialised" : "") << "\n");
                expect_init();
                for (uint64_t i = 0; i < full; ++i)
                {
                    if (has_pre) expected.push_back(VP_STR("pre " << steps << " running=1"));
                    expected.push_back(VP_STR("step " << steps << " running=1"));
                    ++steps;
                    const bool last = i + 1 == full;
                    if (has_post) expected.push_back(VP_STR("post " << steps << " running=" << !(last && how == stopped)));
                }
                if (has_pre && (how == pre || how == thrown || how == pre_thrown)) expected.push_back(VP_STR("pre " << steps << " running=1"));
                if (how == thrown) expected.push_back(VP_STR("step " << steps << " running=1"));
                if (how == stopped) b.stop_at = first + full - 1;
                if (how == thrown) b.fail_at = first + full;
                // Having stopped, what the predicate after the step says does not matter.
                const bool says = how == post && extra && c.flag();
                auto also = [&]
                {
                    if (extra == 1) b.stop();
                    if (extra == 2) b._uninit();
                    if (extra == 2) initialized = false;
                };
                auto pre_fn = [&](core::Step s)
                {
                    b.log.push_back(VP_STR("pre " << s << " running=" << b.running()));
                    if (how == pre_thrown && s == first + full) throw_any(b.plain, "pre");
                    if (!(how == pre && s == first + full)) return true;
                    also();
                    return false;
                };
                auto post_fn = [&](core::Step s)
                {
                    b.log.push_back(VP_STR("post " << s << " running=" << b.running()));
                    if (how == post_thrown && s == first + full) throw_any(b.plain, "post");
                    if (!(how == post && s == first + full)) return true;
                    also();
                    return says;
                };
                bool threw = false;
                try
                {
                    if (kind == 0) b.start(core::Backend::RunPredicate(pre_fn));
                    else if (kind == 1) b.start(has_pre ? core::Backend::RunPredicate(pre_fn) : core::Backend::RunPredicate(), has_post ? core::Backend::RunPredicate(post_fn) : core::Backend::RunPredicate());
                    else b.start();
                }
                catch (const Stop &)
                {
                    threw = true;
                    VP_CHECK(c, !b.plain, "exception", "start() lets the exception through, not another one");
                }
                catch (int)
                {
                    threw = true;
                }
                VP_EQ(c, threw, how == thrown || how == pre_thrown || how == post_thrown, "exception", "start() lets the exception through");
                ++runs;
                ended_by |= 1u << how;
                break;
            }
            case 3:
                VP_NOTE(c, "step\n");
                expected.push_back(VP_STR("step " << steps << " running=0"));
                b._step();
                ++steps;
                break;
            case 4:
                VP_NOTE(c, "stop\n");
                b.stop();
                break;
            case 5:
                VP_NOTE(c, "uninit\n");
                b._uninit();
                initialized = false;
                break;
            case 6:  // init fails: no step, the next start tries again
            {
                if (initialized) continue;
                VP_NOTE(c, "start, init throws\n");
                b.init_fails = true;
                expected.push_back("init running=0");
                VP_CHECK(c, vp::throws([&] { b.start([&](core::Step) { return false; }); }), "exception", "start() lets the exception of the initialisation through");
                break;
            }
            default:
                VP_NOTE(c, "move between threads\n");
                // The same from another thread: nothing depends on the thread that starts.
                expect_init();
                expected.push_back(VP_STR("step " << steps << " running=1"));
                b.stop_at = steps;
                std::thread([&] { b.start(); }).join();
                ++steps;
                ++runs;
                break;
        }
        VP_CHECK(c, b.log == expected, "history", "happened [" << vp::join(b.log, "; ") << "], expected [" << vp::join(expected, "; ") << "]");
        VP_EQ(c, b.get_step(), steps, "step-counter", "steps executed");
        VP_CHECK(c, !b.running(), "running", "nothing runs now, running() tells otherwise");
        after_step();
    }
    if (runs >= 2 && steps >= 3) c.nontrivial();
    for (unsigned i = 0; i < 6; ++i)
        if (ended_by >> i & 1) c.label(std::vector<const char *>{"ended before a step", "ended after a step", "stopped in a step", "step threw", "predicate before threw", "predicate after threw"}[i]);
}

void stub(vp::Case &c)
{
    Logged<Stub> b;
    histories(c, b, [] {});
}

// Real backends: each step sends the messages of that step, and of no other.
template <class Backend, class... Args>
void real(vp::Case &c, bool multi, Args... args)
{
    Logged<Backend> b(args...);
    const size_t n = c.len(1, 5);
    auto pop = core::Population<Blifat>(kg::make_uid(1), [&](size_t) { NP<Blifat> p; p.activation_threshold_ = -1; p.potential_decay_ = 1; return std::make_optional(p); }, n);
    b.load_all_populations({pop});
    (void)multi;
    core::MessageEndpoint ep = b.get_message_bus().create_endpoint();
    ep.subscribe<SpikeMessage>(kg::make_uid(2), {kg::make_uid(1)});
    uint64_t seen = 0;
    histories(
        c, b,
        [&]
        {
            ep.receive_all_messages();
            for (auto &m : ep.unload_messages<SpikeMessage>(kg::make_uid(2)))
            {
                VP_EQ(c, m.header_.send_time_, seen, "message-step", "step of the spike message");
                VP_EQ(c, m.neuron_indexes_.size(), n, "message-step", "all neurons fire at every step");
                ++seen;
            }
            VP_EQ(c, seen, b.get_step(), "message-step", "messages of the steps so far");
        });
}

// stop() from another thread, and from a predicate.
void stop_elsewhere(vp::Case &c)
{
    const unsigned backend = static_cast<unsigned>(c.draw(3));
    auto test = [&](auto &b)
    {
        uint64_t base = 0;
        const size_t rounds = c.range(1, 3);
        for (size_t round = 0; round < rounds; ++round)
        {
            const unsigned form = static_cast<unsigned>(c.draw(3));
            const uint64_t after = c.len(1, 20);
            const bool from_predicate = form && c.flag();
            VP_NOTE(c, "start (form " << form << "), stop() from " << (from_predicate ? "a predicate" : "another thread") << " after " << after << " steps\n");
            std::atomic<uint64_t> stopped_at{~0ull};
            b.log.clear();
            auto pre = [&](core::Step s)
            {
                if (from_predicate && s == base + after)
                {
                    b.stop();
                    stopped_at = s;
                }
                return true;
            };
            auto run = [&]
            {
                if (form == 0) b.start();
                else if (form == 1) b.start(core::Backend::RunPredicate(pre));
                else b.start(core::Backend::RunPredicate(pre), core::Backend::RunPredicate());
            };
            if (from_predicate)
            {
                run();
                // The step that was being asked about may still take place, no other.
                VP_CHECK(c, b.get_step() - stopped_at <= 1, "stop", "stopped before step " << stopped_at << ", ran up to step " << b.get_step());
            }
            else
            {
                std::atomic<uint64_t> progress{0};
                struct Watch
                {
                    std::atomic<bool> started{false};
                } w;
                std::thread t([&] { run(); });
                while (!b.running()) std::this_thread::yield();
                // The counter of the log is not synchronised: wait by time.
                std::this_thread::sleep_for(std::chrono::microseconds(after * 20));
                b.stop();
                t.join();
            }
            VP_CHECK(c, !b.running(), "running", "stopped, running() tells otherwise");
            const size_t ran = std::count_if(b.log.begin(), b.log.end(), [](auto &s) { return s.rfind("step", 0) == 0; });
            VP_EQ(c, b.get_step(), base + ran, "step-counter", "steps executed");
            base = b.get_step();
        }
        if (base >= 2) c.nontrivial();
    };
    if (backend == 0)
    {
        Logged<Stub> b;
        test(b);
    }
    else if (backend == 1)
    {
        Logged<SingleBackend> b;
        test(b);
    }
    else
    {
        Logged<MultiBackend> b(2, 5, 5);
        test(b);
    }
}

void devices(vp::Case &c)
{
    Stub b;
    const size_t n = c.len(0, 6);
    for (size_t i = 0; i < n; ++i) b.devices.push_back(i + 1);
    auto current = [&](auto &x)
    {
        std::vector<UID> r;
        for (auto &d : x.get_current_devices()) r.push_back(d->get_uid());
        return r;
    };
    VP_CHECK(c, current(b).empty(), "devices", "devices before any were selected");
    const size_t ops = c.len(1, 6);
    unsigned selected = 0;
    for (size_t op = 0; op < ops; ++op)
    {
        if (c.chance(1, 4))
        {
            const size_t id = 100 + c.draw(5);
            VP_NOTE(c, "select device " << id << "\n");
            b.select_device(std::make_unique<FakeDevice>(id));
            VP_CHECK(c, current(b) == std::vector<UID>{kg::make_uid(id)}, "devices", "selected device " << id);
            continue;
        }
        std::set<size_t> ids;
        for (size_t i = 0; i < n; ++i)
            if (c.flag()) ids.insert(i + 1);
        const bool unknown = c.chance(1, 4);
        if (unknown) ids.insert(n + 1 + c.draw(3));
        std::set<UID> uids;
        for (auto i : ids) uids.insert(kg::make_uid(i));
        VP_NOTE(c, "select devices " << vp::join(ids) << " of " << n << "\n");
        const bool threw = vp::throws([&] { b.select_devices(uids); });
        VP_EQ(c, threw, unknown, "devices-unknown", "select_devices throws");
        if (!threw)
        {
            const auto now = current(b);
            VP_CHECK(c, std::set<UID>(now.begin(), now.end()) == uids && now.size() == uids.size(), "devices", now.size() << " devices are selected, " << uids.size() << " were named");
            const Stub &cb = b;
            VP_CHECK(c, current(cb) == now, "devices", "constant access");
            ++selected;
        }
    }
    // Processors of the real backends: the UIDs they report name them.
    Sim s(c.flag() ? multi_config(c) : Config{});
    std::set<UID> all;
    std::vector<std::string> names;
    for (auto &d : s.backend().get_devices())
    {
        all.insert(d->get_uid());
        names.push_back(d->get_name());
        VP_CHECK(c, d->get_type() == core::DeviceType::CPU, "processors", "type of " << d->get_name());
        VP_CHECK(c, !d->get_name().empty(), "processors", "no name");
        VP_CHECK(c, static_cast<bool>(d->get_uid()), "processors", "nil UID");
    }
    VP_CHECK(c, !all.empty() && all.size() == names.size(), "processors", "no processors, or two with one UID");
    s.backend().select_devices(all);
    const auto now = current(s.backend());
    VP_CHECK(c, std::set<UID>(now.begin(), now.end()) == all, "processors", "all processors were selected");
    for (auto &d : s.backend().get_current_devices()) VP_CHECK(c, std::count(names.begin(), names.end(), d->get_name()) == 1, "processors", "name " << d->get_name());
    VP_CHECK(c, vp::throws([&] { s.backend().select_devices({kg::make_uid(5)}); }), "devices-unknown", "a processor that does not exist was selected");
    // A processor is the same one whenever it is listed and wherever it is moved.
    auto procs = knp::devices::cpu::list_processors();
    auto again = knp::devices::cpu::list_processors();
    VP_EQ(c, procs.size(), all.size(), "processors", "listed processors, those of the backend");
    VP_EQ(c, procs.size(), again.size(), "processors", "processors listed again");
    for (size_t i = 0; i < procs.size(); ++i)
    {
        using Cpu = knp::devices::cpu::CPU;
        auto see = [](Cpu &x)
        {
            const auto tag = x.get_tags().get_tag("t");
            return VP_STR(std::string(x.get_uid()) << " " << x.get_name() << " " << x.get_socket_number() << " " << (tag.has_value() ? std::any_cast<int>(tag) : -1));
        };
        VP_EQ(c, see(procs[i]), see(again[i]), "processors", "a processor listed again");
        VP_CHECK(c, all.count(procs[i].get_uid()), "processors", "processor " << i << " is one of the backend");
        procs[i].get_tags()["t"] = static_cast<int>(c.draw(100));
        const auto before = see(procs[i]);
        std::vector<Cpu> chain;
        chain.push_back(std::move(procs[i]));
        for (size_t k = c.draw(4); k; --k)
        {
            Cpu target = c.flag() ? Cpu(std::move(chain.back())) : std::move(again[i]);
            if (see(target) != before) target = std::move(chain.back());
            again[i] = std::move(knp::devices::cpu::list_processors()[i]);
            chain.push_back(std::move(target));
        }
        VP_EQ(c, see(chain.back()), before, "processors", "a processor that was moved");
        VP_CHECK(c, chain.back().get_type() == core::DeviceType::CPU, "processors", "type of a moved processor");
    }
    if (selected >= 2 && n >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule = "up to 12 operations: start() in its three forms ended by each predicate, by stop() or by exceptions, steps, stop, uninit, failing init; non-trivial: at least 2 runs and 3 steps";
    return vp::run_main(
        argc, argv, "C18",
        {
            {"history", rule, stub, 20000},
            {"single", rule + "; on the single-threaded backend, whose messages tell the step", [](vp::Case &c) { real<SingleBackend>(c, false); }, 3000},
            {"multi", rule + "; on the multi-threaded backend, whose messages tell the step", [](vp::Case &c) { real<MultiBackend>(c, true, c.range(1, 3), c.range(1, 3), c.range(1, 3)); }, 1500},
            {"stop-elsewhere", "stop() from another thread or from a predicate, 1-3 runs; non-trivial: at least 2 steps", stop_elsewhere, 800},
            {"devices", "0-6 devices, up to 6 selections, some of unknown devices; non-trivial: at least 2 devices and 2 selections", devices, 2000},
        },
        {}, {"the predicate after a step is asked with the number of the next step, as get_step() tells"});
}
