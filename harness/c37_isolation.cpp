// C37: what shares nothing does not influence each other.
#include <knp/core/messaging/message_envelope.h>
#include <knp/framework/message_handlers.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/network_validation/executor.h>
#include <knp/framework/network_validation/validators/connectivity.h>
#include <knp/framework/projection/creators.h>

#include <atomic>
#include <thread>

#include "knp_netgen.hpp"

using namespace sim;
namespace fw = knp::framework;
namespace cm = core::messaging;

namespace
{
using Lines = std::vector<std::string>;

std::string line(SpikeMessage m)
{
    std::sort(m.neuron_indexes_.begin(), m.neuron_indexes_.end());
    return VP_STR("spikes of " << std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << ": " << vp::join(m.neuron_indexes_));
}
std::string line(const ImpactMessage &m)
{
    Lines i;
    for (auto &x : m.impacts_) i.push_back(VP_STR(x));
    std::sort(i.begin(), i.end());
    return VP_STR("impacts of " << std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << ": " << vp::join(i, ", "));
}
template <class M>
void add(Lines &out, const std::vector<M> &v)
{
    Lines r;
    for (auto &m : v) r.push_back(line(m));
    std::sort(r.begin(), r.end());
    out.insert(out.end(), r.begin(), r.end());
}

// One network and what is done with it.
struct Plan
{
    GeneratedNet g;
    Config k;
    bool executor = false;
    size_t handler = 0;  // of the executor: none, union, winners, winners by group
    size_t winners = 1;
    int seed = 0;
    std::vector<std::vector<SpikeMessage>> input;
    std::vector<int> learning;
};

struct Result
{
    Lines lines;
    std::vector<core::AllPopulationsVariant> pops;
    std::vector<core::AllProjectionsVariant> projs;
};

class Runner : public Result
{
public:
    explicit Runner(const Plan &p) : plan(p) {}
    virtual ~Runner() = default;
    bool done() const { return at == plan.input.size(); }
    void step()
    {
        if (plan.learning[at]) plan.learning[at] == 1 ? backend().start_learning() : backend().stop_learning();
        one();
        lines.push_back(VP_STR("after step " << at));
        ++at;
        if (done())
        {
            auto b = &backend();
            auto state = [&](auto &x)
            {
                for (auto i = x.begin_populations(); i != x.end_populations(); ++i)
                    pops.push_back(std::visit([](auto &p) -> core::AllPopulationsVariant { return p; }, *i));
                for (auto i = x.begin_projections(); i != x.end_projections(); ++i)
                    projs.push_back(std::visit([](auto &p) -> core::AllProjectionsVariant { return p; }, i->arg_));
            };
            if (auto s = dynamic_cast<SingleBackend *>(b)) state(*s);
            if (auto m = dynamic_cast<MultiBackend *>(b)) state(*m);
        }
    }
    const Plan &plan;
    size_t at = 0;

protected:
    virtual void one() = 0;
    virtual core::Backend &backend() = 0;
};

class ByHand : public Runner
{
public:
    explicit ByHand(const Plan &p) : Runner(p), sim_(p.k) { start(sim_, p.g); }

private:
    void one() override
    {
        sim_.step(plan.input[at], {});
        add(lines, sim_.spikes);
        add(lines, sim_.impacts);
    }
    core::Backend &backend() override { return sim_.backend(); }
    Sim sim_;
};

class ByExecutor : public Runner
{
public:
    explicit ByExecutor(const Plan &p) : Runner(p)
    {
        fw::Network network;
        std::vector<UID> pops, projs;
        for (auto &x : p.g.pops) network.add_population(core::AllPopulationsVariant(x));
        for (auto &x : p.g.projs) network.add_projection(core::AllProjectionsVariant(x));
        for (auto &x : p.g.shapes) pops.push_back(x.uid);
        for (auto &x : p.g.proj_shapes) projs.push_back(x.uid);
        model_ = std::make_unique<fw::Model>(std::move(network));
        fw::ModelLoader::InputChannelMap map;
        for (size_t i = 0; i < p.g.projs.size(); ++i)
            for (auto ch : p.g.feeds[i])
            {
                model_->add_input_channel(channel_uid(ch), p.g.proj_shapes[i].uid);
                map[channel_uid(ch)] = [this, ch](core::Step s)
                {
                    cm::SpikeData d;
                    for (auto &m : plan.input[s])
                        if (m.header_.sender_uid_ == channel_uid(ch)) d.insert(d.end(), m.neuron_indexes_.begin(), m.neuron_indexes_.end());
                    return d;
                };
            }
        model_->add_output_channel(kg::make_uid(31), pops[0]);
        if (p.k.multi) backend_ = std::make_shared<MultiBackend>(p.k.threads, p.k.pop_part, p.k.proj_part);
        else backend_ = std::make_shared<SingleBackend>();
        exec_ = std::make_unique<fw::ModelExecutor>(*model_, backend_, map);
        const UID handler = kg::make_uid(41);
        if (p.handler == 1) exec_->add_spike_message_handler(fw::modifier::SpikeUnionHandler(), {pops[0]}, {projs.back()}, handler);
        if (p.handler == 2) exec_->add_spike_message_handler(fw::modifier::KWtaRandomHandler(p.winners, p.seed), {pops[0]}, {projs.back()}, handler);
        if (p.handler == 3) exec_->add_spike_message_handler(fw::modifier::KWtaPerGroup({1, 3, 10}, p.winners, p.seed), {pops[0]}, {projs.back()}, handler);
        pops.push_back(handler);
        exec_->add_observer<SpikeMessage>([this](const std::vector<SpikeMessage> &m) { add(lines, m); }, pops);
        exec_->add_observer<ImpactMessage>([this](const std::vector<ImpactMessage> &m) { add(lines, m); }, projs);
    }

private:
    void one() override
    {
        exec_->start([this](core::Step s) { return s <= at; });
        lines.push_back("output");
        add(lines, exec_->get_loader().get_output_channel(kg::make_uid(31)).read_some_from_buffer(0, at));
    }
    core::Backend &backend() override { return *backend_; }
    std::unique_ptr<fw::Model> model_;
    std::shared_ptr<core::Backend> backend_;
    std::unique_ptr<fw::ModelExecutor> exec_;
};

std::unique_ptr<Runner> make(const Plan &p)
{
    if (p.executor) return std::make_unique<ByExecutor>(p);
    return std::make_unique<ByHand>(p);
}

// Another network from the same one: the same entities by UID, with other contents.
Plan gen_plan(vp::Case &c, const std::vector<Plan> &others)
{
    Plan p;
    p.k = any_config(c);
    NetOptions o;
    const bool plastic = c.chance(1, 3);
    o.neuron_types = p.k.multi ? std::vector<size_t>{0, 1, 3} : std::vector<size_t>{0, 1, 2, 3, 4};
    o.synapse_types = p.k.multi ? std::vector<size_t>{0, 1} : std::vector<size_t>{0, 1, 2};
    o.unlocked = plastic ? 3 : 0;
    o.dopamine_projection = plastic;
    o.max_neurons = 10;
    o.max_pops = 3;
    o.max_projs = 4;
    // The order in which blocking impacts come is not fixed between threads.
    o.blocking = !p.k.multi;
    bool again = false;
    if (!others.empty() && c.chance(1, 3))
    {
        // Copies of the same populations and projections.
        const Plan &other = c.pick(others);
        if (other.k.multi || !p.k.multi) p.g = other.g, again = true;
        if (again && other.k.multi != p.k.multi && !other.k.multi) again = false;
    }
    if (!again) p.g = gen_net(c, o);
    p.executor = c.flag();
    if (p.executor)
    {
        p.handler = p.k.multi ? c.draw(2) : c.draw(4);
        p.winners = c.range(1, 3);
        p.seed = static_cast<int>(c.draw(3));
    }
    VP_NOTE(c, "network, " << p.k.str() << (p.executor ? VP_STR(", run by an executor, handler " << p.handler << " " << p.winners << " " << p.seed) : "") << (again ? ", of copies" : "") << "\n");
    note_net(c, p.g);
    for (size_t steps = c.len(2, 14), i = 0; i < steps; ++i)
    {
        p.learning.push_back(plastic && c.chance(1, 6) ? static_cast<int>(c.range(1, 2)) : 0);
        p.input.push_back(gen_input(c, p.g, i, false));
        if (p.learning.back()) VP_NOTE(c, "step " << i << ": " << (p.learning.back() == 1 ? "start" : "stop") << " learning\n");
        note_input(c, i, p.input.back());
    }
    return p;
}

Result alone(const Plan &p)
{
    auto r = make(p);
    while (!r->done()) r->step();
    return *r;
}

void compare(vp::Case &c, const Lines &got, const Lines &want, size_t n, const char *how)
{
    for (size_t i = 0; i < std::min(got.size(), want.size()); ++i)
        VP_CHECK(c, got[i] == want[i], "influence", how << ", network " << n << ": '" << got[i] << "', alone '" << want[i] << "'");
    VP_CHECK(c, got.size() == want.size(), "influence", how << ", network " << n << " gives " << got.size() << " lines, alone " << want.size());
}

// Threads of a backend add impacts up in any order: values are compared with a tolerance.
void compare(vp::Case &c, const Result &got, const Result &want, size_t n, const char *how)
{
    compare(c, got.lines, want.lines, n, how);
    VP_CHECK(c, got.pops.size() == want.pops.size() && got.projs.size() == want.projs.size(), "influence", how << ", network " << n << ": number of populations or projections");
    for (size_t i = 0; i < want.pops.size(); ++i)
    {
        auto e = make_pop(want.pops[i]);
        const std::string d = diff_pop_any(got.pops[i], e);
        VP_CHECK(c, d.empty(), "influence-state", how << ", network " << n << ", population " << i << ": " << d);
    }
    for (size_t i = 0; i < want.projs.size(); ++i)
    {
        auto e = make_proj(want.projs[i]);
        const std::string d = diff_proj_any(got.projs[i], e);
        VP_CHECK(c, d.empty(), "influence-state", how << ", network " << n << ", projection " << i << ": " << d);
    }
}

// Spiking lines; a network in which nothing happens shows nothing.
bool lively(const Lines &l)
{
    size_t n = 0;
    for (auto &x : l) n += x.compare(0, 6, "spikes") == 0;
    return n >= 4;
}

// Several networks in turn, in any order of steps, made and destroyed at any time.
void interleaved(vp::Case &c)
{
    std::vector<Plan> plans;
    for (size_t n = c.range(2, 4); n; --n) plans.push_back(gen_plan(c, plans));
    std::vector<Result> first;
    for (auto &p : plans) first.push_back(alone(p));
    std::vector<std::unique_ptr<Runner>> runners(plans.size());
    std::vector<std::unique_ptr<Runner>> finished;
    std::vector<size_t> todo;
    for (size_t i = 0; i < plans.size(); ++i) todo.push_back(i);
    std::vector<std::unique_ptr<Runner>> given_up;
    while (!todo.empty())
    {
        const size_t k = c.draw(todo.size()), i = todo[k];
        if (!runners[i]) runners[i] = make(plans[i]);
        const size_t steps = c.chance(1, 4) ? c.range(2, 5) : 1;
        VP_NOTE(c, "network " << i << ": " << steps << " steps\n");
        for (size_t s = 0; s < steps && !runners[i]->done(); ++s) runners[i]->step();
        if (runners[i]->done())
        {
            compare(c, static_cast<const Result &>(*runners[i]), first[i], i, "in turn with others");
            todo.erase(todo.begin() + static_cast<std::ptrdiff_t>(k));
            if (c.flag()) runners[i].reset();
        }
        if (c.chance(1, 12))
        {
            // One more of a kind that is there, not run to its end.
            const size_t j = c.draw(plans.size());
            VP_NOTE(c, "another network " << j << ", left alone\n");
            given_up.push_back(make(plans[j]));
            given_up.back()->step();
        }
        if (!given_up.empty() && c.chance(1, 6)) given_up.pop_back();
    }
    for (size_t i = 0; i < plans.size(); ++i)
        if (c.chance(1, 3)) compare(c, alone(plans[i]), first[i], i, "alone once more");
    size_t n = 0;
    for (auto &l : first) n += lively(l.lines);
    if (n >= 2) c.nontrivial();
}

// Work with objects of one's own.
struct Work
{
    size_t uids = 0, creators = 0, validations = 0, packs = 0;
    std::string str() const { return VP_STR(uids << " UIDs, " << creators << " creators, " << validations << " validations, " << packs << " messages packed"); }
};

struct Product
{
    std::vector<UID> uids;
    Lines lines;
};

Product produce(const Work &w, size_t n)
{
    using Delta = knp::synapse_traits::DeltaSynapse;
    Product r;
    for (size_t i = 0; i < w.uids; ++i) r.uids.push_back(i % 2 ? UID{} : UID{true});
    for (size_t i = 0; i < w.creators; ++i)
    {
        auto all = fw::projection::creators::all_to_all<Delta>(kg::make_uid(1), kg::make_uid(2), n + 1, i + 1);
        auto pairs = fw::projection::creators::aligned<Delta>(kg::make_uid(1), kg::make_uid(2), n + 2, n + 2 + i);
        auto some = fw::projection::creators::fixed_probability<Delta>(kg::make_uid(1), kg::make_uid(2), n + 3, n + 3, 0.5);
        auto ends = [&](auto &p)
        {
            std::string s;
            for (auto &x : p) s += VP_STR(std::get<core::source_neuron_id>(x) << ">" << std::get<core::target_neuron_id>(x) << " ");
            r.lines.push_back(s);
        };
        ends(all);
        ends(pairs);
        r.lines.push_back(VP_STR((some.size() <= (n + 3) * (n + 3))));
        r.uids.push_back(all.get_uid());
        r.uids.push_back(some.get_uid());
    }
    for (size_t i = 0; i < w.validations; ++i)
    {
        fw::Network net;
        r.uids.push_back(net.get_uid());
        net.add_population(core::Population<knp::neuron_traits::BLIFATNeuron>(
            kg::make_uid(n * 100 + i), [](size_t) { return std::make_optional(knp::neuron_traits::neuron_parameters<knp::neuron_traits::BLIFATNeuron>{}); }, n + 1));
        fw::network_validation::Connectivity v;
        for (auto &x : v(net)) r.lines.push_back(x.message_ + x.code_.message() + x.code_.category().name());
    }
    for (size_t i = 0; i < w.packs; ++i)
    {
        SpikeMessage m{{kg::make_uid(n), i}, {}};
        for (size_t k = 0; k < n + i; ++k) m.neuron_indexes_.push_back(static_cast<cm::SpikeIndex>(k * n));
        const auto back = std::get<SpikeMessage>(cm::extract_from_envelope(cm::pack_to_envelope(m)));
        r.lines.push_back(line(back));
    }
    return r;
}

// Each network, with other work of the same kind, in a thread of its own.
void threads(vp::Case &c)
{
    std::vector<Plan> plans;
    std::vector<Work> works;
    for (size_t n = c.range(2, 4); n; --n)
    {
        plans.push_back(gen_plan(c, plans));
        Work w{c.len(0, 60), c.len(0, 3), c.len(0, 3), c.len(0, 6)};
        VP_NOTE(c, "and " << w.str() << "\n");
        works.push_back(w);
    }
    std::vector<Result> want, got(plans.size());
    std::vector<Product> want_work, got_work(plans.size());
    for (size_t i = 0; i < plans.size(); ++i)
    {
        want.push_back(alone(plans[i]));
        want_work.push_back(produce(works[i], i));
    }
    std::vector<std::string> errors(plans.size());
    std::atomic<size_t> ready{0};
    {
        std::vector<std::thread> all;
        for (size_t i = 0; i < plans.size(); ++i)
            all.emplace_back(
                [&, i]
                {
                    ++ready;
                    while (ready < plans.size()) std::this_thread::yield();
                    try
                    {
                        auto r = make(plans[i]);
                        for (size_t k = 0; !r->done(); ++k)
                        {
                            r->step();
                            if (k == 0) got_work[i] = produce(works[i], i);
                        }
                        got[i] = *r;
                    }
                    catch (const std::exception &e)
                    {
                        errors[i] = e.what();
                    }
                });
        for (auto &t : all) t.join();
    }
    std::set<UID> unique;
    size_t made = 0;
    for (size_t i = 0; i < plans.size(); ++i)
    {
        VP_CHECK(c, errors[i].empty(), "exception", "network " << i << " in a thread throws: " << errors[i]);
        compare(c, got[i], want[i], i, "while others run in other threads");
        compare(c, got_work[i].lines, want_work[i].lines, i, "work while others run in other threads");
        for (auto &u : got_work[i].uids) unique.insert(u), ++made;
        for (auto &u : want_work[i].uids) unique.insert(u), ++made;
    }
    VP_EQ(c, unique.size(), made, "uid", "different UIDs made in all threads");
    size_t n = 0;
    for (auto &l : want) n += lively(l.lines);
    if (n >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    const std::string rule =
        "2-4 networks with the same UIDs, of other or the same populations and projections, on single- and multi-threaded backends, by hand or by an executor with a handler, 2-14 steps each; "
        "everything they send and their final state compared with a run alone; non-trivial: two networks with at least 4 spike messages";
    return vp::run_main(
        argc, argv, "C37",
        {
            {"interleaved", rule + "; stepped in any order, made and destroyed in between", interleaved, 1500, 0.5},
            {"threads", rule + "; each in a thread of its own, which also makes UIDs and projections, validates networks and packs messages, under ThreadSanitizer", threads, 700},
        },
        {}, {"schedules are those the operating system produces under ThreadSanitizer; they are sampled, not enumerated"});
}
