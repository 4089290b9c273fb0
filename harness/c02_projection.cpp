// C02: a projection behaves as an indexable sequence of synapses under any history of edits and searches.
#include <knp/core/projection.h>
#include <knp/synapse-traits/all_traits.h>

#include <random>
#include <unordered_map>

#include "vp.hpp"

using namespace knp;
namespace st = knp::synapse_traits;

template <class S>
struct Ops;

template <>
struct Ops<st::DeltaSynapse>
{
    using P = st::synapse_parameters<st::DeltaSynapse>;
    static float &weight(P &p) { return p.weight_; }
    static uint32_t delay(const P &p) { return p.delay_; }
    static void fill(P &p, vp::Case &c)
    {
        p.weight_ = static_cast<float>(c.dyadic(8, 3));
        p.delay_ = static_cast<uint32_t>(c.range(1, 9));
        p.output_type_ = static_cast<st::OutputType>(c.range(0, 4));
    }
    static std::string str(const P &p)
    {
        return VP_STR("w=" << p.weight_ << ",d=" << p.delay_ << ",t=" << static_cast<int>(p.output_type_));
    }
};

template <>
struct Ops<st::AdditiveSTDPDeltaSynapse>
{
    using P = st::synapse_parameters<st::AdditiveSTDPDeltaSynapse>;
    static void fill(P &p, vp::Case &c)
    {
        Ops<st::DeltaSynapse>::fill(p, c);
        p.rule_.tau_plus_ = static_cast<float>(c.range(1, 9));
        p.rule_.tau_minus_ = static_cast<float>(c.range(1, 9));
        for (size_t i = c.range(0, 3); i; --i) p.rule_.presynaptic_spike_times_.push_back(static_cast<uint32_t>(c.range(0, 50)));
    }
    static float &weight(P &p) { return p.weight_; }
    static std::string str(const P &p)
    {
        return VP_STR(
            Ops<st::DeltaSynapse>::str(p) << ",tau=" << p.rule_.tau_plus_ << "/" << p.rule_.tau_minus_ << ",t=["
                                                   << vp::join(p.rule_.presynaptic_spike_times_) << "]");
    }
};

template <>
struct Ops<st::SynapticResourceSTDPDeltaSynapse>
{
    using P = st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse>;
    static void fill(P &p, vp::Case &c)
    {
        Ops<st::DeltaSynapse>::fill(p, c);
        p.rule_.synaptic_resource_ = static_cast<float>(c.dyadic(8, 3));
        p.rule_.w_max_ = static_cast<float>(c.range(0, 9));
        p.rule_.last_spike_step_ = static_cast<uint64_t>(c.range(0, 50));
    }
    static float &weight(P &p) { return p.weight_; }
    static std::string str(const P &p)
    {
        return VP_STR(
            Ops<st::DeltaSynapse>::str(p)
            << ",r=" << p.rule_.synaptic_resource_ << ",wmax=" << p.rule_.w_max_ << ",last=" << p.rule_.last_spike_step_);
    }
};

template <class S>
std::string str(const typename core::Projection<S>::Synapse &s)
{
    return VP_STR(
        "(" << std::get<core::source_neuron_id>(s) << "->" << std::get<core::target_neuron_id>(s) << " "
            << Ops<S>::str(std::get<core::synapse_data>(s)) << ")");
}

template <class S>
void projection_history(vp::Case &c)
{
    using Proj = core::Projection<S>;
    using Syn = typename Proj::Synapse;
    const size_t n_pre = 1 + c.len(0, 7), n_post = 1 + c.len(0, 7);
    std::vector<Syn> model;

    // A generator result that may be empty: each call gets its index and is made exactly once.
    size_t calls = 0;
    bool order_ok = true;
    std::vector<std::optional<Syn>> plan;
    auto make_plan = [&](size_t n)
    {
        plan.clear();
        calls = 0;
        for (size_t i = 0; i < n; ++i)
        {
            if (c.chance(1, 5))
            {
                plan.push_back(std::nullopt);
                continue;
            }
            typename Proj::SynapseParameters p;
            Ops<S>::fill(p, c);
            plan.push_back(Syn{p, c.draw(n_pre), c.draw(n_post)});
        }
    };
    // What generators and predicates do besides: searching in the projection, throwing.
    const Proj *target = nullptr;
    size_t throw_at = SIZE_MAX, search_at = SIZE_MAX;
    struct Stop
    {
    };
    auto interfere = [&](size_t call)
    {
        if (call == search_at) (void)target->find_synapses(0, Proj::Search::by_presynaptic);
        if (call == throw_at) throw Stop{};
    };
    auto gen = [&](size_t i) -> std::optional<Syn>
    {
        order_ok &= i == calls;
        ++calls;
        interfere(i);
        return i < plan.size() ? plan[i] : std::nullopt;
    };
    auto apply_plan = [&]
    {
        size_t added = 0;
        for (auto &s : plan)
            if (s)
            {
                model.push_back(*s);
                ++added;
            }
        VP_CHECK(c, order_ok && calls == plan.size(), "generator-calls", "generator called " << calls << " times for " << plan.size());
        return added;
    };

    const core::UID pre_uid, post_uid, own_uid;
    make_plan(c.len(0, 30));
    VP_NOTE(c, n_pre << "x" << n_post << " neurons; construct with " << plan.size() << " generator calls\n");
    const bool with_uid = c.flag();
    Proj proj = plan.empty() ? (with_uid ? Proj(own_uid, pre_uid, post_uid) : Proj(pre_uid, post_uid))
                             : (with_uid ? Proj(own_uid, pre_uid, post_uid, gen, plan.size()) : Proj(pre_uid, post_uid, gen, plan.size()));
    apply_plan();
    const core::UID uid = proj.get_uid();
    if (with_uid) VP_CHECK(c, uid == own_uid, "uid", "constructed with an explicit UID");
    bool locked = proj.is_locked();

    auto compare = [&](const Proj &p, const char *when)
    {
        VP_EQ(c, p.size(), model.size(), "size", when);
        size_t i = 0;
        for (auto it = p.begin(); it != p.end(); ++it, ++i)
        {
            VP_CHECK(c, i < model.size(), "iteration", when);
            VP_EQ(c, str<S>(*it), str<S>(model[i]), "content", when << " at " << i);
            VP_EQ(c, str<S>(p[i]), str<S>(model[i]), "content", when << " [] at " << i);
        }
        VP_EQ(c, i, model.size(), "iteration", when);
        VP_CHECK(c, p.get_uid() == uid && p.get_presynaptic() == pre_uid && p.get_postsynaptic() == post_uid, "uid", when);
        VP_EQ(c, p.is_locked(), locked, "lock", when);
    };
    auto search = [&](const Proj &p, bool by_pre, size_t neuron)
    {
        auto got = p.find_synapses(neuron, by_pre ? Proj::Search::by_presynaptic : Proj::Search::by_postsynaptic);
        std::sort(got.begin(), got.end());
        std::vector<size_t> want;
        for (size_t i = 0; i < model.size(); ++i)
            if ((by_pre ? std::get<core::source_neuron_id>(model[i]) : std::get<core::target_neuron_id>(model[i])) == neuron)
                want.push_back(i);
        VP_CHECK(c, got == want, "find", "find by " << (by_pre ? "pre " : "post ") << neuron << " returned [" << vp::join(got) << "], expected [" << vp::join(want) << "]");
    };
    auto search_all = [&](const Proj &p)
    {
        for (size_t i = 0; i <= n_pre; ++i) search(p, true, i);
        for (size_t i = 0; i <= n_post; ++i) search(p, false, i);
    };

    target = &proj;
    auto plan_interference = [&](size_t n)
    {
        search_at = n && c.chance(1, 6) ? c.draw(n) : SIZE_MAX;
        throw_at = n && c.chance(1, 10) ? c.draw(n) : SIZE_MAX;
        if (search_at != SIZE_MAX) VP_NOTE(c, "  call " << search_at << " searches\n");
        if (throw_at != SIZE_MAX) VP_NOTE(c, "  call " << throw_at << " throws\n");
    };
    // After an exception: searches are right about what the projection holds.
    auto resync = [&] { model.assign(std::as_const(proj).begin(), std::as_const(proj).end()); };

    compare(proj, "after construction");
    unsigned edits = 0, edits_after_search = 0, searches = 0;
    const size_t n_ops = c.len(1, 25);
    for (size_t op = 0; op < n_ops; ++op)
    {
        const size_t before = model.size();
        switch (c.weighted({4, 3, 2, 2, 3, 3, 1, 2, 1, 1}))
        {
            case 0:
            {
                const bool pre = c.flag();
                const size_t n = c.draw((pre ? n_pre : n_post) + 1);
                VP_NOTE(c, "find " << (pre ? "pre " : "post ") << n << "\n");
                search(proj, pre, n);
                ++searches;
                break;
            }
            case 1:
            {
                order_ok = true;
                make_plan(c.len(0, 12));
                VP_NOTE(c, "add " << plan.size() << " calls\n");
                plan_interference(plan.size());
                if (throw_at != SIZE_MAX)
                {
                    bool thrown = false;
                    try
                    {
                        proj.add_synapses(gen, plan.size());
                    }
                    catch (const Stop &)
                    {
                        thrown = true;
                    }
                    VP_CHECK(c, thrown, "exception", "an exception of the generator is lost");
                    // Those made before may have been added.
                    plan.resize(throw_at);
                    for (auto &s : plan)
                        if (s && model.size() < proj.size()) model.push_back(*s);
                    compare(proj, "after an exception of the generator");
                    search_all(proj);
                    break;
                }
                const size_t n = proj.add_synapses(gen, plan.size());
                VP_EQ(c, n, apply_plan(), "add-count", "");
                break;
            }
            case 2:
            {
                if (model.empty()) break;
                const size_t i = c.draw(model.size());
                VP_NOTE(c, "remove synapse " << i << "\n");
                proj.remove_synapse(i);
                model.erase(model.begin() + static_cast<long>(i));
                break;
            }
            case 3:
            {
                const size_t mod = 1 + c.draw(4), rem = c.draw(mod);
                VP_NOTE(c, "remove if (pre+post)%" << mod << "==" << rem << "\n");
                auto pred = [&](const Syn &s)
                { return (std::get<core::source_neuron_id>(s) + std::get<core::target_neuron_id>(s)) % mod == rem; };
                plan_interference(model.size());
                size_t call = 0;
                try
                {
                    const size_t n = proj.remove_synapse_if(
                        [&](const Syn &s)
                        {
                            interfere(call++);
                            return pred(s);
                        });
                    VP_CHECK(c, throw_at == SIZE_MAX, "exception", "an exception of the predicate is lost");
                    model.erase(std::remove_if(model.begin(), model.end(), pred), model.end());
                    VP_EQ(c, n, before - model.size(), "remove-count", "remove_synapse_if");
                }
                catch (const Stop &)
                {
                    resync();
                    search_all(proj);
                }
                break;
            }
            case 4:
            {
                const size_t k = c.draw(n_post + 1);
                VP_NOTE(c, "remove synapses of postsynaptic neuron " << k << "\n");
                const size_t n = proj.remove_postsynaptic_neuron_synapses(k);
                model.erase(
                    std::remove_if(model.begin(), model.end(), [&](const Syn &s) { return std::get<core::target_neuron_id>(s) == k; }),
                    model.end());
                VP_EQ(c, n, before - model.size(), "remove-count", "remove_postsynaptic_neuron_synapses");
                break;
            }
            case 5:
            {
                const size_t k = c.draw(n_pre + 1);
                VP_NOTE(c, "remove synapses of presynaptic neuron " << k << "\n");
                const size_t n = proj.remove_presynaptic_neuron_synapses(k);
                model.erase(
                    std::remove_if(model.begin(), model.end(), [&](const Syn &s) { return std::get<core::source_neuron_id>(s) == k; }),
                    model.end());
                VP_EQ(c, n, before - model.size(), "remove-count", "remove_presynaptic_neuron_synapses");
                break;
            }
            case 6:
                VP_NOTE(c, "clear\n");
                proj.clear();
                model.clear();
                break;
            case 7:
            {
                if (model.empty()) break;
                const size_t i = c.draw(model.size());
                const float w = static_cast<float>(c.dyadic(8, 3));
                VP_NOTE(c, "set weight of " << i << " to " << w << "\n");
                Ops<S>::weight(std::get<core::synapse_data>(proj[i])) = w;
                Ops<S>::weight(std::get<core::synapse_data>(model[i])) = w;
                break;
            }
            case 8:
                locked = c.flag();
                VP_NOTE(c, "lock " << locked << "\n");
                if (locked)
                    proj.lock_weights();
                else
                    proj.unlock_weights();
                break;
            case 9:
            {
                VP_NOTE(c, "copy, edit the original, go on with the copy\n");
                Proj copy = proj;
                proj.clear();
                compare(copy, "copy");
                search_all(copy);
                if (c.flag())
                    proj = copy;
                else
                    proj = std::move(copy);
                break;
            }
        }
        if (model.size() != before)
        {
            ++edits;
            if (searches) ++edits_after_search;
        }
        if (c.chance(1, 2)) compare(proj, "after an operation");
    }
    compare(proj, "at the end");
    search_all(proj);
    if (edits >= 2 && edits_after_search >= 1) c.nontrivial();
    c.label(VP_STR("edits after a search: " << (edits_after_search > 2 ? "3+" : std::to_string(edits_after_search))));
}

// Many synapses, neuron indexes beyond 16 and 32 bits; each synapse is known by its weight.
template <class S>
void large_history(vp::Case &c)
{
    using Proj = core::Projection<S>;
    using Syn = typename Proj::Synapse;
    std::mt19937_64 rng(c.bits64());
    auto below = [&](uint64_t n) { return rng() % n; };
    struct Entry
    {
        size_t pre, post;
        float id;
    };
    std::vector<Entry> model;
    // Neuron indexes: a dense part and some far away.
    const uint64_t dense = 1 + below(uint64_t{1} << c.range(1, 12));
    const int far = static_cast<int>(c.range(13, 40));
    auto neuron = [&] { return below(8) ? below(dense) : (uint64_t{1} << far) + below(dense) * (below(2) ? 1 : 65536); };
    uint32_t next = 0;
    uint64_t skip = 2;
    size_t calls = 0;
    auto gen = [&](size_t i) -> std::optional<Syn>
    {
        VP_EQ(c, i, calls, "generator-calls", "index of a generator call");
        ++calls;
        if (i % skip == 1) return std::nullopt;
        Entry e{neuron(), neuron(), static_cast<float>(next++)};
        model.push_back(e);
        typename Proj::SynapseParameters p;
        Ops<S>::weight(p) = e.id;
        return Syn{p, e.pre, e.post};
    };
    const core::UID pre_uid, post_uid;
    const size_t n = below(uint64_t{1} << c.range(6, 17));
    skip = 2 + below(9);
    VP_NOTE(c, n << " generator calls, " << dense << " neurons, others from 2^" << far << "\n");
    Proj proj(pre_uid, post_uid, gen, n);
    auto compare = [&](const char *when)
    {
        VP_EQ(c, proj.size(), model.size(), "size", when);
        size_t i = 0;
        for (const auto &x : std::as_const(proj))
        {
            VP_CHECK(c, i < model.size(), "iteration", when);
            auto w = std::get<core::synapse_data>(x).weight_;
            VP_CHECK(
                c, w == model[i].id && std::get<core::source_neuron_id>(x) == model[i].pre && std::get<core::target_neuron_id>(x) == model[i].post, "content",
                when << " at " << i << ": " << str<S>(x) << ", expected " << model[i].pre << "->" << model[i].post << " " << model[i].id);
            ++i;
        }
        VP_EQ(c, i, model.size(), "iteration", when);
    };
    auto search = [&](const char *when)
    {
        for (bool by_pre : {true, false})
        {
            std::unordered_map<size_t, std::vector<size_t>> want;
            for (size_t i = 0; i < model.size(); ++i) want[by_pre ? model[i].pre : model[i].post].push_back(i);
            for (size_t k = 0; k < 10; ++k) (void)want[neuron()];
            size_t left = 2000;
            for (auto &[k, w] : want)
            {
                if (!left--) break;
                auto got = proj.find_synapses(k, by_pre ? Proj::Search::by_presynaptic : Proj::Search::by_postsynaptic);
                std::sort(got.begin(), got.end());
                VP_CHECK(c, got == w, "find", when << ": find by " << (by_pre ? "pre " : "post ") << k << " returned " << got.size() << " synapses, expected " << w.size());
            }
        }
    };
    compare("after construction");
    if (c.flag()) search("after construction");
    unsigned edits = 0;
    for (size_t op = c.len(1, 6); op; --op)
    {
        const size_t before = model.size();
        size_t removed = 0;
        auto erase = [&](auto pred) { model.erase(std::remove_if(model.begin(), model.end(), pred), model.end()); };
        const size_t kind = c.draw(5);
        switch (kind)
        {
            case 0:
            {
                const size_t k = below(uint64_t{1} << c.range(0, 15));
                skip = 2 + below(9);
                calls = 0;
                VP_NOTE(c, "add " << k << " calls\n");
                VP_EQ(c, proj.add_synapses(gen, k), model.size() - before, "add-count", "add_synapses");
                VP_EQ(c, calls, k, "generator-calls", "calls");
                break;
            }
            case 1:
            {
                if (model.empty()) break;
                const size_t i = below(model.size());
                VP_NOTE(c, "remove synapse " << i << "\n");
                proj.remove_synapse(i);
                model.erase(model.begin() + static_cast<long>(i));
                break;
            }
            case 2:
            {
                const uint64_t mod = 2 + below(50);
                VP_NOTE(c, "remove every " << mod << ". by its weight\n");
                removed = proj.remove_synapse_if([&](const Syn &s) { return static_cast<uint64_t>(std::get<core::synapse_data>(s).weight_) % mod == 0; });
                erase([&](const Entry &e) { return static_cast<uint64_t>(e.id) % mod == 0; });
                VP_EQ(c, removed, before - model.size(), "remove-count", "remove_synapse_if");
                break;
            }
            case 3:
            {
                const size_t k = model.empty() || below(4) == 0 ? neuron() : model[below(model.size())].post;
                VP_NOTE(c, "remove synapses of postsynaptic neuron " << k << "\n");
                removed = proj.remove_postsynaptic_neuron_synapses(k);
                erase([&](const Entry &e) { return e.post == k; });
                VP_EQ(c, removed, before - model.size(), "remove-count", "remove_postsynaptic_neuron_synapses");
                break;
            }
            default:
            {
                const size_t k = model.empty() || below(4) == 0 ? neuron() : model[below(model.size())].pre;
                VP_NOTE(c, "remove synapses of presynaptic neuron " << k << "\n");
                removed = proj.remove_presynaptic_neuron_synapses(k);
                erase([&](const Entry &e) { return e.pre == k; });
                VP_EQ(c, removed, before - model.size(), "remove-count", "remove_presynaptic_neuron_synapses");
            }
        }
        edits += before != model.size();
        compare("after an operation");
        if (c.flag()) search("after an operation");
    }
    search("at the end");
    if (edits && model.size() > 500) c.nontrivial();
}

int main(int argc, char **argv)
{
    const std::string rule =
        "history of 1-25 operations (search, add, remove by index/predicate/neuron, clear, edit, lock, copy) on a projection of "
        "up to 8x8 neurons against a std::vector model; non-trivial: at least two operations changed the synapse list, one of "
        "them after a search had built the index";
    std::vector<vp::Prop> props{
        {"delta_history", rule, projection_history<st::DeltaSynapse>, 30000},
        {"resource_stdp_history", rule, projection_history<st::SynapticResourceSTDPDeltaSynapse>, 12000},
        {"additive_stdp_history", rule, projection_history<st::AdditiveSTDPDeltaSynapse>, 12000},
        {"large", "projections of up to 2^17 synapses between neurons with indexes up to 2^52, up to 6 operations; non-trivial: one changed the list and more than 500 synapses are left",
         [](vp::Case &c) { c.flag() ? large_history<st::DeltaSynapse>(c) : large_history<st::SynapticResourceSTDPDeltaSynapse>(c); }, 150, 0.3},
    };
    return vp::run_main(argc, argv, "C02", props, {}, {"synapse end points are not rewritten through operator[]", "indexes passed to remove_synapse are in range"});
}
