// C01: a population behaves as an indexable sequence of neurons under any history of edits.
#include "knp_gen.hpp"

#include <random>

using namespace kg;

template <class N>
void population_history(vp::Case &c)
{
    using Pop = core::Population<N>;
    using P = nt::neuron_parameters<N>;
    std::vector<P> model;
    std::vector<std::optional<P>> plan;
    size_t calls = 0;
    bool order_ok = true;
    auto make_plan = [&](size_t n)
    {
        plan.clear();
        calls = 0;
        order_ok = true;
        for (size_t i = 0; i < n; ++i)
        {
            if (c.chance(1, 5))
                plan.push_back(std::nullopt);
            else
                plan.push_back(arbitrary_neuron<N>(c));
        }
    };
    auto gen = [&](size_t i) -> std::optional<P>
    {
        order_ok &= i == calls;
        ++calls;
        return i < plan.size() ? plan[i] : std::nullopt;
    };
    auto apply_plan = [&]
    {
        for (auto &p : plan)
            if (p) model.push_back(*p);
        VP_CHECK(c, order_ok && calls == plan.size(), "generator-calls", "generator called " << calls << " times for " << plan.size());
    };
    make_plan(c.len(0, 20));
    const bool with_uid = c.flag();
    const core::UID own = make_uid(77);
    Pop pop = with_uid ? Pop(own, gen, plan.size()) : Pop(gen, plan.size());
    apply_plan();
    const core::UID uid = pop.get_uid();
    VP_CHECK(c, static_cast<bool>(uid), "uid", "generated UID is not nil");
    if (with_uid) VP_CHECK(c, uid == own, "uid", "explicit UID");
    VP_NOTE(c, "construct with " << plan.size() << " generator calls -> " << model.size() << " neurons\n");

    auto compare = [&](Pop &p, const char *when)
    {
        const Pop &cp = p;
        VP_EQ(c, p.size(), model.size(), "size", when);
        VP_EQ(c, cp.get_neurons_parameters().size(), model.size(), "size", when);
        size_t i = 0;
        for (auto &x : p)
        {
            VP_CHECK(c, i < model.size(), "iteration", when);
            VP_EQ(c, neuron_str<N>(x), neuron_str<N>(model[i]), "content", when << " iteration " << i);
            ++i;
        }
        VP_EQ(c, i, model.size(), "iteration", when);
        i = 0;
        for (const auto &x : cp) VP_EQ(c, neuron_str<N>(x), neuron_str<N>(model[i++]), "content", when << " const iteration");
        for (i = 0; i < model.size(); ++i)
        {
            const std::string want = neuron_str<N>(model[i]);
            VP_EQ(c, neuron_str<N>(p[i]), want, "content", when << " [] " << i);
            VP_EQ(c, neuron_str<N>(cp[i]), want, "content", when << " const [] " << i);
            VP_EQ(c, neuron_str<N>(cp.get_neuron_parameters(i)), want, "content", when << " get " << i);
            VP_EQ(c, neuron_str<N>(cp.get_neurons_parameters()[i]), want, "content", when << " get all " << i);
        }
        VP_CHECK(c, p.get_uid() == uid, "uid", when);
    };
    compare(pop, "after construction");
    unsigned edits = 0, kinds = 0;
    const size_t n_ops = c.len(1, 15);
    for (size_t op = 0; op < n_ops; ++op)
    {
        const auto before = model.size();
        const auto k = c.weighted({3, 3, 3, 3, 2, 2, 1, 1});
        switch (k)
        {
            case 0:
                make_plan(c.len(0, 8));
                VP_NOTE(c, "add " << plan.size() << " calls\n");
                pop.add_neurons(gen, plan.size());
                apply_plan();
                break;
            case 1:
            {
                if (model.empty()) break;
                const size_t i = c.draw(model.size());
                VP_NOTE(c, "remove neuron " << i << "\n");
                pop.remove_neuron(i);
                model.erase(model.begin() + static_cast<long>(i));
                break;
            }
            case 2:
            {
                if (model.empty()) break;
                // Any order, repetitions allowed.
                std::vector<size_t> idx;
                for (size_t n = c.len(0, 6); n; --n) idx.push_back(c.draw(model.size()));
                if (c.flag()) std::sort(idx.begin(), idx.end());
                VP_NOTE(c, "remove neurons [" << vp::join(idx) << "]\n");
                pop.remove_neurons(idx);
                std::vector<P> rest;
                for (size_t i = 0; i < model.size(); ++i)
                    if (std::find(idx.begin(), idx.end(), i) == idx.end()) rest.push_back(model[i]);
                model = rest;
                break;
            }
            case 3:
            {
                if (model.empty()) break;
                const size_t i = c.draw(model.size());
                const P p = arbitrary_neuron<N>(c);
                VP_NOTE(c, "set neuron " << i << "\n");
                if (c.flag())
                    pop[i] = p;
                else
                    pop.set_neuron_parameters(i, p);
                model[i] = p;
                ++edits;
                break;
            }
            case 4:
            {
                std::vector<P> all;
                for (size_t n = c.len(0, 10); n; --n) all.push_back(arbitrary_neuron<N>(c));
                VP_NOTE(c, "set all neurons: " << all.size() << "\n");
                model = all;
                if (c.flag())
                    pop.set_neurons_parameters(all);
                else
                    pop.set_neurons_parameters(std::move(all));
                break;
            }
            case 5:
            {
                // Iterators give access to the neurons themselves.
                if (model.empty()) break;
                const size_t i = c.draw(model.size());
                const P p = arbitrary_neuron<N>(c);
                *(pop.begin() + static_cast<long>(i)) = p;
                model[i] = p;
                break;
            }
            case 6:
            {
                Pop copy = pop;
                if (!model.empty()) pop.remove_neuron(0);
                compare(copy, "copy");
                pop = std::move(copy);
                break;
            }
            case 7:
            {
                const std::string v = "v" + std::to_string(c.draw(5));
                pop.get_tags()["t"] = v;
                VP_EQ(c, pop.get_tags().template get_tag<std::string>("t"), v, "tag", "");
                if (model.empty()) break;
                pop.get_tags()["neuron_tags"] = std::vector<core::TagMap>(model.size());
                const size_t i = c.draw(model.size());
                pop.get_neuron_tags(i)["x"] = static_cast<int>(op);
                const auto &all = pop.get_tags().template get_tag<std::vector<core::TagMap>>("neuron_tags");
                for (size_t j = 0; j < all.size(); ++j)
                {
                    VP_EQ(c, all[j].exists("x"), j == i, "neuron-tag", j);
                    VP_EQ(c, all[j].empty(), j != i, "neuron-tag", j);
                }
                VP_EQ(c, pop.get_neuron_tags(i).template get_tag<int>("x"), static_cast<int>(op), "neuron-tag", i);
                break;
            }
        }
        if (model.size() != before) ++edits;
        kinds |= 1U << k;
        compare(pop, "after an operation");
    }
    if (edits >= 2 && model.size() >= 1) c.nontrivial();
}

// Sizes and indexes beyond 16 bits; each neuron is known by its potential.
template <class N>
void large_history(vp::Case &c)
{
    using P = nt::neuron_parameters<N>;
    std::mt19937_64 rng(c.bits64());
    auto below = [&](uint64_t n) { return rng() % n; };
    std::vector<uint32_t> model;
    uint32_t next = 0;
    const P base = arbitrary_neuron<N>(c);
    auto neuron = [&](uint32_t id)
    {
        P p = base;
        p.potential_ = static_cast<decltype(p.potential_)>(id);
        return p;
    };
    uint64_t skip = 1 + below(9);
    size_t calls = 0;
    auto gen = [&](size_t i) -> std::optional<P>
    {
        VP_EQ(c, i, calls, "generator-calls", "index of a generator call");
        ++calls;
        if (i % skip == 1) return std::nullopt;
        model.push_back(next);
        return neuron(next++);
    };
    const size_t n = below(uint64_t{1} << c.range(8, 18));
    VP_NOTE(c, "construct with " << n << " generator calls, every " << skip << ". empty\n");
    core::Population<N> pop(gen, n);
    const auto uid = pop.get_uid();
    auto compare = [&](const char *when)
    {
        VP_EQ(c, pop.size(), model.size(), "size", when);
        size_t i = 0;
        for (const auto &x : pop)
        {
            VP_CHECK(c, i < model.size(), "iteration", when);
            VP_EQ(c, static_cast<uint32_t>(x.potential_), model[i], "content", when << ", iteration " << i);
            ++i;
        }
        VP_EQ(c, i, model.size(), "iteration", when);
        for (i = 0; i < model.size(); ++i) VP_EQ(c, static_cast<uint32_t>(pop[i].potential_), model[i], "content", when << ", [] " << i);
        for (size_t k = 0; k < 20 && !model.empty(); ++k)
        {
            i = below(model.size());
            VP_EQ(c, neuron_str<N>(pop.get_neuron_parameters(i)), neuron_str<N>(neuron(model[i])), "content", when << ", get " << i);
        }
        VP_CHECK(c, pop.get_uid() == uid, "uid", when);
    };
    compare("after construction");
    unsigned edits = 0;
    for (size_t op = c.len(1, 6); op; --op)
    {
        const size_t before = model.size();
        switch (c.draw(4))
        {
            case 0:
            {
                const size_t k = below(uint64_t{1} << c.range(0, 17));
                skip = 1 + below(9);
                calls = 0;
                VP_NOTE(c, "add " << k << " calls, every " << skip << ". empty\n");
                pop.add_neurons(gen, k);
                VP_EQ(c, calls, k, "generator-calls", "calls");
                break;
            }
            case 1:
            {
                if (model.empty()) break;
                const size_t i = below(model.size());
                VP_NOTE(c, "remove neuron " << i << "\n");
                pop.remove_neuron(i);
                model.erase(model.begin() + static_cast<long>(i));
                break;
            }
            case 2:
            {
                if (model.empty()) break;
                std::vector<size_t> idx;
                // Removing a neuron moves those that follow.
                const size_t most = 1 + size_t{8000000000} / (model.size() * sizeof(P));
                for (size_t k = std::min(below(uint64_t{1} << c.range(0, 15)), most); k; --k) idx.push_back(below(model.size()));
                if (c.flag()) std::sort(idx.begin(), idx.end());
                VP_NOTE(c, "remove " << idx.size() << " neurons (with repetitions)\n");
                pop.remove_neurons(idx);
                std::vector<bool> out(model.size());
                for (auto i : idx) out[i] = true;
                std::vector<uint32_t> rest;
                for (size_t i = 0; i < model.size(); ++i)
                    if (!out[i]) rest.push_back(model[i]);
                model = rest;
                break;
            }
            default:
                for (size_t k = below(100); k && !model.empty(); --k)
                {
                    const size_t i = below(model.size());
                    model[i] = next++;
                    if (k % 2) pop[i] = neuron(model[i]);
                    else pop.set_neuron_parameters(i, neuron(model[i]));
                }
                VP_NOTE(c, "set some neurons\n");
        }
        edits += before != model.size();
        compare("after an operation");
    }
    if (edits && model.size() > 1000) c.nontrivial();
}

int main(int argc, char **argv)
{
    const std::string rule =
        "history of 1-15 operations (add with a generator that may yield nothing, remove one / several in any order, replace, "
        "copy, tags) against a std::vector model; non-trivial: at least two operations changed the neurons and some are left";
    std::vector<vp::Prop> props{
        {"blifat_history", rule, population_history<nt::BLIFATNeuron>, 5000},
        {"lif_history", rule, population_history<nt::LIFNeuron>, 8000},
        {"altai_history", rule, population_history<nt::AltAILIF>, 5000},
        {"stdp_blifat_history", rule, population_history<nt::SynapticResourceSTDPBLIFATNeuron>, 3000},
        {"stdp_altai_history", rule, population_history<nt::SynapticResourceSTDPAltAILIFNeuron>, 3000},
        {"large", "populations of up to 2^18 neurons, up to 6 operations on many neurons at once; non-trivial: one changed the size and more than 1000 neurons are left",
         [](vp::Case &c) { c.flag() ? large_history<nt::LIFNeuron>(c) : large_history<nt::BLIFATNeuron>(c); }, 120, 0.3},
    };
    return vp::run_main(argc, argv, "C01", props, {}, {"neuron indexes passed to the population are in range"});
}
