// C17: a backend holds exactly the network that was loaded.
#include <knp/framework/model.h>
#include <knp/framework/model_loader.h>
#include <knp/framework/network.h>
#include <knp/framework/synchronization.h>

#include "knp_netgen.hpp"

using namespace sim;

namespace
{
using Pop = core::AllPopulationsVariant;
using Proj = core::AllProjectionsVariant;

template <class V>
void set_tag(V &v, int x)
{
    std::visit([&](auto &p) { p.get_tags()["verif"] = x; }, v);
}

std::string tag_text(core::TagMap t)
{
    try
    {
        return VP_STR(" tag " << t.get_tag<int>("verif"));
    }
    catch (...)
    {
        return " no tag";
    }
}

std::string shared_text(const core::Projection<Additive> &p)
{
    std::vector<std::string> r;
    for (auto &[uid, type] : p.get_shared_parameters().stdp_populations_) r.push_back(VP_STR(std::string(uid) << "=" << static_cast<int>(type)));
    std::sort(r.begin(), r.end());
    return " stdp populations " + vp::join(r);
}
template <class P>
std::string shared_text(const P &)
{
    return "";
}

// Everything about an entity.
template <class N>
std::string full_one(const core::Population<N> &p)
{
    return kg::pop_text(p) + tag_text(p.get_tags());
}
template <class S>
std::string full_one(const core::Projection<S> &p)
{
    return kg::proj_text(p) + tag_text(p.get_tags()) + shared_text(p);
}
template <class V>
std::string full(const V &v)
{
    return std::visit([](const auto &p) { return full_one(p); }, v);
}

template <class V>
std::vector<std::string> fulls(const V &v)
{
    std::vector<std::string> r;
    for (auto &x : v) r.push_back(full(x));
    return r;
}

// What the backend reports by each way of asking.
struct Report
{
    std::string how;
    std::vector<std::string> pops, projs;
    bool ordered = true;
};

template <class Range>
std::vector<std::string> range_text(vp::Case &c, Range &range, const char *what)
{
    std::vector<std::string> r;
    auto &it = *range.first;
    const auto &end = *range.second;
    while (it != end)
    {
        VP_CHECK(c, !(it == end), "range-equality", what << ": == and != agree");
        const auto v = *it;
        r.push_back(full(v));
        const auto again = *it;
        VP_EQ(c, full(again), r.back(), "range-value", what << ": the same position read twice");
        ++it;
        VP_CHECK(c, r.size() <= 1000, "range-end", what << ": range does not end");
    }
    VP_CHECK(c, it == end, "range-equality", what << ": == at the end");
    return r;
}

std::vector<Report> reports(vp::Case &c, Sim &s)
{
    std::vector<Report> r;
    r.push_back({"iterators", fulls(s.populations()), fulls(s.projections())});
    Report k{"constant iterators", {}, {}};
    s.each(
        [&](auto &b)
        {
            const auto &cb = b;
            for (auto it = cb.begin_populations(); it != cb.end_populations(); ++it)
                k.pops.push_back(std::visit([](const auto &p) { return full_one(p); }, *it));
            for (auto it = cb.begin_projections(); it != cb.end_projections(); ++it)
                k.projs.push_back(std::visit([](const auto &p) { return full_one(p); }, it->arg_));
        });
    r.push_back(k);
    auto data = s.backend().get_network_data();
    Report d{"data ranges", {}, {}};
    d.pops = range_text(c, data.population_range, "populations");
    d.projs = range_text(c, data.projection_range, "projections");
    r.push_back(d);
    const auto net = knp::framework::synchronization::get_network_copy(s.backend());
    Report n{"network copy", {}, {}, false};
    for (auto &p : net.get_populations()) n.pops.push_back(full(p));
    for (auto &p : net.get_projections()) n.projs.push_back(full(p));
    r.push_back(n);
    return r;
}

void check_reports(vp::Case &c, Sim &s, std::vector<std::string> pops, std::vector<std::string> projs, const std::string &when)
{
    auto all = reports(c, s);
    for (auto &r : all)
    {
        auto ep = pops, ej = projs;
        if (!r.ordered)
            for (auto *v : {&ep, &ej, &r.pops, &r.projs}) std::sort(v->begin(), v->end());
        VP_CHECK(c, r.pops == ep, "populations", when << ", " << r.how << ": populations\n" << vp::join(r.pops, "\n") << "\nexpected\n" << vp::join(ep, "\n"));
        VP_CHECK(c, r.projs == ej, "projections", when << ", " << r.how << ": projections\n" << vp::join(r.projs, "\n") << "\nexpected\n" << vp::join(ej, "\n"));
    }
}

// Position of each type in the lists of all types, found through the types themselves.
size_t neuron_index(size_t type)
{
    size_t r = 0;
    kg::with_neuron(type, [&](auto t) { r = Pop(core::Population<typename decltype(t)::type>(UID{}, [](size_t) { return std::nullopt; }, 0)).index(); });
    return r;
}
size_t synapse_index(size_t type)
{
    size_t r = 0;
    kg::with_synapse(type, [&](auto t) { r = Proj(core::Projection<typename decltype(t)::type>(UID{}, UID{}, UID{})).index(); });
    return r;
}

const char *neuron_name(size_t type)
{
    const char *n[] = {"BLIFATNeuron", "LIFNeuron", "AltAILIF", "SynapticResourceSTDPBLIFATNeuron", "SynapticResourceSTDPAltAILIFNeuron"};
    return n[type];
}
const char *synapse_name(size_t type)
{
    const char *n[] = {"DeltaSynapse", "SynapticResourceSTDPDeltaSynapse", "AdditiveSTDPDeltaSynapse"};
    return n[type];
}

struct Entities
{
    std::vector<Pop> pops;
    std::vector<Proj> projs;
};

// `multi` limits the types to those the multi-threaded backend supports.
Entities gen_entities(vp::Case &c, bool multi, size_t first_uid)
{
    Entities e;
    const bool many = c.chance(1, 20);
    const size_t n_pops = many ? c.range(7, 40) : c.len(0, 6), n_projs = many ? c.range(7, 40) : c.len(0, 6);
    for (size_t i = 0; i < n_pops; ++i)
    {
        const size_t type = multi ? c.pick_of({0, 1, 3}) : c.draw(kg::n_neuron_types);
        e.pops.push_back(kg::any_population(c, type, kg::make_uid(first_uid + i), c.len(0, 5)));
        if (c.flag()) set_tag(e.pops.back(), static_cast<int>(c.draw(1000)));
    }
    auto end = [&] { return c.chance(1, 6) ? UID{false} : kg::make_uid(first_uid + c.draw(n_pops + 2)); };
    for (size_t i = 0; i < n_projs; ++i)
    {
        const size_t type = multi ? c.draw(2) : c.draw(kg::n_synapse_types);
        const UID from = end(), to = end();
        e.projs.push_back(kg::any_projection(c, type, kg::make_uid(first_uid + 500 + i), from, to, 5, 5, c.len(0, 8)));
        if (auto *a = std::get_if<core::Projection<Additive>>(&e.projs.back()))
            for (size_t k = c.draw(3); k; --k)
                a->get_shared_parameters().stdp_populations_[kg::make_uid(first_uid + c.draw(n_pops + 2))] =
                    c.flag() ? core::Projection<Additive>::SharedSynapseParameters::ProcessingType::STDPOnly : core::Projection<Additive>::SharedSynapseParameters::ProcessingType::STDPAndSpike;
        if (c.flag()) set_tag(e.projs.back(), static_cast<int>(c.draw(1000)));
    }
    return e;
}

template <class Backend>
void typed_load(Backend &b, const Entities &e)
{
    std::vector<typename Backend::PopulationVariants> pops;
    std::vector<typename Backend::ProjectionVariants> projs;
    for (auto &p : e.pops)
        std::visit(
            [&](const auto &x)
            {
                if constexpr (std::is_constructible_v<typename Backend::PopulationVariants, decltype(x)>) pops.emplace_back(x);
            },
            p);
    for (auto &p : e.projs)
        std::visit(
            [&](const auto &x)
            {
                if constexpr (std::is_constructible_v<typename Backend::ProjectionVariants, decltype(x)>) projs.emplace_back(x);
            },
            p);
    b.load_populations(pops);
    b.load_projections(projs);
}

void note(vp::Case &c, const Entities &e)
{
    if (!c.noting()) return;
    for (auto &p : e.pops) VP_NOTE(c, kg::brief(p) << "\n");
    for (auto &p : e.projs) VP_NOTE(c, kg::brief(p) << "\n");
}

// Loading, reading back by every way, editing through the iterators, removing, loading again.
void contents(vp::Case &c)
{
    const bool multi = c.flag();
    Sim s(multi ? multi_config(c) : Config{});
    VP_NOTE(c, s.config.str() << "\n");
    const size_t rounds = c.range(1, 3);
    size_t most = 0;
    unsigned edits = 0, removals = 0;
    for (size_t round = 0; round < rounds; ++round)
    {
        const auto e = gen_entities(c, multi, 1000 * (round + 1));
        auto pops = fulls(e.pops), projs = fulls(e.projs);
        most = std::max(most, std::min(pops.size(), projs.size()));
        const size_t way = c.draw(3);
        VP_NOTE(c, "load" << (way == 0 ? "" : way == 1 ? " (typed)" : " (as a model)") << "\n");
        note(c, e);
        if (way == 1)
            s.each([&](auto &b) { typed_load(b, e); });
        else if (way == 2)
        {
            knp::framework::Network net;
            for (auto &p : e.pops) net.add_population(core::AllPopulationsVariant{p});
            for (auto &p : e.projs) net.add_projection(core::AllProjectionsVariant{p});
            knp::framework::Model model(std::move(net));
            knp::framework::ModelLoader({&s.backend(), [](auto *) {}}, {}).load(model);
            VP_CHECK(c, fulls(model.get_network().get_populations()) == pops && fulls(model.get_network().get_projections()) == projs, "argument", "loading changed the model");
        }
        else
        {
            s.backend().load_all_populations(e.pops);
            s.backend().load_all_projections(e.projs);
        }
        check_reports(c, s, pops, projs, VP_STR("after load " << round));
        VP_CHECK(c, fulls(e.pops) == pops && fulls(e.projs) == projs, "argument", "loading changed its argument");
        for (size_t ops = c.len(0, 4); ops; --ops)
        {
            switch (c.draw(3))
            {
                case 0:  // copies do not write through
                {
                    auto data = s.backend().get_network_data();
                    auto &it = *data.projection_range.first;
                    if (!(it != *data.projection_range.second)) break;
                    auto v = *it;
                    std::visit([](auto &p) { p.clear(); }, v);
                    set_tag(v, 5000);
                    auto net = knp::framework::synchronization::get_network_copy(s.backend());
                    for (auto p = net.begin_populations(); p != net.end_populations(); ++p) set_tag(*p, 6000);
                    VP_NOTE(c, "edit copies\n");
                    break;
                }
                case 1:  // iterators do
                {
                    VP_NOTE(c, "edit through iterators\n");
                    s.each(
                        [&](auto &b)
                        {
                            size_t i = 0;
                            for (auto it = b.begin_populations(); it != b.end_populations(); ++it, ++i)
                                if (c.flag())
                                {
                                    const int t = static_cast<int>(c.draw(1000));
                                    std::visit([&](auto &p) { p.get_tags()["verif"] = t; }, *it);
                                    pops[i] = std::visit([&](auto &p) { return full_one(p); }, *it);
                                    VP_CHECK(c, pops[i].find(VP_STR(" tag " << t)) != std::string::npos, "edit", "a tag written through an iterator is not there");
                                }
                            i = 0;
                            for (auto it = b.begin_projections(); it != b.end_projections(); ++it, ++i)
                                if (c.flag())
                                {
                                    std::visit([&](auto &p) { p.is_locked() ? p.unlock_weights() : p.lock_weights(); }, it->arg_);
                                    projs[i] = std::visit([&](auto &p) { return full_one(p); }, it->arg_);
                                }
                        });
                    ++edits;
                    break;
                }
                default:
                {
                    const bool projections = c.flag();
                    auto &v = projections ? projs : pops;
                    std::vector<UID> uids;
                    const size_t base = 1000 * (round + 1) + (projections ? 500 : 0);
                    for (size_t k = c.range(1, 3); k; --k) uids.push_back(kg::make_uid(base + c.draw(std::max<size_t>(8, v.size() + 2))));
                    VP_NOTE(c, "remove " << (projections ? "projections" : "populations"));
                    for (auto &u : uids) VP_NOTE(c, " " << std::string(u));
                    VP_NOTE(c, "\n");
                    if (projections) s.backend().remove_projections(uids);
                    else s.backend().remove_populations(uids);
                    const size_t before = v.size();
                    v.erase(std::remove_if(v.begin(), v.end(), [&](const std::string &t) {
                        return std::any_of(uids.begin(), uids.end(), [&](auto &u) {
                            const auto at = t.find(std::string(u));
                            return at != std::string::npos && at == t.find(' ') + 1;
                        });
                    }), v.end());
                    removals += v.size() < before;
                }
            }
            check_reports(c, s, pops, projs, "after an operation");
        }
    }
    if (removals) c.label("removed");
    if (edits) c.label("edited");
    if (most >= 2) c.nontrivial();
}

// Whether a type is supported: by name, by index, and by what loading does.
void support(vp::Case &c)
{
    const bool multi = c.flag();
    Sim s(multi ? multi_config(c) : Config{});
    const auto names = s.backend().get_supported_neurons(), synapse_names = s.backend().get_supported_synapses();
    const auto indexes = s.backend().get_supported_population_indexes(), proj_indexes = s.backend().get_supported_projection_indexes();
    VP_NOTE(c, s.config.str() << ": neurons " << vp::join(names) << " indexes " << vp::join(indexes) << "; synapses " << vp::join(synapse_names) << " indexes " << vp::join(proj_indexes) << "\n");
    VP_CHECK(c, s.backend().plasticity_supported(), "plasticity", "plasticity is supported");
    Entities e;
    bool pops_ok = true, projs_ok = true;
    const size_t n = c.len(1, 5), m = c.len(1, 5);
    for (size_t i = 0; i < n; ++i)
    {
        const size_t type = c.draw(kg::n_neuron_types);
        const auto by_name = std::count(names.begin(), names.end(), std::string(neuron_name(type)));
        const auto by_index = std::count(indexes.begin(), indexes.end(), neuron_index(type));
        const bool supported = !multi || multi_supports_neuron(type);
        VP_EQ(c, static_cast<bool>(by_name), supported, "neuron-name", neuron_name(type));
        VP_EQ(c, static_cast<bool>(by_index), supported, "population-index", neuron_name(type));
        pops_ok = pops_ok && supported;
        e.pops.push_back(kg::any_population(c, type, kg::make_uid(100 + i), c.len(0, 3)));
    }
    for (size_t i = 0; i < m; ++i)
    {
        const size_t type = c.draw(kg::n_synapse_types);
        const auto by_name = std::count(synapse_names.begin(), synapse_names.end(), std::string(synapse_name(type)));
        const auto by_index = std::count(proj_indexes.begin(), proj_indexes.end(), synapse_index(type));
        const bool supported = !multi || multi_supports_synapse(type);
        VP_EQ(c, static_cast<bool>(by_name), supported, "synapse-name", synapse_name(type));
        VP_EQ(c, static_cast<bool>(by_index), supported, "projection-index", synapse_name(type));
        projs_ok = projs_ok && supported;
        e.projs.push_back(kg::any_projection(c, type, kg::make_uid(600 + i), kg::make_uid(1), kg::make_uid(2), 3, 3, c.len(0, 3)));
    }
    VP_EQ(c, names.size(), multi ? 3u : 5u, "neuron-name", "number of supported neurons");
    VP_EQ(c, indexes.size(), names.size(), "population-index", "number of supported populations");
    VP_EQ(c, synapse_names.size(), multi ? 2u : 3u, "synapse-name", "number of supported synapses");
    VP_EQ(c, proj_indexes.size(), synapse_names.size(), "projection-index", "number of supported projections");
    note(c, e);
    VP_EQ(c, vp::throws([&] { s.backend().load_all_populations(e.pops); }), !pops_ok, "load-populations", "loading these populations throws");
    VP_EQ(c, vp::throws([&] { s.backend().load_all_projections(e.projs); }), !projs_ok, "load-projections", "loading these projections throws");
    auto all = reports(c, s);
    for (auto &r : all)
    {
        auto ep = fulls(e.pops), ej = fulls(e.projs);
        if (!r.ordered)
            for (auto *v : {&ep, &ej, &r.pops, &r.projs}) std::sort(v->begin(), v->end());
        if (pops_ok) VP_CHECK(c, r.pops == ep, "populations", r.how << ": populations\n" << vp::join(r.pops, "\n") << "\nexpected\n" << vp::join(ep, "\n"));
        if (projs_ok) VP_CHECK(c, r.projs == ej, "projections", r.how << ": projections\n" << vp::join(r.projs, "\n") << "\nexpected\n" << vp::join(ej, "\n"));
    }
    if (!pops_ok || !projs_ok) c.label("unsupported type");
    if (n + m >= 4) c.nontrivial();
}

// A network exported in the middle of a run and loaded into another backend of the same kind.
void export_mid_run(vp::Case &c)
{
    const bool multi = c.chance(1, 3);
    const auto k = multi ? multi_config(c) : Config{};
    NetOptions o;
    o.neuron_types = multi ? std::vector<size_t>{0, 1, 3} : std::vector<size_t>{0, 1, 2, 3, 4};
    o.synapse_types = multi ? std::vector<size_t>{0, 1} : std::vector<size_t>{0, 1, 2};
    o.unlocked = 2;
    auto g = gen_net(c, o);
    for (auto &p : g.pops) if (c.flag()) set_tag(p, static_cast<int>(c.draw(100)));
    for (auto &p : g.projs) if (c.flag()) set_tag(p, static_cast<int>(c.draw(100)));
    VP_NOTE(c, k.str() << "\n");
    note_net(c, g);
    Sim a(k);
    start(a, g);
    const size_t steps = c.len(0, 15);
    unsigned moved = 0;
    for (uint64_t step = 0; step < steps; ++step)
    {
        const auto in = gen_input(c, g, step, false);
        note_input(c, step, in);
        const auto before = fulls(a.populations());
        a.step(in, {});
        moved += before != fulls(a.populations());
    }
    const auto pops = fulls(a.populations()), projs = fulls(a.projections());
    check_reports(c, a, pops, projs, "original");
    for (size_t i = 0; i < g.pops.size(); ++i)
        VP_EQ(c, kg::uid_of(a.populations()[i]), kg::uid_of(g.pops[i]), "uid", "population " << i);
    // Everything a run does not change is as it was loaded.
    for (size_t i = 0; i < g.projs.size(); ++i)
    {
        const auto now = a.projections()[i];
        std::visit(
            [&](const auto &p)
            {
                const auto &q = std::get<std::decay_t<decltype(p)>>(g.projs[i]);
                VP_EQ(c, p.size(), q.size(), "projection", "size of projection " << i);
                VP_CHECK(c, p.get_uid() == q.get_uid() && p.get_presynaptic() == q.get_presynaptic() && p.get_postsynaptic() == q.get_postsynaptic(), "projection", "ends of projection " << i);
                VP_EQ(c, p.is_locked(), q.is_locked(), "projection", "lock of projection " << i);
                for (size_t j = 0; j < p.size(); ++j)
                {
                    VP_EQ(c, std::get<core::source_neuron_id>(p[j]), std::get<core::source_neuron_id>(q[j]), "projection", "source of synapse " << j);
                    VP_EQ(c, std::get<core::target_neuron_id>(p[j]), std::get<core::target_neuron_id>(q[j]), "projection", "target of synapse " << j);
                    VP_EQ(c, std::get<core::synapse_data>(p[j]).delay_, std::get<core::synapse_data>(q[j]).delay_, "projection", "delay of synapse " << j);
                    VP_CHECK(c, std::get<core::synapse_data>(p[j]).output_type_ == std::get<core::synapse_data>(q[j]).output_type_, "projection", "type of synapse " << j);
                }
            },
            now);
    }
    const auto net = knp::framework::synchronization::get_network_copy(a.backend());
    Sim b(k);
    b.backend().load_all_populations({net.get_populations().begin(), net.get_populations().end()});
    b.backend().load_all_projections({net.get_projections().begin(), net.get_projections().end()});
    check_reports(c, b, pops, projs, "copy");
    // The copy is independent: the original goes on, the copy stays.
    for (uint64_t step = steps; step < steps + 3; ++step) a.step(gen_input(c, g, step, false), {});
    check_reports(c, b, pops, projs, "copy after more steps of the original");
    // Both start from here with nothing in flight: starting again from the exported state does the same on both.
    if (moved >= 3) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C17",
        {
            {"contents",
             "0-6 populations and 0-6 projections of every supported type with arbitrary parameters, tags, locks, end points and training populations, loaded typed, untyped or as a model up to 3 times, edited and removed, read back by "
             "iterators, constant iterators, data ranges and network copy; non-trivial: at least 2 populations and 2 projections at once",
             contents, 3000},
            {"support", "1-5 populations and projections of any type loaded, supported or not; non-trivial: at least 4 entities", support, 2000},
            {"export",
             "network of 1-4 populations and up to 6 projections exported after up to 15 steps, loaded into another backend; non-trivial: neuron state changed at 3 steps",
             export_mid_run, 1500},
        },
        {}, {});
}
