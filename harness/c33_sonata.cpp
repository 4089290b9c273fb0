// C33: a network saved in the SONATA format loads back the same.
#include <knp/framework/network.h>
#include <knp/framework/sonata/network_io.h>

#include <filesystem>
#include <highfive/highfive.hpp>
#include <map>

#include "knp_netgen.hpp"

using namespace knp;
namespace fs = std::filesystem;

namespace
{
// Everything that a network is, by UIDs, as text. The order of populations and of projections is not kept by the format.
struct Text
{
    std::map<std::string, std::vector<std::string>> pops, projs;
};

Text text(const framework::Network &n)
{
    Text t;
    for (auto i = n.begin_populations(); i != n.end_populations(); ++i)
        std::visit(
            [&](auto &p)
            {
                using N = typename std::decay_t<decltype(p)>::PopulationNeuronType;
                auto &v = t.pops[std::string(p.get_uid())];
                v.push_back(kg::NeuronFields<N>::name);
                for (auto &x : p) v.push_back(kg::neuron_str<N>(x));
            },
            *i);
    for (auto i = n.begin_projections(); i != n.end_projections(); ++i)
        std::visit(
            [&](auto &p)
            {
                using S = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
                auto &v = t.projs[std::string(p.get_uid())];
                v.push_back(kg::SynapseFields<S>::name);
                v.push_back(VP_STR(p.get_presynaptic() << " to " << p.get_postsynaptic() << (p.is_locked() ? " locked" : " unlocked")));
                for (auto &x : p) v.push_back(kg::synapse_str<S>(x));
            },
            *i);
    return t;
}

void compare(vp::Case &c, const char *what, const std::map<std::string, std::vector<std::string>> &got, const std::map<std::string, std::vector<std::string>> &want)
{
    for (auto &[uid, w] : want)
    {
        auto g = got.find(uid);
        VP_CHECK(c, g != got.end(), std::string(what) + "-lost", what << " " << uid << " is not in the loaded network");
        VP_EQ(c, g->second.size(), w.size(), std::string(what) + "-size", what << " " << uid << ": lines of its description");
        for (size_t i = 0; i < w.size(); ++i)
            VP_CHECK(c, g->second[i] == w[i], what, what << " " << uid << ", line " << i << " is\n  " << g->second[i] << "\nexpected\n  " << w[i]);
    }
    VP_EQ(c, got.size(), want.size(), std::string(what) + "-count", "the number of loaded objects: " << what);
}

framework::Network generate(vp::Case &c, bool &rich, bool additive = false)
{
    framework::Network n(c.flag() ? kg::random_uid(c) : kg::make_uid(1));
    const size_t pops = c.len(0, 4), projs = c.len(additive ? 1 : 0, 4);
    std::vector<core::UID> uids;
    size_t neurons = 0, synapses = 0;
    for (size_t i = 0; i < pops; ++i)
    {
        const core::UID uid = c.flag() ? kg::random_uid(c) : kg::make_uid(10 + i);
        uids.push_back(uid);
        const size_t size = c.chance(1, 40) ? 300 : c.len(0, 6);
        neurons += size;
        kg::with_neuron(
            c.draw(5),
            [&](auto t)
            {
                using N = typename decltype(t)::type;
                const auto first = kg::arbitrary_neuron<N>(c);
                core::Population<N> p(uid, [&](size_t k) { return std::make_optional(k >= 8 ? first : kg::arbitrary_neuron<N>(c)); }, size);
                VP_NOTE(c, "population " << uid << ": " << size << " " << kg::NeuronFields<N>::name << "\n");
                for (size_t k = 0; k < size && k < 8; ++k) VP_NOTE(c, "  " << kg::neuron_str<N>(p[k], true) << "\n");
                n.add_population(p);
            });
    }
    auto end = [&] { return uids.empty() || c.chance(1, 6) ? c.flag() ? core::UID{false} : kg::random_uid(c) : c.pick(uids); };
    for (size_t i = 0; i < projs; ++i)
    {
        const core::UID uid = c.flag() ? kg::random_uid(c) : kg::make_uid(50 + i), from = end(), to = end();
        const size_t size = c.chance(1, 40) ? 300 : c.len(0, 8);
        synapses += size;
        const bool odd = additive && i + 1 == projs;
        kg::with_synapse(
            odd ? 2 : c.draw(2),
            [&](auto t)
            {
                using S = typename decltype(t)::type;
                using Syn = typename core::Projection<S>::Synapse;
                auto make = [&]() -> Syn { return {kg::arbitrary_synapse<S>(c), c.chance(1, 8) ? c.bits64() : c.draw(7), c.draw(7)}; };
                const auto first = make();
                core::Projection<S> p(uid, from, to, [&](size_t k) { return std::make_optional(k >= 8 ? first : make()); }, size);
                if (c.flag()) p.lock_weights();
                else p.unlock_weights();
                VP_NOTE(c, "projection " << uid << " of " << size << " " << kg::SynapseFields<S>::name << " from " << from << " to " << to << (p.is_locked() ? " locked\n" : " unlocked\n"));
                for (size_t k = 0; k < size && k < 8; ++k) VP_NOTE(c, "  " << kg::synapse_str<S>(*(p.begin() + static_cast<std::ptrdiff_t>(k)), true) << "\n");
                n.add_projection(p);
            });
    }
    rich = neurons >= 2 && synapses >= 2;
    return n;
}

void roundtrip(vp::Case &c)
{
    const fs::path dir = vp::scratch_dir();
    // A later save into the same directory replaces the network.
    const size_t saves = c.chance(1, 4) ? c.range(2, 3) : 1;
    bool rich = false;
    for (size_t k = 0; k < saves; ++k)
    {
        VP_NOTE(c, "save:\n");
        const auto n = generate(c, rich);
        framework::sonata::save_network(n, dir);
        const auto before = text(n);
        auto l = framework::sonata::load_network(dir);
        const auto after = text(l);
        VP_EQ(c, l.get_uid(), n.get_uid(), "network-uid", "UID of the network");
        compare(c, "population", after.pops, before.pops);
        compare(c, "projection", after.projs, before.projs);
        VP_EQ(c, l.populations_count(), n.populations_count(), "count", "populations");
        VP_EQ(c, l.projections_count(), n.projections_count(), "count", "projections");
        if (c.chance(1, 4))
        {
            VP_NOTE(c, "the loaded network is saved elsewhere and loaded again\n");
            fs::create_directories(dir / "again");
            framework::sonata::save_network(l, dir / "again");
            const auto third = text(framework::sonata::load_network(dir / "again"));
            compare(c, "population", third.pops, before.pops);
            compare(c, "projection", third.projs, before.projs);
        }
    }
    if (rich) c.nontrivial();
}

// A network that the format cannot hold is refused, and not saved in part without a word; so is one that is not there.
void refused(vp::Case &c)
{
    const fs::path dir = vp::scratch_dir();
    bool rich = false;
    const auto n = generate(c, rich, true);
    VP_CHECK(c, vp::throws([&] { framework::sonata::save_network(n, dir); }), "additive-saved", "synapses of additive STDP are not saved, without an error");
    VP_CHECK(c, vp::throws([&] { framework::sonata::load_network(dir / "none"); }), "loaded-nothing", "loads a network that does not exist");
    if (rich) c.nontrivial();
}
// Files that give the type with each element only, as other tools and earlier versions write them; files that are incomplete.
void other_files(vp::Case &c)
{
    const fs::path dir = vp::scratch_dir();
    bool rich = false;
    const auto n = generate(c, rich);
    framework::sonata::save_network(n, dir);
    const auto before = text(n);
    const fs::path nodes = dir / "network" / "populations.h5", edges = dir / "network" / "projections.h5";
    VP_CHECK(c, fs::is_regular_file(nodes) && fs::is_regular_file(edges), "files", "populations.h5 or projections.h5 is missing");
    size_t changed = 0;
    auto strip = [&](const fs::path &path, const char *top, const char *type)
    {
        HighFive::File f(path.string(), HighFive::File::ReadWrite);
        auto group = f.getGroup(top);
        for (size_t i = 0; i < group.getNumberObjects(); ++i)
        {
            auto g = group.getGroup(group.getObjectName(i));
            if (!g.hasAttribute(type) || !g.exist(type) || g.getDataSet(type).getElementCount() == 0 || !c.chance(2, 3)) continue;
            VP_NOTE(c, "type of " << group.getObjectName(i) << " in the data only\n");
            g.deleteAttribute(type);
            ++changed;
        }
        f.flush();
    };
    strip(nodes, "nodes", "node_type_id");
    strip(edges, "edges", "edge_type_id");
    auto l = framework::sonata::load_network(dir);
    const auto after = text(l);
    VP_EQ(c, l.get_uid(), n.get_uid(), "network-uid", "UID of the network");
    compare(c, "population", after.pops, before.pops);
    compare(c, "projection", after.projs, before.projs);
    if (changed >= 2) c.nontrivial();
    const auto &gone = c.flag() ? nodes : edges;
    fs::remove(gone);
    VP_CHECK(c, vp::throws([&] { framework::sonata::load_network(dir); }), "loaded-nothing", "loads a network without " << gone.filename());
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C33",
        {
            {"roundtrip", "networks of 0-4 populations and 0-4 projections with arbitrary parameters, saved once or more times into a directory; non-trivial: 2 or more neurons and synapses", roundtrip, 5000},
            {"refused", "the same with a projection of additive STDP synapses; non-trivial: the same", refused, 1500},
            {"other_files", "the same saved, types of populations and projections taken out where their elements have them; then a file removed; non-trivial: 2 or more types taken out", other_files, 2000},
        },
        {}, {"HighFive and csv2, which are not installed, are replaced by the stand-ins of lib/shim"});
}
