// C07: networks and models hold exactly what was put into them.
#include <knp/framework/model.h>
#include <knp/framework/network.h>

#include <map>

#include "knp_net.hpp"

using namespace knp;
using framework::Network;

namespace
{
struct PopModel
{
    size_t id;
    core::AllPopulationsVariant value;
    std::string text;
    int tag;
};
struct ProjModel
{
    size_t id;
    core::AllProjectionsVariant value;
    std::string text;
    int tag;
};

core::UID pop_uid(size_t i) { return kg::make_uid(1000 + i); }
core::UID proj_uid(size_t i) { return kg::make_uid(2000 + i); }

template <class V>
int tag_of(V &v)
{
    return std::visit([](auto &p) { return p.get_tags().template get_tag<int>("verif"); }, v);
}
template <class V>
void set_tag(V &v, int x)
{
    std::visit([&](auto &p) { p.get_tags()["verif"] = x; }, v);
}
}  // namespace

void history(vp::Case &c)
{
    const core::UID net_uid = kg::make_uid(1);
    Network net(net_uid);
    std::vector<PopModel> pops;   // in order of insertion
    std::vector<ProjModel> projs;
    auto find_pop = [&](size_t id) { return std::find_if(pops.begin(), pops.end(), [&](auto &p) { return p.id == id; }); };
    auto find_proj = [&](size_t id) { return std::find_if(projs.begin(), projs.end(), [&](auto &p) { return p.id == id; }); };
    constexpr size_t ids = 7;
    unsigned adds = 0, removes = 0, rejected = 0;

    auto check_all = [&](const char *when)
    {
        VP_EQ(c, net.populations_count(), pops.size(), "count", when << ": populations");
        VP_EQ(c, net.projections_count(), projs.size(), "count", when << ": projections");
        VP_EQ(c, net.get_populations().size(), pops.size(), "count", when << ": populations");
        VP_EQ(c, net.get_projections().size(), projs.size(), "count", when << ": projections");
        std::map<std::string, size_t> seen;
        for (auto it = net.begin_populations(); it != net.end_populations(); ++it) ++seen[std::string(kg::uid_of(*it))];
        for (auto &p : pops) VP_EQ(c, seen[std::string(pop_uid(p.id))], 1u, "iteration", when << ": population p" << p.id);
        VP_EQ(c, seen.size(), pops.size(), "iteration", when << ": populations");
        seen.clear();
        const Network &cn = net;
        for (auto it = cn.begin_projections(); it != cn.end_projections(); ++it) ++seen[std::string(kg::uid_of(*it))];
        for (auto &p : projs) VP_EQ(c, seen[std::string(proj_uid(p.id))], 1u, "iteration", when << ": projection j" << p.id);
        VP_EQ(c, seen.size(), projs.size(), "iteration", when << ": projections");
        for (size_t i = 0; i < ids; ++i)
        {
            auto it = find_pop(i);
            VP_EQ(c, net.is_population_exists(pop_uid(i)), it != pops.end(), "exists", when << ": population p" << i);
            if (it == pops.end())
                VP_CHECK(c, vp::throws([&] { (void)net.get_population(pop_uid(i)); }), "unknown-uid", when << ": get_population(p" << i << ") returned");
            else
            {
                auto &v = net.get_population(pop_uid(i));
                VP_EQ(c, kg::text(v), it->text, "content", when << ": p" << i);
                VP_EQ(c, tag_of(v), it->tag, "tags", when << ": p" << i);
            }
            auto jt = find_proj(i);
            VP_EQ(c, net.is_projection_exists(proj_uid(i)), jt != projs.end(), "exists", when << ": projection j" << i);
            if (jt == projs.end())
                VP_CHECK(c, vp::throws([&] { (void)net.get_projection(proj_uid(i)); }), "unknown-uid", when << ": get_projection(j" << i << ") returned");
            else
            {
                auto &v = net.get_projection(proj_uid(i));
                VP_EQ(c, kg::text(v), jt->text, "content", when << ": j" << i);
                VP_EQ(c, tag_of(v), jt->tag, "tags", when << ": j" << i);
            }
        }
        VP_CHECK(c, net.get_uid() == net_uid, "uid", when);
        // UIDs of the other kind are not found.
        if (!pops.empty()) VP_CHECK(c, !net.is_projection_exists(pop_uid(pops[0].id)), "exists", "population UID found as a projection");
    };

    const size_t n_ops = c.len(3, 30);
    for (size_t op = 0; op < n_ops; ++op)
    {
        switch (c.weighted({5, 5, 3, 3, 2, 2, 2, 2}))
        {
            case 0:
            {
                const size_t id = c.draw(ids), type = c.draw(kg::n_neuron_types), n = c.len(0, 6), how = c.draw(3);
                auto v = kg::any_population(c, type, pop_uid(id), n);
                const int tag = static_cast<int>(c.draw(100));
                set_tag(v, tag);
                PopModel m{id, v, kg::text(v), tag};
                const bool dup = find_pop(id) != pops.end();
                if (how == 2 && dup) break;   // the untyped overload does not look for duplicates
                VP_NOTE(c, "add population p" << id << " type " << type << " n=" << n << " how " << how << (dup ? " (duplicate)\n" : "\n"));
                bool threw = false;
                std::visit(
                    [&](auto &p)
                    {
                        using P = std::decay_t<decltype(p)>;
                        threw = vp::throws(
                            [&]
                            {
                                if (how == 0)
                                    net.add_population<P>(std::move(p));
                                else if (how == 1)
                                    net.add_population<P>(p);
                                else
                                    net.add_population(core::AllPopulationsVariant(p));
                            });
                        if (how == 1) VP_EQ(c, kg::pop_text(p), m.text, "argument", "a population added by copy changed");
                    },
                    v);
                VP_EQ(c, threw, dup, "duplicate", "population p" << id);
                rejected += dup;
                if (!dup)
                {
                    pops.push_back(std::move(m));
                    ++adds;
                }
                break;
            }
            case 1:
            {
                const size_t id = c.draw(ids), type = c.draw(kg::n_synapse_types), n = c.len(0, 6), how = c.draw(4);
                auto v = kg::any_projection(c, type, proj_uid(id), pop_uid(c.draw(ids)), pop_uid(c.draw(ids)), 5, 5, n);
                const int tag = static_cast<int>(c.draw(100));
                set_tag(v, tag);
                const bool dup = find_proj(id) != projs.end();
                if (how == 2 && dup) break;
                ProjModel m{id, v, kg::text(v), tag};
                VP_NOTE(c, "add projection j" << id << " type " << type << " n=" << n << " how " << how << (dup ? " (duplicate)\n" : "\n"));
                bool threw = false;
                std::visit(
                    [&](auto &p)
                    {
                        using P = std::decay_t<decltype(p)>;
                        using S = typename kg::ProjTraits<P>::synapse;
                        threw = vp::throws(
                            [&]
                            {
                                if (how == 0)
                                    net.add_projection<P>(std::move(p));
                                else if (how == 1)
                                    net.add_projection<P>(p);
                                else if (how == 2)
                                    net.add_projection(core::AllProjectionsVariant(p));
                                else
                                    net.add_projection<S>(
                                        p.get_uid(), p.get_presynaptic(), p.get_postsynaptic(),
                                        [&](size_t i) { return std::make_optional(p[i]); }, p.size());
                            });
                    },
                    v);
                VP_EQ(c, threw, dup, "duplicate", "projection j" << id);
                rejected += dup;
                if (!dup)
                {
                    if (how == 3)   // lock state and tags are those of a new projection
                    {
                        set_tag(net.get_projection(proj_uid(id)), tag);
                        std::visit([&](auto &p) {
                            using P = std::decay_t<decltype(p)>;
                            if (std::get<P>(m.value).is_locked()) p.lock_weights(); else p.unlock_weights();
                        }, net.get_projection(proj_uid(id)));
                    }
                    projs.push_back(std::move(m));
                    ++adds;
                }
                break;
            }
            case 2:
            case 3:
            {
                const bool pop = c.flag();
                const size_t id = c.draw(ids);
                VP_NOTE(c, "remove " << (pop ? "population p" : "projection j") << id << "\n");
                if (pop)
                {
                    auto it = find_pop(id);
                    const bool known = it != pops.end();
                    VP_EQ(c, vp::throws([&] { net.remove_population(pop_uid(id)); }), !known, "remove", "population p" << id);
                    if (known) pops.erase(it);
                    removes += known;
                }
                else
                {
                    auto it = find_proj(id);
                    const bool known = it != projs.end();
                    VP_EQ(c, vp::throws([&] { net.remove_projection(proj_uid(id)); }), !known, "remove", "projection j" << id);
                    if (known) projs.erase(it);
                    removes += known;
                }
                break;
            }
            case 4:   // typed access, right and wrong type
            {
                const size_t id = c.draw(ids), type = c.draw(kg::n_neuron_types), stype = c.draw(kg::n_synapse_types);
                const Network &cn = net;
                kg::with_neuron(type, [&](auto t) {
                    using N = typename decltype(t)::type;
                    auto it = find_pop(id);
                    const bool fits = it != pops.end() && std::holds_alternative<core::Population<N>>(it->value);
                    std::string got, cgot;
                    const bool threw = vp::throws([&] { got = kg::pop_text(net.get_population<N>(pop_uid(id))); });
                    const bool cthrew = vp::throws([&] { cgot = kg::pop_text(cn.get_population<N>(pop_uid(id))); });
                    VP_CHECK(c, threw == !fits && cthrew == !fits, "typed-access", "population p" << id << " as " << kg::NeuronFields<N>::name);
                    if (fits) VP_CHECK(c, got == it->text && cgot == it->text, "content", "typed access to p" << id);
                });
                kg::with_synapse(stype, [&](auto t) {
                    using S = typename decltype(t)::type;
                    auto it = find_proj(id);
                    const bool fits = it != projs.end() && std::holds_alternative<core::Projection<S>>(it->value);
                    std::string got, cgot;
                    const bool threw = vp::throws([&] { got = kg::proj_text(net.get_projection<S>(proj_uid(id))); });
                    const bool cthrew = vp::throws([&] { cgot = kg::proj_text(cn.get_projection<S>(proj_uid(id))); });
                    VP_CHECK(c, threw == !fits && cthrew == !fits, "typed-access", "projection j" << id << " as " << kg::SynapseFields<S>::name);
                    if (fits) VP_CHECK(c, got == it->text && cgot == it->text, "content", "typed access to j" << id);
                });
                break;
            }
            case 5:   // edits through the network reach the stored entity
            {
                if (pops.empty()) break;
                auto &m = pops[c.draw(pops.size())];
                std::visit([&](auto &p) {
                    using P = std::decay_t<decltype(p)>;
                    using N = typename kg::PopTraits<P>::neuron;
                    auto &stored = net.get_population<N>(pop_uid(m.id));
                    auto extra = kg::arbitrary_neuron<N>(c);
                    stored.add_neurons([&](size_t) { return std::make_optional(extra); }, 1);
                    p.add_neurons([&](size_t) { return std::make_optional(extra); }, 1);
                    m.text = kg::pop_text(p);
                }, m.value);
                VP_NOTE(c, "append a neuron to p" << m.id << "\n");
                break;
            }
            case 6:   // connect_populations
            {
                if (pops.empty()) break;
                auto a = pops[c.draw(pops.size())].value, b = pops[c.draw(pops.size())].value;
                const bool unknown = c.chance(1, 4);
                if (unknown) b = kg::any_population(c, c.draw(kg::n_neuron_types), kg::make_uid(5000), 2);
                const size_t before = net.projections_count();
                core::UID made{false};
                bool threw = false;
                std::visit([&](auto &x, auto &y) { threw = vp::throws([&] { made = net.connect_populations<kg::st::DeltaSynapse>(x, y); }); }, a, b);
                VP_NOTE(c, "connect " << std::string(kg::uid_of(a)) << " to " << std::string(kg::uid_of(b)) << "\n");
                VP_EQ(c, threw, unknown, "connect-unknown", "");
                VP_EQ(c, net.projections_count(), before + !unknown, "count", "connect_populations");
                if (!unknown)
                {
                    const auto &p = net.get_projection<kg::st::DeltaSynapse>(made);
                    VP_CHECK(c, p.get_presynaptic() == kg::uid_of(a) && p.get_postsynaptic() == kg::uid_of(b), "connect", "end points");
                    const size_t na = std::visit([](auto &x) { return x.size(); }, a), nb = std::visit([](auto &x) { return x.size(); }, b);
                    VP_EQ(c, p.size(), na * nb, "connect", "all to all");
                    net.remove_projection(made);
                }
                break;
            }
            case 7:   // copy or move the whole network
            {
                VP_NOTE(c, "copy the network\n");
                Network copy = net;
                if (!pops.empty() && c.flag())
                {
                    net.remove_population(pop_uid(pops[0].id));
                    VP_EQ(c, copy.populations_count(), pops.size(), "copy", "a copy shares populations");
                }
                net = c.flag() ? copy : std::move(copy);
                break;
            }
        }
        if (c.chance(1, 3)) check_all("after an operation");
    }
    check_all("at the end");
    if (adds >= 3 && removes >= 1) c.nontrivial();
    c.label(VP_STR("entities at the end: " << (pops.size() + projs.size() > 5 ? "6+" : pops.size() + projs.size() > 2 ? "3-5" : "0-2")));
    if (rejected) c.label("with a rejected duplicate");

    // The model keeps the network and the channel associations.
    std::vector<size_t> pop_ids, proj_ids;
    for (auto &p : pops) pop_ids.push_back(p.id);
    for (auto &p : projs) proj_ids.push_back(p.id);
    framework::Model model(std::move(net));
    std::vector<std::pair<std::string, std::string>> in, out;
    for (size_t k = c.len(0, 10); k; --k)
    {
        const bool input = c.flag(), unknown = c.chance(1, 6);
        const core::UID channel = kg::make_uid(3000 + c.draw(3));
        const auto &known = input ? proj_ids : pop_ids;
        if (known.empty() && !unknown) continue;
        // An entity of the other kind is unknown too.
        const core::UID target = unknown ? (c.flag() ? kg::make_uid(9000) : input ? pop_uid(c.draw(ids)) : proj_uid(c.draw(ids)))
                                         : input ? proj_uid(c.pick(known)) : pop_uid(c.pick(known));
        const bool threw = vp::throws([&] {
            if (input)
                model.add_input_channel(channel, target);
            else
                model.add_output_channel(channel, target);
        });
        VP_NOTE(c, "channel " << (input ? "in " : "out ") << std::string(channel) << " " << std::string(target) << "\n");
        VP_EQ(c, threw, unknown, "channel-unknown", (input ? "input" : "output") << " channel to " << std::string(target));
        if (!unknown) (input ? in : out).emplace_back(channel, target);
    }
    auto listed = [](const auto &map) {
        std::vector<std::pair<std::string, std::string>> v;
        for (auto &[a, b] : map) v.emplace_back(a, b);
        std::sort(v.begin(), v.end());
        return v;
    };
    std::sort(in.begin(), in.end());
    std::sort(out.begin(), out.end());
    VP_CHECK(c, listed(model.get_input_channels()) == in, "channels", "input channels");
    VP_CHECK(c, listed(model.get_output_channels()) == out, "channels", "output channels");
    VP_CHECK(c, model.get_network().get_uid() == net_uid, "uid", "network of the model");
    VP_EQ(c, model.get_network().populations_count(), pops.size(), "count", "network of the model");
    for (auto &p : pops) VP_EQ(c, kg::text(model.get_network().get_population(pop_uid(p.id))), p.text, "content", "network of the model");
    for (auto &p : projs) VP_EQ(c, kg::text(model.get_network().get_projection(proj_uid(p.id))), p.text, "content", "network of the model");
}

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C07",
        {{"history",
          "history of 3-30 operations (typed and untyped add, remove, typed access, edit, connect, copy) over 7+7 UIDs of all neuron and "
          "synapse types against a vector model, then up to 10 channel associations; non-trivial: at least three entities added and one removed",
          history, 12000}},
        {}, {"duplicates are only offered to the typed add functions: the untyped ones state no check"});
}
