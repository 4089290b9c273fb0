// C29: network validation reports exactly the defects of the network.
#include <knp/framework/network.h>
#include <knp/framework/network_validation/executor.h>
#include <knp/framework/network_validation/validators/connectivity.h>
#include <knp/framework/tags/name.h>

#include <map>
#include <set>

#include "knp_net.hpp"

using namespace knp;
namespace nv = knp::framework::network_validation;
using Network = framework::Network;

namespace
{
core::UID null_uid()
{
    return core::UID(false);
}

struct Net
{
    Network network;
    std::vector<core::UID> populations;
    struct Proj
    {
        core::UID uid, from, to;
    };
    std::vector<Proj> projections;
};

// Projections between populations of the network, others, and none.
void gen_network(vp::Case &c, Net &n)
{
    const bool many = c.chance(1, 20);
    const size_t pops = many ? c.range(7, 60) : c.len(0, 6);
    auto tag = [&](auto &e, size_t i)
    {
        if (c.chance(1, 4)) framework::tags::set_name(e, VP_STR("entity " << i));
    };
    for (size_t i = 0; i < pops; ++i)
    {
        kg::with_neuron(
            c.draw(kg::n_neuron_types),
            [&](auto t)
            {
                using N = typename decltype(t)::type;
                core::Population<N> p(kg::make_uid(300000 + c.draw(1000) * 100 + i), [](size_t) { return kg::nt::neuron_parameters<N>{}; }, c.len(0, 3));
                tag(p, i);
                n.populations.push_back(p.get_uid());
                n.network.add_population(std::move(p));
            });
    }
    auto end = [&]
    {
        switch (c.weighted({6, 2, 1}))
        {
            case 0: return pops ? n.populations[c.draw(pops)] : null_uid();
            case 1: return null_uid();
            default: return kg::make_uid(50000 + c.draw(3));
        }
    };
    for (size_t i = 0, count = many ? c.range(8, 150) : c.len(0, 7); i < count; ++i)
    {
        const auto from = end(), to = end();
        kg::with_synapse(
            c.draw(kg::n_synapse_types),
            [&](auto t)
            {
                using S = typename decltype(t)::type;
                core::Projection<S> p(
                    kg::make_uid(1000000 + c.draw(1000) * 1000 + i), from, to,
                    [](size_t) { return typename core::Projection<S>::Synapse{typename core::Projection<S>::SynapseParameters{}, 0, 0}; }, c.len(0, 2));
                tag(p, i);
                n.projections.push_back({p.get_uid(), from, to});
                n.network.add_projection(std::move(p));
            });
    }
    if (c.noting())
    {
        for (auto &u : n.populations) VP_NOTE(c, "population " << std::string(u) << "\n");
        for (auto &p : n.projections) VP_NOTE(c, "projection " << std::string(p.uid) << " " << std::string(p.from) << " -> " << std::string(p.to) << "\n");
    }
}

// Reports of the validator as (code, UID in the message).
using Issues = std::multiset<std::pair<int, std::string>>;

Issues issues(vp::Case &c, const nv::Report &report, const Net &n)
{
    Issues r;
    for (const auto &i : report)
    {
        VP_CHECK(c, i.severity_ == nv::IssueSeverity::error, "severity", i.message_);
        VP_CHECK(c, &i.code_.category() == &nv::Connectivity::error_category(), "category", i.message_);
        const auto code = static_cast<nv::Connectivity::ErrorCode>(i.code_.value());
        VP_CHECK(c, i.code_ == nv::Connectivity::make_error_code(code), "code", i.message_);
        VP_CHECK(c, nv::Connectivity::make_error_code(nv::Connectivity::population_not_connected) != nv::Connectivity::make_error_code(nv::Connectivity::projection_not_connected), "code", "the codes are equal");
        const auto population = nv::Connectivity::make_error_code(nv::Connectivity::population_not_connected).message(), projection = nv::Connectivity::make_error_code(nv::Connectivity::projection_not_connected).message();
        VP_CHECK(c, !population.empty() && !projection.empty() && population != projection && i.code_.message() == (code == nv::Connectivity::population_not_connected ? population : projection), "code-message", i.code_.message());
        std::vector<std::string> named;
        for (const auto &u : n.populations)
            if (i.message_.find(std::string(u)) != std::string::npos) named.push_back("population " + std::string(u));
        for (const auto &p : n.projections)
            if (i.message_.find(std::string(p.uid)) != std::string::npos) named.push_back("projection " + std::string(p.uid));
        VP_CHECK(c, named.size() == 1, "message", "'" << i.message_ << "' names " << named.size() << " entities");
        r.insert({i.code_.value(), named[0]});
    }
    return r;
}

Issues expected_issues(const Net &n)
{
    Issues r;
    std::set<core::UID> connected;
    for (const auto &p : n.projections)
    {
        connected.insert(p.from);
        connected.insert(p.to);
        if (!p.from && !p.to) r.insert({nv::Connectivity::projection_not_connected, "projection " + std::string(p.uid)});
    }
    for (const auto &u : n.populations)
        if (!connected.count(u)) r.insert({nv::Connectivity::population_not_connected, "population " + std::string(u)});
    return r;
}

std::string str(const Issues &v)
{
    std::string r;
    for (const auto &[code, who] : v) r += VP_STR(code << " " << who << "; ");
    return r;
}

void connectivity(vp::Case &c)
{
    Net n;
    gen_network(c, n);
    nv::Connectivity validator;
    const auto want = expected_issues(n);
    for (int twice = 0; twice < 2; ++twice)
    {
        const auto got = issues(c, validator(n.network), n);
        VP_CHECK(c, got == want, "issues", str(got) << " expected: " << str(want));
    }
    VP_EQ(c, n.network.populations_count(), n.populations.size(), "untouched", "populations");
    VP_EQ(c, n.network.projections_count(), n.projections.size(), "untouched", "projections");
    if (want.empty()) c.label("sound");
    if (!want.empty() && want.size() < n.populations.size() + n.projections.size()) c.nontrivial();
}

class TestCategory : public std::error_category
{
    [[nodiscard]] const char *name() const noexcept override { return "test"; }
    [[nodiscard]] std::string message(int) const override { return "test"; }
};
const TestCategory test_category;

// A validator: what it was called with, what it said.
struct Validator
{
    int kind;
    core::UID uid;
    std::string name;
    std::vector<core::UID> called;
    std::vector<std::vector<std::pair<int, int>>> said;  // Severity and code of each issue.
};

void executor(vp::Case &c)
{
    Net n;
    gen_network(c, n);
    nv::Executor ex;
    const size_t count = c.len(0, 7);
    std::vector<Validator> v;
    v.reserve(count);
    size_t by_kind[3] = {};
    size_t issue = 0;
    vp::Case *pc = &c;
    for (size_t i = 0; i < count; ++i)
    {
        v.push_back({static_cast<int>(c.draw(3)), null_uid(), "", {}, {}});
        Validator *w = &v.back();
        const bool named = c.flag();
        const size_t style = c.draw(3);
        // Says something different on each call.
        auto say = [w, style, &issue, pc](const core::UID &about)
        {
            nv::Report r;
            w->called.push_back(about);
            w->said.emplace_back();
            for (size_t k = style == 0 ? 0 : style == 1 ? 1 : pc->draw(4); k; --k)
            {
                const int severity = static_cast<int>((issue + k) % 3), code = static_cast<int>(++issue);
                r.push_back({static_cast<nv::IssueSeverity>(severity), VP_STR("issue " << code << "."), {code, test_category}});
                w->said.back().emplace_back(severity, code);
            }
            return r;
        };
        auto entity = [say](const auto &variant) { return say(std::visit([](const auto &e) { return e.get_uid(); }, variant)); };
        static const char *const kinds[] = {"Population", "Projection", "Network"};
        w->name = named ? VP_STR("validator " << c.draw(3)) : VP_STR(kinds[w->kind] << " validator #" << by_kind[w->kind]);
        ++by_kind[w->kind];
        auto add = [&](auto f) { w->uid = named ? ex.add_validator(w->name, f) : ex.add_validator(f); };
        if (w->kind == 0) add(nv::PopulationValidator(entity));
        else if (w->kind == 1) add(nv::ProjectionValidator(entity));
        else add(nv::NetworkValidator([say](const Network &net) { return say(net.get_uid()); }));
        VP_NOTE(c, "add " << w->name << "\n");
    }
    for (size_t run = c.len(1, 2); run; --run)
    {
        for (auto &w : v)
        {
            w.called.clear();
            w.said.clear();
        }
        const auto results = ex.run_validators(n.network);
        std::vector<core::UID> pops = n.populations, projs, net{n.network.get_uid()};
        for (auto &p : n.projections) projs.push_back(p.uid);
        size_t total = 0, issues = 0;
        std::map<core::UID, std::vector<const nv::Executor::ValidatorResult *>> by_uid;
        for (const auto &r : results) by_uid[r.uid_].push_back(&r);
        for (const auto &w : v)
        {
            auto want = w.kind == 0 ? pops : w.kind == 1 ? projs : net;
            auto got = w.called;
            std::sort(want.begin(), want.end());
            std::sort(got.begin(), got.end());
            VP_CHECK(c, got == want, "entities", w.name << " was called for " << got.size() << " entities, expected each of " << want.size());
            const auto &mine = by_uid[w.uid];
            VP_EQ(c, mine.size(), w.said.size(), "results", w.name << ": results");
            for (size_t k = 0; k < mine.size(); ++k)
            {
                VP_EQ(c, mine[k]->validator_name_, w.name, "name", "validator");
                std::vector<std::pair<int, int>> said;
                for (const auto &i : mine[k]->report_)
                {
                    said.emplace_back(static_cast<int>(i.severity_), i.code_.value());
                    VP_EQ(c, i.message_, VP_STR("issue " << i.code_.value() << "."), "message", w.name);
                }
                VP_CHECK(c, said == w.said[k], "report", w.name << ", result " << k);
                issues += said.size();
            }
            total += mine.size();
        }
        VP_EQ(c, results.size(), total, "results", "all results");
        if (v.size() >= 2 && issues >= 2) c.nontrivial();
    }
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C29",
        {
            {"connectivity", "0-6 populations and 0-7 projections of every type with ends in the network, outside it or none; non-trivial: some entities with issues and some without", connectivity, 20000},
            {"executor", "0-7 validators of each kind, named or not, with different reports for each call, run once or twice; non-trivial: 2 validators and 2 issues", executor, 10000},
        });
}
