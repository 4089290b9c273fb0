// C32: the Python package shows and does what the library does.
#include <boost/python.hpp>
#include <boost/python/stl_iterator.hpp>
#include <dlfcn.h>
#include <knp/framework/backend_loader.h>
#include <knp/framework/model_executor.h>

#include <cstdlib>
#include <filesystem>

#include "knp_netgen.hpp"

namespace py = boost::python;
namespace fs = std::filesystem;
namespace fw = knp::framework;
using namespace sim;

namespace
{
py::dict *base_names = nullptr;   // never destroyed: there is no Py_Finalize()
std::string import_error;

fs::path build_dir()
{
    static const fs::path dir = fs::read_symlink("/proc/self/exe").parent_path();
    return dir;
}

// Type and text of the exception that Python raised.
std::pair<std::string, std::string> python_error()
{
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    std::string type = t ? reinterpret_cast<PyTypeObject *>(t)->tp_name : "?", text;
    if (v)
        if (PyObject *s = PyObject_Str(v))
        {
            text = PyUnicode_AsUTF8(s) ? PyUnicode_AsUTF8(s) : "?";
            Py_DECREF(s);
        }
    Py_XDECREF(t);
    Py_XDECREF(v);
    Py_XDECREF(tb);
    PyErr_Clear();
    return {type, text};
}

void start_python()
{
    setenv("PYTHONMALLOC", "malloc", 1);   // the address sanitizer sees the objects of Python
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    setenv("PYTHONHASHSEED", "0", 1);
    Py_InitializeEx(0);
    try
    {
        py::object main = py::import("__main__");
        base_names = new py::dict(main.attr("__dict__"));
        (*base_names)["where"] = (build_dir() / "py").string();
        py::exec(R"(
import sys, uuid
sys.path.insert(0, where)
import knp.core, knp.neuron_traits, knp.synapse_traits, knp.base_framework
from knp.core import UID, Backend, BLIFATNeuronPopulation, DeltaSynapseProjection
from knp.core.messaging import SpikeMessage, SynapticImpactMessage, SynapticImpact, MessageHeader, SpikeData
from knp.base_framework import BackendLoader, Network, Model, ModelExecutor
from knp.neuron_traits import *
from knp.synapse_traits import *
from knp.core import _knp_python_framework_core as all_core

class Stop(Exception):
    pass
)",
                 *base_names, *base_names);
    }
    catch (const py::error_already_set &)
    {
        const auto e = python_error();
        import_error = e.first + ": " + e.second;
    }
}

// Names of one case, and the statements that were executed in it.
struct Python
{
    vp::Case &c;
    py::dict names;

    explicit Python(vp::Case &c) : c(c)
    {
        VP_CHECK(c, import_error.empty(), "import", "the package cannot be imported: " << import_error);
        names = base_names->copy();
    }
    template <class T>
    void set(const char *name, const T &v)
    {
        names[name] = v;
    }
    void operator()(const std::string &code)
    {
        VP_NOTE(c, "  " << code << "\n");
        try
        {
            py::exec(code.c_str(), names, names);
        }
        catch (const py::error_already_set &)
        {
            const auto e = python_error();
            VP_FAIL(c, "python-exception", "'" << code << "' raised " << e.first << ": " << e.second);
        }
    }
    template <class T>
    T get(const std::string &expression)
    {
        try
        {
            return py::extract<T>(py::eval(expression.c_str(), names, names))();
        }
        catch (const py::error_already_set &)
        {
            const auto e = python_error();
            VP_FAIL(c, "python-exception", "'" << expression << "' raised " << e.first << ": " << e.second);
        }
    }
    // Name of the exception's type, empty if there is none.
    std::string raises(const std::string &code)
    {
        VP_NOTE(c, "  " << code << "   (may raise)\n");
        try
        {
            py::exec(code.c_str(), names, names);
        }
        catch (const py::error_already_set &)
        {
            return python_error().first;
        }
        return {};
    }
};

std::string str(bool b) { return b ? "True" : "False"; }

// An expression as true as this one: integers are true unless they are zero.
std::string truth(vp::Case &c, const std::string &condition)
{
    switch (c.draw(4))
    {
        case 0: c.label("integer as a truth value"); return "100003 * (" + condition + ")";
        case 1: c.label("integer as a truth value"); return "(s + 1 << 40) * (" + condition + ")";
        default: return condition;
    }
}

// Parameters ------------------------------------------------------------------------------------------------------

// How Python names a field, and whether it shows it.
std::string attribute(const std::string &field)
{
    static const std::set<std::string> hidden{"additional_threshold", "stochastic_stimulation", "random_number_generator_state",
        "activity_time", "synapse_sum_threshold_coefficient", "last_spike_step", "isi_status"};
    static const std::map<std::string, std::string> other{};
    return hidden.count(field) ? std::string() : field;
}

template <class Fields, class P>
std::vector<std::string> values(const P &p)
{
    std::vector<std::string> r;
    Fields::each(p, [&](const char *, const auto &v) { r.push_back(kg::value_str(v)); });
    return r;
}

// The rule of a synapse is an object of its own.
struct RuleFields
{
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        f("synaptic_resource", p.synaptic_resource_);
        f("min_weight", p.w_min_);
        f("max_weight", p.w_max_);
        f("d_u", p.d_u_);
        f("dopamine_plasticity_period", p.dopamine_plasticity_period_);
        f("last_spike_step", p.last_spike_step_);
        f("had_hebbian_update", p.had_hebbian_update_);
        f("had_contributed", p.has_contributed_);
    }
};
struct DeltaFields
{
    template <class P, class F>
    static void each(P &p, F &&f)
    {
        f("weight", p.weight_);
        f("delay", p.delay_);
        f("output_type", p.output_type_);
    }
};

template <class T>
bool shown(const std::string &type, const std::string &field)
{
    if (type == "AltAILIFNeuronParameters" && (field == "pre_impact_potential" || field == "dopamine_value")) return false;
    if (type == "SynapticResourceSTDPDeltaSynapseRule") return true;
    return !attribute(field).empty();
}

// Every attribute shows the field of its name; attributes that can be set change that field and no other.
template <class Fields, class P>
void parameters_of(vp::Case &c, Python &python, const std::string &type, const std::string &expression, P &p)
{
    auto compare = [&](const char *when)
    {
        Fields::each(p,
            [&](const char *name, auto &v)
            {
                if (!shown<P>(type, name)) return;
                const auto seen = python.get<std::decay_t<decltype(v)>>(expression + "." + name);
                VP_EQ(c, kg::value_str(seen), kg::value_str(v), "attribute", type << "." << name << " " << when);
            });
    };
    compare("of the library's object");
    P now = p;
    Fields::each(now,
        [&](const char *name, auto &v)
        {
            if (!shown<P>(type, name) || !c.chance(1, 4)) return;
            const auto before = v;
            kg::arbitrary_value(c, v);
            python.set("value", v);
            const std::string e = python.raises(expression + "." + name + " = value");
            if (e.empty()) c.label("attribute set");
            else
            {
                VP_EQ(c, e, "AttributeError", "set", "setting " << type << "." << name);
                v = before;
            }
        });
    const auto expected = values<Fields>(now);
    const P &actual = python.get<P &>(expression);
    VP_CHECK(c, values<Fields>(actual) == expected, "set", "fields of the " << type << " after attributes were set: " << vp::join(values<Fields>(actual)) << ", expected " << vp::join(expected));
    p = now;
    compare("after attributes were set");
    if (values<Fields>(P{}) != expected) c.nontrivial();
}

template <class N>
void neuron_parameters(vp::Case &c, Python &python, const char *type)
{
    auto p = kg::arbitrary_neuron<N>(c);
    if (c.chance(1, 8))
    {
        p = {};
        python(VP_STR("p = " << type << "()"));
    }
    else
    {
        VP_NOTE(c, type << ": " << kg::neuron_str<N>(p, true) << "\n");
        python.set("p", p);
    }
    parameters_of<kg::NeuronFields<N>>(c, python, type, "p", p);
}

void parameters(vp::Case &c)
{
    Python python(c);
    switch (c.draw(5))
    {
        case 0: neuron_parameters<Blifat>(c, python, "BLIFATNeuronParameters"); break;
        case 1: neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron>(c, python, "SynapticResourceSTDPBLIFATNeuronParameters"); break;
        case 2: neuron_parameters<Altai>(c, python, "AltAILIFNeuronParameters"); break;
        case 3:
        {
            st::synapse_parameters<Delta> p;
            const char *names[] = {"EXCITATORY", "INHIBITORY_CURRENT", "INHIBITORY_CONDUCTANCE", "DOPAMINE", "BLOCKING"};
            const Out types[] = {Out::EXCITATORY, Out::INHIBITORY_CURRENT, Out::INHIBITORY_CONDUCTANCE, Out::DOPAMINE, Out::BLOCKING};
            if (c.chance(1, 8)) python("p = DeltaSynapseParameters()");
            else
            {
                const size_t t = c.draw(5);
                p.weight_ = static_cast<float>(c.dyadic(100, 4));
                p.delay_ = c.range(0, 100);
                p.output_type_ = types[t];
                python(VP_STR("p = DeltaSynapseParameters(" << p.weight_ << ", " << p.delay_ << ", OutputType." << names[t] << ")"));
            }
            parameters_of<DeltaFields>(c, python, "DeltaSynapseParameters", "p", p);
            break;
        }
        default:
        {
            auto p = kg::arbitrary_synapse<Resource>(c);
            if (c.chance(1, 8))
            {
                p = {};
                python("p = SynapticResourceSTDPDeltaSynapseParameters()");
            }
            else python.set("p", p);
            parameters_of<DeltaFields>(c, python, "SynapticResourceSTDPDeltaSynapseParameters", "p", p);
            auto rule = p.rule_;
            parameters_of<RuleFields>(c, python, "SynapticResourceSTDPDeltaSynapseRule", "p.rule", rule);
            if (c.flag())
            {
                decltype(rule) fresh;
                python("r = SynapticResourceSTDPDeltaSynapseRule()");
                parameters_of<RuleFields>(c, python, "SynapticResourceSTDPDeltaSynapseRule", "r", fresh);
            }
            break;
        }
    }
}

// UIDs ------------------------------------------------------------------------------------------------------------

void uids(vp::Case &c)
{
    Python python(c);
    std::vector<UID> all;
    python("uids = []");
    const size_t n = c.len(2, 12);
    for (size_t i = 0; i < n; ++i)
    {
        const size_t how = c.draw(6);
        UID u = c.chance(1, 3) ? kg::make_uid(c.draw(4)) : kg::random_uid(c);
        if (how == 0 && !all.empty())
        {
            const size_t j = c.draw(all.size());
            python(VP_STR("uids.append(UID(uids[" << j << "]))"));
            u = all[j];
        }
        else if (how == 1)
        {
            python("uids.append(UID(False))");
            u = UID{false};
        }
        else if (how == 2)
        {
            python.set("given", u);
            python("uids.append(given)");
        }
        else python("uids.append(UID(uuid.UUID('" + std::string(u) + "')))");
        all.push_back(u);
        VP_CHECK(c, python.get<UID>("uids[-1]") == u, "value", "the library has another UID than was made: " << std::string(python.get<UID>("uids[-1]")) << ", expected " << std::string(u));
        VP_EQ(c, python.get<std::string>("str(uids[-1])"), std::string(u), "text", "text of the UID");
        VP_EQ(c, python.get<bool>("bool(uids[-1])"), static_cast<bool>(u), "bool", "truth of " << std::string(u));
        const long long hash = static_cast<long long>(core::uid_hash{}(u));
        (void)hash;
        VP_EQ(c, python.get<bool>("hash(uids[-1]) == hash(UID(uids[-1]))"), true, "hash", "hash of a copy");
        VP_EQ(c, python.get<bool>("uids[-1].tag.is_nil"), !static_cast<bool>(u), "tag", "is_nil of " << std::string(u));
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
        {
            const std::string a = VP_STR("uids[" << i << "]"), b = VP_STR("uids[" << j << "]");
            VP_EQ(c, python.get<bool>(a + " == " + b), all[i] == all[j], "compare", a << " == " << b);
            VP_EQ(c, python.get<bool>(a + " != " + b), all[i] != all[j], "compare", a << " != " << b);
            VP_EQ(c, python.get<bool>(a + " < " + b), all[i] < all[j], "compare", a << " < " << b);
            if (all[i] == all[j]) VP_EQ(c, python.get<bool>("hash(" + a + ") == hash(" + b + ")"), true, "hash", "equal UIDs");
        }
    VP_EQ(c, python.get<size_t>("len(set(uids))"), std::set<UID>(all.begin(), all.end()).size(), "set", "different UIDs");
    VP_EQ(c, python.get<size_t>("len({u: 1 for u in uids})"), std::set<UID>(all.begin(), all.end()).size(), "set", "different keys");
    VP_EQ(c, python.get<size_t>("len(set(UID() for i in range(20)))"), 20u, "random", "random UIDs differ");
    VP_EQ(c, python.get<bool>("all(bool(UID()) and bool(UID(True)) for i in range(3))"), true, "random", "random UIDs are not nil");
    if (std::set<UID>(all.begin(), all.end()).size() >= 2) c.nontrivial();
}

// Populations -----------------------------------------------------------------------------------------------------

template <class N>
void population(vp::Case &c, const std::string &type)
{
    Python python(c);
    using P = NP<N>;
    std::vector<P> model;
    UID uid;
    py::list items;
    // What the generator gives for each index: parameters, or None.
    auto generated = [&](size_t n, unsigned gaps, std::vector<P> &out)
    {
        items = py::list();
        for (size_t i = 0; i < n; ++i)
        {
            if (c.chance(gaps, 4))
            {
                items.append(py::object());
                continue;
            }
            out.push_back(kg::arbitrary_neuron<N>(c));
            items.append(out.back());
        }
        python.names["items"] = items;
        python("asked = []\ndef gen(i):\n  asked.append(i)\n  return items[i]");
    };
    auto check = [&](const char *when)
    {
        const auto &pop = python.get<core::Population<N> &>("pop");
        VP_EQ(c, pop.size(), model.size(), "size", "neurons " << when);
        for (size_t i = 0; i < model.size(); ++i)
            VP_EQ(c, kg::neuron_str<N>(pop[i]), kg::neuron_str<N>(model[i]), "content", "neuron " << i << " " << when);
        VP_EQ(c, python.get<size_t>("len(pop)"), model.size(), "size", "len() " << when);
        VP_CHECK(c, python.get<UID>("pop.uid") == uid, "uid", "UID of the population " << when);
        VP_EQ(c, python.get<size_t>("len([n for n in pop])"), model.size(), "iteration", "neurons seen " << when);
        if (!model.empty())
        {
            const size_t i = c.draw(model.size());
            VP_EQ(c, kg::neuron_str<N>(python.get<P>(VP_STR("pop[" << i << "]"))), kg::neuron_str<N>(model[i]), "item", "pop[" << i << "] " << when);
            VP_EQ(c, kg::neuron_str<N>(python.get<P>(VP_STR("list(pop)[" << i << "]"))), kg::neuron_str<N>(model[i]), "iteration", "neuron " << i << " " << when);
        }
    };
    const size_t n = c.len(0, 8);
    generated(n, c.flag() ? 0 : 1, model);
    if (c.flag())
    {
        uid = kg::random_uid(c);
        python.set("uid", uid);
        python(VP_STR("pop = all_core." << type << "Population(uid, gen, " << n << ")"));
    }
    else
    {
        python(VP_STR("pop = all_core." << type << "Population(gen, " << n << ")"));
        uid = python.get<UID>("pop.uid");
        VP_CHECK(c, static_cast<bool>(uid), "uid", "nil UID");
    }
    VP_CHECK(c, python.get<bool>(VP_STR("asked == list(range(" << n << "))")), "generator", "the generator was not asked once for each index in order");
    check("after construction");
    const size_t ops = c.len(0, 6);
    for (size_t op = 0; op < ops; ++op)
    {
        switch (c.draw(4))
        {
            case 0:
            {
                const size_t k = c.len(0, 5);
                generated(k, c.flag() ? 0 : 1, model);
                python(VP_STR("pop.add_neurons(gen, " << k << ")"));
                check("after neurons were added");
                break;
            }
            case 1:
                if (!model.empty())
                {
                    const size_t i = c.draw(model.size());
                    python(VP_STR("pop.remove_neuron(" << i << ")"));
                    model.erase(model.begin() + i);
                    check("after a neuron was removed");
                }
                break;
            case 2:  // exceptions of the generator come through
            {
                python("def bad(i):\n  raise Stop('no')");
                VP_EQ(c, python.raises(VP_STR("all_core." << type << "Population(bad, 2)")), "Stop", "exception", "exception of the generator of a population");
                VP_EQ(c, python.raises(VP_STR("all_core." << type << "Population(5, 2)")), "TypeError", "exception", "a generator that cannot be called");
                check("after a generator raised");
                break;
            }
            default:  // a change of a neuron is a change in the population
                if constexpr (Stdp<N>::value)
                    if (!model.empty())
                    {
                        const size_t i = c.draw(model.size());
                        model[i].d_h_ = static_cast<float>(c.dyadic(8, 3));
                        model[i].isi_max_ = c.range(1, 20);
                        python(VP_STR("pop[" << i << "].d_h = " << model[i].d_h_));
                        python(VP_STR("pop[" << i << "].isi_max = " << model[i].isi_max_));
                        check("after a neuron was changed");
                    }
                break;
        }
    }
    if (!model.empty() && c.chance(1, 3))
    {
        // What was taken from the population outlives it.
        const size_t i = c.draw(model.size());
        python(VP_STR("one = pop[" << i << "]\nrest = iter(pop)\nfirst = next(rest)\ndel pop\nall_core.BLIFATNeuronPopulation(lambda i: BLIFATNeuronParameters(), 5)"));
        VP_EQ(c, kg::neuron_str<N>(python.get<P>("one")), kg::neuron_str<N>(model[i]), "lifetime", "pop[" << i << "] without the population");
        VP_EQ(c, kg::neuron_str<N>(python.get<P>("first")), kg::neuron_str<N>(model[0]), "lifetime", "the first neuron without the population");
        python("rest = list(rest)");
        VP_EQ(c, python.get<size_t>("len(rest)"), model.size() - 1, "lifetime", "neurons left to iterate without the population");
        for (size_t k = 1; k < model.size(); ++k)
            VP_EQ(c, kg::neuron_str<N>(python.get<P>(VP_STR("rest[" << k - 1 << "]"))), kg::neuron_str<N>(model[k]), "lifetime", "neuron " << k << " without the population");
        c.label("owner deleted");
    }
    if (model.size() >= 2 && ops) c.nontrivial();
}

void populations(vp::Case &c)
{
    switch (c.draw(3))
    {
        case 0: population<Blifat>(c, "BLIFATNeuron"); break;
        case 1: population<Altai>(c, "AltAILIF"); break;
        default: population<nt::SynapticResourceSTDPBLIFATNeuron>(c, "SynapticResourceSTDPBLIFATNeuron"); break;
    }
}

// Projections -----------------------------------------------------------------------------------------------------

template <class S>
void projection(vp::Case &c, const std::string &type)
{
    Python python(c);
    using Syn = typename core::Projection<S>::Synapse;
    std::vector<Syn> model;
    auto generated = [&](size_t n, unsigned gaps)
    {
        py::list items;
        for (size_t i = 0; i < n; ++i)
        {
            if (c.chance(gaps, 4))
            {
                items.append(py::object());
                continue;
            }
            model.push_back(Syn{kg::arbitrary_synapse<S>(c), c.draw(c.chance(1, 10) ? 1ull << 40 : 8), c.draw(8)});
            items.append(py::make_tuple(std::get<core::synapse_data>(model.back()), std::get<core::source_neuron_id>(model.back()), std::get<core::target_neuron_id>(model.back())));
        }
        python.names["items"] = items;
        python("asked = []\ndef gen(i):\n  asked.append(i)\n  return items[i]");
    };
    const UID from = kg::make_uid(1), to = kg::make_uid(2);
    UID uid;
    python.set("from_uid", from);
    python.set("to_uid", c.flag() ? to : UID{false});
    const UID to_now = python.get<UID>("to_uid");
    auto texts = [&](const core::Projection<S> &p)
    {
        std::vector<std::string> r;
        for (const auto &s : p) r.push_back(kg::synapse_str<S>(s));
        return r;
    };
    auto check = [&](const char *when)
    {
        const auto &proj = python.get<core::Projection<S> &>("proj");
        std::vector<std::string> expected;
        for (auto &s : model) expected.push_back(kg::synapse_str<S>(s));
        VP_CHECK(c, texts(proj) == expected, "content", when << " the projection has [" << vp::join(texts(proj), "; ") << "], expected [" << vp::join(expected, "; ") << "]");
        VP_EQ(c, python.get<size_t>("len(proj)"), model.size(), "size", "len() " << when);
        VP_CHECK(c, proj.get_presynaptic() == from && proj.get_postsynaptic() == to_now, "ends", "ends of the projection " << when);
        VP_CHECK(c, python.get<UID>("proj.uid") == uid && proj.get_uid() == uid, "uid", "UID of the projection " << when);
        VP_EQ(c, python.get<size_t>("len([s for s in proj])"), model.size(), "iteration", "synapses seen " << when);
        if (!model.empty())
        {
            const size_t i = c.draw(model.size());
            const std::string item = VP_STR("list(proj)[" << i << "]");
            const Syn seen{python.get<st::synapse_parameters<S>>(item + "[0]"), python.get<size_t>(item + "[1]"), python.get<size_t>(item + "[2]")};
            VP_EQ(c, kg::synapse_str<S>(seen), expected[i], "iteration", "synapse " << i << " " << when);
        }
    };
    const size_t n = c.len(0, 8);
    const bool named = c.flag();
    if (named)
    {
        uid = kg::random_uid(c);
        python.set("uid", uid);
    }
    if (c.chance(1, 4)) python(VP_STR("proj = all_core." << type << "SynapseProjection(" << (named ? "uid, " : "") << "from_uid, to_uid)"));
    else
    {
        generated(n, c.flag() ? 0 : 1);
        python(VP_STR("proj = all_core." << type << "SynapseProjection(" << (named ? "uid, " : "") << "from_uid, to_uid, gen, " << n << ")"));
        VP_CHECK(c, python.get<bool>(VP_STR("asked == list(range(" << n << "))")), "generator", "the generator was not asked once for each index in order");
    }
    if (!named) uid = python.get<UID>("proj.uid");
    check("after construction");
    const size_t ops = c.len(0, 4);
    for (size_t op = 0; op < ops; ++op)
    {
        if (c.chance(1, 4))
        {
            python("def bad(i):\n  raise Stop('no')");
            VP_EQ(c, python.raises(VP_STR("all_core." << type << "SynapseProjection(from_uid, to_uid, bad, 2)")), "Stop", "exception", "exception of the generator of a projection");
            VP_EQ(c, python.raises(VP_STR("all_core." << type << "SynapseProjection(from_uid, to_uid, 5, 2)")), "TypeError", "exception", "a generator that cannot be called");
            check("after a generator raised");
            continue;
        }
        const size_t k = c.len(0, 5);
        generated(k, c.flag() ? 0 : 1);
        python(VP_STR("proj.add_synapses(gen, " << k << ")"));
        check("after synapses were added");
    }
    if (!model.empty() && c.chance(1, 3))
    {
        // What was taken from the projection outlives it.
        python("rest = iter(proj)\nfirst = next(rest)\ndel proj\nrest = list(rest)");
        VP_EQ(c, python.get<size_t>("len(rest)"), model.size() - 1, "lifetime", "synapses left to iterate without the projection");
        for (size_t k = 0; k < model.size(); ++k)
        {
            const std::string item = k ? VP_STR("rest[" << k - 1 << "]") : "first";
            const Syn seen{python.get<st::synapse_parameters<S>>(item + "[0]"), python.get<size_t>(item + "[1]"), python.get<size_t>(item + "[2]")};
            VP_EQ(c, kg::synapse_str<S>(seen), kg::synapse_str<S>(model[k]), "lifetime", "synapse " << k << " without the projection");
        }
        c.label("owner deleted");
    }
    if (model.size() >= 2) c.nontrivial();
}

void projections(vp::Case &c)
{
    if (c.flag()) projection<Delta>(c, "Delta");
    else projection<Resource>(c, "SynapticResourceSTDPDelta");
}

// Runs ------------------------------------------------------------------------------------------------------------

// A network of the kinds that Python can make, and what is sent to it.
struct Plan
{
    GeneratedNet net;
    std::vector<std::vector<SpikeMessage>> input;
    bool multi = false;
};

Plan gen_plan(vp::Case &c)
{
    Plan p;
    NetOptions o;
    p.multi = c.chance(1, 3);
    o.neuron_types.clear();
    for (size_t t = 0; t < 5; ++t)
        kg::with_neuron(t, [&](auto x)
        {
            using N = typename decltype(x)::type;
            if (std::is_same_v<N, Blifat> || (std::is_same_v<N, Altai> && !p.multi) || std::is_same_v<N, nt::SynapticResourceSTDPBLIFATNeuron>) o.neuron_types.push_back(t);
        });
    o.blocking = false;
    o.odd_ends = false;
    o.max_pops = 3;
    o.max_projs = 4;
    o.synapse_types = {0, 0, 1};
    p.net = gen_net(c, o);
    note_net(c, p.net);
    const size_t steps = c.len(1, 12);
    for (size_t s = 0; s < steps; ++s)
    {
        p.input.push_back(gen_input(c, p.net, s, false));
        note_input(c, s, p.input.back());
    }
    return p;
}

// The populations and projections of the network, made by Python's constructors: lists `pops` and `projs`.
void make_in_python(vp::Case &c, Python &python, const GeneratedNet &g)
{
    python("pops = []\nprojs = []");
    for (auto &any : g.pops)
        std::visit(
            [&](auto &pop)
            {
                using N = typename std::decay_t<decltype(pop)>::PopulationNeuronType;
                const char *type = std::is_same_v<N, Blifat> ? "BLIFATNeuron" : std::is_same_v<N, Altai> ? "AltAILIF" : "SynapticResourceSTDPBLIFATNeuron";
                if constexpr (std::is_same_v<N, Blifat> || std::is_same_v<N, Altai> || std::is_same_v<N, nt::SynapticResourceSTDPBLIFATNeuron>)
                {
                    py::list items;
                    for (auto &n : pop) items.append(n);
                    python.names["items"] = items;
                    python.set("uid", pop.get_uid());
                    python(VP_STR("pops.append(all_core." << type << "Population(uid, lambda i: items[i], " << pop.size() << "))"));
                }
            },
            any);
    for (auto &any : g.projs)
        std::visit(
            [&](auto &proj)
            {
                using S = typename std::decay_t<decltype(proj)>::ProjectionSynapseType;
                if constexpr (std::is_same_v<S, Delta> || std::is_same_v<S, Resource>)
                {
                    py::list items;
                    for (auto &s : proj) items.append(py::make_tuple(std::get<core::synapse_data>(s), std::get<core::source_neuron_id>(s), std::get<core::target_neuron_id>(s)));
                    python.names["items"] = items;
                    python.set("uid", proj.get_uid());
                    python.set("a", proj.get_presynaptic());
                    python.set("b", proj.get_postsynaptic());
                    python(VP_STR("projs.append(all_core." << (std::is_same_v<S, Delta> ? "DeltaSynapse" : "SynapticResourceSTDPDeltaSynapse") << "Projection(uid, a, b, lambda i: items[i], " << proj.size() << "))"));
                }
            },
            any);
    (void)c;
}

std::shared_ptr<core::Backend> load_backend(bool multi)
{
    static fw::BackendLoader loader;
    return loader.load(build_dir() / (multi ? "libvpmt.so" : "libvpst.so"));
}

std::string spike_text(const UID &sender, uint64_t time, std::vector<core::messaging::SpikeIndex> idx)
{
    std::sort(idx.begin(), idx.end());
    return VP_STR(std::string(sender) << " at " << time << ": " << vp::join(idx));
}

std::vector<std::string> sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

std::vector<std::string> python_texts(Python &python, const std::string &expression)
{
    std::vector<std::string> r;
    const py::object list = python.get<py::object>("[(m.header.sender_uid, m.header.send_time, list(m.neuron_indexes)) for m in " + expression + "]");
    for (py::ssize_t i = 0; i < py::len(list); ++i)
    {
        std::vector<core::messaging::SpikeIndex> idx;
        for (py::ssize_t k = 0; k < py::len(list[i][2]); ++k) idx.push_back(py::extract<core::messaging::SpikeIndex>(list[i][2][k]));
        r.push_back(spike_text(py::extract<UID>(list[i][0]), py::extract<uint64_t>(list[i][1]), idx));
    }
    return sorted(r);
}

// Steps made and messages sent by hand.
void by_hand(vp::Case &c)
{
    Python python(c);
    auto p = gen_plan(c);
    auto &g = p.net;
    const UID all = kg::make_uid(999);
    // In C++.
    auto b = load_backend(p.multi);
    b->load_all_populations(g.pops);
    b->load_all_projections(g.projs);
    b->_init();
    auto ep = b->get_message_bus().create_endpoint();
    std::vector<UID> pop_uids;
    for (auto &s : g.shapes) pop_uids.push_back(s.uid);
    ep.subscribe<SpikeMessage>(all, pop_uids);
    // In Python.
    make_in_python(c, python, g);
    python.names["path"] = (build_dir() / (p.multi ? "libvpmt.so" : "libvpst.so")).string();
    python("with BackendLoader() as loader:\n  assert BackendLoader.is_backend(path)\n  backend = loader.load(path)");
    if (c.flag()) python("del loader");
    python("backend.load_all_populations(pops)\nbackend.load_all_projections(projs)\nbackend._init()\nendpoint = backend.message_bus.create_endpoint()");
    py::list uids;
    for (auto &u : pop_uids) uids.append(u);
    python.names["senders"] = uids;
    python.set("all_uid", all);
    python("endpoint.subscribe(SpikeMessage, all_uid, senders)");
    if (c.flag()) python("del pops, projs");
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (auto ch : g.feeds[i])
        {
            b->subscribe<SpikeMessage>(g.proj_shapes[i].uid, {channel_uid(ch)});
            python.set("r", g.proj_shapes[i].uid);
            python.set("s", channel_uid(ch));
            python("backend.subscribe(SpikeMessage, r, [s])");
        }
    bool subscribed = true;
    size_t spikes = 0;
    for (size_t step = 0; step < p.input.size(); ++step)
    {
        if (c.chance(1, 10))
        {
            if (c.chance(1, 3))
            {
                // There is no such subscription.
                python.set("a", subscribed ? kg::make_uid(998) : all);
                VP_EQ(c, python.get<bool>("endpoint.unsubscribe(SpikeMessage, a)"), false, "unsubscribe", "result without a subscription");
                VP_EQ(c, python.get<bool>("endpoint.unsubscribe(SynapticImpactMessage, all_uid)"), false, "unsubscribe", "result without a subscription to such messages");
            }
            if (subscribed)
            {
                ep.unsubscribe<SpikeMessage>(all);
                VP_EQ(c, python.get<bool>("endpoint.unsubscribe(SpikeMessage, all_uid)"), true, "unsubscribe", "result");
            }
            else
            {
                ep.subscribe<SpikeMessage>(all, pop_uids);
                python("endpoint.subscribe(SpikeMessage, all_uid, senders)");
            }
            subscribed = !subscribed;
        }
        for (auto &m : p.input[step])
        {
            ep.send_message(m);
            py::list idx;
            for (auto i : m.neuron_indexes_) idx.append(i);
            python.names["idx"] = idx;
            python.set("s", m.header_.sender_uid_);
            python(VP_STR("endpoint.send_message(SpikeMessage((s, " << m.header_.send_time_ << "), idx))"));
        }
        const bool running_step = c.flag();
        if (running_step)
        {
            b->_step();
            python("backend._step()");
        }
        else
        {
            // One step of a run that is ended by a predicate before or after it.
            b->start([&](core::Step s) { return s <= step; });
            if (c.flag()) python(VP_STR("asked = []\nbackend.start(lambda s: (asked.append(s), " << truth(c, VP_STR("(s <= " << step << ")")) << ")[1])\nassert asked == [" << step << ", " << step + 1 << "], asked"));
            else python(VP_STR("asked = []\nbackend.start(lambda s: (asked.append(s), " << truth(c, "True") << ")[1], lambda s: (asked.append(s), " << truth(c, "False") << ")[1])\nassert asked == [" << step << ", " << step + 1 << "], asked"));
        }
        VP_EQ(c, python.get<size_t>("backend.get_step()"), step + 1, "step", "number of steps");
        VP_EQ(c, python.get<bool>("backend.running"), false, "running", "running between steps");
        const size_t n = ep.receive_all_messages();
        VP_EQ(c, python.get<size_t>("endpoint.receive_all_messages()"), n, "receive", "messages received at step " << step);
        if (!subscribed) continue;
        std::vector<std::string> expected;
        for (auto &m : ep.unload_messages<SpikeMessage>(all)) expected.push_back(spike_text(m.header_.sender_uid_, m.header_.send_time_, m.neuron_indexes_));
        spikes += expected.size();
        const auto got = python_texts(python, "endpoint.unload_messages(SpikeMessage, all_uid)");
        VP_CHECK(c, got == sorted(expected), "spikes", "step " << step << ": Python saw [" << vp::join(got, "; ") << "], C++ [" << vp::join(sorted(expected), "; ") << "]");
        if (c.chance(1, 8))
        {
            python("def bad(s):\n  raise Stop('no')");
            VP_EQ(c, python.raises("backend.start(bad)"), "Stop", "exception", "exception of the predicate");
            VP_EQ(c, python.get<bool>("backend.running"), false, "running", "running after an exception");
            VP_EQ(c, python.get<size_t>("backend.get_step()"), step + 1, "step", "number of steps after an exception");
        }
    }
    if (c.flag())
    {
        // The endpoint and the bus of a backend outlive their names.
        python("bus = backend.message_bus\ninner = backend.message_endpoint\ndel backend\nendpoint.receive_all_messages()\nother = bus.create_endpoint()\nother.subscribe(SpikeMessage, all_uid, [all_uid])\nendpoint.send_message(SpikeMessage((all_uid, 5), [1, 2]))\nbus.route_messages()");
        VP_EQ(c, python.get<size_t>("other.receive_all_messages()"), 1u, "lifetime", "messages received over the bus of the backend");
        VP_CHECK(c, python_texts(python, "other.unload_messages(SpikeMessage, all_uid)") == std::vector<std::string>{spike_text(all, 5, {1, 2})}, "lifetime", "message received over the bus of the backend");
        c.label("owner deleted");
    }
    if (spikes >= 2) c.nontrivial();
    if (p.multi) c.label("multi-threaded");
}

// Models run by executors.
void executors(vp::Case &c)
{
    Python python(c);
    auto p = gen_plan(c);
    auto &g = p.net;
    const size_t steps = p.input.size();
    auto data = [&](size_t ch, size_t s) -> core::messaging::SpikeData
    {
        if (s < steps)
            for (auto &m : p.input[s])
                if (m.header_.sender_uid_ == channel_uid(ch)) return m.neuron_indexes_;
        return {};
    };
    std::set<size_t> used;
    for (auto &f : g.feeds) used.insert(f.begin(), f.end());
    std::vector<std::set<size_t>> outs(c.range(1, 2));
    for (auto &o : outs)
    {
        for (size_t i = 0; i < g.pops.size(); ++i)
            if (c.flag()) o.insert(i);
        if (o.empty()) o.insert(c.draw(g.pops.size()));
    }
    auto out_uid = [](size_t i) { return kg::make_uid(500 + i); };
    // In C++.
    fw::Network net(kg::make_uid(1));
    for (auto &x : g.pops) std::visit([&](auto &y) { net.add_population(y); }, x);
    for (auto &x : g.projs) std::visit([&](auto &y) { net.add_projection(y); }, x);
    fw::Model model{fw::Network(net)};
    fw::ModelLoader::InputChannelMap map;
    // In Python.
    make_in_python(c, python, g);
    python.set("net_uid", kg::make_uid(1));
    python("net = Network(net_uid)\nfor x in pops: net.add_population(x)\nfor x in projs: net.add_projection(x)");
    VP_EQ(c, python.get<size_t>("net.populations_count"), g.pops.size(), "network", "populations");
    VP_EQ(c, python.get<size_t>("net.projections_count"), g.projs.size(), "network", "projections");
    VP_CHECK(c, python.get<UID>("net.get_uid()") == kg::make_uid(1), "network", "UID");
    if (c.chance(1, 4))
    {
        // A population and a projection that do not stay.
        python("extra = BLIFATNeuronPopulation(lambda i: BLIFATNeuronParameters(), 1)\nnet.add_population(extra)\nextra2 = DeltaSynapseProjection(extra.uid, extra.uid, lambda i: (DeltaSynapseParameters(), 0, 0), 1)\nnet.add_projection(extra2)");
        VP_EQ(c, python.get<size_t>("net.populations_count * 100 + net.projections_count"), g.pops.size() * 100 + g.projs.size() + 101, "network", "counts with the additions");
        python("net.remove_projection(extra2.uid)\nnet.remove_population(extra.uid)");
        VP_EQ(c, python.get<size_t>("net.populations_count * 100 + net.projections_count"), g.pops.size() * 100 + g.projs.size(), "network", "counts after removals");
        c.label("removed from the network");
    }
    if (c.flag()) python("model = Model(net)");
    else python("model = Model(Network())\nmodel.network = net");
    VP_CHECK(c, python.get<UID>("model.network.get_uid()") == kg::make_uid(1), "network", "UID in the model");
    python("gens = {}\ninput = {}\nasked = {}");
    VP_EQ(c, python.get<size_t>("model.network.populations_count * 100 + model.network.projections_count"), g.pops.size() * 100 + g.projs.size(), "network", "counts in the model");
    for (size_t i = 0; i < g.projs.size(); ++i)
        for (auto ch : g.feeds[i])
        {
            model.add_input_channel(channel_uid(ch), g.proj_shapes[i].uid);
            python.set("a", channel_uid(ch));
            python.set("b", g.proj_shapes[i].uid);
            python("model.add_input_channel(a, b)");
        }
    for (auto ch : used)
    {
        map.insert({channel_uid(ch), [&, ch](core::Step s) { return data(ch, s); }});
        py::list by_step;
        for (size_t s = 0; s < steps; ++s)
        {
            py::list idx;
            for (auto i : data(ch, s)) idx.append(i);
            by_step.append(idx);
        }
        python.names["by_step"] = by_step;
        python.set("a", channel_uid(ch));
        python("def make(uid, rows):\n  asked[uid] = []\n  def gen(s):\n    asked[uid].append(s)\n    return rows[s]\n  return gen\ninput[a] = make(a, by_step)");
    }
    for (size_t i = 0; i < outs.size(); ++i)
        for (auto k : outs[i])
        {
            model.add_output_channel(out_uid(i), g.shapes[k].uid);
            python.set("a", out_uid(i));
            python.set("b", g.shapes[k].uid);
            python("model.add_output_channel(a, b)");
        }
    fw::ModelExecutor exec(model, load_backend(p.multi), map);
    python.names["path"] = (build_dir() / (p.multi ? "libvpmt.so" : "libvpst.so")).string();
    python("with BackendLoader() as loader:\n  executor = ModelExecutor(model, loader.load(path), input)");
    // Observers of some populations and projections.
    std::vector<std::string> seen_spikes, seen_impacts;
    const bool spike_observer = c.flag(), impact_observer = c.flag();
    auto impact_text = [](const core::messaging::SynapticImpactMessage &m)
    {
        std::vector<std::string> r;
        for (auto &i : m.impacts_) r.push_back(VP_STR(i.connection_index_ << ":" << i.presynaptic_neuron_index_ << ">" << i.postsynaptic_neuron_index_ << " " << kg::value_str(i.impact_value_)));
        return VP_STR(std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << (m.is_forcing_ ? " forcing " : " ") << std::string(m.presynaptic_population_uid_) << ">" << std::string(m.postsynaptic_population_uid_) << " " << vp::join(sorted(r), ", "));
    };
    auto watch = [&](const auto &shapes, const char *method, const char *list)
    {
        std::vector<UID> watched;
        py::list senders;
        for (auto &s : shapes)
            if (c.chance(2, 3))
            {
                watched.push_back(s.uid);
                senders.append(s.uid);
            }
        python.names["watched"] = senders;
        python(VP_STR(list << " = []\nexecutor." << method << "(lambda ms: " << list << ".extend(ms), watched)"));
        return watched;
    };
    if (spike_observer)
        exec.add_observer<SpikeMessage>(
            [&](const std::vector<SpikeMessage> &ms)
            {
                for (auto &m : ms) seen_spikes.push_back(spike_text(m.header_.sender_uid_, m.header_.send_time_, m.neuron_indexes_));
            },
            watch(g.shapes, "add_spike_observer", "seen_spikes"));
    if (impact_observer)
        exec.add_observer<core::messaging::SynapticImpactMessage>(
            [&](const std::vector<core::messaging::SynapticImpactMessage> &ms)
            {
                for (auto &m : ms) seen_impacts.push_back(impact_text(m));
            },
            watch(g.proj_shapes, "add_impact_observer", "seen_impacts"));
    const bool ends = c.flag();
    if (ends) python("last = None\ndef end(ms):\n  if last == executor.get_backend().get_step(): executor.stop()\nexecutor.add_spike_observer(end, [])");
    if (c.flag()) python("del loader, input, net, pops, projs");
    size_t step = 0, spikes = 0;
    while (step < steps)
    {
        if (c.chance(1, 4))
        {
            const bool learning = c.flag();
            learning ? exec.start_learning() : exec.stop_learning();
            python(learning ? "executor.start_learning()" : "executor.stop_learning()");
            c.label("learning switched");
        }
        const size_t until = step + c.len(1, steps - step);
        exec.start([&](core::Step s) { return s < until; });
        if (c.chance(1, 8))
        {
            python("def bad(s):\n  raise Stop('no')");
            VP_EQ(c, python.raises("executor.start(bad)"), "Stop", "exception", "exception of the predicate");
        }
        if (ends && c.chance(1, 3))
        {
            // A run that an observer stops.
            python(VP_STR("last = " << until << "\nexecutor.start()"));
            c.label("stopped by an observer");
        }
        else python(VP_STR("last = None\nseen = []\nexecutor.start(lambda s: (seen.append(s), " << truth(c, VP_STR("(s < " << until << ")")) << ")[1])\nassert seen == list(range(" << step << ", " << until + 1 << ")), seen"));
        VP_EQ(c, python.get<size_t>("executor.get_backend().get_step()"), until, "step", "steps executed");
        VP_EQ(c, python.get<bool>(VP_STR("all(v == list(range(" << until << ")) for v in asked.values())")), true, "generator", "input generators are asked once at every step");
        step = until;
        if (spike_observer)
        {
            const auto got = python_texts(python, "seen_spikes");
            VP_CHECK(c, got == sorted(seen_spikes), "spike-observer", "Python observed [" << vp::join(got, "; ") << "], C++ [" << vp::join(sorted(seen_spikes), "; ") << "]");
        }
        if (impact_observer)
        {
            std::vector<std::string> got;
            const py::object list = python.get<py::object>("seen_impacts");
            for (py::ssize_t i = 0; i < py::len(list); ++i) got.push_back(impact_text(py::extract<core::messaging::SynapticImpactMessage &>(list[i])));
            VP_CHECK(c, sorted(got) == sorted(seen_impacts), "impact-observer", "Python observed [" << vp::join(sorted(got), "; ") << "], C++ [" << vp::join(sorted(seen_impacts), "; ") << "]");
        }
        for (size_t i = 0; i < outs.size(); ++i)
        {
            const uint64_t from = c.draw(step + 1), to = from + c.draw(6);
            std::vector<std::string> expected;
            for (auto &m : exec.get_loader().get_output_channel(out_uid(i)).read_some_from_buffer(from, to)) expected.push_back(spike_text(m.header_.sender_uid_, m.header_.send_time_, m.neuron_indexes_));
            spikes += expected.size();
            python.set("a", out_uid(i));
            const auto got = python_texts(python, VP_STR("executor.get_output_channel(a).read_some_from_buffer(" << from << ", " << to << ")"));
            VP_CHECK(c, got == sorted(expected), "output", "output channel " << i << ", steps " << from << " to " << to << ": Python read [" << vp::join(got, "; ") << "], C++ [" << vp::join(sorted(expected), "; ") << "]");
        }
    }
    // What Python still refers to outlives what it came from.
    if (c.flag())
    {
        python.set("a", out_uid(0));
        std::vector<std::string> kept;
        for (auto &m : exec.get_loader().get_output_channel(out_uid(0)).read_some_from_buffer(0, steps)) kept.push_back(spike_text(m.header_.sender_uid_, m.header_.send_time_, m.neuron_indexes_));
        std::sort(kept.begin(), kept.end());
        python("channel = executor.get_output_channel(a)\nnetwork = model.network\nbackend = executor.get_backend()\ndel executor, model");
        const auto got = python_texts(python, VP_STR("channel.read_some_from_buffer(0, " << steps << ")"));
        VP_CHECK(c, got == kept, "lifetime", "without its executor, the output channel reads [" << vp::join(got, "; ") << "], expected [" << vp::join(kept, "; ") << "]");
        python("network.populations_count");
        VP_EQ(c, python.get<size_t>("backend.get_step()"), steps, "lifetime", "step of the backend without the executor");
        c.label("owners deleted");
    }
    if (spikes >= 2) c.nontrivial();
    if (p.multi) c.label("multi-threaded");
}

// Endpoints of a bus, used in Python and in C++ in the same way.
void endpoints(vp::Case &c)
{
    Python python(c);
    auto bus = core::MessageBus::construct_cpu_bus();
    std::vector<core::MessageEndpoint> eps;
    python.names["path"] = (build_dir() / "libvpst.so").string();
    python("with BackendLoader() as loader:\n  bus = loader.load(path).message_bus");
    const size_t n = c.range(1, 2);
    for (size_t i = 0; i < n; ++i) eps.push_back(bus->create_endpoint());
    python(VP_STR("eps = [bus.create_endpoint() for i in range(" << n << ")]"));
    auto name = [&](const char *variable, size_t i)
    {
        const UID u = kg::make_uid(i);
        python.set(variable, u);
        return u;
    };
    size_t unloaded = 0;
    const size_t ops = c.range(4, 30);
    for (size_t op = 0; op < ops; ++op)
    {
        const size_t e = c.draw(n);
        const std::string ep = VP_STR("eps[" << e << "].");
        const bool spikes = c.chance(2, 3);
        const char *type = spikes ? "SpikeMessage" : "SynapticImpactMessage";
        switch (op % 8 == 7 ? 10 : c.draw(11))
        {
            case 0:
            case 1:
            case 2:
            {
                const UID r = name("r", 10 + c.draw(3));
                std::vector<UID> senders;
                py::list list;
                for (size_t k = c.len(0, 4); k; --k)
                {
                    senders.push_back(kg::make_uid(c.draw(3)));
                    list.append(senders.back());
                }
                python.names["senders"] = list;
                VP_NOTE(c, "  receiver " << std::string(r) << ", senders " << vp::join(senders) << "\n");
                if (spikes) eps[e].subscribe<SpikeMessage>(r, senders);
                else eps[e].subscribe<ImpactMessage>(r, senders);
                python(ep + "subscribe(" + type + ", r, senders)");
                break;
            }
            case 3:
            {
                const UID r = name("r", 10 + c.draw(3));
                const bool expected = spikes ? eps[e].unsubscribe<SpikeMessage>(r) : eps[e].unsubscribe<ImpactMessage>(r);
                VP_EQ(c, python.get<bool>(ep + "unsubscribe(" + type + ", r)"), expected, "unsubscribe", "result for " << type << " and receiver " << std::string(r));
                break;
            }
            case 4:
            {
                const UID r = name("r", 10 + c.draw(3));
                VP_NOTE(c, "  receiver " << std::string(r) << "\n");
                eps[e].remove_receiver(r);
                python(ep + "remove_receiver(r)");
                break;
            }
            case 5:
            case 6:
            case 7:
            {
                const UID s = name("s", c.draw(3));
                VP_NOTE(c, "  sender " << std::string(s) << "\n");
                if (spikes)
                {
                    SpikeMessage m{{s, op}, {}};
                    py::list idx;
                    for (size_t k = c.len(0, 4); k; --k)
                    {
                        m.neuron_indexes_.push_back(c.draw(100));
                        idx.append(m.neuron_indexes_.back());
                    }
                    python.names["idx"] = idx;
                    eps[e].send_message(m);
                    python(VP_STR(ep << "send_message(SpikeMessage((s, " << op << "), idx))"));
                }
                else
                {
                    ImpactMessage m;
                    m.header_ = {s, op};
                    m.is_forcing_ = c.flag();
                    core::messaging::SynapticImpact i;
                    i.connection_index_ = c.draw(100);
                    i.impact_value_ = 0.5F;
                    i.synapse_type_ = Out::EXCITATORY;
                    m.impacts_ = {i};
                    eps[e].send_message(m);
                    python.set("m", m);
                    python(ep + "send_message(m)");
                }
                break;
            }
            case 8:
                if (c.flag())
                {
                    const size_t routed = bus->route_messages();
                    VP_EQ(c, python.get<size_t>("bus.route_messages()"), routed, "route", "messages routed");
                }
                else
                {
                    const size_t routed = bus->step();
                    VP_EQ(c, python.get<size_t>("bus.step()"), routed, "route", "messages routed in a step");
                }
                break;
            case 9:
            {
                const size_t received = eps[e].receive_all_messages();
                VP_EQ(c, python.get<size_t>(ep + "receive_all_messages()"), received, "receive", "messages received by endpoint " << e);
                break;
            }
            default:
            {
                bus->route_messages();
                eps[e].receive_all_messages();
                python("bus.route_messages()\n" + ep + "receive_all_messages()");
                for (size_t k = 0; k < 3; ++k)
                {
                    const UID r = name("r", 10 + k);
                    std::vector<std::string> expected, got;
                    auto text = [&](const auto &m) { return VP_STR(m); };
                    const py::object list = python.get<py::object>(ep + "unload_messages(" + type + ", r)");
                    if (spikes)
                    {
                        for (auto &m : eps[e].unload_messages<SpikeMessage>(r)) expected.push_back(text(m));
                        for (py::ssize_t i = 0; i < py::len(list); ++i) got.push_back(text(static_cast<const SpikeMessage &>(py::extract<SpikeMessage &>(list[i]))));
                    }
                    else
                    {
                        for (auto &m : eps[e].unload_messages<ImpactMessage>(r)) expected.push_back(text(m));
                        for (py::ssize_t i = 0; i < py::len(list); ++i) got.push_back(text(static_cast<const ImpactMessage &>(py::extract<ImpactMessage &>(list[i]))));
                    }
                    unloaded += expected.size();
                    VP_CHECK(c, got == expected, "unload", "receiver " << k << " of endpoint " << e << ": Python has [" << vp::join(got, "; ") << "], C++ [" << vp::join(expected, "; ") << "]");
                }
                break;
            }
        }
    }
    if (unloaded >= 2) c.nontrivial();
}

// Messages are read and changed field by field.
void messages(vp::Case &c)
{
    Python python(c);
    const UID u = kg::random_uid(c), v = kg::random_uid(c), w = kg::random_uid(c);
    python.set("u", u);
    python.set("v", v);
    python.set("w", w);
    SpikeMessage m{{u, c.bits64() >> c.draw(64)}, {}};
    py::list idx;
    for (size_t n = c.len(0, 8); n; --n)
    {
        m.neuron_indexes_.push_back(static_cast<core::messaging::SpikeIndex>(c.chance(1, 5) ? c.bits64() : c.draw(100)));
        idx.append(m.neuron_indexes_.back());
    }
    python.names["idx"] = idx;
    auto same = [&](const char *when)
    {
        const auto &x = python.get<SpikeMessage &>("m");
        VP_CHECK(c, x.header_.sender_uid_ == m.header_.sender_uid_ && x.header_.send_time_ == m.header_.send_time_ && x.neuron_indexes_ == m.neuron_indexes_, "message", "message " << x << " " << when << ", expected " << m);
        VP_CHECK(c, python.get<UID>("m.header.sender_uid") == m.header_.sender_uid_, "message", "sender " << when);
        VP_EQ(c, python.get<uint64_t>("m.header.send_time"), m.header_.send_time_, "message", "time " << when);
        VP_EQ(c, python.get<size_t>("len(m.neuron_indexes)"), m.neuron_indexes_.size(), "message", "indexes " << when);
        for (size_t i = 0; i < m.neuron_indexes_.size(); ++i)
            VP_EQ(c, python.get<uint64_t>(VP_STR("m.neuron_indexes[" << i << "]")), m.neuron_indexes_[i], "message", "index " << i << " " << when);
        VP_EQ(c, python.get<std::string>("str(m)"), VP_STR(m), "text", "text of the message " << when);
    };
    python(VP_STR("m = SpikeMessage((u, " << m.header_.send_time_ << "), idx)"));
    same("as made");
    const size_t ops = c.len(0, 5);
    for (size_t op = 0; op < ops; ++op)
    {
        switch (c.draw(4))
        {
            case 0:
                m.header_.send_time_ = c.bits64() >> c.draw(64);
                python(VP_STR("m.header.send_time = " << m.header_.send_time_));
                break;
            case 1:
                m.header_.sender_uid_ = v;
                python("m.header.sender_uid = v");
                break;
            case 2:
                m.neuron_indexes_.push_back(static_cast<core::messaging::SpikeIndex>(op));
                python(VP_STR("m.neuron_indexes.append(" << op << ")"));
                break;
            default:
                if (m.neuron_indexes_.empty()) continue;
                m.neuron_indexes_[0] = 7;
                python("m.neuron_indexes[0] = 7");
                break;
        }
        same("after a change");
    }
    // Impacts.
    ImpactMessage im;
    im.header_ = {w, c.bits64() >> c.draw(64)};
    im.presynaptic_population_uid_ = u;
    im.postsynaptic_population_uid_ = v;
    im.is_forcing_ = c.flag();
    python("im = SynapticImpactMessage()\nim.header.sender_uid = w\nim.presynaptic_population_uid = u\nim.postsynaptic_population_uid = v");
    python(VP_STR("im.header.send_time = " << im.header_.send_time_ << "\nim.is_forcing = " << str(im.is_forcing_)));
    const auto &x = python.get<ImpactMessage &>("im");
    VP_CHECK(c, x.header_.sender_uid_ == w && x.header_.send_time_ == im.header_.send_time_ && x.presynaptic_population_uid_ == u && x.postsynaptic_population_uid_ == v && x.is_forcing_ == im.is_forcing_, "impacts", "fields of the message: " << x);
    core::messaging::SynapticImpact i;
    i.connection_index_ = c.bits64() >> c.draw(64);
    i.impact_value_ = static_cast<float>(c.dyadic(100, 4));
    i.synapse_type_ = static_cast<Out>(c.draw(5));
    i.presynaptic_neuron_index_ = static_cast<uint32_t>(c.bits64());
    i.postsynaptic_neuron_index_ = static_cast<uint32_t>(c.bits64());
    python.set("t", i.synapse_type_);
    python(VP_STR("i = SynapticImpact()\ni.connection_index = " << i.connection_index_ << "\ni.impact_value = " << i.impact_value_ << "\ni.synapse_type = t\ni.presynaptic_neuron_index = " << i.presynaptic_neuron_index_ << "\ni.postsynaptic_neuron_index = " << i.postsynaptic_neuron_index_));
    VP_CHECK(c, python.get<core::messaging::SynapticImpact &>("i") == i, "impacts", "fields of an impact");
    VP_EQ(c, python.get<float>("i.impact_value"), i.impact_value_, "impacts", "value");
    VP_EQ(c, python.get<uint64_t>("i.connection_index"), i.connection_index_, "impacts", "synapse");
    VP_EQ(c, python.get<uint64_t>("i.presynaptic_neuron_index"), i.presynaptic_neuron_index_, "impacts", "presynaptic neuron");
    VP_EQ(c, python.get<uint64_t>("i.postsynaptic_neuron_index"), i.postsynaptic_neuron_index_, "impacts", "postsynaptic neuron");
    const size_t impacts = c.len(0, 4);
    for (size_t k = 0; k < impacts; ++k)
    {
        im.impacts_.push_back(i);
        python(VP_STR("i.connection_index = " << k << "\nim.impacts.append(i)"));
        im.impacts_.back().connection_index_ = k;
    }
    if (impacts && c.flag())
    {
        const size_t k = c.draw(impacts);
        im.impacts_[k].impact_value_ = 0.25F;
        python(VP_STR("im.impacts[" << k << "].impact_value = 0.25"));
    }
    VP_CHECK(c, x.impacts_ == im.impacts_, "impacts", "impacts of the message: " << x << ", expected " << im);
    VP_EQ(c, python.get<size_t>("len(im.impacts)"), impacts, "impacts", "number");
    for (size_t k = 0; k < impacts; ++k)
        VP_CHECK(c, python.get<core::messaging::SynapticImpact>(VP_STR("im.impacts[" << k << "]")) == im.impacts_[k], "impacts", "impact " << k << " read in Python");
    if (c.chance(1, 3))
    {
        // Parts of messages outlive them.
        python("header = m.header\nindexes = m.neuron_indexes\nimpacts = im.impacts\nimpact_header = im.header\none = impacts[0] if len(impacts) else None\ndel m, im\nSpikeMessage((u, 1), [1, 2, 3])");
        VP_CHECK(c, python.get<UID>("header.sender_uid") == m.header_.sender_uid_ && python.get<uint64_t>("header.send_time") == m.header_.send_time_, "lifetime", "header without its message");
        VP_CHECK(c, python.get<UID>("impact_header.sender_uid") == w && python.get<uint64_t>("impact_header.send_time") == im.header_.send_time_, "lifetime", "header without its message of impacts");
        VP_EQ(c, python.get<size_t>("len(indexes)"), m.neuron_indexes_.size(), "lifetime", "indexes without their message");
        for (size_t k = 0; k < m.neuron_indexes_.size(); ++k)
            VP_EQ(c, python.get<uint64_t>(VP_STR("indexes[" << k << "]")), m.neuron_indexes_[k], "lifetime", "index " << k << " without its message");
        for (size_t k = 0; k < impacts; ++k)
            VP_CHECK(c, python.get<core::messaging::SynapticImpact>(VP_STR("impacts[" << k << "]")) == im.impacts_[k], "lifetime", "impact " << k << " without its message");
        if (impacts)
        {
            python("del impacts");
            VP_CHECK(c, python.get<core::messaging::SynapticImpact>("one") == im.impacts_[0], "lifetime", "an impact without its list");
        }
        c.label("owner deleted");
    }
    if (ops >= 2 && m.neuron_indexes_.size() >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    start_python();
    const std::string run = "; non-trivial: at least 2 spike messages";
    return vp::run_main(
        argc, argv, "C32",
        {
            {"parameters", "parameter objects with arbitrary fields, made by the library or by Python, read and set attribute by attribute; non-trivial: fields differ from the defaults", parameters, 2500},
            {"uids", "2-12 UIDs made in all ways; non-trivial: at least 2 different ones", uids, 600},
            {"messages", "spike and impact messages with arbitrary fields and up to 5 changes; non-trivial: at least 2 changes and 2 indexes", messages, 1500},
            {"populations", "populations of up to 8 neurons from generators with gaps, up to 6 operations; non-trivial: at least 2 neurons and one operation", populations, 1200},
            {"projections", "projections of up to 8 synapses from generators with gaps, up to 4 operations; non-trivial: at least 2 synapses", projections, 1200},
            {"endpoints", "up to 30 operations on 1-2 endpoints of a bus, in Python and in C++; non-trivial: at least 2 messages delivered", endpoints, 1500},
            {"steps", "generated networks made and stepped in Python and in C++" + run, by_hand, 1500},
            {"executors", "generated models run by executors in Python and in C++" + run, executors, 1500},
        },
        {}, {"the Sonata functions of the package are left out: they need HighFive, which is not installed"});
}
