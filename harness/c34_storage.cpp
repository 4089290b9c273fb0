// C34: spike messages saved to JSON and HDF5 files load back the same; files of a wrong format are refused.
#include <highfive/highfive.hpp>
#include <knp/framework/io/storage/native/data_storage_hdf5.h>
#include <knp/framework/io/storage/native/data_storage_json.h>
// Not the same functions as those of the code under test, which are compiled with other macros.
#define RAPIDJSON_NAMESPACE vp_json
#define RAPIDJSON_NAMESPACE_BEGIN namespace vp_json {
#define RAPIDJSON_NAMESPACE_END }
#include <rapidjson/document.h>
#include <rapidjson/istreamwrapper.h>

#include <filesystem>
#include <fstream>
#include <map>

#include "knp_gen.hpp"

using namespace knp;
using core::messaging::SpikeMessage;
namespace fs = std::filesystem;
namespace ns = knp::framework::io::storage::native;

namespace
{
using ByStep = std::map<uint64_t, std::vector<uint64_t>>;

void check_loaded(vp::Case &c, const std::vector<SpikeMessage> &got, ByStep want, const core::UID &uid, const std::set<uint64_t> &ordered)
{
    VP_EQ(c, got.size(), want.size(), "messages", "number of loaded messages");
    auto w = want.begin();
    for (auto &m : got)
    {
        VP_EQ(c, m.header_.send_time_, w->first, "step", "step of a loaded message");
        VP_EQ(c, m.header_.sender_uid_, uid, "sender", "sender of a loaded message");
        std::vector<uint64_t> a(m.neuron_indexes_.begin(), m.neuron_indexes_.end()), b = w->second;
        // Messages of one step come in any order.
        if (!ordered.count(w->first)) std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
        VP_CHECK(c, a == b, "spikes", "step " << w->first << ": spikes " << vp::join(a) << ", expected " << vp::join(b));
        ++w;
    }
}

std::vector<double> json_times(const fs::path &file)
{
    std::ifstream f(file);
    vp_json::IStreamWrapper w(f);
    vp_json::Document d;
    d.ParseStream(w);
    std::vector<double> r;
    for (auto &v : d["spikes"]["timestamps"]["value"].GetArray()) r.push_back(v.GetDouble());
    return r;
}

void roundtrip(vp::Case &c)
{
    const bool json = c.flag();
    // Times that a double holds exactly.
    const std::vector<float> units{1, 0.5F, 0.125F, 0.1F, 0.001F, 0.7F, 3, 1e-4F, 17.3F};
    const float unit = json ? 1 : c.pick(units);
    const unsigned bits = c.chance(1, 3) ? (json || unit == 1 ? 50 : 28) : c.chance(1, 2) ? 16 : 4;
    std::vector<SpikeMessage> in;
    ByStep want;
    std::set<uint64_t> ordered;
    size_t spikes = 0;
    const size_t n = c.len(0, 12);
    const bool crowd = c.chance(1, 25);
    uint64_t step = c.draw(uint64_t(1) << bits);
    bool sorted = true;
    for (size_t i = 0; i < n; ++i)
    {
        SpikeMessage m{{kg::make_uid(c.draw(3)), step}, {}};
        for (size_t k = c.chance(1, 8) ? 0 : c.len(1, 6); k; --k)
            m.neuron_indexes_.push_back(c.chance(1, 8) ? std::numeric_limits<uint32_t>::max() - static_cast<uint32_t>(c.draw(3)) : static_cast<uint32_t>(c.draw(c.chance(1, 8) ? 3000000000U : 20)));
        if (crowd)
            for (uint32_t k = static_cast<uint32_t>(c.draw(3000)), first = static_cast<uint32_t>(c.draw(1000000)); k; --k) m.neuron_indexes_.push_back(first + k);
        VP_NOTE(c, m << "\n");
        if (!m.neuron_indexes_.empty())
        {
            // The spikes of a step form one message.
            auto [pos, is_new] = want.try_emplace(step);
            if (is_new) ordered.insert(step);
            else ordered.erase(step);
            pos->second.insert(pos->second.end(), m.neuron_indexes_.begin(), m.neuron_indexes_.end());
        }
        spikes += m.neuron_indexes_.size();
        in.push_back(m);
        const uint64_t next = c.chance(1, 4) ? step : c.flag() ? step + c.draw(3) : c.draw(uint64_t(1) << bits);
        sorted &= next >= step;
        step = next;
    }
    const fs::path file = fs::path(vp::scratch_dir()) / (json ? "spikes.json" : "spikes.h5");
    const core::UID uid = kg::random_uid(c);
    VP_NOTE(c, (json ? "JSON" : "HDF5") << ", unit " << unit << "\n");
    if (c.chance(1, 4))
    {
        // An older file is replaced.
        const std::vector<SpikeMessage> old(3, SpikeMessage{{uid, 5}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}});
        if (json) ns::save_messages_to_json(old, file);
        else ns::save_messages_to_h5(old, file, unit);
    }
    std::vector<double> times;
    const auto given = in;
    if (json)
    {
        ns::save_messages_to_json(in, file);
        times = json_times(file);
    }
    else
    {
        ns::save_messages_to_h5(in, file, unit);
        times = HighFive::File(file.string()).getGroup("spikes").getDataSet("timestamps").read<std::vector<double>>();
    }
    VP_EQ(c, times.size(), spikes, "saved", "number of times in the file");
    VP_CHECK(c, std::is_sorted(times.begin(), times.end()), "sorted", "the file says that it is sorted by time: " << vp::join(times));
    const bool strict = c.flag();
    for (int k = 0; k < 2; ++k)  // Loading changes nothing.
        check_loaded(c, json ? ns::load_messages_from_json(file, uid, strict) : ns::load_messages_from_h5(file, uid, unit, strict), want, uid, ordered);
    if (in.size() >= 3 && !sorted && spikes >= 3) c.nontrivial();
}

// Times between steps belong to the step before.
ByStep by_step(const std::vector<int64_t> &nodes, const std::vector<double> &times, double unit)
{
    ByStep r;
    for (size_t i = 0; i < nodes.size(); ++i) r[static_cast<uint64_t>(times[i] / unit)].push_back(static_cast<uint64_t>(nodes[i]));
    return r;
}

void generate(vp::Case &c, std::vector<int64_t> &nodes, std::vector<double> &times)
{
    for (size_t n = c.len(0, 12); n; --n)
    {
        nodes.push_back(c.range(0, 30));
        times.push_back(static_cast<double>(c.range(0, 40)) / 4);
    }
    VP_NOTE(c, "nodes " << vp::join(nodes) << ", times " << vp::join(times) << "\n");
}

std::set<uint64_t> all_steps(const ByStep &b)
{
    std::set<uint64_t> r;
    for (auto &[k, v] : b) r.insert(k);
    return r;
}

// Files made by others, some of a wrong format.
void json_files(vp::Case &c)
{
    std::vector<int64_t> nodes;
    std::vector<double> times;
    generate(c, nodes, times);
    const bool strict = c.flag();
    enum What { good, no_magic, other_magic, no_version, other_version, wrong, odd };
    What what = good;
    auto odd_value = [&](bool also_array = true) -> std::string
    {
        const std::vector<std::string> v{"null", "\"x\"", "true", "7", "{\"a\": 1}", "[1, \"x\"]", "[]"};
        return v[c.draw(also_array ? v.size() : 5)];
    };
    std::string magic_value = "2682", version_value = "[0, 1]";
    std::string attributes, extra = c.flag() ? "{\"name\": \"other\", \"value\": 3}," : "";
    std::string node_list, time_list;
    std::vector<std::string> n, t;
    for (auto x : nodes) n.push_back(std::to_string(x));
    for (auto x : times) t.push_back(x == static_cast<int64_t>(x) && c.flag() ? std::to_string(static_cast<int64_t>(x)) : VP_STR(x));
    const size_t kind = c.chance(1, 3) ? 0 : c.draw(17);
    std::string magic = "{\"name\": \"magic\", \"value\": 2682}", version = "{\"name\": \"version\", \"value\": [0, 1]}";
    std::string list_attributes, spikes, root, node_group, time_group;
    switch (kind)
    {
        case 1: magic = "{\"name\": \"MAGIC\", \"value\": 2682}"; what = no_magic; break;
        case 2: magic = "{\"name\": \"magic\", \"value\": " + std::to_string(c.range(0, 2681)) + "}"; what = other_magic; break;
        case 3: version = "{\"value\": [0, 1]}"; what = no_version; break;
        case 4: version = "{\"name\": \"version\", \"value\": " + c.pick<std::string>({"[]", "[0]", "[0, 2]", "[1, 0]", "[0, 1, 2]"}) + "}"; what = other_version; break;
        case 5: magic = "{\"name\": \"magic\", \"value\": " + odd_value() + "}"; what = odd; break;
        case 6: version = "{\"name\": \"version\", \"value\": " + odd_value() + "}"; what = odd; break;
        case 7: magic = c.flag() ? odd_value() : "{\"name\": " + c.pick<std::string>({"1", "null", "[]"}) + "}"; what = odd; break;
        case 8: if (nodes.empty()) n.push_back("1"); else c.flag() ? n.pop_back() : n.push_back("3"); what = wrong; break;
        case 9:
            if (nodes.empty()) break;
            (c.flag() ? n : t)[c.draw(nodes.size())] = c.pick<std::string>({"null", "\"1\"", "[]", "{}", "true"});
            what = wrong;
            break;
        default: break;
    }
    node_list = "[" + vp::join(n, ", ") + "]";
    time_list = "[" + vp::join(t, ", ") + "]";
    if (kind == 10) (c.flag() ? node_list : time_list) = odd_value(false), what = wrong;
    node_group = "\"node_ids\": {\"value\": " + node_list + "}";
    time_group = "\"timestamps\": {\"value\": " + time_list + "}";
    if (kind == 11) (c.flag() ? node_group : time_group) = "\"nothing\": 1", what = wrong;
    if (kind == 12) (c.flag() ? node_group : time_group) = (c.flag() ? "\"node_ids\": " : "\"timestamps\": ") + odd_value(), what = wrong;
    list_attributes = "[" + extra + (c.flag() ? magic + ", " + version : version + ", " + magic) + "]";
    if (kind == 13) list_attributes = odd_value(), what = odd;
    spikes = "{" + (c.flag() ? node_group + ", " + time_group : time_group + ", " + node_group) + "}";
    if (kind == 14) spikes = odd_value(), what = wrong;
    root = "{\"attributes\": " + list_attributes + ", \"spikes\": " + spikes + "}";
    if (kind == 15) root = odd_value(), what = wrong;
    if (kind == 16) root.resize(c.draw(root.size())), what = wrong;
    VP_NOTE(c, (strict ? "strict" : "not strict") << ", file:\n" << root << "\n");
    const fs::path file = fs::path(vp::scratch_dir()) / "a.json";
    std::ofstream(file) << root;
    const core::UID uid = kg::make_uid(4);
    std::vector<SpikeMessage> got;
    std::string error;
    try
    {
        got = ns::load_messages_from_json(file, uid, strict);
    }
    catch (const vp_shim::WrongAccess &e)
    {
        VP_FAIL(c, "undefined", "reads what is not in the file: " << e.what());
    }
    catch (const std::exception &e)
    {
        error = VP_STR("error: " << e.what());
    }
    const bool must_fail = what == wrong || (strict && (what == no_magic || what == other_magic));
    if (must_fail) VP_CHECK(c, !error.empty(), "accepted", "a file of a wrong format is loaded");
    else if (what != odd) VP_CHECK(c, error.empty(), "refused", "the file is right, but: " << error);
    if (error.empty())
    {
        const auto want = by_step(nodes, times, 1);
        check_loaded(c, got, want, uid, all_steps(want));
    }
    c.label(must_fail ? "wrong" : what == odd ? "odd" : "right");
    if (nodes.size() >= 2) c.nontrivial();
}

void hdf5_files(vp::Case &c)
{
    std::vector<int64_t> nodes;
    std::vector<double> times;
    generate(c, nodes, times);
    const fs::path file = fs::path(vp::scratch_dir()) / "a.h5";
    const bool strict = c.flag(), internal = c.flag();
    const size_t kind = c.chance(1, 3) ? 0 : c.draw(8);
    // Times in units that are not exact stand for whole steps, and may have been rounded to a float.
    const bool whole = c.flag();
    const float unit = whole ? c.pick<float>({0.1F, 0.001F, 0.7F, 3, 1.0F / 3, 17.3F}) : c.pick<float>({1, 0.5F, 0.25F, 2});
    const std::string name = c.flag() ? "gids" : "node_ids";
    VP_NOTE(c, (strict ? "strict" : "not strict") << (internal ? ", internal, " : ", ") << name << ", unit " << unit << ", kind " << kind << "\n");
    bool no_magic = false, wrong = false;
    const double scale = c.pick<double>({4, 400, 12344});
    if (whole) for (auto &t : times) t *= scale;
    auto want = by_step(nodes, times, whole ? 1 : unit);
    const bool floats = c.flag();
    if (whole) for (auto &t : times) t = floats ? static_cast<float>(t) * unit : t * static_cast<double>(unit);
    {
        HighFive::File f(file.string(), HighFive::File::Create | HighFive::File::Overwrite);
        if (kind == 1) no_magic = true;
        else if (kind == 2) f.createAttribute("magic", 7), no_magic = true;
        else f.createAttribute("magic", 2682);
        if (kind != 3) f.createAttribute("version", std::vector<int>{0, 1});
        auto g = f.createGroup(kind == 4 ? "spike" : "spikes");
        if (internal) g = g.createGroup("internal");
        wrong |= kind == 4;
        if (kind == 5 && !nodes.empty()) nodes.pop_back(), wrong = true;
        if (kind == 6) wrong = true;
        else g.createDataSet(name, nodes);
        if (kind == 7) wrong = true;
        else if (!floats) g.createDataSet("timestamps", times);
        else g.createDataSet("timestamps", std::vector<float>(times.begin(), times.end()));
    }
    std::vector<SpikeMessage> got;
    std::string error;
    const core::UID uid = kg::make_uid(4);
    try
    {
        got = ns::load_messages_from_h5(file, uid, unit, strict);
    }
    catch (const std::exception &e)
    {
        error = VP_STR("error: " << e.what());
    }
    const bool must_fail = wrong || (strict && no_magic);
    if (must_fail) VP_CHECK(c, !error.empty(), "accepted", "a file of a wrong format is loaded");
    else
    {
        VP_CHECK(c, error.empty(), "refused", "the file is right, but: " << error);
        check_loaded(c, got, want, uid, all_steps(want));
    }
    c.label(must_fail ? "wrong" : "right");
    if (nodes.size() >= 2) c.nontrivial();
}

// What cannot be written or read is an error.
void no_file(vp::Case &c)
{
    const fs::path dir = fs::path(vp::scratch_dir()) / "none";
    std::vector<SpikeMessage> in;
    for (size_t n = c.len(0, 4); n; --n) in.push_back({{kg::make_uid(1), n}, {1, 2}});
    const bool json = c.flag(), save = c.flag(), strict = c.flag();
    VP_NOTE(c, (json ? "JSON, " : "HDF5, ") << (save ? "save\n" : "load\n"));
    const auto file = dir / "spikes";
    bool failed;
    if (save) failed = vp::throws([&] { json ? ns::save_messages_to_json(in, file) : ns::save_messages_to_h5(in, file); });
    else failed = vp::throws([&] { json ? ns::load_messages_from_json(file, kg::make_uid(1), strict) : ns::load_messages_from_h5(file, kg::make_uid(1), 1, strict); });
    VP_CHECK(c, failed, save ? "not-saved" : "not-loaded", "no error for a file in a directory that does not exist");
    if (in.size() >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C34",
        {
            {"roundtrip", "0-12 messages of any order with 0-6 spikes, steps up to 2^50 (2^28 in other units of time), as JSON or HDF5; non-trivial: 3 or more messages out of order and 3 or more spikes", roundtrip, 12000},
            {"json_files", "JSON files made by a grammar, right or with one wrong part; non-trivial: 2 or more spikes", json_files, 12000},
            {"hdf5_files", "HDF5 files of both layouts and name styles, right or with one wrong part; non-trivial: 2 or more spikes", hdf5_files, 4000},
            {"no_file", "saving to and loading from a directory that does not exist; non-trivial: 2 or more messages", no_file, 400},
        },
        {}, {"HighFive, which is not installed, is replaced by the stand-in of lib/shim; messages without spikes are not stored; times are not negative"});
}
