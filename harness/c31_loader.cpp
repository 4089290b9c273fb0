// C31: backend libraries are loaded and told apart; what they make works, whatever becomes of the loader.
#include <dlfcn.h>
#include <knp/framework/backend_loader.h>
#include <knp/framework/model_executor.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <thread>

#include "knp_netgen.hpp"

using namespace sim;
namespace fw = knp::framework;
namespace fs = std::filesystem;

namespace
{
enum Lib { ST, MT, NOTHING, OTHER };

fs::path built(Lib l)
{
    static const fs::path dir = fs::read_symlink("/proc/self/exe").parent_path();
    const char *names[] = {"libvpst.so", "libvpmt.so", "libvpnull.so", "libvpother.so"};
    return dir / names[l];
}

// Copies of the libraries that this process uses over and over.
fs::path stock(Lib l, size_t copy)
{
    const fs::path dir = vp::scratch_dir() + "-stock";
    const fs::path file = dir / VP_STR("lib" << l << copy << ".so");
    fs::create_directories(dir);
    if (!fs::exists(file)) fs::copy_file(built(l), file);
    return file;
}

// A backend made by the library itself, from a copy of it that is never closed.
std::shared_ptr<core::Backend> direct(Lib l)
{
    static void *handles[2] = {};
    if (!handles[l])
    {
        handles[l] = dlopen(stock(l, 9).c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!handles[l]) throw std::runtime_error(dlerror());
    }
    auto maker = *static_cast<std::shared_ptr<core::Backend> (**)()>(dlsym(handles[l], "create_knp_backend"));
    return maker();
}

// What a network does on a backend, told by the messages of its steps.
struct Running
{
    std::shared_ptr<core::Backend> backend;
    std::optional<core::MessageEndpoint> ep;

    void start(const GeneratedNet &g)
    {
        backend->load_all_populations(g.pops);
        backend->load_all_projections(g.projs);
        backend->_init();
        ep.emplace(backend->get_message_bus().create_endpoint());
        for (size_t i = 0; i < g.projs.size(); ++i)
            for (auto ch : g.feeds[i]) backend->subscribe<SpikeMessage>(g.proj_shapes[i].uid, {channel_uid(ch)});
        std::vector<UID> all;
        for (auto &p : g.shapes) all.push_back(p.uid);
        ep->subscribe<SpikeMessage>(kg::make_uid(999), all);
    }
    std::vector<std::string> step(const std::vector<SpikeMessage> &in)
    {
        for (auto &m : in) ep->send_message(m);
        backend->_step();
        ep->receive_all_messages();
        std::vector<std::string> r;
        for (auto &m : ep->unload_messages<SpikeMessage>(kg::make_uid(999)))
        {
            auto i = m.neuron_indexes_;
            std::sort(i.begin(), i.end());
            r.push_back(VP_STR(std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << ": " << vp::join(i)));
        }
        std::sort(r.begin(), r.end());
        return r;
    }
};

struct Pair
{
    Lib lib;
    Running real, expected;
    GeneratedNet net;
    uint64_t steps = 0;
};

// Copies of the libraries of this case: with and without decorated name, linked, and what is no library at all.
struct Files
{
    fs::path dir = vp::scratch_dir();
    struct File
    {
        fs::path path;   // as given to the loader
        int lib;         // -1: not a library
    };
    std::vector<File> files;

    void add(vp::Case &c, Lib l)
    {
        // A path names one file for the whole process: a library that is loaded is not looked up again.
        static size_t counter = 0;
        const size_t number = counter++;
        // Libraries of one name in different directories are different ones.
        const bool same_name = c.chance(1, 3);
        const fs::path dir = same_name ? this->dir / VP_STR("d" << number) : this->dir;
        fs::create_directories(dir);
        const std::string name = same_name ? "backend" : VP_STR("vp" << number);
        const fs::path file = dir / ("lib" + name + ".so");
        const unsigned how = c.draw(4);
        // A link is another path to a file that is in use already.
        const fs::path from = stock(l, c.draw(3));
        if (how == 1) fs::create_symlink(from, file);
        else fs::create_hard_link(from, file);
        if (how == 2) files.push_back({dir / name, l});
        else if (how == 3)
        {
            fs::rename(file, dir / (name + ".bin"));
            files.push_back({dir / (name + ".bin"), l});
        }
        else files.push_back({file, l});
    }
};

std::unique_ptr<Pair> make_pair(vp::Case &c, Lib lib, std::shared_ptr<core::Backend> real)
{
    auto res = std::make_unique<Pair>();
    Pair &p = *res;
    p.lib = lib;
    NetOptions o;
    o.neuron_types = {0};
    o.blocking = false;
    o.max_pops = 2;
    o.max_projs = 3;
    p.net = gen_net(c, o);
    note_net(c, p.net);
    p.real.backend = std::move(real);
    p.expected.backend = direct(lib);
    VP_EQ(c, p.real.backend->get_supported_neurons().size(), p.expected.backend->get_supported_neurons().size(), "metadata", "supported neurons");
    VP_CHECK(c, p.real.backend->get_supported_synapses() == p.expected.backend->get_supported_synapses(), "metadata", "supported synapses");
    VP_EQ(c, p.real.backend->get_step(), 0u, "fresh", "steps of a new backend");
    const auto d = p.real.backend->get_network_data();
    VP_CHECK(c, d.population_range.first && d.population_range.second && *d.population_range.first == *d.population_range.second, "fresh", "a new backend has populations");
    p.real.start(p.net);
    p.expected.start(p.net);
    return res;
}

void run(vp::Case &c, Pair &p, size_t steps)
{
    for (size_t i = 0; i < steps; ++i, ++p.steps)
    {
        const auto in = gen_input(c, p.net, p.steps, false);
        note_input(c, p.steps, in);
        const auto a = p.real.step(in), b = p.expected.step(in);
        VP_CHECK(c, a == b, "behaviour", "step " << p.steps << ": the loaded backend sent [" << vp::join(a, "; ") << "], another one of its library [" << vp::join(b, "; ") << "]");
    }
}

void history(vp::Case &c)
{
    Files f;
    const size_t n_libs = c.range(1, 3);
    for (size_t i = 0; i < n_libs; ++i) f.add(c, c.flag() ? MT : ST);
    f.add(c, NOTHING);
    f.add(c, OTHER);
    f.files.push_back({f.dir / "missing", -1});
    f.files.push_back({f.dir / "libtext.so", -1});
    std::ofstream(f.dir / "libtext.so") << "create_knp_backend\n";
    f.files.push_back({f.dir / "libempty.so", -1});
    std::ofstream(f.dir / "libempty.so");
    f.files.push_back({f.dir, -1});

    std::vector<std::unique_ptr<fw::BackendLoader>> loaders;
    std::vector<std::unique_ptr<Pair>> live;
    std::vector<core::MessageEndpoint> endpoints;   // of backends that may be gone
    unsigned loads = 0, outlived = 0, refused = 0;
    auto pick_file = [&](bool good) -> Files::File &
    { return good ? f.files[c.draw(n_libs)] : f.files[n_libs + c.draw(f.files.size() - n_libs)]; };
    loaders.push_back(std::make_unique<fw::BackendLoader>());
    const size_t ops = c.len(4, 24);
    for (size_t op = 0; op < ops; ++op)
    {
        switch (c.weighted({loaders.empty() ? 6u : 2u, 6, 4, 3, 2, 2, 2, 2, 1}))
        {
            case 0:
                VP_NOTE(c, "loader " << loaders.size() << "\n");
                loaders.push_back(std::make_unique<fw::BackendLoader>());
                break;
            case 1:  // load
            {
                if (loaders.empty() || live.size() >= 4) continue;
                const size_t l = c.draw(loaders.size());
                auto &file = pick_file(true);
                VP_NOTE(c, "load " << file.path.filename() << " (library " << file.lib << ") by loader " << l << "\n");
                auto b = loaders[l]->load(file.path);
                VP_CHECK(c, b != nullptr, "load", "no backend");
                for (auto &p : live) VP_CHECK(c, p->real.backend != b, "load", "the loader gave a backend that it had given before");
                live.push_back(make_pair(c, static_cast<Lib>(file.lib), b));
                ++loads;
                break;
            }
            case 2:  // run
                if (live.empty()) continue;
                {
                    const size_t i = c.draw(live.size());
                    VP_NOTE(c, "run backend " << i << "\n");
                    run(c, *live[i], c.len(1, 6));
                }
                break;
            case 3:  // the loader ends
                if (loaders.empty()) continue;
                VP_NOTE(c, "a loader ends\n");
                loaders.erase(loaders.begin() + c.draw(loaders.size()));
                if (loaders.empty()) outlived += live.size();
                break;
            case 4:  // a copy of the loader
                if (loaders.empty()) continue;
                VP_NOTE(c, "copy of a loader\n");
                loaders.push_back(std::make_unique<fw::BackendLoader>(*loaders[c.draw(loaders.size())]));
                break;
            case 5:  // what cannot be loaded
            {
                if (loaders.empty()) continue;
                const size_t l = c.draw(loaders.size());
                auto &file = pick_file(false);
                VP_NOTE(c, "load " << file.path.filename() << " (" << file.lib << ") by loader " << l << "\n");
                VP_CHECK(c, vp::throws([&] { (void)loaders[l]->load(file.path); }), "refusal", "'" << file.path.filename().string() << "' is not a backend library, and load() gave a backend or nothing");
                ++refused;
                break;
            }
            case 6:  // is it a backend?
            {
                auto &file = pick_file(c.flag());
                VP_NOTE(c, "is_backend " << file.path.filename() << " (" << file.lib << ")\n");
                bool answer = false;
                bool threw = true;
                answer = [&]
                {
                    try
                    {
                        const bool r = fw::BackendLoader::is_backend(file.path);
                        threw = false;
                        return r;
                    }
                    catch (const std::exception &)
                    {
                        return false;
                    }
                }();
                if (file.lib >= 0) VP_CHECK(c, !threw, "is-backend", "'" << file.path.filename().string() << "' is a library, and is_backend() threw");
                VP_EQ(c, answer, file.lib == ST || file.lib == MT || file.lib == NOTHING, "is-backend", "'" << file.path.filename().string() << "'");
                break;
            }
            case 7:  // the backend ends
                if (live.empty()) continue;
                {
                    const size_t i = c.draw(live.size());
                    VP_NOTE(c, "backend " << i << " ends\n");
                    if (c.flag()) endpoints.push_back(std::move(*live[i]->real.ep));
                    live.erase(live.begin() + i);
                }
                break;
            default:  // another thread loads and runs
            {
                auto &file = pick_file(true);
                VP_NOTE(c, "load " << file.path.filename() << " (library " << file.lib << ") in another thread\n");
                std::shared_ptr<core::Backend> b;
                std::thread(
                    [&]
                    {
                        fw::BackendLoader loader;
                        b = loader.load(file.path);
                    })
                    .join();
                live.push_back(make_pair(c, static_cast<Lib>(file.lib), b));
                run(c, *live.back(), c.len(1, 4));
                ++outlived;
                ++loads;
                if (live.size() > 4) live.erase(live.begin());
                break;
            }
        }
    }
    // Everything still works at the end, in any order of the ends.
    const bool loaders_first = c.flag();
    if (loaders_first)
    {
        loaders.clear();
        outlived += live.size();
    }
    for (auto &p : live) run(c, *p, 2);
    while (!live.empty()) live.erase(live.begin() + c.draw(live.size()));
    endpoints.clear();
    if (loads >= 2 && outlived) c.nontrivial();
    if (outlived) c.label("backend outlives its loader");
    if (refused) c.label("a load was refused");
    loaders.clear();
    vp::remove_scratch();
}

// A model run by an executor whose backend comes from a loader that is gone.
void executors(vp::Case &c)
{
    NetOptions o;
    o.neuron_types = {0};
    o.blocking = false;
    o.odd_ends = false;
    o.max_pops = 2;
    o.max_projs = 3;
    auto g = gen_net(c, o);
    note_net(c, g);
    fw::Network net(kg::make_uid(1));
    for (auto &p : g.pops) std::visit([&](auto &x) { net.add_population(x); }, p);
    for (auto &p : g.projs) std::visit([&](auto &x) { net.add_projection(x); }, p);
    const Lib lib = c.flag() ? MT : ST;
    const size_t steps = c.len(1, 10);
    std::vector<std::vector<SpikeMessage>> input;
    for (size_t s = 0; s < steps; ++s)
    {
        input.push_back(gen_input(c, g, s, false));
        note_input(c, s, input.back());
    }
    auto go = [&](std::shared_ptr<core::Backend> backend)
    {
        std::vector<std::string> out;
        fw::Model model{fw::Network(net)};
        fw::ModelLoader::InputChannelMap map;
        for (size_t ch = 0; ch < g.channels; ++ch)
        {
            bool used = false;
            for (size_t i = 0; i < g.projs.size(); ++i)
                if (g.feeds[i].count(ch))
                {
                    model.add_input_channel(channel_uid(ch), g.proj_shapes[i].uid);
                    used = true;
                }
            if (used)
                map.insert({channel_uid(ch), [&, ch](core::Step s) -> core::messaging::SpikeData
                            {
                                for (auto &m : input.at(s))
                                    if (m.header_.sender_uid_ == channel_uid(ch)) return m.neuron_indexes_;
                                return {};
                            }});
        }
        for (auto &p : g.shapes) model.add_output_channel(kg::make_uid(500), p.uid);
        fw::ModelExecutor exec(model, backend, map);
        std::vector<std::string> observed;
        exec.add_observer<SpikeMessage>([&](const std::vector<SpikeMessage> &v) { for (auto &m : v) observed.push_back(VP_STR(std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << ": " << vp::join(m.neuron_indexes_))); }, {g.shapes[0].uid});
        backend.reset();
        exec.start([&](core::Step s) { return s < steps; });
        for (auto &ch : exec.get_loader().get_outputs())
            for (auto &m : ch.read_some_from_buffer(0, steps))
            {
                auto i = m.neuron_indexes_;
                std::sort(i.begin(), i.end());
                out.push_back(VP_STR(std::string(m.header_.sender_uid_) << " at " << m.header_.send_time_ << ": " << vp::join(i)));
            }
        std::sort(out.begin(), out.end());
        std::sort(observed.begin(), observed.end());
        out.insert(out.end(), observed.begin(), observed.end());
        return out;
    };
    static size_t counter = 0;
    const fs::path file = fs::path(vp::scratch_dir()) / VP_STR("libx" << counter++ << ".so");
    fs::create_hard_link(stock(lib, c.draw(3)), file);
    auto loader = std::make_unique<fw::BackendLoader>();
    auto backend = loader->load(file);
    const bool early = c.flag();
    VP_NOTE(c, (lib == MT ? "multi" : "single") << "-threaded, " << steps << " steps, the loader ends " << (early ? "before" : "after") << " the run\n");
    if (early) loader.reset();
    const auto a = go(std::move(backend)), b = go(direct(lib));
    VP_CHECK(c, a == b, "behaviour", "with the loaded backend [" << vp::join(a, "; ") << "], with another one of its library [" << vp::join(b, "; ") << "]");
    if (!a.empty() && early) c.nontrivial();
    vp::remove_scratch();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C31",
        {
            {"history", "up to 24 operations on loaders, their copies, libraries (real backends, a backend library that makes nothing, a library that is no backend, files that are no libraries) and backends that run networks; non-trivial: at least 2 loads, and a backend that outlives its loaders", history, 4000, 2.0},
            {"executor", "models run by executors on loaded backends, compared with a backend made by the library itself; non-trivial: spikes, and the loader ended before the run", executors, 2500},
        },
        {}, {"backends of one library are compared with each other here; what a backend computes is the subject of C08-C18"});
}
