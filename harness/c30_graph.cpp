// C30: the network graph mirrors the network.
#include <knp/framework/network.h>
#include <knp/framework/tags/name.h>
#include <knp/framework/visualizer/visualize_network.h>

#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include <opencv2/core.hpp>
#include <opencv2/highgui.hpp>
#include <opencv2/imgproc.hpp>

#include "knp_net.hpp"

using namespace knp;
using Network = framework::Network;
using framework::NetworkGraph;

namespace
{
// What the visualiser draws: recorded by functions that take the place of those of OpenCV.
struct Drawing
{
    std::vector<std::string> texts;
    std::vector<cv::Point> nodes;
    std::vector<std::pair<cv::Point, cv::Point>> lines;
    size_t loops = 0, pictures = 0, keys = 0;
    cv::Size size;
} drawing;
}  // namespace

namespace cv
{
void putText(InputOutputArray, const String &text, Point, int, double, Scalar, int, int, bool)
{
    drawing.texts.push_back(text);
}
void circle(InputOutputArray, Point center, int, const Scalar &, int thickness, int, int)
{
    if (thickness < 0) drawing.nodes.push_back(center);
    else ++drawing.loops;
}
void line(InputOutputArray, Point a, Point b, const Scalar &, int, int, int)
{
    drawing.lines.emplace_back(a, b);
}
void fillConvexPoly(InputOutputArray, InputArray, const Scalar &, int, int) {}
void imshow(const String &, InputArray img)
{
    ++drawing.pictures;
    drawing.size = img.size();
}
int waitKey(int)
{
    return --drawing.keys ? 0 : 27;
}
}  // namespace cv

namespace
{
struct Net
{
    Network network{kg::make_uid(5)};
    struct Pop
    {
        core::UID uid;
        std::string name;
        size_t size, type;
    };
    struct Proj
    {
        core::UID uid;
        std::string name;
        int from, to;
        size_t size, type;
    };
    std::vector<Pop> pops;
    std::vector<Proj> projs;
};

std::string short_uid(const core::UID &u)
{
    return std::string(u).substr(0, 8);
}

void gen_network(vp::Case &c, Net &n, size_t max_pops, size_t max_projs)
{
    const bool many = c.chance(1, 30);
    const size_t pops = many ? c.range(20, 70) : c.len(0, max_pops);
    if (many) max_projs = 150;
    auto tag = [&](auto &e, const std::string &text)
    {
        // A name, none, an empty one, one of another type or another tag.
        switch (c.weighted({3, 2, 1, 2, 1, 1}))
        {
            case 0: framework::tags::set_name(e, text); return text;
            case 1: break;
            case 2: framework::tags::set_name(e, ""); break;
            case 3:
            {
                // Any text, the same one for some entities.
                std::string any;
                for (size_t i = 0, count = c.len(1, 12); i < count; ++i) any += std::string(" \t#:;,-/0aZ\xd1\x8f\n")[c.draw(14)];
                framework::tags::set_name(e, any);
                return any;
            }
            case 4: e.get_tags()["name"] = 5; break;
            default: e.get_tags()["other"] = 5; break;
        }
        return short_uid(e.get_uid());
    };
    for (size_t i = 0; i < pops; ++i)
        kg::with_neuron(
            c.draw(kg::n_neuron_types),
            [&](auto t)
            {
                using N = typename decltype(t)::type;
                core::Population<N> p(kg::make_uid((i + 1) * 0x100000), [](size_t) { return kg::nt::neuron_parameters<N>{}; }, c.len(0, 3));
                const auto name = tag(p, VP_STR("population " << i));
                core::AllPopulationsVariant v(p);
                n.pops.push_back({p.get_uid(), name, p.size(), v.index()});
                n.network.add_population(std::move(v));
            });
    auto end = [&]() -> int { return pops && !c.chance(1, 6) ? static_cast<int>(c.draw(pops)) : -1; };
    for (size_t i = 0, count = c.len(0, max_projs); i < count; ++i)
    {
        const int from = end(), to = c.chance(1, 8) ? from : end();
        // Outside the network: no UID or one of another population.
        auto uid = [&](int k) { return k >= 0 ? n.pops[k].uid : c.flag() ? core::UID(false) : kg::make_uid(77); };
        const auto uid_from = uid(from), uid_to = uid(to);
        kg::with_synapse(
            c.draw(kg::n_synapse_types),
            [&](auto t)
            {
                using S = typename decltype(t)::type;
                core::Projection<S> p(
                    kg::make_uid(200000 + i), uid_from, uid_to,
                    [](size_t) { return typename core::Projection<S>::Synapse{typename core::Projection<S>::SynapseParameters{}, 0, 0}; }, c.len(0, 3));
                const auto name = tag(p, VP_STR("projection " << i));
                core::AllProjectionsVariant v(p);
                n.projs.push_back({p.get_uid(), name, from, to, p.size(), v.index()});
                n.network.add_projection(std::move(v));
            });
    }
    if (c.noting())
    {
        for (size_t i = 0; i < pops; ++i) VP_NOTE(c, "population " << i << " of " << n.pops[i].size << " neurons, '" << n.pops[i].name << "'\n");
        for (auto &p : n.projs) VP_NOTE(c, "projection " << p.from << " -> " << p.to << " of " << p.size << " synapses, '" << p.name << "'\n");
    }
}

// Connected components by repeated merging.
std::set<std::vector<int>> components(const Net &n)
{
    std::vector<int> group(n.pops.size());
    for (size_t i = 0; i < group.size(); ++i) group[i] = static_cast<int>(i);
    for (const auto &p : n.projs)
        if (p.from >= 0 && p.to >= 0)
        {
            const int a = group[p.from], b = group[p.to];
            for (auto &g : group)
                if (g == b) g = a;
        }
    std::map<int, std::vector<int>> sets;
    for (size_t i = 0; i < group.size(); ++i) sets[group[i]].push_back(static_cast<int>(i));
    std::set<std::vector<int>> r;
    for (auto &[k, v] : sets) r.insert(v);
    return r;
}

// The order of entities in the graph is that of the network; the comparison is by UID.
void graph(vp::Case &c)
{
    Net n;
    gen_network(c, n, 8, 10);
    const NetworkGraph g(n.network);
    VP_EQ(c, g.nodes_.size(), n.pops.size(), "nodes", "nodes");
    VP_EQ(c, g.edges_.size(), n.projs.size(), "edges", "edges");
    std::map<core::UID, int> index;
    for (size_t i = 0; i < g.nodes_.size(); ++i) index[g.nodes_[i].uid_] = static_cast<int>(i);
    for (size_t i = 0; i < n.pops.size(); ++i)
    {
        const auto it = index.find(n.pops[i].uid);
        VP_CHECK(c, it != index.end(), "nodes", "no node of population " << i);
        const auto &node = g.nodes_[it->second];
        VP_EQ(c, node.size_, n.pops[i].size, "node", "size of population " << i);
        VP_EQ(c, node.name_, n.pops[i].name, "node", "name of population " << i);
        VP_EQ(c, node.type_, n.pops[i].type, "node", "type of population " << i);
    }
    auto node_of = [&](int p) { return p < 0 ? -1 : index[n.pops[p].uid]; };
    for (size_t i = 0; i < n.projs.size(); ++i)
    {
        const NetworkGraph::Edge *e = nullptr;
        for (const auto &x : g.edges_)
            if (x.uid_ == n.projs[i].uid) e = &x;
        VP_CHECK(c, e != nullptr, "edges", "no edge of projection " << i);
        VP_EQ(c, e->size_, n.projs[i].size, "edge", "size of projection " << i);
        VP_EQ(c, e->name_, n.projs[i].name, "edge", "name of projection " << i);
        VP_EQ(c, e->type_, n.projs[i].type, "edge", "type of projection " << i);
        VP_EQ(c, e->index_from_, node_of(n.projs[i].from), "edge", "source of projection " << i);
        VP_EQ(c, e->index_to_, node_of(n.projs[i].to), "edge", "target of projection " << i);
    }
    // Subgraphs, in indexes of nodes.
    std::set<std::vector<int>> expected;
    for (auto v : components(n))
    {
        for (auto &i : v) i = node_of(i);
        std::sort(v.begin(), v.end());
        expected.insert(v);
    }
    const auto parts = framework::divide_graph_by_connectivity(g);
    std::set<std::vector<int>> got(parts.begin(), parts.end());
    auto text = [](const std::set<std::vector<int>> &s)
    {
        std::string r;
        for (const auto &v : s) r += "{" + vp::join(v) + "} ";
        return r;
    };
    VP_CHECK(c, got == expected && parts.size() == expected.size(), "components", text(got) << "(" << parts.size() << "), expected " << text(expected));
    // The printed description has a line for each population.
    std::ostringstream out;
    auto *old = std::cout.rdbuf(out.rdbuf());
    framework::print_network_description(g);
    std::cout.rdbuf(old);
    std::map<int, std::pair<std::multiset<std::string>, std::multiset<std::string>>> described;
    std::istringstream lines(out.str());
    for (std::string line; std::getline(lines, line);)
    {
        if (line.empty()) continue;
        int node = -1;
        unsigned long size = 0;
        VP_CHECK(c, sscanf(line.c_str(), "Population #%d of size %lu", &node, &size) == 2, "description", line);
        VP_CHECK(c, node >= 0 && node < static_cast<int>(g.nodes_.size()) && size == g.nodes_[node].size_ && !described.count(node), "description", line);
        auto &d = described[node];
        const auto middle = line.find("; send to");
        const auto words = [](const std::string &s)
        {
            std::multiset<std::string> r;
            std::istringstream w(s);
            for (std::string x; w >> x;)
                if (x[0] == '#') r.insert(x);
            return r;
        };
        VP_CHECK(c, middle != std::string::npos && line.find("receive from") != std::string::npos, "description", line);
        d.first = words(line.substr(line.find("receive from"), middle - line.find("receive from")));
        d.second = words(line.substr(middle));
    }
    VP_EQ(c, described.size(), g.nodes_.size(), "description", "lines of populations");
    std::map<int, std::pair<std::multiset<std::string>, std::multiset<std::string>>> should;
    for (size_t i = 0; i < g.nodes_.size(); ++i) should[static_cast<int>(i)];
    for (const auto &p : n.projs)
    {
        if (p.to < 0) continue;
        should[node_of(p.to)].first.insert(p.from < 0 ? "#INPUT" : VP_STR("#" << node_of(p.from)));
        if (p.from >= 0) should[node_of(p.from)].second.insert(VP_STR("#" << node_of(p.to)));
    }
    VP_CHECK(c, described == should, "description", out.str());
    if (expected.size() >= 2 && expected.size() < n.pops.size()) c.nontrivial();
}

bool inside(const cv::Point &p, const cv::Size &size, int margin)
{
    return p.x >= margin && p.y >= margin && p.x <= size.width - margin && p.y <= size.height - margin;
}

// Positions and drawings of subgraphs.
void layout(vp::Case &c)
{
    Net n;
    gen_network(c, n, c.chance(1, 4) ? 30 : 8, c.chance(1, 4) ? 60 : 12);
    const NetworkGraph g(n.network);
    const int margin = static_cast<int>(c.len(0, 60));
    const cv::Size size(2 * margin + static_cast<int>(c.range(1, 800)), 2 * margin + static_cast<int>(c.range(1, 800)));
    const int iterations = static_cast<int>(c.chance(1, 8) ? c.range(0, 400) : c.len(0, 30));
    std::vector<std::vector<int>> sets = framework::divide_graph_by_connectivity(g);
    // Any other set of nodes, in any order.
    if (!n.pops.empty())
    {
        std::vector<int> any;
        for (size_t i = 0; i < n.pops.size(); ++i)
            if (c.flag()) any.insert(any.begin() + static_cast<long>(c.draw(any.size() + 1)), static_cast<int>(i));
        sets.push_back(any);
    }
    VP_NOTE(c, "picture " << size.width << " x " << size.height << ", margin " << margin << ", " << iterations << " iterations\n");
    for (const auto &nodes : sets)
    {
        VP_NOTE(c, "nodes " << vp::join(nodes) << "\n");
        cv::theRNG().state = 1 + c.draw(1000000);
        const auto points = framework::position_network(g, nodes, size, margin, iterations);
        VP_EQ(c, points.size(), nodes.size(), "positions", "points of " << vp::join(nodes));
        for (size_t i = 0; i < points.size(); ++i) VP_CHECK(c, inside(points[i], size, margin), "positions", "node " << nodes[i] << " at " << points[i]);
        // The nodes do not end up in one point: the extent of the graph fills the picture.
        if (nodes.size() >= 2)
        {
            int w = 0, h = 0;
            for (const auto &a : points)
                for (const auto &b : points)
                {
                    w = std::max(w, std::abs(a.x - b.x));
                    h = std::max(h, std::abs(a.y - b.y));
                }
            VP_CHECK(c, w + 2 >= size.width - 2 * margin || h + 2 >= size.height - 2 * margin, "extent", w << " x " << h);
        }
        // Only edges between these nodes matter.
        {
            auto inner = g;
            inner.edges_.clear();
            auto drawn = [&](int k) { return std::find(nodes.begin(), nodes.end(), k) != nodes.end(); };
            for (const auto &e : g.edges_)
                if (drawn(e.index_from_) && drawn(e.index_to_)) inner.edges_.push_back(e);
            const uint64_t seed = 1 + c.draw(1000000);
            cv::theRNG().state = seed;
            const auto with_all = framework::position_network(g, nodes, size, margin, iterations);
            cv::theRNG().state = seed;
            const auto with_inner = framework::position_network(inner, nodes, size, margin, iterations);
            VP_CHECK(c, with_all == with_inner, "other edges", vp::join(with_all) << " became " << vp::join(with_inner) << " without the edges of other nodes");
        }
        drawing = Drawing();
        drawing.keys = c.len(1, 3);
        const size_t pictures = drawing.keys;
        framework::position_network_test(g, nodes, size, margin);
        VP_EQ(c, drawing.pictures, pictures, "drawing", "pictures");
        VP_CHECK(c, drawing.size == size, "drawing", "size " << drawing.size);
        std::vector<std::string> names;
        for (size_t k = 0; k < pictures; ++k)
            for (auto i : nodes) names.push_back(g.nodes_[i].name_);
        VP_CHECK(c, drawing.texts == names, "drawing", "names " << vp::join(drawing.texts, ", ") << ", expected " << vp::join(names, ", "));
        VP_EQ(c, drawing.nodes.size(), nodes.size() * pictures, "drawing", "circles of nodes");
        for (const auto &p : drawing.nodes) VP_CHECK(c, inside(p, size, margin), "drawing", "node at " << p);
        // Lines between the nodes of the set, an arrow for each input, loops of nodes connected to themselves.
        std::vector<int> at(g.nodes_.size(), -1);
        for (size_t i = 0; i < nodes.size(); ++i) at[nodes[i]] = static_cast<int>(i);
        size_t loops = 0, lines = 0;
        std::vector<std::pair<size_t, size_t>> wanted;
        for (const auto &e : g.edges_)
        {
            if (e.index_to_ < 0 || at[e.index_to_] < 0) continue;
            if (e.index_from_ == e.index_to_) ++loops;
            else if (e.index_from_ < 0) ++lines;
            else if (at[e.index_from_] >= 0)
            {
                ++lines;
                wanted.emplace_back(at[e.index_from_], at[e.index_to_]);
            }
        }
        VP_EQ(c, drawing.loops, loops * pictures, "drawing", "loops");
        VP_EQ(c, drawing.lines.size(), lines * pictures, "drawing", "lines");
        // In the last picture every edge has a line from its source to its target.
        if (!nodes.empty())
        {
            const size_t first = drawing.nodes.size() - nodes.size();
            for (const auto &[a, b] : wanted)
            {
                bool found = false;
                for (size_t k = lines * (pictures - 1); k < drawing.lines.size(); ++k)
                    if (drawing.lines[k].first == drawing.nodes[first + a] && drawing.lines[k].second == drawing.nodes[first + b]) found = true;
                VP_CHECK(c, found, "drawing", "no line from node " << nodes[a] << " to node " << nodes[b]);
            }
        }
        if (nodes.size() >= 3 && !wanted.empty()) c.nontrivial();
    }
}
// Connected nodes are drawn closer to each other than to the ones without edges.
void springs(vp::Case &c)
{
    Network network;
    std::vector<core::UID> uids;
    for (size_t i = 0; i < 4; ++i)
    {
        uids.push_back(kg::make_uid(10 + i));
        network.add_population(core::Population<kg::nt::BLIFATNeuron>(uids[i], [](size_t) { return kg::nt::neuron_parameters<kg::nt::BLIFATNeuron>{}; }, 1));
    }
    const size_t from = c.draw(4), to = (from + 1 + c.draw(3)) % 4;
    network.add_projection(core::Projection<kg::st::DeltaSynapse>(uids[from], uids[to]));
    const NetworkGraph g(network);
    std::vector<int> nodes;
    for (int i = 0; i < 4; ++i) nodes.insert(nodes.begin() + static_cast<long>(c.draw(nodes.size() + 1)), i);
    const int iterations = static_cast<int>(c.range(300, 500));
    VP_NOTE(c, from << " -> " << to << " of " << vp::join(nodes) << ", " << iterations << " iterations\n");
    cv::theRNG().state = 1 + c.draw(100000000);
    const auto points = framework::position_network(g, nodes, cv::Size(1000, 1000), 10, iterations);
    cv::Point at[4];
    for (size_t i = 0; i < 4; ++i) at[nodes[i]] = points[i];
    auto node = [&](size_t population)
    {
        for (size_t i = 0; i < 4; ++i)
            if (g.nodes_[i].uid_ == uids[population]) return at[i];
        return cv::Point();
    };
    auto distance = [&](size_t a, size_t b) { return cv::norm(node(a) - node(b)); };
    for (size_t a = 0; a < 4; ++a)
        for (size_t b = 0; b < a; ++b)
            if (!((a == from && b == to) || (a == to && b == from)))
                VP_CHECK(c, distance(from, to) < distance(a, b), "springs", "distance of connected nodes " << distance(from, to) << ", of " << a << " and " << b << " " << distance(a, b));
    c.nontrivial();
}

// Nodes with many neighbours: a star, every node with every other one, or a part of that.
void dense(vp::Case &c)
{
    Network network;
    const size_t count = c.range(2, 160);
    std::vector<core::UID> uids;
    for (size_t i = 0; i < count; ++i)
    {
        uids.push_back(kg::make_uid(10 + i));
        network.add_population(core::Population<kg::nt::BLIFATNeuron>(uids[i], [](size_t) { return kg::nt::neuron_parameters<kg::nt::BLIFATNeuron>{}; }, 0));
    }
    network.add_projection(core::Projection<kg::st::DeltaSynapse>(uids[0], uids[1]));
    NetworkGraph g(network);
    const auto edge = g.edges_.at(0);
    const size_t kind = c.draw(3), share = c.range(1, 4);
    g.edges_.clear();
    auto add = [&](size_t a, size_t b)
    {
        g.edges_.push_back(edge);
        g.edges_.back().index_from_ = static_cast<int>(a);
        g.edges_.back().index_to_ = static_cast<int>(b);
    };
    if (kind == 0)
    {
        const size_t centre = c.draw(count);
        for (size_t i = 0; i < count; ++i)
            if (i != centre) c.flag() ? add(i, centre) : add(centre, i);
    }
    else
        for (size_t i = 0; i < count; ++i)
            for (size_t k = 0; k < i; ++k)
                if (kind == 1 || (i * 31 + k * 17) % 4 < share) add(i, k);
    std::vector<int> nodes;
    for (size_t i = 0; i < count; ++i) nodes.push_back(static_cast<int>(i));
    const int margin = static_cast<int>(c.len(0, 60)), iterations = static_cast<int>(c.chance(1, 3) ? c.range(300, 1000) : c.range(0, 100));
    const cv::Size size(2 * margin + static_cast<int>(c.range(1, 800)), 2 * margin + static_cast<int>(c.range(1, 800)));
    VP_NOTE(c, count << " nodes, " << g.edges_.size() << " edges, picture " << size.width << " x " << size.height << ", margin " << margin << ", " << iterations << " iterations\n");
    cv::theRNG().state = 1 + c.draw(100000000);
    const auto points = framework::position_network(g, nodes, size, margin, iterations);
    VP_EQ(c, points.size(), nodes.size(), "positions", "points");
    for (size_t i = 0; i < points.size(); ++i) VP_CHECK(c, inside(points[i], size, margin), "positions", "node " << nodes[i] << " at " << points[i]);
    int w = 0, h = 0;
    for (const auto &a : points)
        for (const auto &b : points)
        {
            w = std::max(w, std::abs(a.x - b.x));
            h = std::max(h, std::abs(a.y - b.y));
        }
    VP_CHECK(c, w + 2 >= size.width - 2 * margin || h + 2 >= size.height - 2 * margin, "extent", w << " x " << h);
    if (count > 90) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C30",
        {
            {"graph", "0-8 populations and 0-10 projections of every type, with ends in the network or outside it, named or not; non-trivial: 2 or more subgraphs, one with several nodes", graph, 10000},
            {"layout", "positions and drawings of subgraphs and other sets of nodes of up to 30; non-trivial: 3 or more nodes with an edge", layout, 3000},
            {"dense", "positions of up to 160 nodes of a star or of a graph where nodes are neighbours of all others or of a part of them; non-trivial: more than 90 nodes", dense, 300},
            {"springs", "4 nodes with one edge between two of them after 300 to 500 iterations", springs, 200},
        },
        {}, {"drawing functions of OpenCV are replaced by ones that record their arguments"});
}
