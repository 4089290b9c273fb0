// C25: population creators, names and coordinates produce exactly what they promise.
#include <knp/framework/coordinates/cartesian.h>
#include <knp/framework/coordinates/generator.h>
#include <knp/framework/coordinates/polar.h>
#include <knp/framework/population/creators.h>
#include <knp/framework/tags/name.h>

#include <deque>

#include "knp_gen.hpp"

using namespace knp;
namespace cr = knp::framework::population::creators;
namespace ng = knp::framework::population::neurons_generators;
namespace co = knp::framework::coordinates;

namespace
{
template <class N>
using Params = typename core::Population<N>::NeuronParameters;

template <class N>
void check_population(vp::Case &c, const core::Population<N> &p, const std::vector<Params<N>> &expected)
{
    VP_EQ(c, p.size(), expected.size(), "size", "number of neurons");
    VP_CHECK(c, bool(p.get_uid()), "uid", "UID of the population");
    for (size_t i = 0; i < expected.size(); ++i)
    {
        const auto a = kg::neuron_str<N>(p[i]), e = kg::neuron_str<N>(expected[i]);
        VP_CHECK(c, a == e, "parameters", "neuron " << i << ": " << a << ", expected " << e);
    }
}

template <class N>
void populations(vp::Case &c)
{
    const size_t n = c.chance(1, 25) ? c.len(0, 1500) : c.len(0, 24);
    switch (c.draw(6))
    {
        case 0:
        case 1:
        {
            VP_NOTE(c, "container of " << n << "\n");
            std::vector<Params<N>> v;
            for (size_t i = 0; i < n && i < 24; ++i) v.push_back(kg::arbitrary_neuron<N>(c));
            // Of many, the further ones differ from those in their potential only.
            for (size_t i = v.size(); i < n; ++i)
            {
                v.push_back(v[i % 24]);
                v.back().potential_ = static_cast<decltype(v.back().potential_)>(i);
            }
            if (c.flag()) check_population(c, cr::from_container<N, std::vector>(v), v);
            else check_population(c, cr::from_container<N, std::deque>(std::deque<Params<N>>(v.begin(), v.end())), v);
            core::Population<N> part(kg::make_uid(3), ng::from_container<N, std::vector>(v), n / 2);
            check_population(c, part, std::vector<Params<N>>(v.begin(), v.begin() + static_cast<std::ptrdiff_t>(n / 2)));
            break;
        }
        case 2:
            VP_NOTE(c, n << " default neurons\n");
            check_population(c, cr::make_default<N>(n), std::vector<Params<N>>(n));
            check_population(c, core::Population<N>(kg::make_uid(3), ng::make_default<N>(), n), std::vector<Params<N>>(n));
            break;
        case 3:
        {
            VP_NOTE(c, n << " clones\n");
            const auto p = kg::arbitrary_neuron<N>(c);
            check_population(c, cr::make_clone<N>(n, p), std::vector<Params<N>>(n, p));
            auto gen = ng::make_clone<N>(p);
            check_population(c, core::Population<N>(kg::make_uid(3), gen, n), std::vector<Params<N>>(n, p));
            break;
        }
        case 4:
        {
            // Random bytes: the requested number, all different.
            VP_NOTE(c, n << " random neurons\n");
            ng::MakeRandom<N> one, other;
            std::set<std::vector<uint8_t>> seen;
            std::vector<bool> varies(256);
            for (size_t i = 0; i < n; ++i)
            {
                auto add = [&](ng::MakeRandom<N> &g)
                {
                    std::vector<uint8_t> bytes(sizeof(Params<N>));
                    const auto p = g(i);
                    std::memcpy(bytes.data(), &p, bytes.size());
                    for (auto b : bytes) varies[b] = true;
                    VP_CHECK(c, seen.insert(bytes).second, "random", "two random neurons are the same");
                };
                add(one);
                add(other);
            }
            if (n >= 20) VP_CHECK(c, std::count(varies.begin(), varies.end(), true) >= 200, "random", "random bytes of " << std::count(varies.begin(), varies.end(), true) << " values only");
            VP_EQ(c, cr::make_random<N>(n).size(), n, "size", "number of random neurons");
            break;
        }
        default:
        {
            // Populations made by creators have UIDs of their own.
            auto a = cr::make_default<N>(n), b = cr::make_default<N>(n);
            VP_CHECK(c, !(a.get_uid() == b.get_uid()), "uid", "two populations have one UID");
            // Names.
            const char *names[] = {"a", "", "name", "two words", "\xd0\x9a", "INPUT"};
            VP_EQ(c, framework::tags::get_name(a), std::string(a.get_uid()), "name", "name of a population without name");
            std::string last = std::string(a.get_uid());
            for (size_t k = c.len(0, 4); k; --k)
            {
                const std::string s = names[c.draw(6)];
                auto &who = c.chance(1, 4) ? b : a;
                framework::tags::set_name(who, s);
                if (&who == &a) last = s;
                VP_EQ(c, framework::tags::get_name(who), s, "name", "name");
                VP_EQ(c, framework::tags::get_name(a), last, "name", "name of the first population");
                auto copy = a;
                VP_EQ(c, framework::tags::get_name(copy), last, "name", "name of a copy");
            }
        }
    }
    if (n >= 2) c.nontrivial();
}

template <class T>
T number(vp::Case &c)
{
    if constexpr (std::is_floating_point_v<T>) return static_cast<T>(c.dyadic(1000, 6));
    else if constexpr (std::is_signed_v<T>) return static_cast<T>(c.range_near(-1000, 1000, 0));
    else return static_cast<T>(c.draw(100000));
}

// Components stay as they were set; setting one leaves the others. They survive as tags and through generators.
template <class T>
void coordinates(vp::Case &c)
{
    T v[3] = {number<T>(c), number<T>(c), number<T>(c)};
    co::cartesian::d2::coordinate<T> c2(v[0], v[1]);
    co::cartesian::d3::coordinate<T> c3(v[0], v[1], v[2]);
    co::radial::d2::coordinate<T> p2(v[0], v[1]);
    co::radial::d3::coordinate<T> p3(v[0], v[1], v[2]);
    co::radial::d2::coordinate<T, boost::geometry::radian> r2(v[0], v[1]);
    co::radial::d3::coordinate<T, boost::geometry::radian> r3(v[0], v[1], v[2]);
    T e2[2] = {v[0], v[1]}, e3[3] = {v[0], v[1], v[2]};
    auto check = [&]
    {
        VP_CHECK(c, c2.x() == e2[0] && c2.y() == e2[1], "cartesian-2d", "(" << c2.x() << ", " << c2.y() << "), expected (" << e2[0] << ", " << e2[1] << ")");
        VP_CHECK(c, c3.x() == e3[0] && c3.y() == e3[1] && c3.z() == e3[2], "cartesian-3d", "(" << c3.x() << ", " << c3.y() << ", " << c3.z() << "), expected (" << e3[0] << ", " << e3[1] << ", " << e3[2] << ")");
        VP_CHECK(c, p2.radius() == e2[0] && p2.phi() == e2[1] && r2.radius() == e2[0] && r2.phi() == e2[1], "polar", "(" << p2.radius() << ", " << p2.phi() << "), expected (" << e2[0] << ", " << e2[1] << ")");
        VP_CHECK(
            c, p3.radius() == e3[0] && p3.theta() == e3[1] && p3.phi() == e3[2] && r3.radius() == e3[0] && r3.theta() == e3[1] && r3.phi() == e3[2], "spherical",
            "(" << p3.radius() << ", " << p3.theta() << ", " << p3.phi() << "), expected (" << e3[0] << ", " << e3[1] << ", " << e3[2] << ")");
        VP_CHECK(c, p3.template get<0>() == e3[0] && p3.template get<1>() == e3[1] && p3.template get<2>() == e3[2], "spherical", "components as a point of boost");
    };
    check();
    size_t changes = 0;
    for (size_t k = c.len(0, 8); k; --k, ++changes)
    {
        const T x = number<T>(c);
        switch (c.draw(5))
        {
            case 0:
                c2.x(x);
                p2.radius(x);
                r2.radius(x);
                e2[0] = x;
                break;
            case 1:
                c2.y(x);
                p2.phi(x);
                r2.phi(x);
                e2[1] = x;
                break;
            case 2:
                c3.x(x);
                p3.radius(x);
                r3.radius(x);
                e3[0] = x;
                break;
            case 3:
                c3.y(x);
                p3.theta(x);
                r3.theta(x);
                e3[1] = x;
                break;
            default:
                c3.z(x);
                p3.phi(x);
                r3.phi(x);
                e3[2] = x;
        }
        check();
    }
    auto pop = cr::make_default<kg::nt::BLIFATNeuron>(3);
    pop.get_tags()[co::radial::d3::coordinate_tag_name] = p3;
    pop.get_tags()[co::cartesian::d2::coordinate_tag_name] = c2;
    pop.get_tags()[co::cartesian::d3::coordinate_tag_name] = c3;
    pop.get_tags()[co::radial::d2::coordinate_tag_name] = p2;
    const auto copy = pop;
    auto tags = copy.get_tags();
    const auto q = tags.template get_tag<co::radial::d3::coordinate<T>>(co::radial::d3::coordinate_tag_name);
    const auto q2 = tags.template get_tag<co::radial::d2::coordinate<T>>(co::radial::d2::coordinate_tag_name);
    const auto x2 = tags.template get_tag<co::cartesian::d2::coordinate<T>>(co::cartesian::d2::coordinate_tag_name);
    const auto x3 = tags.template get_tag<co::cartesian::d3::coordinate<T>>(co::cartesian::d3::coordinate_tag_name);
    VP_CHECK(c, q.radius() == e3[0] && q.theta() == e3[1] && q.phi() == e3[2] && q2.radius() == e2[0] && q2.phi() == e2[1], "tag", "radial coordinates in tags");
    VP_CHECK(c, x3.x() == e3[0] && x3.y() == e3[1] && x3.z() == e3[2] && x2.x() == e2[0] && x2.y() == e2[1], "tag", "Cartesian coordinates in tags");
    const co::CoordinateGenerator gen = [&](size_t i) -> std::any { return co::cartesian::d2::coordinate<T>(static_cast<T>(i), e2[1]); };
    for (size_t i = 0; i < 3; ++i)
    {
        const auto g = std::any_cast<co::cartesian::d2::coordinate<T>>(gen(i));
        VP_CHECK(c, g.x() == static_cast<T>(i) && g.y() == e2[1], "generator", "coordinate of neuron " << i);
    }
    const co::radial::d2::coordinate<T> z2{};
    const co::radial::d3::coordinate<T> z3{};
    VP_CHECK(c, z2.radius() == T(0) && z2.phi() == T(0) && z3.radius() == T(0) && z3.theta() == T(0) && z3.phi() == T(0), "default", "default coordinates are not the origin");
    if (changes >= 2) c.nontrivial();
}

}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C25",
        {
            {"populations", "0-1500 (mostly up to 24) neurons of any type from a container, by default, cloned or random; non-trivial: at least 2 neurons",
             [](vp::Case &c)
             {
                 switch (c.draw(5))
                 {
                     case 0: return populations<kg::nt::BLIFATNeuron>(c);
                     case 1: return populations<kg::nt::LIFNeuron>(c);
                     case 2: return populations<kg::nt::AltAILIF>(c);
                     case 3: return populations<kg::nt::SynapticResourceSTDPBLIFATNeuron>(c);
                     default: return populations<kg::nt::SynapticResourceSTDPAltAILIFNeuron>(c);
                 }
             },
             30000},
            {"coordinates", "Cartesian and radial points of five number types with up to 8 changes; non-trivial: at least 2 changes",
             [](vp::Case &c)
             {
                 switch (c.draw(5))
                 {
                     case 0: return coordinates<double>(c);
                     case 1: return coordinates<float>(c);
                     case 2: return coordinates<int>(c);
                     case 3: return coordinates<size_t>(c);
                     default: return coordinates<int64_t>(c);
                 }
             },
             20000},
        },
        {}, {});
}
