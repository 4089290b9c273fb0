// C08: BLIFAT neurons follow their documented dynamics.
#include "neuron_check.hpp"

using namespace sim;

int main(int argc, char **argv)
{
    const std::string rule =
        "population of 1-7 neurons with generated parameters, up to 40 steps with up to 2 messages of generated impacts each; "
        "spikes and all neuron parameters compared with the reference model after every step; non-trivial: spikes at two or more steps and silence after a spike";
    return vp::run_main(
        argc, argv, "C08",
        {
            {"blifat_single", rule, [](vp::Case &c) { neuron_run<Blifat>(c, Config{}, 0); }, 24000},
            {"blifat_multi", rule, [](vp::Case &c) { neuron_run<Blifat>(c, multi_config(c), 0); }, 6000},
            {"stdp_blifat_single", rule, [](vp::Case &c) { neuron_run<StdpBlifat>(c, Config{}, 3); }, 12000},
            {"stdp_blifat_multi", rule, [](vp::Case &c) { neuron_run<StdpBlifat>(c, multi_config(c), 3); }, 3000},
            {"blifat_lasting", "the same with periods of up to 300 steps, for 300-700 steps; non-trivial as above",
             [](vp::Case &c) { neuron_run<Blifat>(c, c.chance(1, 3) ? multi_config(c) : Config{}, 0, true); }, 300, 0.3},
            {"unknown_impact", "an impact of a type that does not exist among valid ones; every case non-trivial",
             [](vp::Case &c) { unsupported_run<Blifat>(c, 0); }, 500, 0.2},
        },
        {}, {"potentials are compared with a relative tolerance of 1e-9; a run ends where a threshold comparison depends on rounding",
             "several blocking impacts on one neuron within a step carry the same value (their order is not specified)"});
}
