// C09: AltAI LIF neurons follow their documented dynamics.
#include "neuron_check.hpp"

using namespace sim;

int main(int argc, char **argv)
{
    const std::string rule =
        "population of 1-7 neurons with generated modes and parameters, up to 40 steps with up to 2 messages of generated impacts each; "
        "spikes and all neuron parameters compared with the reference model after every step; non-trivial: spikes at two or more steps and silence after a spike";
    return vp::run_main(
        argc, argv, "C09",
        {
            {"altai", rule, [](vp::Case &c) { neuron_run<Altai>(c, Config{}, 2); }, 24000},
            {"stdp_altai", rule, [](vp::Case &c) { neuron_run<StdpAltai>(c, Config{}, 4); }, 12000},
            {"altai_lasting", "the same with periods of up to 300 steps, for 300-700 steps; non-trivial as above",
             [](vp::Case &c) { neuron_run<Altai>(c, Config{}, 2, true); }, 300, 0.3},
            {"unsupported_impact", "an impact of a type AltAI neurons do not support among valid ones; every case non-trivial",
             [](vp::Case &c) { unsupported_run<Altai>(c, 2); }, 500, 0.2},
        },
        {}, {"the multi-threaded backend does not support AltAI neurons",
             "several blocking impacts on one neuron within a step carry the same value (their order is not specified)"});
}
