// C10: LIF neurons follow their documented dynamics.
#include "neuron_check.hpp"

using namespace sim;

int main(int argc, char **argv)
{
    const std::string rule =
        "population of 1-7 neurons with generated parameters, up to 40 steps with up to 2 messages of generated impacts each; "
        "spikes and all neuron parameters compared with the reference model after every step; non-trivial: spikes at two or more steps and silence after a spike";
    return vp::run_main(
        argc, argv, "C10",
        {
            {"lif_single", rule, [](vp::Case &c) { neuron_run<Lif>(c, Config{}, 1); }, 24000},
            {"lif_multi", rule, [](vp::Case &c) { neuron_run<Lif>(c, multi_config(c), 1); }, 6000},
            {"lif_lasting", "the same with periods of up to 300 steps, for 300-700 steps; non-trivial as above",
             [](vp::Case &c) { neuron_run<Lif>(c, c.chance(1, 3) ? multi_config(c) : Config{}, 1, true); }, 300, 0.3},
            {"unsupported_impact", "an impact of a type LIF neurons do not support among valid ones; every case non-trivial",
             [](vp::Case &c) { unsupported_run<Lif>(c, 1); }, 500, 0.2},
        });
}
