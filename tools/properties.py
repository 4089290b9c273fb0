CL = "knp/core-library/"
BF = "knp/base-framework/"
CPU = "knp/backends/cpu/"
LIB = CPU + "cpu-library/include/knp/backends/cpu-library/"
PBT = "generated search on the real library against a stated oracle; a pass means no counterexample in the cases counted in the evidence. Trusts the harness, the compiler and the sanitizer runtime."

prop("C01", "A population is an exact, editable sequence of neurons",
     "After any history of constructing, adding (with generators that may yield nothing), replacing, removing one or several neurons, copying and tagging, a population contains exactly the neurons that history implies, in order, with every parameter unchanged. Removing a list of indexes removes exactly those neurons whatever the order of the list. Every access path (index, iteration, bulk getters) shows the same content and the UID never changes.",
     ["histories", "inputs"], "every history of population edits, for every neuron type and parameter values",
     "The tests add and remove neurons once, in ascending order, with default parameters.",
     [CL + "include/knp/core/population.h", CL + "impl/population.cpp", CL + "include/knp/core/tag.h"],
     [("vector edits", CL + "include/knp/core/population.h: add_neurons, remove_neurons, remove_neuron")],
     ["Population public API"], ["c01_population"], "stateful property-based testing against a std::vector model", PBT)

prop("C02", "A projection is an exact, editable, searchable sequence of synapses",
     "After any history of adding, removing (by index, by predicate, by presynaptic or postsynaptic neuron), clearing, copying and editing synapses, a projection holds exactly the synapses that history implies, in order, and each edit reports how many synapses it added or removed. Searching by presynaptic or postsynaptic neuron returns exactly the indexes of the synapses of that neuron, however searches and edits are interleaved, also when a generator or predicate itself searches in the projection or throws.",
     ["histories", "inputs"], "every interleaving of edits and searches, for every synapse type",
     "The tests search once after construction and remove once; the lazily rebuilt index is stale only after particular interleavings.",
     [CL + "include/knp/core/projection.h", CL + "impl/projection.cpp"],
     [("lazy multi-index", CL + "impl/projection.cpp: reindex, find_synapses"), ("edits invalidate the index", CL + "impl/projection.cpp")],
     ["Projection public API"], ["c02_projection"], "stateful property-based testing against a std::vector model", PBT,
     state=[("is_index_updated_", "the search index matches the synapses", CL + "include/knp/core/projection.h")])

prop("C03", "UIDs identify and tags keep what was stored",
     "Two UIDs are equal exactly when their 16 bytes are; ordering, hashing, conversion to bool and text are consistent with that, and text reads back to the same UID. Generated UIDs are non-nil and distinct. A tag map returns for every name exactly the last value stored under it, rejects a missing name or a wrong type by an exception in its typed read-only access, and never mixes names.",
     ["inputs", "histories"], "every pair/triple of UIDs and every history of tag operations",
     "The tests compare a handful of UIDs and one tag.",
     [CL + "include/knp/core/uid.h", CL + "impl/uid.cpp", CL + "include/knp/core/tag.h"],
     [("UID operators", CL + "include/knp/core/uid.h"), ("TagMap", CL + "include/knp/core/tag.h")],
     ["UID and TagMap public API"], ["c03_identity"], "property-based testing (algebraic laws, round trip, map model)", PBT)

prop("C04", "Messages reach exactly their subscribers, once and in order",
     "For any history of creating endpoints, subscribing, adding and removing senders, unsubscribing, removing receivers, sending and routing, every subscription receives exactly the routed messages of its message type whose sender it is subscribed to: each once, unaltered, in the order they were sent, and nothing else. An endpoint that was destroyed or moved disturbs no other endpoint, and the in-process and the ZMQ bus deliver the same messages, as does a backend on the bus it was given.",
     ["histories", "inputs"], "every history of bus, endpoint and subscription operations on both transports",
     "The tests exchange one or two messages between two endpoints created up front.",
     [CL + "impl/message_bus.cpp", CL + "impl/message_endpoint.cpp", CL + "impl/subscription.cpp", CL + "impl/message_bus_cpu_impl", CL + "impl/message_bus_zmq_impl", CL + "include/knp/core/message_endpoint.h"],
     [("route all messages", CL + "impl/message_bus.cpp: route_messages"), ("per-endpoint queues", CL + "impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h"), ("sender/receiver matching", CL + "impl/message_endpoint.cpp: receive_all_messages")],
     ["MessageEndpoint::unload_messages, Subscription::get_messages"], ["c04_bus"], "stateful model-based testing, differential between transports", PBT)

prop("C05", "Concurrent senders and routers lose or duplicate no message",
     "When several threads send through their own endpoints of one in-process bus while another thread routes and receivers read, no data race occurs and every message is delivered exactly once to each subscriber, keeping the order of each sender.",
     ["schedules", "histories"], "thread schedules of senders, router and receivers on the in-process bus",
     "No test uses the bus from more than one thread.",
     [CL + "impl/message_bus_cpu_impl"],
     [("mutex of the bus and the endpoints", CL + "impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp")],
     ["Subscription::get_messages of each receiver"], [("c05_bus_threads", "tsan", {})], "randomised thread schedules under ThreadSanitizer, history oracle", PBT + " Schedules are sampled, not enumerated.")

prop("C06", "Messages survive serialisation unchanged",
     "Packing any spike or synaptic impact message into an envelope and extracting it yields an equal message; writing any message with finite values to a text stream of sufficient precision and reading it back does too, whatever the target object contained before. Two messages are equal exactly when all their fields are, and an envelope of an unknown kind is rejected by an exception.",
     ["inputs"], "every message content: any UIDs, steps, indexes, impact values and types, any length including none",
     "The tests round-trip one fixed message of each kind.",
     [CL + "impl/messaging", CL + "include/knp/core/messaging"],
     [("flatbuffers packing", CL + "impl/messaging/message_envelope.cpp"), ("stream operators", CL + "impl/messaging/spike_message.cpp"), ("stream operators", CL + "impl/messaging/synaptic_impact_message.cpp")],
     ["pack_to_envelope / extract_from_envelope, operator<< / operator>>"], ["c06_messages"], "round-trip property-based testing", PBT)

prop("C07", "Networks and models hold exactly what was put into them",
     "After any history of adding, finding and removing populations and projections, a network contains exactly the entities that history implies, finds each by UID, counts them, iterates over each once, and rejects unknown UIDs and (in its typed add functions) duplicates by an exception. A model keeps its network and its input and output channel-to-entity associations exactly as added.",
     ["histories"], "every history of network and model edits over all neuron and synapse types",
     "The tests add and remove one or two entities.",
     [BF + "impl/network.cpp", BF + "include/knp/framework/network.h", BF + "impl/model.cpp", BF + "include/knp/framework/model.h"],
     [("variant containers searched by UID", BF + "impl/network.cpp")],
     ["Network and Model public API"], ["c07_network"], "stateful property-based testing against a map model", PBT)

prop("C08", "BLIFAT neurons follow their documented dynamics",
     "On every CPU backend, for any parameters and any sequence of received impacts, a BLIFAT neuron's state evolves exactly as its documented equations: decay of potential, dynamic threshold, trace and inhibitory conductance, bursting, impacts by type, blocking, conductance inhibition toward the reversal potential, threshold crossing outside the refractory period, reset and clamping. Exactly the neurons that cross the threshold at a step are reported in that step's spike message.",
     ["inputs", "histories"], "all parameter combinations and impact sequences",
     "The tests drive one neuron with default-like parameters for 20 steps and look at the spike times only.",
     [LIB + "impl/populations/blifat/blifat_impl.h", LIB + "impl/populations/population_dispatcher.h", "knp/neuron-traits-library/include/knp/neuron-traits/blifat.h"],
     [("three phases of a step", LIB + "impl/populations/blifat/blifat_impl.h")],
     ["spike messages and neuron parameters read back from the backend"], ["c08_blifat"], "differential testing against a reference model", PBT)

prop("C09", "AltAI neurons follow their documented dynamics",
     "On every CPU backend, for any parameters and any sequence of received impacts, an AltAI LIF neuron's state evolves exactly as its documented rules: rounding or dropping of the saved potential, leak with its reversal, positive and negative thresholds, subtract/reset/saturate modes and blocking by activity time. Exactly the neurons that fire at a step are reported in that step's spike message.",
     ["inputs", "histories"], "all mode combinations, parameters and impact sequences",
     "The tests run one network with one mode combination.",
     [LIB + "impl/populations/altai/altai_impl.h", "knp/neuron-traits-library/include/knp/neuron-traits/altai_lif.h"],
     [("three phases of a step", LIB + "impl/populations/altai/altai_impl.h")],
     ["spike messages and neuron parameters read back from the backend"], ["c09_altai"], "differential testing against a reference model", PBT)

prop("C10", "LIF neurons follow their documented dynamics",
     "On every CPU backend, for any parameters and any sequence of received impacts, a LIF neuron leaks, integrates impacts only outside its refractory period, fires when its potential exceeds the threshold, is reset then, and stays silent for exactly its refractory period. Impact types a LIF neuron does not support are rejected by an exception.",
     ["inputs", "histories"], "all parameters and impact sequences",
     "The tests run a single LIF network with fixed parameters.",
     [LIB + "impl/populations/lif/lif_impl.h", "knp/neuron-traits-library/include/knp/neuron-traits/lif.h"],
     [("three phases of a step", LIB + "impl/populations/lif/lif_impl.h")],
     ["spike messages and neuron parameters read back from the backend"], ["c10_lif"], "differential testing against a reference model", PBT)

prop("C11", "A spike is delivered through every synapse exactly once, after its delay",
     "In any network, each spike a population emits (or an input channel injects) at a step produces, through every synapse of every projection fed by that population, exactly one impact with that synapse's current weight, type and end points, and it reaches the postsynaptic population exactly the synapse's delay later; nothing else is delivered. Spikes repeated within a message count as many times as they occur.",
     ["inputs", "histories", "programs"], "all network topologies (recurrent, shared, several projections between the same populations, unconnected), delays, weights and input histories",
     "The tests use networks of one to three neurons with a single delay.",
     [LIB + "impl/projections", CPU + "cpu-single-threaded-backend/impl/backend.cpp", CPU + "cpu-multi-threaded-backend/impl/backend.cpp"],
     [("future message queue", LIB + "impl/projections/message_queue.h"), ("delta projection", LIB + "impl/projections/delta/delta_impl.h"), ("step order", CPU + "cpu-single-threaded-backend/impl/backend.cpp: _step")],
     ["synaptic impact and spike messages seen by a subscribed endpoint, neuron state"], ["c11_delivery"], "differential testing of whole networks against a reference simulator", PBT)

prop("C12", "The multi-threaded backend computes what the single-threaded one does",
     "For any network of the types both support and any history of input spikes, the multi-threaded backend emits at every step the same spikes and impacts and ends in the same neuron and synapse state as the single-threaded backend, for every number of threads and every part size of populations and projections.",
     ["programs", "configurations", "schedules"], "all networks, inputs, thread counts and part sizes",
     "The tests run the multi-threaded backend on single-neuron networks, where there is nothing to divide.",
     [CPU + "cpu-multi-threaded-backend/impl/backend.cpp", CPU + "cpu-single-threaded-backend/impl/backend.cpp", LIB + "impl"],
     [("partition into tasks, join, collect", CPU + "cpu-multi-threaded-backend/impl/backend.cpp: calculate_populations, calculate_projections")],
     ["messages seen by a subscribed endpoint, data ranges of the backends"], ["c12_st_mt"], "differential testing between backends", PBT)

prop("C13", "The multi-threaded backend has no data races",
     "Running any network on the multi-threaded backend, with any number of threads and part sizes, never accesses shared data from two threads without synchronisation, and repeating the run gives the same result.",
     ["schedules", "programs", "configurations"], "all networks and schedules",
     "Tests cannot observe a race whose effect did not happen to show.",
     [CPU + "cpu-multi-threaded-backend/impl/backend.cpp", CPU + "thread_pool"],
     [("mutex around the shared message", CPU + "cpu-multi-threaded-backend/impl/backend.cpp"), ("join after each phase", CPU + "thread_pool/impl/thread_pool_context.cpp")],
     ["ThreadSanitizer reports; final state of repeated runs"], [("c13_mt_race", "tsan", {})], "generated networks and schedules under ThreadSanitizer, run-twice relation", PBT + " Schedules are sampled, not enumerated.")

prop("C14", "Synaptic resource STDP changes weights only as its rule says",
     "For any network with unlocked resource-STDP projections, after every step each synapse's resource, its weight and each neuron's learning state (ISI status, stability, free resource) equal those given by the documented rule applied to the observed spike history. Weights stay within their bounds, and redistribution conserves the total resource of a neuron apart from the configured drain.",
     ["inputs", "histories", "programs"], "all resource-STDP networks, parameters, spike and dopamine histories",
     "The test of this rule only sees that weights changed.",
     [LIB + "impl/populations/training/stdp.h", LIB + "impl/populations/blifat/blifat_stdp.h", LIB + "impl/populations/altai/altai_stdp.h", LIB + "impl/projections/training/stdp"],
     [("hebbian and dopamine plasticity, renormalisation", LIB + "impl/populations/training/stdp.h")],
     ["synapse and neuron parameters read back from the backend after every step"], ["c14_resource_stdp"], "differential testing against a reference model, conservation and bound invariants", PBT)

prop("C15", "Additive STDP changes weights only as its rule says",
     "For any network with additive-STDP projections, each projection records exactly the spikes of its registered training populations, and the weight of a synapse changes exactly by the documented pair-based rule applied to the recorded presynaptic and postsynaptic spike times; all other parameters are untouched.",
     ["inputs", "histories", "programs"], "all additive-STDP networks, time constants, spike and training histories",
     "The test of this rule only sees that weights changed.",
     [LIB + "impl/projections/training/stdp/additive_stdp.h", LIB + "impl/projections/training/stdp/stdp_dispatcher.h"],
     [("spike time registration and weight update", LIB + "impl/projections/training/stdp/additive_stdp.h")],
     ["synapse parameters read back from the backend after every step"], ["c15_additive_stdp"], "differential testing against a reference model", PBT)

prop("C16", "Locked projections never change",
     "While a projection's weights are locked (individually or by stopping learning on the backend), no step changes any weight or synaptic resource in it, whatever the spikes; learning affects exactly the unlocked projections. Starting and stopping learning sets the lock state of every projection.",
     ["histories", "programs"], "all histories of locking, learning switches and steps on plastic networks",
     "No test compares the weights of locked projections over a run.",
     [CPU + "cpu-single-threaded-backend/impl/backend.cpp", CPU + "cpu-multi-threaded-backend/impl/backend.cpp", CL + "include/knp/core/projection.h", LIB + "impl/projections"],
     [("lock flag", CL + "include/knp/core/projection.h"), ("start_learning / stop_learning", CPU + "cpu-single-threaded-backend/impl/backend.cpp")],
     ["synapse parameters read back from the backend"], ["c16_locks"], "stateful property-based testing, before/after invariant", PBT)

prop("C17", "A backend holds exactly the network that was loaded",
     "Populations and projections loaded into a backend are exactly those its iterators and exported network report, with UIDs, tags, parameters, end points and locks unchanged, and exporting a network mid-run and loading it into another backend of the same kind preserves the neuron and synapse state. Types a backend does not support are reported as such, consistently with its lists of supported types, and rejected on loading.",
     ["inputs", "histories", "programs"], "all networks over all neuron and synapse types, at any point of a run",
     "The tests load and read back one population of one neuron.",
     [CPU + "cpu-single-threaded-backend/impl", CPU + "cpu-multi-threaded-backend/impl", BF + "impl/network.cpp"],
     [("load_*, get_network_data, data ranges", CPU + "cpu-single-threaded-backend/impl/backend.cpp"), ("", CPU + "cpu-single-threaded-backend/impl/get_network.cpp")],
     ["Backend iterators and data ranges, Network::get_*"], ["c17_backend_state"], "round-trip and metamorphic property-based testing", PBT)

prop("C18", "A backend runs exactly the steps it was asked to",
     "Whatever sequence of starting with predicates, stopping, stepping, initialising and resetting is used, the step counter advances by one per executed step, predicates are asked before/after steps in their documented order and end the run at the step they say, and running() tells whether a run is in progress. Devices a backend is given are the ones it reports selected, and a device stays the same when it is listed again or moved.",
     ["histories", "schedules"], "all histories of run control, including stopping from another thread",
     "The tests start and stop a backend once.",
     [CL + "impl/backend.cpp", CL + "include/knp/core/backend.h"],
     [("start / stop / predicates", CL + "impl/backend.cpp")],
     ["Backend public API"], ["c18_run_control"], "stateful property-based testing against a state-machine model", PBT)

prop("C19", "The thread pool runs every task exactly once before join returns",
     "For any number of threads and any sequence of posting batches of tasks, including tasks that post further tasks, and joining, every posted task runs exactly once, all tasks posted before a join have completed when it returns, and the pool is reusable afterwards. Posting does not wait for the tasks to run, and no data race occurs.",
     ["schedules", "histories", "configurations"], "all thread counts, task counts, durations and post/join histories",
     "The existing test posts one fixed batch.",
     [CPU + "thread_pool/impl/thread_pool_context.cpp", CPU + "thread_pool/include/knp/backends/thread_pool"],
     [("outstanding work counter and condition", CPU + "thread_pool/impl/thread_pool_context.cpp")],
     ["side effects of the tasks"], [("c19_thread_pool", "tsan", {})], "randomised schedules under ThreadSanitizer, counting oracle", PBT + " Schedules are sampled, not enumerated.")

prop("C20", "Input and output channels connect exactly the entities they name",
     "When a model is loaded into an executor, spikes generated for an input channel at a step are injected, with that step and those indexes, into exactly the projections associated with that channel, and an output channel receives exactly the spikes of the populations associated with it, each once with its step. Message handlers are called once at every step, with the messages of their senders, and what they return reaches exactly their receivers. This holds for any number of channels, projections and populations, and running again continues where the last run ended. Input projections and output populations are tagged as such, other tags stay.",
     ["programs", "histories"], "all models with any channel associations and input generators",
     "The tests use one input and one output channel.",
     [BF + "impl/model_loader.cpp", BF + "impl/model_executor.cpp", BF + "include/knp/framework/io/input_channel.h", BF + "impl/output_channel.cpp", BF + "impl/model.cpp"],
     [("channel wiring", BF + "impl/model_loader.cpp: init_channels"), ("per-step generation", BF + "impl/model_executor.cpp")],
     ["output channel messages, messages seen by the projections"], ["c20_channels"], "model-based testing of generated models with random wiring", PBT)

prop("C21", "Input converters and output readout report exactly the data",
     "The sequence converter turns any stream of values into exactly the indexes whose values are interpreted as spikes, step by step, the index converter any text of step: indexes lines in step order into exactly those indexes, and output readers report for any step interval exactly the spikes whose steps fall into it, as counts, sets or bits per neuron.",
     ["inputs"], "all value sequences, separators, sizes, interpretations and step intervals",
     "The tests convert one fixed sequence each.",
     [BF + "impl/input_converter.cpp", BF + "include/knp/framework/io", BF + "impl/output_channel.cpp"],
     [("sequence and index converters", BF + "include/knp/framework/io/in_converters"), ("count, set and bitwise converters", BF + "include/knp/framework/io/out_converters")],
     ["converter results"], ["c21_io"], "property-based testing against direct specifications", PBT)

prop("C22", "Message handlers apply their documented selection",
     "K-winners-take-all, group and per-group winner selection and spike union forward, for any input messages, exactly a result their documentation allows: never more winners than asked, only indexes that were present in the input, the right groups, without altering the step; with the same seed the same selection. Adding winner-take-all handlers to a network connects exactly the named projections.",
     ["inputs"], "all messages, group layouts, winner counts and seeds",
     "The tests check a few fixed messages.",
     [BF + "impl/message_handlers.cpp", BF + "include/knp/framework/message_handlers.h", BF + "impl/projection/wta.cpp"],
     [("handlers", BF + "impl/message_handlers.cpp"), ("wta borders", BF + "impl/projection/wta.cpp")],
     ["messages the handlers return or forward"], ["c22_handlers"], "property-based testing with validity oracles", PBT)

prop("C23", "Observers and monitors see exactly the messages of their senders",
     "A message observer passes to its handler exactly the messages of the senders it is subscribed to, once each; the monitoring loggers built on it write for each step or logging period (of one or more steps) and population exactly the spike counts, spike lists, weights or aggregated values of that run; senders that share a name are counted together.",
     ["histories", "programs"], "all networks, sender sets and run histories",
     "Tests cover a single observer with a single sender.",
     [BF + "include/knp/framework/monitoring/observer.h", BF + "impl/observer.cpp", BF + "impl/monitoring/model.cpp"],
     [("observer update", BF + "include/knp/framework/monitoring/observer.h"), ("loggers", BF + "impl/monitoring/model.cpp")],
     ["handler calls, text written by the loggers"], ["c23_monitoring"], "model-based testing: the log is parsed and compared with the recorded history", PBT)

prop("C24", "Projection creators connect exactly the pairs they promise",
     "For any population sizes of one or more, parameters and seeds, the all-to-all, one-to-one, aligned, exclusive, from-map/container, fixed-probability, fixed-number-pre/post, index-based and clone creators and generators produce exactly the connections their documentation promises: right pairs, right counts, indexes in range, parameters from the given generator; random ones keep their counts and, statistically, their probability.",
     ["inputs"], "all sizes (including not divisible ones), probabilities, counts and parameter generators",
     "The tests use one size per creator.",
     [BF + "include/knp/framework/projection"],
     [("synapse generators", BF + "include/knp/framework/projection/synapse_generators.h"), ("creators", BF + "include/knp/framework/projection/creators.h"), ("connectors", BF + "include/knp/framework/projection/connectors.h")],
     ["synapses of the created projections"], ["c24_creators"], "property-based testing against set specifications", PBT)

prop("C25", "Population creators and coordinate tools produce exactly what they promise",
     "Population creators produce exactly the requested number of neurons with the parameters their generator gives for each index, and random ones stay in their documented distribution. Coordinates keep the components they were built from, a setter changes the named component only, and names of coordinate systems and types read back to the same value.",
     ["inputs"], "all sizes, parameters, coordinates",
     "The tests check few fixed values.",
     [BF + "include/knp/framework/population", BF + "include/knp/framework/coordinates"],
     [("creators", BF + "include/knp/framework/population/creators.h"), ("coordinates", BF + "include/knp/framework/coordinates")],
     ["created populations, converted coordinates"], ["c25_populations_coords"], "property-based testing, round trip", PBT)

prop("C26", "Normalisation maps parameters exactly as its function says",
     "Normalising a population or projection changes exactly the parameter chosen by the accessor, for every neuron or synapse, to the value the normaliser gives for its old value (linear rescaling in floating point, or any function), and touches nothing else, in the given entity or, for a copying call, in the copy only.",
     ["inputs"], "all ranges, values, accessors and entity types",
     "The tests normalise one projection.",
     [BF + "include/knp/framework/normalization"],
     [("normalizers", BF + "include/knp/framework/normalization/normalizers.h"), ("apply to containers", BF + "include/knp/framework/normalization/synapse_normalizer.h")],
     ["parameters before and after"], ["c26_normalization"], "property-based testing against direct formulas", PBT)

prop("C27", "Datasets give back exactly the frames they were built from",
     "Reading images and labels yields every labelled image once, with the right label and pixel-exact content; the last labelled image is not lost and a cut-off image is not invented. Splitting divides without loss, duplication or reordering into parts of the requested sizes and rejects sizes that exceed the dataset; the spike generators produce for each step exactly the part of the frame (or the label) scheduled for it, starting over after the last frame. The incrementing converter emits a spike exactly when the sum of a pixel's increments reaches one.",
     ["inputs"], "all image sizes, labels, frame counts, splits and steps",
     "The tests check one tiny dataset.",
     [BF + "impl/data_processing/classification", BF + "include/knp/framework/data_processing/classification"],
     [("dataset", BF + "impl/data_processing/classification/dataset.cpp"), ("image conversion", BF + "impl/data_processing/classification/image.cpp")],
     ["dataset contents and generator results"], ["c27_datasets"], "property-based testing against direct specifications", PBT)

prop("C28", "Inference evaluation counts what happened",
     "For any dataset and any classification spikes, every presented frame is predicted as the class with the most votes (the lowest one of equals) among the spikes of its steps, or as none without votes; the per-class counts of votes, true/false positives and negatives follow from these predictions and add up to the frames shown, and precision, recall, accuracy and F-measure equal their definitions, including empty denominators.",
     ["inputs", "histories"], "all label sequences, spike histories and counts",
     "The tests check fixed counts.",
     [BF + "impl/inference_evaluation", BF + "include/knp/framework/inference_evaluation"],
     [("metrics", BF + "impl/inference_evaluation/perfomance_metrics.cpp"), ("processor", BF + "impl/inference_evaluation/classification/processor.cpp")],
     ["results and CSV text"], ["c28_evaluation"], "property-based testing against a direct recount", PBT)

prop("C29", "Network validation reports exactly the defects of the network",
     "For any network, the connectivity validator reports exactly the populations without any projection at either end and the projections without populations at both ends, and nothing for a sound network; the executor runs every registered validator on every entity of its kind once and returns each report unaltered under the validator's UID and name.",
     ["programs", "inputs"], "all networks with any injected connectivity defects",
     "The tests check one sound and one broken network.",
     [BF + "impl/network_validation", BF + "include/knp/framework/network_validation"],
     [("connectivity", BF + "impl/network_validation/validators/connectivity.cpp"), ("executor", BF + "impl/network_validation/executor.cpp")],
     ["validation reports"], ["c29_validation"], "property-based testing: generated networks with injected defects against a direct specification", PBT)

prop("C30", "The network graph mirrors the network",
     "For any network, the graph built for visualisation has one node per population with its name and size and one edge per projection, between the right nodes; its partition into subgraphs is exactly the connected components, the printed description names exactly the neighbours of each node, and the layout gives every node a position inside the picture that depends only on the edges between the drawn nodes; drawings show the names and edges of exactly these nodes.",
     ["programs", "inputs"], "all networks, including isolated populations, self-loops and input projections",
     "The tests check one or two fixed graphs.",
     [BF + "impl/visualizer", BF + "include/knp/framework/visualizer"],
     [("graph construction, division", BF + "impl/visualizer/visualize_network.cpp"), ("layout", BF + "impl/visualizer/graph_physics.cpp")],
     ["NetworkGraph, divide_graph_by_connectivity, positions"], ["c30_graph"], "property-based testing against graph specifications", PBT)

prop("C31", "Backends load as what they are, whatever becomes of the loader",
     "A file is taken for a backend exactly when it is a shared library that makes backends; loading anything else fails with an exception. Every load gives a new backend of the kind of the library, which behaves exactly as one that the library makes directly, independently of the other backends, by whatever path or however often the library is named, and stays usable (with what it made: devices, end points) when the loader, and other backends of that library, are gone.",
     ["histories", "inputs"], "all sequences of loads, checks, uses and destructions of loaders and backends, over libraries, links, copies and files of other kinds",
     "The tests load each backend once, by one path.",
     [BF + "impl/backend_loader.cpp", BF + "include/knp/framework/backend_loader.h"],
     [("library cache, is_backend, load", BF + "impl/backend_loader.cpp"), ("factory exported by backends", "knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp")],
     ["results of is_backend and load, behaviour of the loaded backends"], ["c31_loader"], "stateful property-based testing, differential against the library's own factory, under AddressSanitizer", PBT)

prop("C32", "Python sees and does what C++ does",
     "Through the Python package, every parameter of neurons and synapses reads and sets the field of its name and no other; UIDs convert to and from UUIDs without loss; messages, populations and projections made or changed in Python hold exactly the given content; and end points of a bus used from Python, and a network stepped by hand or run by an executor from Python (with input generators, predicates of any truth value, output channels, subscriptions, exceptions in callbacks, objects deleted in any order), give exactly the messages and spikes that the same give in C++; a part of an object stays usable when the object it came from is deleted.",
     ["inputs", "programs", "histories"], "all parameter values, populations, projections, messages, networks and call histories that the Python package can express",
     "The Python tests run two or three fixed networks.",
     ["knp/python-framework/impl"],
     [("neuron and synapse parameters", "knp/python-framework/impl/neuron_traits/cpp"), ("populations, projections, messages, backend", "knp/python-framework/impl/core/cpp"), ("network, model, executor", "knp/python-framework/impl/base_framework/cpp")],
     ["attributes read in Python and C++, spikes received in both"], ["c32_python"], "property-based testing with an embedded interpreter, differential between Python and C++", PBT)

prop("C33", "A saved network loads back the same",
     "A network saved in the SONATA format and loaded again has the same UID, populations (UID, neuron type, size and every parameter of every neuron, in order) and projections (UID, synapse type, end populations, lock, every synapse with its indexes and every parameter, in order), whatever its sizes, empty ones included, and whatever was saved in that directory before; saving a network with synapses that the format does not hold, and loading one that is not there, fails with an exception.",
     ["inputs", "histories"], "all networks of supported types with all parameter values; repeated saves",
     "The tests save one or two small networks, most of whose parameters have default values; they are not even built without the HighFive and csv2 libraries.",
     [BF + "impl/sonata"],
     [("save_network", BF + "impl/sonata/save_network.cpp"), ("load_network", BF + "impl/sonata/load_network.cpp"), ("parameters of each type", BF + "impl/sonata/types")],
     ["entities and parameters of the loaded network"], ["c33_sonata"], "property-based testing, round trip", PBT)

prop("C34", "Saved spike messages load back the same",
     "Spike messages saved to a JSON or HDF5 file and loaded with a sender UID give, for each step with spikes, one message of that sender with the spikes of that step, in order of steps, for any steps, neuron indexes, order of messages and unit of time; the times in the file are sorted. A file made elsewhere in any supported layout loads with the spikes in it, and a file of a wrong format, a missing file, or one that cannot be written fails with an exception (without the magic number only when the format is strict).",
     ["inputs"], "all lists of messages, all files",
     "The tests save and load one short list of messages.",
     [BF + "impl/storage/native"],
     [("JSON", BF + "impl/storage/native/data_storage_json.cpp"), ("HDF5", BF + "impl/storage/native/data_storage_hdf5.cpp"), ("steps and messages", BF + "impl/storage/native/data_storage_common.cpp")],
     ["loaded messages, contents of the files, exceptions"], ["c34_storage"], "property-based testing: round trip, grammar-based generation of right and wrong files", PBT)

prop("C35", "Running takes no more and more memory",
     "A network that is stepped or run for any time with input that repeats itself, its messages, output channels and observers being served, uses an amount of memory that stays bounded, whatever the number of steps; backends, end points, networks and what they hold give their memory back when they are destroyed.",
     ["histories"], "all networks, inputs and numbers of steps",
     "No test runs long enough, or looks at memory.",
     ["knp/core-library/impl", "knp/backends/cpu", BF + "impl"],
     [("queues of the message bus and end points", "knp/core-library/impl/message_bus_cpu_impl"), ("impacts of future steps", "knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/projections.h"), ("queue of the multi-threaded backend", "knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp"), ("channels and observers", BF + "impl/model_executor.cpp")],
     ["bytes in use"], ["c35_memory"], "property-based testing, invariant over long histories", PBT)

prop("C36", "The logging level is what was set, and filters what is logged",
     "Whatever was done before, the logging level is the one set last; every logger, made before or after, lets through exactly the messages whose level is not lower, and none when the level is none. Every level has a name of its own that converts back to it; any other text, and any value that is not a level, stands for none.",
     ["histories", "inputs"], "all values, texts, and sequences of settings, new loggers and messages",
     "No test uses logging levels.",
     [BF + "impl/logging.cpp", BF + "include/knp/framework/logging.h"],
     [("conversions and global level", BF + "impl/logging.cpp")],
     ["get_level, messages that arrive at the sinks, results of the conversions"], ["c36_logging"], "stateful property-based testing against a model", PBT)

prop("C37", "What shares nothing does not influence each other",
     "Any number of networks in one process, whatever UIDs they share and whether they hold copies of the same populations and projections, stepped in any order or in threads of their own, on any backends, by hand or by executors with handlers and observers, made and destroyed at any time, each send and end up with exactly what they do alone; UIDs, projections, reports and packed messages made in different threads are the same as made in one, UIDs being all different; none of this has a data race.",
     ["histories", "schedules"], "all sets of networks and all interleavings of their steps",
     "Each test has one backend, in one thread.",
     ["knp/backends/cpu", CL + "impl", BF + "impl"],
     [("backends", "knp/backends/cpu/cpu-library/include/knp/backends/cpu-library"), ("message bus", CL + "impl/message_bus.cpp"), ("executor and handlers", BF + "impl/model_executor.cpp"), ("UIDs", CL + "include/knp/core/uid.h")],
     ["messages and final states; ThreadSanitizer reports"], [("c37_isolation", "tsan", {})], "stateful property-based testing, metamorphic against a run alone, randomised schedules under ThreadSanitizer", PBT + " Schedules are sampled, not enumerated.")
