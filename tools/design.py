# Builds /verif/DESIGN.md from the overview and one section per property.
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
S={}
def s(id, **k): S[id]=k
s('C01',
 oracle='a `std::vector` of neuron parameters edited by the same history; neurons are compared field by field (byte-exact values are chosen so that no field is left at its default).',
 gen='histories of 1-15 operations for each of the five neuron types: construction, `add_neurons` with generators that yield nothing for some indexes, removal of one or several indexes in any order (with repetitions), replacement, copy, move, tags; now and then populations of several hundred neurons.',
 why='the tests remove in ascending order and look at sizes.')
s('C02',
 oracle='a `std::vector` of synapses; found indexes are compared as sets with a linear scan after every operation; returned counts with the change of the model.',
 gen='histories of 1-20 operations for each synapse type: adding, removal by index, predicate, presynaptic and postsynaptic neuron, clearing, copies, edits through iterators, searches by either end in any order, so that the lazily built index is stale in every way it can be.',
 why='the index is wrong only after particular interleavings of edits and searches.')
s('C03',
 oracle='byte comparison for UIDs, laws of a strict weak order, round trip through text; a `std::map<std::string, std::any>` for tags.',
 gen='pairs and triples of UIDs that differ in one chosen byte or bit, batches of fresh UIDs, histories of tag operations with several value types.',
 why='UIDs that differ in few bytes never come up with random UIDs.')
s('C04',
 oracle='a model of the bus: per subscription the list of routed messages that match type and sender; both transports are compared with it.',
 gen='histories of up to 60 operations (endpoints made, moved, destroyed; subscribing and unsubscribing; senders added and removed; sending both message types; routing one message or all; receiving) on both transports, up to several thousand messages in flight on ZeroMQ.',
 why='order and loss show with several endpoints, several messages in flight and subscriptions that change.')
s('C05',
 oracle='counting each message at each receiver, order of each sender, ThreadSanitizer reports.',
 gen='1-4 senders, 1-2 routers, 1-3 receivers with random pauses. Schedules are sampled: ThreadSanitizer reports unsynchronised accesses that happen in *any* order, so a missing lock is found without the unlucky interleaving.',
 why='no test uses the bus from more than one thread.')
s('C06',
 oracle='round trip, equality by fields (a message is changed in one field and must differ), rejection of unknown kinds.',
 gen='messages with 0-300 spikes or impacts, extreme values, re-used target objects; the text form with finite values and nine digits.',
 why='the tests use one fixed message.')
s('C07',
 oracle='vector model of the network and of the channel associations.',
 gen='histories over 7+7 UIDs, typed and untyped adding and removing, access with the wrong type, unknown UIDs, all entity types.',
 why='the tests add and remove one or two entities.')
for id, what in (('C08','BLIFAT and resource-STDP BLIFAT'),('C09','AltAI and resource-STDP AltAI'),('C10','LIF')):
    s(id, oracle=f'`lib/knp_ref.hpp`: the documented equations of {what} neurons, written from the documentation of the parameters; spikes, states and emitted messages are compared after every step.',
      gen='one population of 1-6 neurons with any parameters (weighted towards thresholds, zero and the ends of the ranges), up to 40 steps of impacts of every type and value, sent directly and through synapses with delays; on every backend that supports the type. Values are dyadic so that sums are exact; where a comparison would depend on rounding the run ends.',
      why='the tests look at one population with default parameters; blocking, conductance, bursting, saturation and counters at their ends need their own parameters.')
s('C11',
 oracle='a reference delivery: for every spike and synapse one impact at (step + delay) with weight, type and end points, as multisets per step; neuron state by the reference model.',
 gen='networks of 1-4 populations, 1-6 projections (several to one population, recurrent, from input channels) with delays 1-12, silent and repeated spikes, both backends.',
 why='the tests use one delay and one synapse.')
s('C12', oracle='differential: single-threaded backend.', gen='networks as in C11 with every type both support, with learning, with direct impacts; 1-8 threads, part sizes 1-10 against populations of up to 12 and projections of up to 40 (and large ones).',
 why='parts that do not divide the size, several projections in one part.')
s('C13', oracle='ThreadSanitizer and equal results of repeated runs.', gen='as C12, with parts of 1-3 neurons and 2-8 threads, so that tasks meet.', why='a race shows only in the unlucky schedule; ThreadSanitizer sees the missing synchronisation in any schedule in which both accesses happen.')
s('C14', oracle='reference rule for resource STDP in `lib/knp_sim.hpp` (Hebbian plasticity, dopamine, stability, renormalisation with drain), compared in all synapse and neuron fields after every step; bounds and conservation of resource as invariants.',
 gen='networks with unlocked projections, spike histories that make ISI periods and single spikes, dopamine impacts, locks that change during the run.',
 why='the rule depends on the order of spikes, rewards and periods over many steps.')
s('C15', oracle='reference of the pair rule with the recorded spike times.', gen='1-4 populations, projections trained by their ends, by channels or other populations, up to 40 steps, both kinds of processing.', why='the tests train one synapse in one order.')
s('C16', oracle='weights and resources before and after a step are equal while a projection is locked; differential with a run in which other projections are locked.', gen='networks with both kinds of learning, locks switched individually and for the whole backend between steps.', why='tests do not lock during a run.')
s('C17', oracle='the loaded entities themselves; support lists against each other and against what loading accepts; a run continued after export against the run that was not interrupted.', gen='entities of every type with arbitrary contents and tags loaded in any way, edited and removed; export after any number of steps.', why='the tests load one population and count.')
s('C18', oracle='a model of the run (step, running, initialised, learning), with a stub backend that records calls and with both real backends whose messages tell the step; model of device selection.', gen='histories of start, step, stop, learning and selection in any order, predicates before and after steps, stop from other threads and exceptions from steps.', why='tests call start once.')
s('C19', oracle='every task runs exactly once; join returns after all tasks posted before (and by them) have run; tasks that wait for each other need as many threads; no deadlock (a time limit is a failure).', gen='1-6 threads, tasks that post tasks, several posters and executors.', why='deadlocks and lost wake-ups depend on the schedule.')
s('C20', oracle='a model of inputs, handlers and outputs by step around the reference network; both backends.', gen='models with any input and output channels, handlers and observers in any order, several runs.', why='tests use one channel of each kind.')
s('C21', oracle='model of streams, of message buffers and of each conversion.', gen='values of five types, any delimiter, reads beyond the end, any interval of steps including empty and huge ones, indexes at and beyond the size of the output.', why='bounds and repeated reading.')
s('C22', oracle='a checker of admissible results: winners are a sub-multiset of the input, right number, right groups; same seed, same result; every admissible winner is possible over many seeds; connections made by the functions that add handlers.', gen='messages of up to 20 spikes, borders on, before and after the spikes, any number of winners.', why='random selections cannot be compared with one expected value.')
s('C23', oracle='the text each logger has to write, from the reference history of spikes; observed messages against the sent ones.', gen='networks with any loggers and observers added before or between runs, any period; observers alone on a bus.', why='tests log one population.')
s('C24', oracle='the set of pairs and counts each creator promises; parameters that encode their arguments; statistical bounds of eight standard deviations for random ones.', gen='sizes 1-60 and, at times, hundreds; each synapse type.', why='sizes that differ, divide or do not divide each other.')
s('C25', oracle='parameters by index; distribution of bytes over many random neurons; components of coordinates as plain numbers.', gen='0-24 neurons (at times hundreds) of any type; histories of setters on every coordinate type.', why='each setter and type once in a history that shows what else changes.')
s('C26', oracle='the function applied to the old value, all other fields and entities as before.', gen='populations, projections and networks of every type, accessors, functions.', why='that nothing else changes needs the comparison of everything.')
s('C27', oracle='the frames and labels the streams were built from.', gen='streams of different lengths, cut short, limited, split in any way; generators at any step.', why='the ends of streams and parts.')
s('C28', oracle='votes counted directly; definitions of the metrics in double precision.', gen='0-12 frames, 1-6 classes, 1-6 steps, ties and frames without votes; counts up to ten million.', why='ties and empty classes.')
s('C29', oracle='the definition over the network; recorded calls of stub validators.', gen='networks of every type with ends in, outside or without a population; up to 21 validators.', why='tests have one defect at a time.')
s('C30', oracle='union-find components, the neighbours, positions inside the picture; drawing functions of OpenCV are replaced by recording ones.', gen='graphs of up to 30 nodes with loops, multi-edges, inputs and outside targets.', why='components found against the direction of edges; edges outside the drawn nodes.')
s('C31', oracle='a backend made by the library directly, fed the same input; a model of which files are backends and of what each loaded backend has been given.',
 gen='histories of loads (both backends, a shared library without a factory, one with another factory, text files, directories, links, copies, relative and repeated paths), steps, moves and destruction of loaders, backends, devices, end points; executors that outlive their loader.',
 why='use after unloading, and the same library by different names.')
s('C32', oracle='the same entity or network in C++, read and run beside the one in the embedded interpreter.',
 gen='Python statements put together from choices: attributes of every parameter type, UIDs made in all ways, generators with gaps, messages changed in parts, networks stepped by hand or run by executors on both backends, exceptions thrown from callbacks, objects deleted while others made from them are still used.',
 why='an attribute bound to another field, a lost exception or a dangling reference shows for particular types and orders only.')
s('C33', oracle='the saved network, as text with every parameter.', gen='0-4 populations and projections of every type with 0-300 elements and arbitrary parameters, random UIDs, locks; several saves into one directory, and saving what was loaded.',
 why='a parameter that is not saved, or not loaded, shows for values other than the default only.')
s('C34', oracle='the spikes of each step; for files of a grammar, the spikes written in it or the refusal.', gen='0-12 messages in any order, steps up to 2^50, any index and unit of time; JSON and HDF5 files of each layout with at most one wrong part, cut off anywhere.',
 why='rounding of times, large indexes, and values of a wrong type, which RapidJSON does not check.')
s('C35', oracle='bytes in use (counted by the allocator) after n, 4n, 16n and 64n steps do not grow each time by a byte for each step.', gen='networks of every type on both backends with periodic input, stepped or run by an executor with channels, observers and loggers; objects made and destroyed over and over.',
 why='what is kept for ever shows in long runs only.')
s('C36', oracle='a model of the level in force (a value that is no level means none) and what each logger passed to its sink.', gen='up to 30 settings (any value of the type), new loggers, changes of the default logger and messages of any level; names of levels, near misses and other text as views into longer buffers.',
 why='the tests set levels one by one on one logger and read them back.')
s('C37', oracle='the same network, run alone: everything it sends and its final state; the set of all UIDs made.', gen='2-4 networks with the same UIDs on both backends, by hand or by executors with handlers, their steps interleaved in any order with others made, given up and destroyed in between, or each in a thread of its own under ThreadSanitizer.',
 why='state that is shared by mistake shows only when two networks are alive at a time; the tests have one.')
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=open(V+'/tools/design_head.md').read()
for p in P:
    d=S[p['id']]
    ev=json.load(open(f'/verif/evidence/{p["id"]}.json'))
    c=ev['coverage']
    out+=f"\n### {p['id']} {p['title']}\n\n"
    out+=f"* Oracle: {d['oracle']}\n* Generated: {d['gen']}\n* Beyond the tests: {d['why']}\n"
    out+=f"* Cost: {c['evaluations']} cases in the quick tier (about {max(1,round(ev['wall_s']))} s on 8 cores after building), all the time there is up to its limit in the thorough tier.\n"
    if ev['assumptions']: out+='* Domain: '+'; '.join(ev['assumptions'])+'.\n'
out+=open(V+'/tools/design_tail.md').read()
C=json.load(open(V+'/tools/caught.json'))
out+="\n## Planted bugs\n\nEach was made from the text of a property and the code, builds, passes the stable tests and has a demonstration. The last\ncolumn names the sub-check that reports it (the replay file it writes).\n\n| bug | needs | caught by |\n|---|---|---|\n"
for k, v in C.items():
    m=json.load(open(f'{V}/seeded/{k}/meta.json'))
    out+=f"| {k} | {m['needs']} | {v['by'] or '**missed**'} |\n"

open('/verif/DESIGN.md','w').write(out)
