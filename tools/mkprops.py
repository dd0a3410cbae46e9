import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
S="rad-sim/sim/"
p("N01","AXI-stream transfers cross the NoC exactly once, unmodified and in order",
 "Every AXI-stream beat that a module hands over to the network on chip (valid and ready in the same module clock cycle) is delivered exactly once, at the stream port of the addressed node and interface and nowhere else, with the same data, user and last fields and with the interface and node it was addressed to. Beats sent from one port to one port arrive in the order they were accepted when their class has one virtual channel, and nothing is delivered that was not sent.",
 ["inputs","schedules","configurations"],
 "all placements, topologies, clock-period combinations of module/adapter/NoC, buffer sizes, virtual-channel configurations, traffic patterns and back-pressure patterns",
 "Each example design runs one fixed placement, one clock set and mostly point-to-point traffic; contention, several interfaces per node, slow consumers and other clock ratios are never run.",
 [S+"noc/axis_slave_adapter.cpp",S+"noc/axis_master_adapter.cpp",S+"noc/radsim_noc.cpp",S+"noc/noc_utils.cpp",S+"noc/sc_flit.cpp"],
 [("ingress arbitration, packetization, injection","axis_slave_adapter.cpp"),("per-VC ejection queues, depacketization, output","axis_master_adapter.cpp"),("payload slicing","noc_utils.cpp")])
p("N02","The NoC never stalls for good: every accepted AXI-stream beat is delivered",
 "As long as every receiving module keeps becoming ready again, every AXI-stream beat offered to the network on chip is eventually accepted and every accepted beat is eventually delivered, whatever the clock ratios, traffic and buffer sizes, as long as a router buffer and an adapter queue can each hold a whole packet. While a delivered beat waits for a receiver that is not ready, it is held unchanged at the port, and an idle network accepts and delivers again.",
 ["schedules","configurations","histories"],
 "all clock-period ratios between module, adapter and NoC, all buffer depths, long histories and arbitrary finite back-pressure",
 "Loss of a flow-control credit only shows after more beats than the buffers hold, under clock ratios or back-pressure that the examples' fixed configuration never reaches.",
 [S+"noc/axis_master_adapter.cpp",S+"noc/axis_slave_adapter.cpp",S+"noc/radsim_noc.cpp",S+"noc/booksim/buffer_state.cpp"],
 [("credit return per ejected flit","radsim_noc.cpp Tick, *_master_adapter.cpp OutputDepacketization"),("injection gated on credits","axis_slave_adapter.cpp InputInjection")])
p("N03","AXI-MM requests and responses reach the right port intact",
 "Every memory-mapped read-address, write-address and write-data transfer accepted from a requester arrives exactly once at the node named by the top address bits (write data: the node of the write address it follows) with all its fields unchanged, and every read-data and write-response transfer returns exactly once to the node named in its user field with its fields unchanged. Transfers of one channel between the same two nodes keep their order when their class has one virtual channel, and every accepted transfer is eventually delivered.",
 ["inputs","schedules","configurations"],
 "all request mixes, burst lengths, data widths, several requesters and targets, clock ratios, buffer depths and stall patterns",
 "The tested designs exercise few fixed requesters with fixed fields and never look at length, size, burst or identifier fields.",
 [S+"noc/aximm_slave_adapter.cpp",S+"noc/aximm_master_adapter.cpp",S+"noc/radsim_noc.cpp"],
 [("request arbitration/packetization","aximm_slave_adapter.cpp"),("request delivery, response packetization","aximm_master_adapter.cpp")])
p("M01","Memory behind a controller behaves as a memory",
 "A word read through a memory controller is the word most recently written to that address of that channel (or its preloaded content, or zero) for every read issued after the write was answered, and concurrent reads return the old or the new word. Every write burst gets exactly one response and every read burst exactly the requested words, in request order, last-flagged once, each carrying its own request's user value.",
 ["inputs","histories","schedules","configurations"],
 "all interleavings of read and write bursts over addresses, channels, DRAM configurations, queue sizes and response stalls",
 "The tests issue one write phase followed by one read phase with a single user value; overlapping bursts, aliasing addresses and stalled responses are not reached.",
 [S+"dram/mem_controller.cpp",S+"dram/mem_controller.hpp"],
 [("burst expansion and address mapping","mem_controller.cpp Tick/AddressMapping"),("read reordering","mem_controller.cpp MemReadCallback"),("response queues","mem_controller.cpp Tick/Assign")])
p("D01","The DRAM model completes every accepted transaction exactly once",
 "Every read or write that the DRAM model accepts is reported complete exactly once, under its own address and kind, within a bounded time, and no other completion is ever reported. This holds for any address stream, any supported device configuration and any scheduling or page policy.",
 ["inputs","histories","configurations"],
 "all transaction streams (including repeated and conflicting addresses), device configurations and policies",
 "The upstream tests run one HMC stream; other devices, policies, write-drain and read-after-write forwarding are not exercised.",
 [S+"dram/DRAMsim3/src/controller.cc",S+"dram/DRAMsim3/src/command_queue.cc",S+"dram/DRAMsim3/src/dram_system.cc",S+"dram/DRAMsim3/src/hmc.cc"],
 [("pending queues and return queue","controller.cc"),("command scheduling","command_queue.cc")])
p("D02","DRAM commands respect the device's state and timing rules",
 "The sequence of commands the DRAM model issues to each device is legal: activates only on closed banks, reads and writes only to the open row, refreshes only on closed banks, and every pair of commands at least the configured number of cycles apart. Reads and writes of one word are carried out in the order they were accepted. Every rank is refreshed at the configured rate.",
 ["inputs","histories","configurations"],
 "all transaction streams and device configurations",
 "No test looks at the command stream at all; an illegal early command only makes simulated memory faster.",
 [S+"dram/DRAMsim3/src/bankstate.cc",S+"dram/DRAMsim3/src/channel_state.cc",S+"dram/DRAMsim3/src/timing.cc",S+"dram/DRAMsim3/src/refresh.cc"],
 [("timing tables","timing.cc"),("bank state machine","bankstate.cc"),("tFAW/32AW windows","channel_state.cc")])
p("D04","DRAM statistics agree with the command history",
 "At the end of every run of the DRAM model, the printed statistics of each channel equal what its own command history and completions say: counts of reads, writes, row hits, activates, precharges and refreshes, cycles in each rank state, energy computed from those counts with the configured currents, and the distribution and average of read latencies and interarrival times.",
 ["inputs","histories","configurations"],
 "all transaction streams and device configurations, including epochs and several channels",
 "No test reads the statistics; a counter that misses an event changes only the reported performance and energy.",
 [S+"dram/DRAMsim3/src/simple_stats.cc",S+"dram/DRAMsim3/src/controller.cc"],
 [("counters","simple_stats.cc"),("where events are counted","controller.cc IssueCommand/UpdateCommandStats, ReturnDoneTrans")])
p("D03","DRAM addresses decode uniquely and within the device",
 "For every supported device configuration (power-of-two geometry) and mapping, decoding a physical address gives coordinates inside the device's geometry, distinct addresses within the capacity (at access granularity) give distinct coordinates, and every coordinate is reachable. The memory controller's own per-channel translation is likewise one-to-one and always lands on the channel it was asked for.",
 ["inputs","configurations"],
 "all addresses within capacity and all device configurations and field orders",
 "Existing tests use small consecutive addresses on one device; aliasing in high bits or other field orders stays invisible.",
 [S+"dram/DRAMsim3/src/configuration.cc",S+"dram/mem_controller.cpp"],
 [("address field positions and masks","configuration.cc SetAddressMapping/AddressMapping"),("per-channel translation","mem_controller.cpp AddressMapping/ChannelFromAddr")])
p("R01","The inter-RAD network delivers in order, after the configured latency and rate",
 "A beat accepted by the inter-RAD network comes out exactly once at the device it names, with data, user and last unchanged, its remote node turned into the local node, in acceptance order per destination, not before the configured latency, and later only while earlier beats for the same device are still coming out one per cycle. Portals pass on every beat, in order, in both directions. Each sender is granted exactly the configured accept window per bandwidth period, and nothing is lost while no destination queue is full.",
 ["inputs","schedules","configurations"],
 "all traffic patterns between any number of devices, latencies, bandwidth windows and queue sizes",
 "One two-device design with one latency and full bandwidth is run; its check only sees final results.",
 [S+"radsim_inter_rad.cpp",S+"portal.cpp"],
 [("accept window","radsim_inter_rad.cpp writeFifo"),("latency counters and delivery","radsim_inter_rad.cpp readFifo")])
p("R02","Modules on different RADs exchange stream data end to end",
 "A beat a module sends to a node of another device arrives exactly once at that node of that device, with its data, user and last fields unchanged, and in order per sender and receiver; traffic addressed to the own device never leaves it. This holds with local and remote traffic mixed on the same networks and under back-pressure.",
 ["inputs","schedules","configurations"],
 "all mixes of local and cross-device traffic, placements of the portal, clocks and numbers of devices",
 "The two-RAD example has one direction of traffic, one placement and never mixes flows.",
 [S+"portal.cpp",S+"noc/axis_slave_adapter.cpp",S+"noc/axis_master_adapter.cpp",S+"radsim_inter_rad.cpp",S+"design_context.cpp"],
 [("portal queues both ways","portal.cpp Tick"),("remote destinations steered to the portal","axis_slave_adapter.cpp InputInjection"),("destination fields carried","axis_master_adapter.cpp OutputEjection")])
p("C01","Placement and clock files mean what they say",
 "For every well-formed placement and clock file, each listed port is attached to the network, node and data width given for it, interface numbers at a node are dense and unique per direction in listing order, each memory-mapped port's base address selects its node and no other, and each module and its network ports run at the listed clocks.",
 ["inputs","configurations"],
 "all sets of modules with any numbers of ports, all placements (whole module or per port), several networks, all clock assignments",
 "Tests cover the few committed placement files; multi-network, shared-node and per-port forms are not in them.",
 [S+"design_context.cpp",S+"radsim_module.cpp"],
 [("placement parsing","design_context.cpp ParseNoCPlacement"),("interface numbering, adapters","design_context.cpp BuildDesignContext"),("base addresses","design_context.cpp DetermineBaseAddress")])
p("C02","Knob files are read back exactly",
 "Every knob written in a knob file, shared or per device, is returned by the configuration store with exactly the written value for exactly that device, vector knobs keep order and length, later lines override earlier ones, and asking for a knob that is absent, or reading a file with an unknown knob, ends the simulation with an error instead of a made-up value.",
 ["inputs","configurations"],
 "all knob names, values, device counts and line orders",
 "Only the knob files generated for the example designs are read, with one or two devices with equal settings.",
 [S+"radsim_config.cpp",S+"radsim_config.hpp"],
 [("parsing","radsim_config.cpp ParseRADSimKnobs"),("typed stores","radsim_config.cpp Add*/Get*/Has*")])
p("C03","The configuration script generates what the user configured",
 "For every valid configuration file, the generated knob file, network configurations, header and main program carry exactly the configured values: each device gets its own configuration's settings, widths are large enough for every node, interface and virtual channel in use, each traffic class gets its own non-overlapping virtual channels, and the bandwidth fraction granted between devices equals the configured one.",
 ["inputs","configurations"],
 "all valid combinations of networks, topologies, dimensions, device counts, shared or separate configurations and bandwidth values",
 "Tests run the committed configuration files only; the generator has no tests of its own.",
 ["rad-sim/config.py"],
 [("knob, network, header and main generation","config.py"),("bandwidth fraction","config.py get_fraction")])
p("T01","Transaction telemetry tells the truth about every transaction",
 "For every transaction that crosses a network, exactly one record exists, with its true network, source node, destination node on that network and width, its timestamps in causal order (initiated before packetized and injected, injected before ejected, then depacketized, then received), its latency equal to received minus initiated and its hop count equal to the routers on its path; the dumped statistics and traffic flows agree with those records.",
 ["inputs","schedules","histories"],
 "all traffic and configurations, including contention and several networks",
 "No test reads the telemetry; a wrong timestamp or hop count changes reported performance only.",
 [S+"radsim_telemetry.cpp",S+"noc/axis_slave_adapter.cpp",S+"noc/axis_master_adapter.cpp",S+"noc/booksim/routers/iq_router.cpp"],
 [("records","radsim_telemetry.cpp"),("recording calls","adapters"),("hop counting","iq_router.cpp")])
p("B01","The network simulator delivers every flit once, to its destination, in order",
 "In every supported topology, routing function and router configuration, every flit injected within the flow-control credits leaves the network exactly once, at its destination, on a virtual channel its class may use, with the flits of a packet contiguous and in order on that channel. Every packet is eventually delivered, buffer credits are conserved, and a drained network has all credits back.",
 ["inputs","schedules","configurations"],
 "all supported topologies and sizes, routing functions, allocators, virtual-channel counts, buffer sizes and delays, and all traffic",
 "The examples use one mesh with dimension-order routing and light load; other topologies, allocators, speculation and heavy contention are never run.",
 [S+"noc/booksim/routers/iq_router.cpp",S+"noc/booksim/networks",S+"noc/booksim/buffer_state.cpp",S+"noc/booksim/routefunc.cpp",S+"noc/booksim/vc.cpp",S+"noc/booksim/buffer.cpp"],
 [("router pipeline","iq_router.cpp"),("credits","buffer_state.cpp"),("routing","routefunc.cpp"),("topology wiring","networks/*.cpp")])
p("B02","Routing always makes legal progress",
 "For every pair of nodes, the routing functions only propose outputs that exist and virtual channels of the packet's class, following any proposed sequence of outputs reaches the destination in a bounded number of hops, minimal routing takes a shortest path, and dimension-order routing is deterministic and never turns back to a finished dimension.",
 ["inputs","configurations"],
 "all source-destination pairs, classes, topologies and dimensions",
 "Tests visit a handful of pairs on one mesh.",
 [S+"noc/booksim/routefunc.cpp",S+"noc/booksim/networks/anynet.cpp",S+"noc/booksim/networks/kncube.cpp",S+"noc/booksim/networks/cmesh.cpp"],
 [("routing functions","routefunc.cpp"),("table construction","anynet.cpp")])
p("B03","Allocators and arbiters grant legally and fairly",
 "For every request pattern, an allocator's result is a matching: granted pairs were requested, no input or output is granted twice, and matchings the allocator promises maximal or maximum are so. An arbiter grants exactly one of the highest-priority requesters whenever there is any, and a persistent requester of equal priority is granted within a bounded number of rounds.",
 ["inputs","histories"],
 "all request matrices and priorities, over histories of rounds",
 "Request patterns of a lightly loaded mesh are a tiny part of the input space; unfairness does not change functional results.",
 [S+"noc/booksim/allocators",S+"noc/booksim/arbiters"],
 [("allocators","allocators/*.cpp"),("arbiters","arbiters/*.cpp")])
p("B04","Network configuration files are parsed faithfully",
 "Every assignment in a network configuration text, whether integer, real, string or list, is returned with exactly the written value, parameters not assigned keep their documented default, comments and layout do not matter, later assignments win, and unknown parameters are rejected.",
 ["inputs","configurations"],
 "all parameter names, values, layouts and orders",
 "Only the generated configuration of the examples is ever parsed.",
 [S+"noc/booksim/config_utils.cpp",S+"noc/booksim/booksim_config.cpp",S+"noc/booksim/lex.yy.c",S+"noc/booksim/y.tab.c"],
 [("lexer/grammar","config.l, config.y"),("stores","config_utils.cpp")])
p("U01","Packetization splits and rebuilds every transfer losslessly",
 "For every transfer width and every payload, slicing a transfer into network flits and reassembling them yields the identical transfer, using the smallest number of flits that holds it, and copying, queueing or recycling flits never lets one flit's contents appear in another.",
 ["inputs","configurations"],
 "all payload values, flit widths, interface widths, and copy/assign/free sequences",
 "Tests use a single flit width and small values, so upper payload bits are always zero.",
 [S+"noc/noc_utils.cpp",S+"noc/sc_flit.cpp",S+"radsim_utils.cpp"],
 [("slicing","noc_utils.cpp set_flit_payload"),("flit value semantics","sc_flit.cpp")])
p("U02","Cycle numbers, the log and the event traces record exactly what happened",
 "The cycle number of any moment is the number of periods of the given clock (or of the simulation driver's clock) that have elapsed, rounded up, for every clock period and time. Every message is printed exactly once, in order, with its level, module and, for trace messages, cycle number, when the configured verbosity includes its level, and never otherwise; it is also in the log file when asked for; an error message ends the simulation with status 1. The event trace file holds, for each trace, exactly the cycle numbers of its recorded events in order.",
 ["inputs","histories","configurations"],
 "all verbosity levels, clock periods, event times, message and event sequences",
 "No test reads a log or a trace, and the examples' 5 ns driver period hides rounding errors of the cycle number.",
 [S+"radsim_telemetry.cpp",S+"radsim_utils.cpp"],
 [("levels","radsim_telemetry.cpp SimLog"),("event traces","radsim_telemetry.cpp SimTraceRecording"),("cycle numbers","radsim_utils.cpp GetSimulationCycle")])
p("E01","The add and multiply examples compute the right result for every input",
 "For every sequence of operands and lengths, the adder example reports the exact sum and the multiplier example the exact product of the operands it was sent, under any placement and clock assignment, and their input queues never lose, duplicate or reorder entries.",
 ["inputs","configurations","schedules"],
 "all operand sequences, placements and clocks",
 "The tests run one fixed pseudo-random operand sequence of three numbers.",
 ["rad-sim/example-designs/add/modules","rad-sim/example-designs/mult/modules"],
 [("accumulation","adder.cpp, mult.cpp"),("client queue","client.cpp, fifo.cpp")])
p("E02","The MLP example computes the reference network for every weight and input",
 "For every network shape that its compiler (compiler/gen_testcase.py) accepts, every partitioning over engines, placement, pacing and every weight and input vector, the MLP accelerator (example-designs/mlp) outputs, in order, exactly what the reference chain of 32-bit (wrapping) matrix-vector products computes, and the expected outputs the compiler writes are those products.",
 ["inputs","programs","configurations"],
 "all layer shapes, partitionings, weights and inputs",
 "The tests run one generated network each.",
 ["rad-sim/example-designs/mlp"],
 [("MVM engines, dispatch, collection","modules/*.cpp"),("compiler","compiler/gen_testcase.py")])
p("E03","The DLRM example computes the reference lookups, interaction and network, and its driver's verdict is right",
 "For every set of embedding tables and lookups, crossbar (feature interaction) program, network weights, partitioning over engines, memory devices, placement, clock ratio and pacing, the DLRM accelerator (example-designs/dlrm, 32 or 16 lanes) outputs, in order, exactly the reference network applied to the looked-up embeddings; what its own compiler (compiler/dlrm.py) writes is a consistent program whose expected outputs are those values; and the driver reports success exactly when every element of every output equals the expectation.",
 ["inputs","programs","configurations","schedules"],
 "all tables, lookups, crossbar programs, networks, partitionings, memories, clock ratios, pacing",
 "The test runs one generated model with one placement and one clock ratio.",
 ["rad-sim/example-designs/dlrm"],
 [("lookups","modules/embedding_lookup.cpp"),("crossbar program","modules/custom_feature_interaction.cpp"),("engines, collection","modules/mvm.cpp, collector.cpp"),("compiler","compiler/dlrm.py"),("verdict","dlrm_driver.cpp")])
p("E04","The int8 MLP example computes the reference network with SystemC and Verilog engines alike, and its driver's verdict is right",
 "For every network shape, every partitioning over SystemC and Verilog engines in any mix, weights, inputs, load order of weights and instructions, placement, clock ratio and pacing, the int8 MLP accelerator (example-designs/mlp_int8) outputs, in order, exactly what the reference chain of matrix-vector products computes modulo 2^8; no vector is lost when queues fill up or the reader stalls; what its compiler (compiler/gen_testcase.py) writes has those products as expected outputs; and the driver reports success exactly when every element of every output equals the expectation.",
 ["inputs","programs","configurations","schedules"],
 "all layer shapes, engine mixes, weights, inputs, load orders, clock ratios and pacing",
 "The test runs one generated network with SystemC engines only; the Verilog engines are built but never run.",
 ["rad-sim/example-designs/mlp_int8"],
 [("SystemC engine","modules/sysc_mvm.cpp, datapath.cpp, register_file.cpp"),("Verilog engine","modules/rtl/*.v, modules/rtl_mvm.cpp"),("loading","modules/weight_loader.cpp, inst_loader.cpp"),("compiler","compiler/gen_testcase.py"),("verdict","mlp_driver.cpp")])
p("E05","A run ends when every device is done, and its printed verdict and exit status are right",
 "For every simulation built from the generated main function: the run continues until the test bench of every device has reported done and then ends; the process then exits normally with status 0 unless device 0's test bench reported a failure, in which case the status is non-zero. The test benches of the adder, multiplier and MLP examples send exactly the numbers (or input files) they announce, the last one marked last, hold what they offer until it is accepted, and print SUCCESS with exit status 0 exactly when the whole output equals the expectation, FAILURE with non-zero status otherwise - whatever the design answers, whenever it is ready, and whatever the memory held before. The cycle counts it prints are the driver-clock periods that passed.",
 ["inputs","schedules"],
 "all numbers, answers and expected files, ready patterns, and times at which devices finish or fail",
 "The tests only see runs whose designs answer correctly; a verdict that is always SUCCESS passes them all.",
 ["rad-sim/config.py","rad-sim/sim/radsim_cluster.cpp","rad-sim/sim/design_context.cpp","rad-sim/example-designs"],
 [("main function","config.py: generate_radsim_main"),("end of run","radsim_cluster.cpp: AllRADsNotDone"),("exit status","design_context.cpp: GetSimExitCode, ReportDesignFailure"),("verdicts","add/add_driver.cpp, mult/mult_driver.cpp, mlp/mlp_driver.cpp")])
p("E06","The DLRM example split over two devices computes what the reference computes",
 "For every set of embedding tables and lookups, crossbar program, network, memory devices, placement, clock ratio, pacing and inter-device latency and bandwidth (with queues that hold what is in flight), the two-device DLRM accelerator (example-designs/dlrm_two_rad: lookups and interaction on device 0, engines and collector on device 1) outputs on device 1, in order, exactly the reference network applied to the embeddings looked up on device 0; its compiler writes a consistent program whose expected outputs are those values; and its test benches report success exactly when every element of every output equals the expectation.",
 ["inputs","programs","configurations","schedules"],
 "all tables, lookups, crossbar programs, networks, memories, clock ratios, pacing, inter-device latencies and bandwidths",
 "The test runs one generated model with one placement, one clock ratio and one inter-device latency.",
 ["rad-sim/example-designs/dlrm_two_rad",S+"portal.cpp",S+"radsim_inter_rad.cpp"],
 [("device 0","modules/embedding_lookup.cpp, custom_feature_interaction.cpp"),("crossing","rad-sim/sim/portal.cpp, radsim_inter_rad.cpp"),("device 1","modules/mvm.cpp, collector.cpp"),("verdict","dlrm_driver.cpp")])
p("E07","The NPU overlay example executes VLIW programs as its instruction set says",
 "For every program of loads, matrix-vector products, element-wise chains, activations and write-backs (with dependences through tags), every weight matrix, input, pacing, network, placement and clock ratio, the neural processing unit (example-designs/npu) outputs, for every thread and every core, in order, exactly the vectors a sequential model of the instruction set computes with 8-bit operands and 32-bit accumulation; nothing is lost, repeated or taken from another thread, and the run ends.",
 ["inputs","programs","configurations","schedules"],
 "all VLIW programs with consistent tags, weights, inputs, networks, placements, clock ratios and pacing",
 "The example is built but no test runs it; its driver would run one compiled workload under one configuration.",
 ["rad-sim/example-designs/npu"],
 [("matrix-vector sectors","modules/axis_mvu_sector.cpp, dpe.cpp, accum.cpp"),("element-wise units","modules/evrf.cpp, mfu.cpp, axis_vector_elementwise.cpp"),("write-back and dispatch","modules/loader.cpp, decoders.cpp, axis_inst_dispatch.cpp"),("register files","modules/register_file.cpp, piso_register_file.cpp")])
p("W01","Generated RTL wrappers connect every port to the right signal",
 "For every module interface, the port-mapping and wrapper generators give each port of the hardware module exactly one mapping with its declared direction and width, recognise stream and memory-mapped roles only where the ports spell them, and reject inconsistent or incomplete mapping files instead of generating a wrong wrapper.",
 ["inputs","programs"],
 "all module port lists (names, directions, widths, parameters) and mapping files",
 "Unit tests hold a handful of hand-written ports.",
 ["rad-sim/scripts"],
 [("port parsing","scripts"),("role detection","generate_port_mappings.py"),("validation, code generation","generate_wrapper.py")])
p("S01","A simulation is a function of its inputs",
 "Running the same design, configuration and stimulus twice gives the same cycle-by-cycle behaviour and the same results, whatever memory addresses, log verbosity or trace settings the run happens to have.",
 ["configurations","histories","schedules"],
 "all designs, configurations and stimuli",
 "A single run cannot show divergence; tests compare results only, not timing.",
 [S+"design_context.cpp",S+"noc/radsim_noc.cpp",S+"radsim_telemetry.cpp",S+"noc/booksim/random_utils.cpp"],
 [("no dependence on container or address order","design_context.cpp"),("seeded random streams","random_utils.cpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
