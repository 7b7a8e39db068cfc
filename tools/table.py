WHY_OP = "The tests feed one or two hand-written message lists per operator with one parameter choice; the statement is " \
         "about every message history and every parameter value."

prop("P01", "Pointwise operators transform or filter each message by its own value only",
     "Every message delivered to an identity, add, scale, constant, power, time-shift, less-than, greater-than or equal-to "
     "operator and then executed yields exactly the specified result: the same time with the value unchanged, plus the "
     "parameter, times the parameter, replaced by the parameter, or raised to the parameter; for a time shift the time moved "
     "by interval times count (never below zero when shifting backwards) with the value kept. The filters pass the message "
     "unchanged exactly when its value is strictly below, strictly above, or equal to the threshold, and otherwise emit "
     "nothing. No earlier message influences the result, and executing without a new message emits nothing.",
     ["histories", "inputs", "configurations"],
     "all parameter values, all message histories, all interleavings of deliveries and executions",
     WHY_OP, [OPS + f for f in ("Identity.h", "Add.h", "Scale.h", "Constant.h", "Power.h", "LessThan.h", "GreaterThan.h",
                                "EqualTo.h", "TimeShift.h")] + [CORE + "Operator.h", CORE + "FilterByValue.h"],
     [("data processing of each operator", OPS), ("bounded input buffer and pending set", CORE + "Operator.h")])

prop("P02", "Count, cumulative sum and difference equal their definition over the history",
     "After any history the count operator emits the number of messages executed so far and the cumulative sum emits the sum "
     "of all their values, at the time of the message that triggered them. The difference operator emits, for every message "
     "after the first, the newest value minus the previous one, stamped with the newer or the older time as configured.",
     ["histories", "inputs", "configurations"], "all message histories and both time settings", WHY_OP,
     [OPS + f for f in ("Count.h", "CumulativeSum.h", "Difference.h")] + [CORE + "Operator.h", CORE + "FilterByValue.h"],
     [("accumulators", OPS), ("two-message buffer", CORE + "Operator.h")])

prop("P03", "Window statistics equal their definition over exactly the last n messages",
     "For every window length and history the moving average, standard deviation (n-1 denominator), FIR filter (first "
     "coefficient on the newest value), peak detector (middle message, only if no value in the window exceeds it) and relative "
     "strength index (simple averages of gains and losses first, Wilder smoothing afterwards, 100 when there is no loss) emit "
     "the textbook value over exactly the last n messages. They emit nothing before the window is full and then once per "
     "message; all but the peak detector stamp the newest message's time.",
     ["histories", "inputs", "configurations"], "all window lengths, coefficients and message histories", WHY_OP,
     [OPS + f for f in ("MovingAverage.h", "StandardDeviation.h", "FiniteImpulseResponse.h", "PeakDetector.h")] +
     [FIN + "RelativeStrengthIndex.h", CORE + "Operator.h"],
     [("incremental sum kept with the buffer", CORE + "Operator.h"), ("processing of each statistic", OPS)])

prop("P04", "The autoregressive filter follows its recurrence exactly",
     "For every coefficient list and history each message yields one output at its own time, equal to its value plus the sum "
     "over i of the i-th coefficient times the i-th most recent output, outputs before the first message counting as zero. An "
     "empty coefficient list is rejected.",
     ["histories", "inputs", "configurations"], "all coefficient lists and message histories", WHY_OP,
     [OPS + "AutoRegressive.h", CORE + "Operator.h"], [("feedback of outputs into the buffer", OPS + "AutoRegressive.h")])

prop("P05", "Two-stream operators combine exactly the messages that share a time",
     "Addition, subtraction, multiplication, division, logical and/or, stream comparison and linear combination pair messages "
     "of their inputs by equal time and emit one result at that time: first op second for the arithmetic ones (nothing for a "
     "zero divisor), 0/1 truth values (an input counts as true from 0.5 on), the first stream's value when it is strictly greater (or less) than the second, and the "
     "sum of coefficient i times input i for linear. Messages without a partner are dropped, none is paired twice, nothing is "
     "emitted while an input has no message of that time, and fewer than two linear coefficients are rejected.",
     ["histories", "inputs", "schedules"],
     "all interleavings of deliveries on the inputs, buffer depths, values and coefficients", WHY_OP,
     [OPS + f for f in ("Plus.h", "Minus.h", "Multiplication.h", "Division.h", "And.h", "Or.h", "GreaterThanStream.h",
                        "LessThanStream.h", "Linear.h")] + [CORE + "Join.h", CORE + "BinaryJoin.h"],
     [("synchronisation of inputs", CORE + "Join.h"), ("combination of the matched messages", OPS)])

prop("P06", "Join releases messages only as complete sets of equal time, in order, once",
     "On each execution a join of any number of ports emits one message per port, on the output of the same number and "
     "unchanged, exactly when after discarding the messages that can no longer match every port's oldest message has the same "
     "time; otherwise it emits nothing and keeps every message that can still match. Released messages are removed exactly "
     "once. Fewer than two ports are rejected.",
     ["histories", "schedules", "configurations"],
     "all interleavings of deliveries and executions, all buffer depths, 2..4 ports", WHY_OP,
     [CORE + "Join.h", CORE + "Operator.h"], [("synchronisation of inputs", CORE + "Join.h")])

prop("P07", "The demultiplexer routes each message by the control messages of the same time",
     "The oldest data message is released exactly when every control port holds a control message of that time, to precisely "
     "the outputs whose control value is 1 (a value of 0 blocks it), and the message and its controls are consumed together. "
     "Older control messages are discarded, a missing control keeps the message waiting, and a control value other than 0 or 1, "
     "or a control message newer than the waiting data, is reported as an error. Zero ports are rejected.",
     ["histories", "schedules", "configurations"],
     "all interleavings of data and control deliveries, all buffer depths, 1..3 ports", WHY_OP,
     [CORE + "Demultiplexer.h", CORE + "Operator.h"], [("matching of controls to data", CORE + "Demultiplexer.h")])

prop("P08", "A variable answers each query with the definition in force at the query time",
     "A query is answered, at the query's time, with the value of the latest definition whose time is not after the query, or "
     "the default when the first query precedes every definition. While a later definition may still arrive before the query "
     "time the query stays unanswered. A query older than the definitions that are kept, once one has been used, is reported "
     "as an error.",
     ["histories", "schedules", "inputs"], "all interleavings of definitions and queries, all buffer depths", WHY_OP,
     [OPS + "Variable.h", CORE + "Operator.h"], [("lookup of the definition", OPS + "Variable.h")])

prop("P09", "The constant resampler emits every grid point once with the value then in force",
     "After the first message at time t0 the constant resampler emits for every grid time t0+k*interval, once and in order, "
     "as soon as a message at or after that time arrives: the value of the latest message not after the grid time. The number "
     "of points between two messages is whatever the gap requires, and a non-positive interval is rejected.",
     ["histories", "inputs", "configurations"], "all intervals, all gaps between messages, all histories", WHY_OP,
     [OPS + "ConstantResampler.h"], [("emission loop over the grid", OPS + "ConstantResampler.h")])

prop("P10", "Interpolating resamplers emit an equidistant grid with the interpolated values",
     "The cosine and hermite resamplers emit at times t0+k*interval, in order, without gaps or repetitions, for as far as their "
     "buffered messages determine the curve; whatever remains of an interval carries over to the next one. The value at each "
     "grid point is the cosine interpolation of the two surrounding messages, or the cubic hermite interpolation of the four "
     "around it (from the second message on). A non-positive interval is rejected.",
     ["histories", "inputs", "configurations"], "all intervals, all gaps between messages, all histories", WHY_OP,
     [OPS + "CosineResampler.h", OPS + "HermiteResampler.h"],
     [("emission loop and carry over", OPS + "CosineResampler.h"), ("first interval handled once", OPS + "HermiteResampler.h")])

prop("P11", "A program input forwards only strictly newer messages on each port",
     "Each port of the input operator forwards, to the output of the same number and unchanged, exactly those messages whose "
     "time is strictly greater than the last one forwarded on that port; the first message of a port is always forwarded. "
     "Ports do not influence each other.",
     ["histories", "inputs", "configurations"], "all message histories including repeated and out-of-order times", WHY_OP,
     [CORE + "Input.h"], [("last message sent per port", CORE + "Input.h")])

prop("P12", "A program output hands every message on unchanged, port by port",
     "The output operator emits each message it receives on the output of the same number, unchanged and exactly once. A "
     "message received on one port never shows up on another.",
     ["histories", "inputs", "configurations"], "all histories over 1..4 ports", WHY_OP, [CORE + "Output.h"],
     [("forwarding", CORE + "Output.h")])

prop("P13", "The function operator interpolates its points whatever their order",
     "For two or more points in any order the function operator maps each value to the straight line through the two "
     "neighbouring points, or to the cubic hermite curve with finite-difference tangents, and extends the first and last "
     "segment beyond the ends; the time is kept. Fewer than two points or an unknown kind are rejected.",
     ["inputs", "configurations"], "all values, all point coordinates, 2..6 points, both kinds", WHY_OP, [OPS + "Function.h"],
     [("sorted points and segment search", OPS + "Function.h")])

prop("P14", "An operator restored from its snapshot behaves like the one that was saved",
     "Collecting the snapshot of any operator, at any point of any history (deliveries, executions, pending messages, warm-up "
     "phases), and restoring it into a freshly constructed operator with the same id and parameters gives an operator that "
     "produces exactly the same results, errors and observable buffers as the original for every continuation. Collecting a "
     "snapshot changes nothing in the operator it is taken from.",
     ["histories", "crash points", "configurations"],
     "every point of every message history at which a snapshot can be taken, every continuation, all parameters",
     "The tests save one operator at one point; which field is lost only shows for the histories in which that field matters.",
     [CORE + "Operator.h", CORE + "Input.h", CORE + "Join.h", CORE + "Demultiplexer.h"] +
     [OPS + f for f in ("Count.h", "CumulativeSum.h", "Variable.h", "ConstantResampler.h", "CosineResampler.h",
                        "HermiteResampler.h")] + [FIN + "RelativeStrengthIndex.h"],
     [("buffers and their sums", CORE + "Operator.h"), ("overrides of collect and restore", OPS)])

UNROLL = "abstract interpretation: every path of call sequences from the constructors against composed operator specifications"
NOTE_UN = ("Call sequences are enumerated (listed in the evidence, with the number of paths analysed per sequence); messages, "
           "times, values and parameters are arbitrary, and every path of the code for the sequence is decided. Sequences "
           "with paths that were left out are listed as bounded. The claim does not extend to sequences beyond those.")
DECL = "abstract interpretation: every path of the entry point for each enumerated configuration, arbitrary values"
NOTE_DECL = ("Configurations (ports, definitions, keys) are enumerated, values are arbitrary, every path is decided. Trusts the "
             "clang 18 front end and the models of the standard library and of nlohmann::json.")
API = "libs/api/include/rtbot/"

prop("P15", "Connected operators behave as the composition of their specifications",
     "In an acyclic network every message an operator emits reaches each connected input exactly once, in emission order, "
     "before anything that is caused by later input; a receiver takes in all messages of one emission before it is executed, "
     "and control inputs are taken in before the data they concern. The result reported for a call lists, per operator and "
     "output port, exactly the messages emitted during that call in order, and every operator ends in the state its own "
     "specification gives for what it received.",
     ["histories", "schedules", "configurations"],
     "fan-out, diamonds, chains, several connections between the same pair, mixed control and data, generated random acyclic "
     "networks; arbitrary messages at any operator",
     "The tests wire a handful of fixed graphs and feed fixed numbers; dropped, repeated or reordered deliveries only show for "
     "particular shapes and call orders.",
     [CORE + "Operator.h", CORE + "Join.h", CORE + "Demultiplexer.h", CORE + "Input.h", CORE + "Output.h"],
     [("emit and its recursion over connections", CORE + "Operator.h"), ("merging of results", CORE + "Operator.h")],
     technique=UNROLL, note=NOTE_UN)

prop("P16", "Ports: connections exist exactly for declared ports, queries answer truthfully",
     "An operator has exactly the data, control and output ports its kind and parameters declare, and every query reports "
     "them. A port name is taken once and never empty. Connecting succeeds exactly when both ports exist, where an omitted "
     "port stands for the only candidate and is an error when there is none or more than one; a refused connection changes "
     "nothing. Messages for a port that does not exist are refused with an error.",
     ["inputs", "configurations"],
     "every operator kind; every pair of sender and receiver kinds with every combination of given, omitted and unknown port "
     "names",
     "The tests connect known ports of a few operators; wrong deduction or a half-made connection shows only for particular "
     "pairs.",
     [CORE + "Operator.h"] + [CORE + f for f in ("Input.h", "Output.h", "Join.h", "Demultiplexer.h")],
     [("connect and port declaration", CORE + "Operator.h")], technique=DECL, note=NOTE_DECL)

prop("P17", "A program runs the network of its text and reports what its filter asks for",
     "A program made from a JSON text has exactly the listed operators, connections and entry. Processing a batch feeds every "
     "message of every port to the entry operator, ports in name order and messages in the given order, each one executed "
     "before the next. The debug call reports everything every operator emitted; the plain call reports exactly the operators "
     "and ports named by the output filter, everything when there is none.",
     ["histories", "inputs", "configurations"],
     "all batches of arbitrary messages over the ports, programs of every topology, filters absent, partial, complete, "
     "reordered or naming nothing that exists",
     "The tests run a few example programs on fixed series.",
     [API + "Program.h", "libs/api/src/Program.cpp", API + "FactoryOp.h", "libs/api/src/FactoryOp.cpp", CORE + "Operator.h"],
     [("init from the text", "libs/api/src/Program.cpp"), ("receive, receiveDebug and the filter", API + "Program.h")],
     technique=UNROLL, note=NOTE_UN)

prop("P18", "A program restored from its bytes continues exactly where it was saved",
     "Serialising a program at any point between batches and building a program from the bytes gives a program that reports "
     "the same results as the original for every continuation, whatever operators, pipelines or composites it contains; "
     "serialising changes nothing in the running program. The same holds for collecting and restoring pipelines, composites "
     "and each operator of a network that is rebuilt and reconnected.",
     ["histories", "crash points", "configurations"],
     "every save point of the enumerated batch sequences, repeated saves, all topologies, pipelines and composites",
     "The tests save one program at one point.",
     [API + "Program.h", "libs/api/src/Program.cpp", CORE + "Operator.h", CORE + "Composite.h",
      API + "Pipeline.h", "libs/api/src/Pipeline.cpp"],
     [("serialize and the constructor from bytes", "libs/api/src/Program.cpp"), ("collect and restore of the inner operators",
                                                                                  "libs/api/src/Pipeline.cpp")],
     technique=UNROLL, note=NOTE_UN)

prop("P19", "A pipeline behaves as the network inside it",
     "A pipeline exposes every unconnected input and output port of its inner operators as its own ports. Messages and "
     "controls received on them reach the inner operator, what the inner network hands out on an exposed port is emitted on "
     "the pipeline's port, once and in order, and nothing of an earlier execution is emitted again.",
     ["histories", "inputs", "configurations"],
     "pipelines with one or several entries, several outputs, control inputs, nested in networks; all messages",
     "The tests contain one pipeline with fixed input.",
     [API + "Pipeline.h", "libs/api/src/Pipeline.cpp", CORE + "Operator.h"],
     [("port discovery", "libs/api/src/Pipeline.cpp"), ("processing and forwarding", API + "Pipeline.h")],
     technique=UNROLL, note=NOTE_UN)

prop("P20", "A composite behaves as the network built inside it and refuses wrong building",
     "A composite forwards what its input receives through its inner network and emits what arrives at its output, port by "
     "port. Building it with duplicate names, unknown operators or ports, or a second input or output is refused with an "
     "error and leaves what was built before intact.",
     ["histories", "inputs", "configurations"], "all messages, composites of every enumerated shape, every building mistake",
     "The tests build one composite.", [CORE + "Composite.h", CORE + "Operator.h"],
     [("createInternalOperator, createInput, createOutput, connections", CORE + "Composite.h")],
     technique=UNROLL, note=NOTE_UN)

prop("P21", "The registry keeps programs and their message buffers apart by id",
     "Every call of the interface acts on the program of the given id only. Creating under an id in use is refused and leaves "
     "the program there as it is; an unknown id is an error for every call but deletion; deleting removes program and buffered "
     "messages. Buffered messages are processed once, in the order they were added per port, by the next processing call, "
     "even when that call fails; results equal those of passing the messages directly.",
     ["histories", "inputs"],
     "sequences of create, copy, add, process, delete and query calls over several ids, arbitrary messages",
     "The tests use one program at a time and never look at a buffer after an error or a deletion.",
     [API + "FactoryOp.h", "libs/api/src/FactoryOp.cpp"],
     [("program table and message buffers", API + "FactoryOp.h")], technique=UNROLL, note=NOTE_UN)

prop("P22", "Every operator's JSON form is complete in both directions",
     "Reading an operator definition gives an operator equal to the one constructed with the same parameters, where left-out "
     "optional keys stand for their documented defaults. Writing an operator gives its type, id and every parameter under the "
     "documented keys, does not depend on the messages it has processed, and reading that back gives an equal operator. A "
     "program lists the written forms of all its operators as one JSON array.",
     ["inputs", "configurations"], "every operator kind, arbitrary parameter values, every optional key present or absent",
     "The tests round-trip a few operators with one parameter value each.",
     ["libs/api/src/FactoryOp.cpp", API + "FactoryOp.h", "libs/api/src/Program.cpp"],
     [("from_json and to_json per operator", "libs/api/src/FactoryOp.cpp"), ("registration", API + "FactoryOp.h")],
     technique=DECL, note=NOTE_DECL)

prop("P23", "A malformed definition is refused with an error and leaves nothing behind",
     "A program, pipeline or operator definition that lacks a required key, names an unknown type, operator or port, repeats an "
     "id, gives parameters out of range, or has no usable entry operator makes construction end in an exception, never in "
     "undefined behaviour or a partly built program; the registry then does not know the id. Definitions without a mistake "
     "are accepted.",
     ["inputs"], "every kind of mistake at the first, the last and an inner place of definitions with every operator kind",
     "The tests contain hardly any malformed definition.",
     ["libs/api/src/FactoryOp.cpp", API + "FactoryOp.h", "libs/api/src/Program.cpp", "libs/api/src/Pipeline.cpp",
      CORE + "Operator.h"],
     [("init and its checks", "libs/api/src/Program.cpp"), ("from_json of each operator", "libs/api/src/FactoryOp.cpp")],
     technique=DECL, note=NOTE_DECL)

prop("P24", "The text interface gives exactly the registry's results in JSON form",
     "Every function of the text interface answers as the registry call it stands for: results, ports, filters and serialised "
     "programs in the documented JSON forms, \"\" for a created program, \"1\"/\"0\" for a deleted or unknown one. createProgram "
     "and validate report {valid: false, error} exactly for texts the schema refuses, and these create nothing; columns of "
     "different lengths are refused before any message is buffered; failures of one call leave later calls unaffected.",
     ["histories", "inputs"],
     "sequences of interface calls over several ids with arbitrary messages, both answers of the validator, every mismatch of "
     "the batch columns",
     "The interface has no C++ test at all.",
     ["libs/api/src/bindings.cpp", API + "bindings.h", "libs/api/src/FactoryOp.cpp", API + "FactoryOp.h"],
     [("interface functions", "libs/api/src/bindings.cpp"), ("registry", API + "FactoryOp.h")],
     technique=UNROLL, note=NOTE_UN)

prop("P25", "Separate operators, programs and registries share nothing",
     "What an operator, program, pipeline or registry answers is determined by its own construction parameters, the "
     "messages and calls it received and nothing else: using, saving or destroying another instance of the same or another "
     "type, in any order, never changes it. No clock, random source, environment variable, file, thread identity or memory "
     "address enters a result. The only things shared between instances are the table of operator types and, between the "
     "functions of the text interface, the one registry they stand for.",
     ["histories", "inputs", "configurations"],
     "all functions of the libraries and everything they call within the repository, all storage that outlives an instance",
     "Two instances interleaved are hardly tested, and a dependence on the clock or on an address shows only now and then.",
     [CORE + "Operator.h", OPS, FIN, API + "FactoryOp.h", "libs/api/src/FactoryOp.cpp", "libs/api/src/Program.cpp",
      "libs/api/src/Pipeline.cpp", "libs/api/src/bindings.cpp"],
     [("storage with static lifetime and its uses", "libs"), ("calls that bring in the outside", "libs")],
     technique="effect and taint analysis over the resolved syntax trees",
     note="Every variable with static lifetime that the sources define or use and every call of the outside world is "
          "followed through the resolved syntax trees of all units; complete for the functions listed in the evidence. "
          "Exempt by what they hold, not by name: the registry of programs, tables of functions, locks, and storage "
          "that is overwritten before each use.")

prop("P26", "Results stay within rounding error of the exact value over long streams",
     "For arbitrarily long streams the running sums of the moving average, standard deviation and cumulative sum stay within a "
     "stated rounding error of the exact value of their definition.",
     ["histories", "inputs"], "all value sequences of double", "The tests use small exact values.",
     [CORE + "Operator.h", OPS + "MovingAverage.h", OPS + "StandardDeviation.h", OPS + "CumulativeSum.h"],
     [("incremental sum kept with the buffer", CORE + "Operator.h")],
     na="The incremental sums accumulate rounding without a bound that holds for all histories (cancellation is unbounded), so "
        "there is no error bound to decide; the other checks treat values as real numbers.")
prop("P27", "Each message costs time and memory bounded by the configured window sizes",
     "Processing one message takes time and memory bounded by the window lengths and the number of operators, independently of "
     "how many messages came before.",
     ["histories"], "all histories", "Tests are short.", [CORE + "Operator.h", "libs/api/src/Program.cpp"],
     [("bounded input buffer", CORE + "Operator.h")],
     na="Does not hold by design: the queues of unsynchronised ports grow with the distance between the streams, and the bound "
        "per message depends on runtime queue lengths that no sound static argument here can bound. The length of the bounded "
        "buffers is part of the state that P01-P14 decide.")
prop("P28", "Concurrent calls on one registry leave it consistent",
     "Calls of the interface made from several threads at once act as if made one after another.",
     ["schedules"], "all interleavings of two threads", "The tests are single-threaded.",
     [API + "FactoryOp.h", "libs/api/src/bindings.cpp"], [("registry", API + "FactoryOp.h")],
     na="rtbot makes no such promise: the registry is an unguarded map and every wrapper calls it from one thread, so there is "
        "no property to hold.")
prop("P29", "Corrupted or truncated snapshot bytes are refused",
     "Restoring bytes that were not produced by collecting the same program is refused without undefined behaviour.",
     ["inputs"], "all byte strings", "Tests only restore what they saved.",
     [CORE + "Operator.h", "libs/api/src/Program.cpp"], [("restore", CORE + "Operator.h")],
     na="rtbot trusts the snapshot bytes (raw copies without lengths or checks), so the property is false by design and a "
        "repair would be a new format; P14, P15 and P19-P21 decide the round trip of genuine snapshots.")
