#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Manager and worker agree on the message exchange of every command",
     "Every command the manager can send to a process group has a handler there (a command nobody handles is refused "
     "with an error, never ignored), and different message kinds use different tags. After a command, the manager sends and receives "
     "exactly the messages the group receives and sends, in the same order and with the same element type on every "
     "tag; in particular every handled command is answered with exactly one status message, and the manager listens for "
     "exactly one.",
     ["histories", "programs", "configurations"],
     "all sequences of manager commands, all combinations of group sizes, variants and optional command arguments",
     "The tests drive a dozen command sequences with fixed arguments; a handler that is reached by no test, or a message "
     "order that only matters when two strings differ, or a reply nobody waits for until much later is not exercised.",
     ["src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp", "src/manager/ProcessManager.cpp",
      "src/manager/ProcessManager.hpp", "src/manager/ProcessGroupSignals.hpp", "src/mpi/MPITags.hpp", "src/mpi/MPIUtils.hpp",
      "src/task/Task.hpp"],
     [("command send + payload", "ProcessGroupManager methods"), ("dispatch loop and handlers", "ProcessGroupWorker::wait"),
      ("status reply", "ProcessGroupWorker::ready / ProcessGroupManager::recvStatus")],
     observe=["messages on the manager/master communicator"])

prop("C02", "The manager never overlaps two commands to one process group",
     "The manager sends a process group a new command, or starts listening for another status of it, only after the status "
     "answering the previous command has been received in full. "
     "Hence the status it acts on always belongs to the last command it sent.",
     ["histories", "schedules"],
     "all sequences of manager API calls, all interleavings of manager and groups",
     "Whether a stale status is picked up depends on the relative speed of groups and manager; tests run on one machine "
     "and mostly happen to wait in between.",
     ["src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupManager.hpp", "src/manager/ProcessManager.cpp"],
     [("status request life cycle", "ProcessGroupManager::recvStatus/getStatus/waitStatus"),
      ("command gate", "ProcessGroupManager::sendSignalToProcessGroup")],
     state=[("status_", "last known status / receive buffer of the pending status", "ProcessGroupManager"),
            ("statusRequest_", "pending status receive", "ProcessGroupManager")])

prop("C03", "Release and debug builds do the same work",
     "Whether assertions are compiled in does not change what the program does when no assertion fails: evaluating an assertion "
     "condition never communicates, performs I/O, waits, or modifies any object that outlives it, and code that exists only "
     "in one of the two build modes has no such effect on anything outside itself either (console output excepted).",
     ["programs", "configurations"],
     "every assertion and every build-mode-dependent block, both build modes",
     "A test binary is built in one mode only; an effect that lives inside an assertion disappears in the other mode without "
     "any test noticing.",
     ["src/manager/ProcessGroupManager.cpp", "src/manager/ProcessManager.cpp", "src/sparsegrid/DistributedSparseGridUniform.hpp",
      "src/fullgrid/DistributedFullGrid.hpp", "src/io/MPIInputOutput.hpp"],
     [("assert(...) usage", "all of src"), ("#ifndef NDEBUG blocks", "all of src")])

prop("C04", "Message and I/O order does not depend on evaluation order",
     "No two operations that each receive or send a message, read or write a file or socket, or advance the same stream or counter are "
     "operands of one expression or arguments of one call whose relative evaluation order the language leaves open. "
     "The order in which incoming messages are assigned to parameters is therefore the same with every compiler.",
     ["programs", "configurations"],
     "every call and operator expression, every conforming compiler",
     "One compiler picks one order; the tests only see that one, and exchanges of values of equal type are symmetric in tests.",
     ["src/manager/ProcessGroupWorker.cpp", "src/manager/ProcessManager.cpp", "src/third_level/ThirdLevelUtils.cpp"],
     [("receive helpers returning values", "ProcessGroupWorker.cpp"), ("named intermediate values", "ProcessGroupWorker::wait")])

prop("C05", "Every non-blocking communication is completed before it is abandoned",
     "Each non-blocking send, receive or collective the library starts is waited for (or found complete by a test) on every "
     "path before its request handle is overwritten or goes out of scope and before a local buffer it uses is destroyed, resized or goes out of scope. "
     "A request handed to the caller is set on every path, so the caller never waits on an undefined handle.",
     ["schedules", "programs", "inputs"],
     "all code paths that start communication, all message timings",
     "An unfinished send usually completes in the background; only an unlucky timing, large message or empty index set shows it.",
     ["src/combicom/CombiCom.hpp", "src/manager/SparseGridWorker.hpp", "src/hierarchization/DistributedHierarchization.hpp",
      "src/sparsegrid/DistributedSparseGridUniform.hpp", "src/manager/ProcessGroupManager.cpp", "src/fullgrid/DistributedFullGrid.hpp",
      "src/mpi/MPISystem.cpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp"],
     [("Isend/Irecv/Ibcast + Wait/Waitall pairs", "CombiCom, DistributedHierarchization"), ("pending status receive", "ProcessGroupManager")])

prop("C06", "All ranks of a communicator call the same collectives in the same order",
     "Whether, how often and in which order a collective operation is called on a communicator is never decided by the calling "
     "process's own rank (or by data only one rank obtained) unless every outcome calls the same sequence of collectives on that communicator. "
     "Values read or computed on one rank only are broadcast before they steer communication of the others.",
     ["schedules", "configurations", "programs"],
     "all ranks, all process group counts and sizes, all paths",
     "A mismatch hangs only for particular group layouts and code paths; the tests run with at most nine ranks and few layouts.",
     ["src/manager/ProcessGroupWorker.cpp", "src/manager/SparseGridWorker.hpp", "src/mpi/MPISystem.cpp", "src/io/MPIInputOutput.hpp",
      "src/io/MPICompression.hpp", "src/io/FileInputOutput.cpp", "src/io/BroadcastParameters.cpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp",
      "src/mpi/MPIUtils.hpp", "src/utils/Stats.cpp", "src/fullgrid/DistributedFullGrid.hpp"],
     [("rank-exclusive sections", "MPISystem.hpp macros"), ("root-only reads followed by broadcast", "BroadcastParameters.cpp, FileInputOutput.cpp")])

prop("C07", "Every communicated buffer is described with its own element type",
     "Whenever a typed buffer is sent, received, reduced, broadcast, or read from or written to a parallel file, the datatype passed along "
     "describes exactly the element type stored in that buffer, for every element type the library is instantiated with, and both "
     "ends of the call agree on it. The table translating element types to communication datatypes is correct for each supported type.",
     ["inputs", "configurations", "programs"],
     "all communication and parallel I/O calls, all instantiated element types (float, double, complex, integers)",
     "A wrong type of equal or larger size passes on one platform and with doubles; other instantiations and platforms are not run.",
     ["src/utils/Types.hpp", "src/mpi/MPIUtils.hpp", "src/combicom/CombiCom.hpp", "src/io/MPIInputOutput.hpp", "src/io/MPICompression.hpp",
      "src/sparsegrid/AnyDistributedSparseGrid.cpp", "src/fullgrid/DistributedFullGrid.hpp", "src/manager/ProcessGroupManager.cpp",
      "src/manager/ProcessGroupWorker.cpp", "src/mpi/MPISystem.cpp"],
     [("getMPIDatatype/getabstractionDataType tables", "Types.hpp"), ("derived datatypes", "CombiCom.hpp, DistributedFullGrid.hpp")])

prop("C08", "Communication objects are committed before use and released exactly once",
     "Every datatype, process group, reduction operator, info object, window or file handle the library creates is released exactly once on every "
     "path that does not end in an error, is not used after its release, and a derived datatype is committed before it is used in communication. "
     "Objects stored in a longer-lived owner are released by that owner.",
     ["histories", "programs"],
     "all paths through functions that create communication objects, arbitrarily many repetitions of a combination",
     "Leaked handles only exhaust tables or memory after very many combinations; tests perform a few.",
     ["src/combicom/CombiCom.hpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp", "src/io/MPIInputOutput.hpp", "src/mpi/MPISystem.cpp",
      "src/fullgrid/DistributedFullGrid.hpp", "src/hierarchization/DistributedHierarchization.hpp", "src/mpi/MPICartesianUtils.hpp"],
     [("create/commit/free pairs", "CombiCom.hpp, DistributedFullGrid.hpp"), ("RAII file wrapper", "MPIInputOutput.hpp")])

prop("C09", "Objects sent between processes arrive complete",
     "Every data member of a parameter, task, level/fault-criterion or basis object that is transmitted between processes is part of its serialized form "
     "(except members that by design are rebuilt or never used on the receiving side), and the form written is the form read. "
     "A worker therefore computes with the same settings as the manager.",
     ["inputs", "programs"],
     "all transmitted classes, all member values",
     "Tests mostly use default values for members, for which losing a member in transit goes unnoticed.",
     ["src/manager/CombiParameters.hpp", "src/task/Task.hpp", "src/fault_tolerance/FaultCriterion.hpp", "src/fault_tolerance/StaticFaults.hpp",
      "src/fault_tolerance/WeibullFaults.hpp", "src/hierarchization/CombiLinearBasisFunction.hpp", "src/mpi/MPIUtils.hpp"],
     [("serialize member templates", "transmitted classes")])

prop("C10", "Peer and root ranks belong to the communicator they are used with",
     "In every point-to-point or rooted collective call, the peer or root rank is a rank of the very communicator passed to that call: "
     "a rank or master/manager number obtained for one communicator is never used with another one, and library code "
     "running inside a process group never communicates on the global world communicator behind the group's back.",
     ["configurations", "programs"],
     "all communication calls, all layouts of groups and processes",
     "For one group or for rank 0 the numbers coincide; the tests' small layouts hide the difference.",
     ["src/manager/ProcessGroupWorker.cpp", "src/manager/ProcessGroupManager.cpp", "src/mpi/MPISystem.hpp", "src/mpi/MPISystem.cpp",
      "src/combicom/CombiCom.hpp", "src/manager/SparseGridWorker.hpp", "src/manager/TaskWorker.hpp"],
     [("rank/communicator getters", "MPISystem.hpp")])

prop("C11", "Exchange files are announced after writing and read after the announcement",
     "In the file-based exchange, a token announcing an exchange file is created only after the data file has been completely written and closed "
     "by all writers, a system opens a remote exchange file only after it has seen the matching token, and removes tokens and data files only after it "
     "has finished reading them. On every path that writes exchange data the token is eventually created.",
     ["schedules", "crash_points", "histories"],
     "all interleavings of two systems sharing a file system, a stop at any point between the steps",
     "In the tests both sides run on one node in one process, where a token written too early is almost never observed too early.",
     ["src/manager/ProcessGroupWorker.cpp", "src/manager/SparseGridWorker.hpp", "src/sparsegrid/DistributedSparseGridIO.hpp", "src/io/MPIInputOutput.hpp"],
     [("write data, then token", "ProcessGroupWorker::writeDSGsToDisk / combineThirdLevelFileBasedWrite"),
      ("wait for token, then read", "ProcessGroupWorker::combineThirdLevelFileBasedReadReduce"), ("cleanup", "removeReadingFiles")])

prop("C12", "Dehierarchization undoes exactly what hierarchization did",
     "For every supported basis and boundary type, dehierarchization uses the inverse kernel of the one hierarchization uses, with the same periodicity, the same level range "
     "and at least the neighbouring data it needs; each inverse kernel undoes its partner's update steps in reverse order with opposite weights. "
     "A basis without a kernel is refused with an error instead of being skipped.",
     ["inputs", "configurations"],
     "all bases, boundary flags, levels and element types",
     "Tests cover a few level vectors per basis; several kernel/boundary/lmin combinations are never round-tripped.",
     ["src/hierarchization/DistributedHierarchization.hpp", "src/hierarchization/CombiLinearBasisFunction.hpp", "src/manager/CombiParameters.hpp"],
     [("kernel dispatch", "DistributedHierarchization::hierarchize/dehierarchize"), ("1d kernels", "DistributedHierarchization.hpp")])

prop("C13", "Each combination starts from zero and runs its phases in order",
     "In every combination, for every variant, the sparse grid data that is accumulated into has been zeroed or freshly created since the previous combination, "
     "all component grids are hierarchized before they are reduced, the global reduction is completed before results are written back to the component grids, and grids that results were written back to are dehierarchized before the operation ends. "
     "An operation that combines leaves its grids hierarchized only where the exchange with another system has still to be completed by a later operation.",
     ["histories", "configurations"],
     "all combination variants, any number of consecutive combinations, with and without inter-system exchange",
     "Tests run few combinations per variant; stale data from an earlier combination shows up only for particular sequences of operations.",
     ["src/manager/ProcessGroupWorker.cpp", "src/manager/SparseGridWorker.hpp", "src/manager/TaskWorker.hpp", "src/sparsegrid/DistributedSparseGridUniform.hpp"],
     [("combination entry points", "ProcessGroupWorker"), ("zeroing", "SparseGridWorker::zeroDsgsData"), ("hierarchize/dehierarchize", "TaskWorker, ProcessGroupWorker")])

prop("C14", "Every combination variant is handled or refused everywhere it matters",
     "At every place where behaviour depends on the configured combination variant, element datatype or norm selector, each possible value either gets the steps meant for it "
     "or is refused with an error. No value silently falls through to doing nothing or to another value's steps.",
     ["configurations", "inputs"],
     "all values of the variant enumeration and datatype/norm selectors, all dispatch sites",
     "The cross product of variants and operations is only sampled by the tests.",
     ["src/manager/SparseGridWorker.hpp", "src/manager/ProcessGroupWorker.cpp", "src/utils/Types.hpp", "src/combicom/CombiCom.hpp"],
     [("variant dispatch chains ending in throw", "SparseGridWorker.hpp")])

prop("C15", "Threaded loops are free of data races",
     "In every thread-parallel region, two concurrent iterations or threads never access the same memory location with at least one writing unless the accesses are synchronised (atomic, critical, reduction) "
     "or the data is private to the thread. Results hence do not depend on the number of threads or their scheduling.",
     ["schedules", "configurations"],
     "all thread counts and schedules, all parallel regions",
     "Races need unlucky interleavings; the test suite runs with the default thread count and compares with tolerances.",
     ["src/sparsegrid/DistributedSparseGridUniform.hpp", "src/fullgrid/DistributedFullGrid.hpp", "src/hierarchization/DistributedHierarchization.hpp",
      "src/manager/SparseGridWorker.hpp", "src/combicom/CombiCom.hpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp", "src/manager/InterpolationWorker.hpp"],
     [("OpenMP directives and clauses", "src")])

prop("C16", "Systems and broker speak the same third-level protocol",
     "Every message text a system sends to the third-level broker is one the broker recognises, every instruction the broker sends is one the systems recognise, and what follows a message (sizes, data, replies) is "
     "transferred in the same order, direction and type by both ends. A message that is not recognised is refused with an error rather than ignored.",
     ["histories", "schedules"],
     "all sequences of third-level requests of several systems",
     "The socket-based tests are not part of the reliable suite; broker and systems are separate programs that are built and tested apart.",
     ["src/third_level/ThirdLevelUtils.cpp", "src/third_level/ThirdLevelUtils.hpp", "third_level_manager/thirdLevelManager.cpp", "third_level_manager/System.cpp", "src/manager/ProcessManager.cpp",
      "src/manager/ProcessManager.hpp"],
     [("request texts", "ThirdLevelUtils.cpp"), ("request dispatch", "thirdLevelManager.cpp")])

prop("C17", "Timing events are properly started and stopped on every path",
     "On every path through library code each named timing event that is started is stopped exactly once before the operation returns, and no event is stopped that was not started. "
     "The recorded trace is therefore always well formed.",
     ["programs", "inputs"],
     "all paths through instrumented operations",
     "An unbalanced pair on a rarely taken path only corrupts the trace file of that run; tests do not inspect traces.",
     ["src/utils/Stats.hpp", "src/utils/Stats.cpp", "src/manager/ProcessGroupWorker.cpp", "src/manager/ProcessManager.cpp", "src/manager/SparseGridWorker.hpp", "src/io/MPICompression.hpp"],
     [("startEvent/stopEvent pairs", "src")])

prop("C18", "Sparse grid buffers always match the current subspace sizes",
     "Whenever the size of any subspace of a distributed sparse grid changes, previously allocated data, offsets and compensation buffers are discarded before anything reads or writes them, "
     "and buffers are only created from the current sizes. Data of an old layout is never accessed with a new one.",
     ["histories"],
     "all sequences of registering grids, reducing, broadcasting or setting sizes, creating and accessing data",
     "Tests create sparse grids once and rarely change sizes after allocation.",
     ["src/sparsegrid/DistributedSparseGridUniform.hpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp", "src/combicom/CombiCom.hpp", "src/manager/SparseGridWorker.hpp"],
     [("size mutators followed by buffer deletion", "AnyDistributedSparseGrid, DistributedSparseGridUniform")],
     state=[("subspacesDataSizes_", "number of values per subspace", "AnyDistributedSparseGrid"), ("subspacesDataContainer_", "allocated values", "DistributedSparseGridUniform")])

prop("C19", "Sizes, offsets and byte counts are computed in full width",
     "Sums of point or subspace counts are accumulated in a type at least as wide as their summands, and byte counts passed to memory functions use the size of the element actually stored. "
     "Limits used as the start of a maximum or minimum search are the true extremes of the type.",
     ["inputs"],
     "all grid sizes, including more than 2^31 values, all element types",
     "No test can allocate grids of that size, and only the double instantiation is exercised.",
     ["src/manager/ProcessGroupManager.cpp", "src/manager/ProcessManager.hpp", "src/sparsegrid/DistributedSparseGridUniform.hpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp",
      "src/utils/LevelSetUtils.cpp", "src/fullgrid/DistributedFullGrid.hpp", "src/combicom/CombiCom.hpp"],
     [("accumulate/exclusive_scan start values", "src"), ("memset/memcpy sizes", "src")])

prop("C20", "Failed I/O is never mistaken for success",
     "The outcome of every parallel-file open, read and write, of every compression or decompression step and of every socket transfer is examined, and a failure is reported to the caller or raised as an error; "
     "it is not examined only in assertions and never discarded.",
     ["fault_sequences", "inputs"],
     "any I/O, decompression or network failure at any call",
     "The tests do not inject I/O, decompression or socket failures.",
     ["src/io/MPIInputOutput.hpp", "src/io/MPICompression.hpp", "src/third_level/NetworkUtils.cpp", "src/third_level/ThirdLevelUtils.cpp"],
     [("return code checks", "MPIInputOutput.hpp, NetworkUtils.cpp")])

# ---- behavioural properties that quantify over run-time values (not applicable to this family)
prop("C40", "Combination coefficients follow inclusion-exclusion",
     "For every combination scheme, the coefficients of all component grids containing any given hierarchical subspace sum to one, so every subspace is counted exactly once in the combined solution.",
     ["inputs"], "all minimum/maximum level vectors, dimensions, truncations and faulted subsets",
     "Tests check some schemes only.", ["src/combischeme/CombiMinMaxScheme.cpp", "src/combischeme/CombiMinMaxScheme.hpp", "src/fault_tolerance/FTUtils.cpp"],
     [("coefficient computation", "CombiMinMaxScheme")])
prop("C41", "Combining a function the grids represent reproduces it",
     "If all component grids hold nodal values of one function in the sparse grid space, a combination leaves all values unchanged up to rounding, for every basis, boundary and process layout.",
     ["inputs", "configurations"], "all functions, level sets, decompositions", "Tests sample a few functions and layouts.",
     ["src/manager/SparseGridWorker.hpp", "src/hierarchization/DistributedHierarchization.hpp"], [("combine", "SparseGridWorker")])
prop("C42", "Domain decomposition assigns every grid point to exactly one process",
     "For every level, decomposition and process grid, each grid point is owned by exactly one process, and global, local and linear indices convert into each other without loss.",
     ["inputs", "configurations"], "all levels, boundary flags, process grids", "Tests sample a few grids.",
     ["src/fullgrid/DistributedFullGrid.hpp", "src/utils/DecompositionUtils.hpp", "src/fullgrid/Tensor.hpp"], [("index arithmetic", "Tensor.hpp, DistributedFullGrid.hpp")])
prop("C43", "Written sparse grids read back unchanged",
     "Reading back a sparse grid that was written to disk, compressed or not, in one or several parts, restores exactly the values written.",
     ["inputs"], "all values, sizes, numbers of parts and writers", "Tests use a few small grids.",
     ["src/sparsegrid/DistributedSparseGridIO.hpp", "src/io/MPICompression.hpp"], [("writer/reader pairs", "DistributedSparseGridIO.hpp")])
prop("C44", "Interpolation reproduces the grid function between points",
     "Interpolated values at any coordinates equal the d-linear (or basis) interpolant of the distributed grid values, for every boundary treatment.",
     ["inputs"], "all coordinates and values", "Tests sample points.", ["src/fullgrid/DistributedFullGrid.hpp", "src/manager/InterpolationWorker.hpp"], [("evalLocal", "DistributedFullGrid.hpp")])
prop("C45", "Task distribution balances the expected load",
     "Tasks are assigned and migrated such that no group idles while tasks wait and the load imbalance does not grow through rescheduling.",
     ["histories", "schedules"], "all load models and durations", "Depends on timings.", ["src/manager/ProcessManager.cpp", "src/rescheduler/RebalancingTaskRescheduler.cpp"], [("assignment loop", "ProcessManager")])
prop("C46", "Processing continues with correct coefficients after process faults",
     "After any set of process groups fails, the surviving groups recover communicators, redistribute or recompute lost tasks and combine with coefficients valid for the remaining grids.",
     ["fault_sequences"], "all fault sequences", "Fault-tolerance tests are disabled in this build.", ["src/mpi/MPISystem.cpp", "src/fault_tolerance/FTUtils.cpp", "src/manager/ProcessManager.cpp"], [("recoverCommunicators", "MPISystem.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
