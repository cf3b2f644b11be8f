#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "CPU tessellation is independent of thread count and scheduling",
 "For any valid point set and parameters, tessellating on the CPU returns the same neighbour rows and leaves the points in the same order whatever number of worker threads is requested (0 means whatever the machine reports, including 'unknown') and however those workers are scheduled. Each row is exactly the set of points that share a face with that point's Voronoi cell, clipped to the unit cube and built from its k nearest points, as long as the cell fits the plane and triangle capacities passed.",
 ["schedules", "configurations", "inputs"],
 "every interleaving of the workers of one call, every thread count from 1 to more threads than points, every hardware thread count the OS may report, every point set in general position in (0,1)^3, float and double",
 "The tests run a few fixed point sets at the machine's own thread count under whatever schedule the OS happens to pick, and accept supersets of the true neighbours.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/heap.ipp", "src/boundary.ipp", "src/xyzset.ipp"],
 ["__cpu__tesellate splits a run into per-thread index ranges, every worker indexes disjoint slices of heap_id/heap_pq/dknn/P/T/dR by its point index, and all are joined before the rows are collected"],
 [{"name": "heap_id, heap_pq, dknn, P, T, dR", "meaning": "per-point scratch slices shared by all workers of a call", "where": "src/votess.ipp __cpu__tesellate"}])

prop("C02", "Chunked processing never changes the result",
 "Splitting the work into chunks, with any chunk size (smaller than, equal to, not dividing, or larger than the number of points, or non-positive), any thread count and any schedule, yields exactly the rows and point order of the unchunked call: no point is skipped, computed from another chunk's data, or reported twice.",
 ["configurations", "schedules", "inputs"],
 "every chunk size, thread count, schedule and point set; scratch memory is reused from chunk to chunk so the history of earlier chunks is part of the state",
 "No existing test enables chunking at all.",
 ["src/votess.ipp"],
 ["the chunk loop in __cpu__tesellate refills heap_id/heap_pq/dknn for each run and copies each chunk's rows out by index before the buffers are reused"])

prop("C03", "Recompute yields every complete Voronoi cell from any starting budget",
 "With use_recompute enabled, whatever the initial k, the initial plane and triangle capacities, the thread count, the chunking and the schedule, every row is exactly the set of true Voronoi neighbours of its point within the unit cube (as long as no cell needs more than 255 planes), so that i is listed for j exactly when j is listed for i.",
 ["configurations", "schedules", "inputs", "histories"],
 "every starting k >= 1, p >= 6 and t >= 8, every thread count, chunk size and schedule, every sequence of retry rounds these lead to, every point set in general position",
 "No existing test enables use_recompute; the retry loop, its growth of k and of the capacities and its stopping rule are never executed by the suite.",
 ["src/votess.ipp", "src/cc.ipp", "src/boundary.ipp", "src/status.ipp"],
 ["__cpu__recompute re-runs the cells whose security radius was not reached with doubled k and, on overflow, doubled capacities, until none is left or all points were considered"],
 [{"name": "states", "meaning": "per-point status bits that decide which cells are re-run and what grows", "where": "src/votess.ipp __cpu__recompute"}])

prop("C04", "Workers never race or touch memory they do not own",
 "During a tessellation no two workers (CPU threads) access the same memory without synchronisation when one of them writes, nothing is read or written outside live allocations, and the result does not depend on what uninitialised or recycled memory happens to contain. This holds for every schedule and every parameter combination, including capacity overflow, more threads than points, chunk remainders and retry rounds.",
 ["schedules", "configurations", "inputs"],
 "every interleaving, thread count, chunking, capacity and retry history; every prior content of heap memory",
 "Tests observe only final rows of a handful of runs with default capacities; a race or an out-of-bounds access that does not happen to change them is invisible.",
 ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp", "src/boundary.ipp", "src/xyzset.ipp", "src/heap.ipp"],
 ["slices of the shared scratch vectors are addressed by point index; overflow checks stop a cell before it leaves its slice; scratch is refilled per run"])

prop("C05", "Concurrent tessellations in one process do not affect each other",
 "When several caller threads tessellate at the same time, each on a point set of its own and with any parameters, be it one parameter object they all use, every call returns exactly what it would have returned alone, and no call crashes, deadlocks or races with another, however the calls overlap.",
 ["schedules", "histories", "configurations"],
 "every overlap of two or more calls, with different or identical parameters, stdout suppression on or off, starting and finishing in any order",
 "The suite never has two calls in flight in one process.",
 ["src/votess.ipp", "include/arguments.hpp", "src/dnn.ipp"],
 ["all working memory is local to a call; the only process-wide state a call touches is the std::cout stream buffer"],
 [{"name": "std::cout.rdbuf()", "meaning": "process-wide stream buffer replaced while a call runs with dev_suppress_stdout", "where": "src/votess.ipp suppress::stdout"}])

prop("C06", "Standard output is intact after every call",
 "After a tessellation returns or throws, and after any overlapping set of tessellations has finished, the program's standard output stream works as before: text the program then writes to std::cout appears on standard output exactly once and in order, and with suppression on nothing the library prints during the calls appears there.",
 ["schedules", "histories", "fault_sequences"],
 "every overlap and finishing order of calls with suppression on or off, every point at which a call can fail and throw",
 "Tests suppress stdout themselves and never check it; overlapping and failing calls are never made.",
 ["src/votess.ipp"],
 ["suppress::stdout saves and replaces the buffer of std::cout in its constructor and restores it in its destructor"])

prop("C07", "Running out of threads or memory fails cleanly and can be retried",
 "If creating a worker thread or allocating memory fails at any point of a tessellation, the call either still returns the correct result or throws an exception to its caller: it never terminates the process, deadlocks, leaves a worker running on freed data or leaks on every attempt. The caller's points are still a permutation of what was passed, and the same call made again with resources available returns the correct result.",
 ["fault_sequences", "schedules", "configurations"],
 "failure of every single allocation and every single thread creation (and pairs of them), in every phase of the call, under every schedule of the workers already started",
 "The suite never makes an allocation or a thread creation fail.",
 ["src/votess.ipp", "src/xyzset.ipp"],
 ["scratch is held in containers; worker threads are joined before the vectors they use go out of scope"])

prop("C08", "Points are conserved and results do not depend on earlier calls",
 "In any sequence of calls in one process, each tessellation leaves the caller's points a permutation of what was passed, returns one row per point with every entry a valid index, never the point itself and never twice, and its outcome depends only on its own points and parameters. Tessellating an already tessellated set again with the same grid changes neither the points nor the rows.",
 ["histories", "configurations", "fault_sequences"],
 "every sequence of calls with changing point sets, precision, parameters and failing calls in between",
 "Each test makes isolated single calls with fresh data and never re-uses a set or follows a failed call.",
 ["src/votess.ipp", "src/xyzset.ipp", "src/dnn.ipp"],
 ["xyzset::sort is a stable radix sort of points by grid cell; rows are rebuilt from scratch in every call"])

prop("C09", "The device path returns the CPU result under every device schedule",
 "When a SYCL device is used, the rows are exactly those the CPU path returns for the same points and parameters, whatever order and overlap the device chooses for work items, work groups and independently submitted commands, whatever work-group size and chunking are requested, and whatever device memory contains beforehand; device code never accesses a buffer out of bounds or races between work items.",
 ["schedules", "configurations", "inputs"],
 "every execution order the SYCL model allows, every gpu_ndsize the device supports, every chunk size, every initial content of device and local memory, every point set in general position",
 "The device path is never executed by the suite here: there is no device compiler, the tests fall back to the CPU.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/boundary.ipp", "src/heap.ipp"],
 ["__gpu__tesellate submits fill kernels and one tessellation kernel per chunk over buffers, and copies states and rows back through host accessors"])

prop("C10", "Missing or failing devices degrade safely",
 "If the device was requested but no GPU is present, the call returns the CPU result. If the device runtime reports an error while enumerating devices, creating the queue, allocating a buffer or submitting work, the call either returns the correct result or throws, never wrong rows; the points stay a permutation, standard output is intact, and a later call returns the correct result.",
 ["fault_sequences", "configurations", "histories"],
 "a synchronous runtime error at every runtime call of the device path, in every chunk; zero or more GPUs appearing and disappearing between calls",
 "The tests meet only one configuration (no GPU) and no runtime failure.",
 ["src/votess.ipp"],
 ["tesellate checks for a GPU and otherwise warns and runs the CPU path; runtime errors propagate as exceptions"])

prop("C11", "The command line never tessellates a partly read or corrupt input",
 "clvotess either processes exactly the points its input file holds and exits 0, or reports an error and exits non-zero; an unopenable file, a read error part-way, or a line that does not start with three coordinates in (0,1) never leads to exit 0 with results for something else, nor to a crash or a hang. Short reads and interrupted reads have no effect on the result.",
 ["fault_sequences", "inputs"],
 "a read error, short read, interruption, truncation or corrupted byte at every position of the file, for files smaller and larger than the stream buffer; any failing allocation while reading",
 "The command line program has no tests.",
 ["src/main.cpp", "src/votess.ipp"],
 ["main reads the file line by line, rejects unparsable lines, and returns 1 on error"])

prop("C12", "The command line never reports success for incomplete output",
 "Whenever clvotess exits 0, standard output holds one row per input point, in the order of the sorted points, equal to what the library returns for that file and those options; if standard output cannot take all of it, the exit status is non-zero.",
 ["fault_sequences", "configurations"],
 "output failing from the first byte or after any number of bytes, for every combination of options",
 "The command line program has no tests.",
 ["src/main.cpp", "src/dnn.ipp"],
 ["main prints the result with dnn::print after the tessellation"])

prop("C13", "A saved result is complete or the failure is reported",
 "After savetxt the file holds one line per point with that point's neighbours, in order, also for rows without neighbours and whatever the process's locale is, or the failure was reported to the caller on standard error (or by an exception). An open, write or close failure or a full disk at any byte never leaves a truncated file without a report, and short or interrupted writes have no effect.",
 ["fault_sequences", "inputs"],
 "an open failure, a write failure after every possible number of bytes, a failing close, short and interrupted writes, results of every shape",
 "savetxt has no tests.",
 ["src/dnn.ipp"],
 ["savetxt opens an ofstream, reports an open failure, writes row by row and closes"])

prop("C14", "Every tessellation finishes in bounded work and waits for its workers",
 "Every call with valid points and parameters finishes within a number of steps bounded by its input size under any schedule that keeps running runnable threads, with no deadlock, however small the initial k and capacities are and however long single workers are stalled; when it returns or throws, none of its workers still uses the caller's points or the call's memory.",
 ["schedules", "configurations", "fault_sequences"],
 "every schedule including long stalls of any subset of workers, every initial k and capacity, chunking and retry combination, and calls that fail part-way",
 "Tests do not exercise the retry loop and cannot stall or reorder workers.",
 ["src/votess.ipp", "src/boundary.ipp", "src/cc.ipp", "src/knn.ipp"],
 ["the retry loop doubles k until all points were used; boundary search counts its steps; workers are joined before returning"])

prop("C15", "Python row views stay valid and failures surface as exceptions",
 "In any sequence of Python operations, a row taken from a result reads the values it had when taken for as long as Python code holds it, whenever the result object and other objects are released; rows equal those of the C++ library; an index outside a result or a row raises IndexError, so that iterating over either ends after its last entry; and a failing allocation or thread creation inside a call surfaces as a Python exception with the interpreter and later calls unaffected.",
 ["histories", "fault_sequences"],
 "every order of creating, indexing and dropping results and rows, with garbage collection and re-use of freed memory in between; failure of any allocation or thread creation inside a call",
 "The Python module has no tests.",
 ["src/pybind11/pyvotess.cpp", "src/dnn.ipp", "src/votess.ipp"],
 ["pybind11 return value policies of dnn.__getitem__ and Proxy.__getitem__"])

prop("C18", "A result can be read and saved by several threads at once",
 "Once a result exists, any number of threads may read its rows and save it, each to a file of its own, at the same time: no data race occurs, every thread sees and saves exactly the rows of the result, and nothing any of them does changes the result.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of several readers and writers of files on one result of any shape, with short and interrupted writes",
 "Tests use a result from one thread only.",
 ["src/dnn.ipp"],
 ["size, operator[], proxy and savetxt only read list and offs"])

prop("C19", "Points outside the unit cube are refused without a trace",
 "A call whose points include a coordinate that is not strictly between 0 and 1 (infinities and NaN included) throws to its caller and leaves the points exactly as they were passed, on either device, wherever the bad coordinate is and whatever the other parameters are; it never returns rows, crashes or corrupts memory, and earlier, later and overlapping calls on valid points return what they would have returned alone.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "every history of refused and accepted calls by several callers, any position and value of the bad coordinate, with failing allocations and thread creations",
 "Tests check the validation function on a few vectors, not the call.",
 ["src/votess.ipp", "src/xyzset.ipp"],
 ["tesellate validates the points before it sorts them"])

prop("C16", "Parameter values read back as they were set",
 "An integer or boolean value assigned to a parameter reads back equal when read as a type that can hold it, whatever the process's locale is when it is set or read and however many threads read the same parameters at once; changing a copy never changes the original, nor the other way round; an unknown parameter name, or a value that cannot be converted to the type asked for, is rejected with an exception and changes nothing; and a failing allocation while setting a value leaves the old value or the new one, never another.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every history of setting, reading and copying parameters, changes of the global locale in between, any number of simultaneous readers, failure of any allocation",
 "Tests sample a few values per type, in one thread, in the default locale, with memory to spare.",
 ["include/arguments.hpp"],
 ["values are stored as text through stream insertion and extraction"])

prop("C20", "Unusable parameters are refused and never corrupt memory",
 "A tessellation of valid points with parameters it cannot work with (k, grid resolution or capacities that are zero, negative, too small to hold the unit cube or so large that its working arrays could not be addressed) either throws to its caller or returns one row per point with valid entries; it never accesses memory it does not own, terminates the process, loses a point or leaves workers behind, and earlier, later and overlapping calls with usable parameters return what they would have returned alone.",
 ["configurations", "histories", "schedules", "fault_sequences"],
 "every value of every integer parameter, one or several of them unusable, on either device, between and beside usable calls, with failing allocations and thread creations",
 "Tests use parameters from the documented range only.",
 ["src/votess.ipp", "src/xyzset.ipp", "src/cc.ipp", "src/knn.ipp"],
 ["tesellate validates parameters before it uses them and the size of the working arrays before it allocates them"])

prop("C17", "Heap and geometry primitives are exact on representable cases",
 "Sorting a heap of distances orders ids with their distances; bisecting, intersecting and dotting planes return the mathematically correct values wherever these are exactly representable.",
 ["inputs"],
 "every heap content and size, every representable plane configuration",
 "Tests sample fixed values.",
 ["src/heap.ipp", "src/planes.ipp", "src/sradius.ipp", "src/utils.ipp"],
 ["straight-line arithmetic and array permutation without shared state, time, I/O or allocation"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
