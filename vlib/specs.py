"""What each check builds, explores and reports."""
from . import cxx, scr, scr_c09, scr_c10, scr_c11, scr_c12, scr_c19

SIM_ASSUME = [
    "sequentially consistent execution of the compiled code (races, which weaker memory orders need, are reported by the happens-before detector)",
    "preemption happens at memory accesses outside the running thread's own stack, at function entries, at synchronisation and output calls",
    "x86-64, the installed compiler, C++17 (C01, C02, C07: C++20, too)",
]
SIM_STUB = ["thread scheduler, mutexes/conditions/once/guards, clock and sleep, heap, stdout/stderr, abort/exit (simulated; the code under test uses the ordinary C/C++ interfaces)"]

NOTE = "Trusts the simulator runtime (sim/simrt.cpp), the compiler instrumentation and the reference models in wl/."

NOTE_S = "Trusts the simulated system-call layer (sim/ioshim.c) and the reference models in vlib/."
STUB_S = ["system calls on the file tree (numbered and made to fail by sim/ioshim.c, otherwise carried out in a scratch directory)", "clock, randomness, directory order"]
ASSUME_S = ["the installed Python 3.12; faults at the boundary of the C library", "a crash keeps what was written in order, a power loss keeps a prefix or nothing of files not synced"]

ARR = ["arr_%d.cpp" % i for i in range(1, 8)]

SPECS = {
    "C01": dict(
        technique="thread interleavings, same-thread interruptions, stalls and allocation failures, judged by a reference model, bitwise repeatability and a happens-before race detector",
        note="Samples schedules, interruption points and inputs; evidence, not proof. Covers the instantiations listed in wl/c01_*.cpp. " + NOTE,
        workload="c01",
        variants=[dict(name="base", sources=["c01_main.cpp"] + ["c01_%d.cpp" % i for i in range(1, 8)], flags=["-O0"]),
                  dict(name="cxx20", sources=["c01_main.cpp"] + ["c01_%d.cpp" % i for i in range(1, 8)], flags=["-O0", "-std=c++20"], optional=True, share=0.25),
                  dict(name="o1", sources=["c01_main.cpp"] + ["c01_%d.cpp" % i for i in range(1, 8)], flags=["-O1"], thorough_only=True, share=0.5)],
        quick=16000, thorough=600000,
        rule="Each seed draws 1-7 evaluations out of ~600 instantiated basis/product/element/shape/table functions with shared inputs, runs them alone, then concurrently in 2-4 threads "
             "under a seeded schedule with interruptions, stalls and allocation failures, then alone again.",
        real=["include/shiva/functions/**", "include/shiva/discretizations/**", "include/shiva/geometry/shapes/**", "include/shiva/common/**"],
        stub=SIM_STUB, assumptions=SIM_ASSUME),
    "C02": dict(
        technique="histories of cell edits, copies and re-creations interleaved with concurrent and interrupting readers, judged by a reference model of each cell",
        note="Samples histories, schedules and data; 11 cell types of three dimensions (three mappings, two precisions, mixed orders and spacings), and cells of one, two and four dimensions (variant dims). " + NOTE,
        workload="c02",
        variants=[dict(name="base", sources=["c02_main.cpp"] + ["c02_%d.cpp" % i for i in range(1, 7)], flags=["-O0"]),
                  dict(name="dims", sources=["c02_main.cpp", "c02_7.cpp"], flags=["-O0", "-DOTHER_DIMS"], optional=True, share=0.3),
                  dict(name="cxx20", sources=["c02_main.cpp"] + ["c02_%d.cpp" % i for i in range(1, 7)], flags=["-O0", "-std=c++20"], optional=True, thorough_only=True, share=0.25),
                  dict(name="o1", sources=["c02_main.cpp"] + ["c02_%d.cpp" % i for i in range(1, 7)], flags=["-O1"], thorough_only=True, share=0.5)],
        quick=16000, thorough=600000,
        rule="Each seed draws 2-7 cells (each owned by one thread or shared read-only) and up to ~50 operations: setting, editing in place (also through a held reference), copying, assigning, swapping, re-creating over garbage, "
             "and Jacobian/inverse/determinant calls with clean, NaN-filled or previously used outputs, under a seeded schedule with interruptions and stalls.",
        real=["include/shiva/geometry/**", "include/shiva/common/MathUtilities.hpp", "include/shiva/functions/**"],
        stub=SIM_STUB, assumptions=SIM_ASSUME),
    "C03": dict(
        technique="interleaved register histories over arrays, views and held slices, judged by a register model, address layout, access confinement and a happens-before race detector",
        note="Samples histories, schedules and interruption points; array and view types of rank 1-7, up to 72000 elements, of six element types. " + NOTE,
        workload="c03",
        variants=[dict(name="base", sources=["c03.cpp"] + ARR, flags=["-O0"]),
                  dict(name="types", sources=["c03.cpp"] + ARR, flags=["-O0", "-DEXOTIC"], optional=True, share=0.25),
                  dict(name="unchecked", sources=["c03.cpp"] + ARR, flags=["-O0"], config=["SIM_NO_BOUNDS_CHECK"], share=0.4),
                  dict(name="o1", sources=["c03.cpp"] + ARR, flags=["-O1"], thorough_only=True, share=0.5)],
        quick=14000, thorough=600000,
        rule="Each seed draws 1-3 buffers with up to 4 arrays/views over each, a partition of their elements among 2-4 threads, and up to ~70 reads, writes, slice takings, copies and assignments through 14 access paths.",
        real=["include/shiva/common/CArray.hpp", "include/shiva/common/CArrayHelper.hpp", "include/shiva/common/ShivaMacros.hpp"],
        stub=SIM_STUB, assumptions=SIM_ASSUME),
    "C04": dict(
        technique="bit-flipped and wrong indices, concurrent failures and a failing diagnostic stream; the simulated process must die before any access, valid accesses must not be affected",
        note="Samples index values, types, paths, schedules and error-stream faults with bounds checking on. " + NOTE,
        workload="c04",
        variants=[dict(name="base", sources=["c04.cpp"] + ARR, flags=["-O0"]),
                  dict(name="types", sources=["c04.cpp"] + ARR, flags=["-O0", "-DEXOTIC"], optional=True, share=0.25),
                  dict(name="o1", sources=["c04.cpp"] + ARR, flags=["-O1"], thorough_only=True, share=0.5)],
        quick=16000, thorough=600000,
        rule="Each seed draws arrays and views as in C03 and gives each of 2-4 threads up to 6 accesses, valid or with one index out of range (equal to the dimension, negative, far off, aliasing a valid linear index, or one bit flipped "
             "in its own type), with output errors, allocation failures, interruptions and stalls; an out-of-range access kills its thread, the others run on until they end or fail.",
        real=["include/shiva/common/CArray.hpp", "include/shiva/common/CArrayHelper.hpp", "include/shiva/common/ShivaErrorHandling.hpp", "include/shiva/common/ShivaMacros.hpp"],
        stub=SIM_STUB, assumptions=SIM_ASSUME + ["a trap, abort or exit with a failure status counts as abnormal termination"]),
    "C05": dict(
        technique="threads failing together under seeded schedules, with an interrupted, short, full or closed error stream and failing allocations; the simulated stderr, attributed byte by byte, is checked for whole reports and the process for certain termination",
        note="Samples schedules, stream faults, formats and message lengths up to 70000 bytes; no interruption by signal handlers. " + NOTE,
        workload="c05",
        variants=[dict(name="base", sources=["c05.cpp"], flags=["-O0"]),
                  dict(name="o1", sources=["c05.cpp"], flags=["-O1"], thorough_only=True, share=0.5)],
        quick=16000, thorough=800000,
        rule="Each seed draws 2-5 threads with 1-4 failing (or holding) assertions each: reports that return, reports that abort, the assertion macro and out-of-range indices, with 8 format shapes, odd file names, lines and lengths around powers of two, "
             "output errors (EINTR, short, ENOSPC, EIO, EBADF, EAGAIN, zero; once or for good), allocation failures and stalls. A thread that terminates stops; the others run on until they end.",
        real=["include/shiva/common/ShivaErrorHandling.hpp", "include/shiva/common/ShivaMacros.hpp", "include/shiva/common/CArrayHelper.hpp"],
        stub=SIM_STUB, assumptions=SIM_ASSUME + ["one stdio call on the error stream is atomic towards other threads (POSIX stream locking)"]),
    "C06": dict(
        technique="callbacks that throw, block, re-enter and are interrupted at chosen visits, in threads iterating together; the visit history is checked against the row-major order step by step",
        note="Samples schedules and fault positions; 64 iteration spaces of 1-6 dimensions. " + NOTE,
        workload="c06",
        variants=[dict(name="base", sources=["c06_main.cpp"] + ["c06_%d.cpp" % i for i in range(1, 9)], flags=["-O0"]),
                  dict(name="o1", sources=["c06_main.cpp"] + ["c06_%d.cpp" % i for i in range(1, 9)], flags=["-O1"], thorough_only=True, share=0.5)],
        quick=40000, thorough=800000,
        rule="Each seed draws iterations over 64 spaces (forSequence, executeSequence, forNestedSequence, forRange from any starting indices, also near the end of ranges of up to 210000 indices, linearIndex of any index, supportLoop of products and shapes; callable as function object, template call operator or lambda, owning state, answering with nothing, a flag, a number or a pointer), "
             "run in 2-4 threads with exceptions, blocking, re-entry and interruptions at chosen visits, stalls and allocation failures, before, during and after one another.",
        real=["include/shiva/common/*Sequence*.hpp", "include/shiva/common/IndexTypes.hpp", "include/shiva/common/MultiIndex.hpp", "BasisProduct::supportLoop", "InterpolatedShape::supportLoop"],
        stub=SIM_STUB, assumptions=SIM_ASSUME),
    "C07": dict(
        technique="data sources that throw, block, re-enter and are shared between interleaved threads, at seeded reads; results judged by a long-double weighted sum and the recorded read history",
        note="Samples schedules, read positions, data and points; 9 elements of 1-3 dimensions, 9 kinds of source. " + NOTE,
        workload="c07",
        variants=[dict(name="base", sources=["c07.cpp"], flags=["-O0"]),
                  dict(name="cxx20", sources=["c07.cpp"], flags=["-O0", "-std=c++20"], optional=True, share=0.25),
                  dict(name="o1", sources=["c07.cpp"], flags=["-O1"], thorough_only=True, share=0.5)],
        quick=12000, thorough=500000,
        rule="Each seed draws 1-5 data sets (owned by one thread and changed by it, or shared) over 9 elements and up to ~25 interpolations of values and gradients through function objects (of the element's type, of integers, float or double, by value or reference), lambdas, arrays and views, also of infinite and invalid values, "
             "with exceptions, blocking and re-entry at chosen reads, interruptions, stalls and allocation failures.",
        real=["include/shiva/discretizations/**", "include/shiva/functions/**", "include/shiva/common/CArray.hpp"],
        stub=SIM_STUB, assumptions=SIM_ASSUME),
    "C08": dict(
        technique="a simulated accelerator with its own memory, asynchronous launches, failing calls and faulting kernels under concurrent launching threads; results, reports, termination and device allocations are checked per launch",
        note="Samples schedules and failures. The device and its runtime are simulated (CUDA and HIP names); the wrappers are the repository's, with each kernel launch expression translated to a call of the simulated device. " + NOTE,
        workload="c08",
        variants=[dict(name="host", sources=["c08.cpp"], flags=["-O0"], share=0.4),
                  dict(name="cuda", optional=True, sources=["c08.cpp"], device=True, plain=["simdev.cpp"], config=["SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_BOUNDS_CHECK"], flags=["-O0", "-include", "simdev.h"]),
                  dict(name="hip", optional=True, sources=["c08.cpp"], device=True, plain=["simdev.cpp"], config=["SHIVA_ENABLE_HIP", "SHIVA_ENABLE_BOUNDS_CHECK"], incs=["sim/hipinc"], flags=["-O0", "-include", "hip/hip_runtime.h"])],
        quick=14000, thorough=600000,
        rule="Each seed draws 1-3 host threads with 1-4 launches each (with a data array of 0-40 elements of 4 types, without one, or a release), some asked to abort; device calls fail at chosen positions (refused, refused with half the work done, "
             "or refused for good), kernels fault at chosen elements, threads stall; the host build also interrupts launches with launches.",
        real=["include/shiva/common/pmpl.hpp"],
        stub=SIM_STUB + ["device, device memory and its runtime calls (sim/simdev.cpp)", "the kernel launch expression (vlib/devtrans.py)"], assumptions=SIM_ASSUME),
    "C09": dict(
        technique="file operations of the aggregation that fail, stop short, are interrupted or are the last before a crash or power loss, in seeded header trees; claims are judged by a reference model of the include graph and reruns against undisturbed runs",
        note="Samples trees and fault sequences of up to three attempts. " + NOTE_S,
        module=scr_c09, quick=9000, thorough=200000,
        rule="Each seed draws a project of 1-7 headers (all include forms, several include paths, equal base names, paths that differ in case only, odd line ends) in which 30 % have a flaw (missing, cyclic, unreadable, unexaminable or undecodable headers, an unwritable output or one that is itself a header), runs the aggregation "
             "undisturbed, then up to three times with faults at operations of that run, with power loss after crashes, then again.",
        real=["scripts/aggregateOrSplit.py"], stub=STUB_S, assumptions=ASSUME_S),
    "C10": dict(
        technique="file operations of the splitting that fail, stop short, are interrupted or are the last before a crash or power loss, on seeded aggregated files with well-behaved and hostile paths; every changed path is checked, results compared with the file's own sections and reruns with undisturbed runs",
        note="Samples inputs and fault sequences of up to three attempts. " + NOTE_S,
        module=scr_c10, quick=9000, thorough=300000,
        rule="Each seed draws an aggregated file (made by the aggregation itself, or of up to 7 sections with absolute, relative, parent-relative, escaping and odd paths) and an output directory (missing, existing, with stale files or links, unusable, or such that the aggregated file itself lies where a header belongs), "
             "splits it undisturbed, then up to three times with faults at operations of that run, with power loss after crashes, then again.",
        real=["scripts/aggregateOrSplit.py"], stub=STUB_S, assumptions=ASSUME_S),
    "C11": dict(
        technique="configurations with failing, killed and missing tools, file operations that fail, stop short or are interrupted, crashes and power loss; exit status, commands run, recorded command and every directory are checked per run, reruns against undisturbed runs",
        note="Samples options, prior directory contents and fault sequences of up to three attempts. " + NOTE_S,
        module=scr_c11, quick=7000, thorough=200000,
        rule="Each seed draws options (paths with odd characters, relative, nested and default ones, generators, dependency graph, arguments for cmake), prior contents of both directories (stale files, links, locked directories, files in their place), "
             "tool outcomes (statuses, signals, missing tools) and up to three disturbed attempts before a last undisturbed one, next to an undisturbed twin.",
        real=["scripts/config-build.py", "/bin/sh"], stub=STUB_S + ["cmake and dot (sim/stub.c)"], assumptions=ASSUME_S),
    "C12": dict(
        technique="both scripts run by the real shell with every step replaced by a stand-in that fails, dies or is missing at seeded places, and with failing system calls and crashes of the shell itself; the commands run, their arguments, order and directories, and the exit status are checked per run",
        note="Samples modes, settings, step outcomes and faults. " + NOTE_S,
        module=scr_c12, quick=3500, thorough=150000,
        rule="Each seed draws a script (container, launching, or both joined by the settings handed on), a mode, settings (missing, empty, with spaces), outcomes of each step (statuses, signals), prior contents of the build directory, whether the configuration is the "
             "repository's script or a stand-in, and up to two disturbed runs before a last undisturbed one.",
        real=["scripts/ci_build_and_test_in_container.sh", "scripts/ci_build_and_test.sh", "scripts/config-build.py (part of the runs)", "/bin/bash", "cp"], stub=STUB_S + ["cmake, make, ctest, docker, nproc (sim/stub.c)"], assumptions=ASSUME_S),
    "C19": dict(
        technique="comparisons of seeded configurations during which file and output operations fail, stop short, are interrupted or are the last before a crash; a success status is judged by a reference model of both files",
        note="Samples configurations and fault sequences of up to three attempts. " + NOTE_S,
        module=scr_c19, quick=9000, thorough=200000,
        rule="Each seed draws two configurations (comments, blanks, odd spacing, values and keys that differ little, bytes that are not UTF-8, hundreds of settings, missing, unreadable or not files) and compares them undisturbed, then up to three times with faults at operations of that run.",
        real=["scripts/compare_uncrustify.py"], stub=STUB_S, assumptions=ASSUME_S),
}


def run(prop, replay):
    s = SPECS[prop]
    if "module" in s:
        return scr.check(prop, s, replay)
    return cxx.check(prop, s, replay)
