import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent basis and element evaluation is isolated and correct",
"Evaluating basis functions, their products, parent elements and interpolated shapes (values and gradients) and the tabulated point and weight data, from any number of threads in any interleaving and when one evaluation interrupts another on the same thread, returns bit for bit what the same evaluation returns when it runs alone. That result is the value or derivative of the Lagrange interpolation polynomial on the documented support points, or the documented point or weight, to within rounding. An evaluation never writes its arguments or any memory another evaluation can see unsynchronised.",
["schedules","inputs","fault_sequences"],
"all interleavings of evaluations on shared coordinates, all points at which one evaluation can interrupt another, all coordinates, all supported orders, spacings, dimensions and language dialects",
"The tests evaluate a few elements at fixed points, one at a time, in one thread; hidden shared or thread-local state, or a value that depends on what was evaluated before, cannot show up in them.",
["include/shiva/functions/bases/LagrangeBasis.hpp","include/shiva/functions/bases/BasisProduct.hpp","include/shiva/functions/spacing/Spacing.hpp","include/shiva/functions/quadrature/Quadrature.hpp","include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp","include/shiva/geometry/shapes/InterpolatedShape.hpp"],
[("static constexpr evaluation without state","LagrangeBasis::value/gradient, BasisProduct::value/gradient, ParentElement::value/gradient, InterpolatedShape::value/gradient"),("tables as constants","EqualSpacing/GaussLegendreSpacing/GaussLobattoSpacing::coordinate, QuadratureGauss*::weight")],
["return values of value<...>(x), gradient<...>(x), coordinate(i), coordinate<I>(), weight(i), weight<I>()","every memory access made during a call"])

p("C02","A cell mapping always reflects exactly the cell's current data",
"Whatever history of replacing a cell's data, editing it in place, copying, assigning and re-creating cells has happened, and whatever other threads do with other cells or read from the same cell, a Jacobian, its inverse and its determinant are those of the cell's data at the time of the call, to within rounding. The results do not depend on what the output arguments held before, on earlier calls, or on other cells; reading a cell never changes it, and copies share nothing with their source.",
["histories","schedules","inputs"],
"all histories of data updates, copies and evaluations over several cells and threads, all invertible cell geometries, evaluation points and prior contents of the output buffers",
"The tests set the data of one freshly made cell once and evaluate it once into a zeroed output, in one thread.",
["include/shiva/geometry/mapping/LinearTransform.hpp","include/shiva/geometry/mapping/Scaling.hpp","include/shiva/geometry/mapping/UniformScaling.hpp","include/shiva/geometry/mapping/JacobianTransforms.hpp","include/shiva/common/MathUtilities.hpp"],
[("cell data held by value, read at each evaluation","LinearTransform::m_vertexCoords, Scaling::m_length, UniformScaling::m_length"),("Jacobian and inverse evaluated from the current data","geometry::utilities::jacobian, inverseJacobian"),("in-place 3x3 inversion","mathUtilities::inverse")],
["getData()","jacobian(...), inverseJacobian(...) outputs and returned tuples"],
[("vertex coordinates / edge lengths","the cell's current geometry","m_vertexCoords, m_length")])

p("C03","Array elements are independent registers under concurrent use",
"In a fixed-size multi-dimensional array or view, each valid index names its own element: concurrent threads that use disjoint elements never disturb or even touch one another's, and every element behaves as a register whose reads return the last value written through any access path (call with run-time or compile-time indices, chained subscripts, slices held across other operations, views over the same buffer, the raw buffer). Elements are laid out in row-major order, in which a list an array is made from fills it too; views and slices alias exactly the storage they name, read access never writes, and nothing outside the addressed element is accessed.",
["schedules","histories","inputs"],
"all interleavings of reads and writes through every access path, all ranks, extents and element types, owning arrays, views and constant views",
"The tests walk a few arrays once, in one thread, through one access path at a time.",
["include/shiva/common/CArray.hpp","include/shiva/common/CArrayHelper.hpp","include/shiva/common/IndexTypes.hpp"],
[("row-major linear index","CArrayHelper::linearIndexHelper, strideHelper"),("slices as views","CArray::operator[] / squareBracketOperatorHelper"),("views","CArrayViewNd")],
["addresses accessed and values returned by operator(), operator[], data()"])

p("C04","Out-of-range array access is fail-stop",
"With bounds checking on, using an index that is out of range in any position, of any integer type taken without narrowing, through any run-time access path, terminates the process abnormally before any memory is read or written through it and never returns to the caller, whichever other threads are failing or using arrays at the time and even if the diagnostic cannot be written or no memory is left. An access whose indices are all in range never terminates and reaches exactly its own element.",
["inputs","schedules","fault_sequences"],
"all index values including corrupted (bit-flipped), negative and extreme ones in any position, all ranks and access paths, several threads failing or working at once, all failures of the error stream",
"Terminating paths are excluded from the tests (death tests cover one access); concurrency, corrupted indices and failing error streams are not exercised.",
["include/shiva/common/CArrayHelper.hpp","include/shiva/common/CArray.hpp","include/shiva/common/ShivaMacros.hpp","include/shiva/common/ShivaErrorHandling.hpp"],
[("range check on every run-time index","linearIndexHelper::level, CArray::squareBracketOperatorHelper, SHIVA_ASSERT_MSG"),("termination","shivaAssertionFailed")],
["process termination","memory accesses around the array","returned element"])

p("C05","A failure report comes out whole and termination is certain",
"When an assertion fails, its report - the file, the line and the complete formatted message, followed by the abort notice when the process is to be aborted - appears on standard error as one contiguous piece, uninterrupted by reports of other threads failing at the same time. The call terminates the process if and only if asked to, returns otherwise, and does so within a bounded number of steps whatever the error stream does (interrupted, short, full, closed), even when no memory is left, and whatever the message's length.",
["schedules","fault_sequences","inputs"],
"all interleavings of failing threads, all message formats and lengths, all failure sequences of the error stream",
"The test calls the reporter once, in one thread, on a working stream, with a short message.",
["include/shiva/common/ShivaErrorHandling.hpp","include/shiva/common/ShivaMacros.hpp"],
[("assertion macro and reporter","SHIVA_ASSERT_MSG, shivaAssertionFailed")],
["bytes on standard error with their writer","process termination"])

p("C06","Iteration visits each index exactly once, in order",
"Sequence, nested-sequence, index-pack, multi-index-range and support-point iteration calls the caller's function exactly once for each index of the iteration space in row-major order (last index fastest; a range starts at the given starting indices), with the index passed both correct and unshared with other iterations and its linear index equal to its position in row-major order, however iterations are interleaved across threads, nested in one another's callbacks or interrupted. When the callback throws at any visit the iteration stops there, the exception reaches the caller, no further visit happens, and later iterations are unaffected.",
["schedules","fault_sequences","programs"],
"all interleavings, all nestings, every visit as the point of an exception or of blocking, all ranks and extents",
"The tests iterate once to completion over a few small extents in one thread; exceptions, nesting and concurrency are not exercised.",
["include/shiva/common/SequenceUtilities.hpp","include/shiva/common/NestedSequenceUtilities.hpp","include/shiva/common/IndexTypes.hpp","include/shiva/common/MultiIndex.hpp","include/shiva/functions/bases/BasisProduct.hpp","include/shiva/geometry/shapes/InterpolatedShape.hpp"],
[("compile-time expansion","executeSequence, forSequence, forNestedSequence"),("run-time nested loop","forRange, linearIndex"),("support loop","BasisProduct::supportLoop")],
["sequence of callback invocations, the values passed, the linear index reported for each multi-index, and the result or exception"])

p("C07","Field interpolation is exact over a data source that stalls, fails or re-enters",
"Interpolating a field, or its gradient, in an element returns the weighted sum, over all support points, of the basis values (gradients) and the values the caller's data source supplies, to within rounding, whether the source blocks, is read by other threads, re-enters interpolation or is an array or view. It reads every support point, only existing ones, and a bounded number of times; when the source throws at any read the exception reaches the caller unchanged and a later interpolation on the same inputs is unaffected.",
["schedules","fault_sequences","inputs"],
"all data sources that block, throw or re-enter at any read, all interleavings with other interpolations, all coordinates and fields, all supported element types",
"The tests interpolate one polynomial field from a plain array, in one thread; failing, blocking or re-entrant sources are never used.",
["include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp","include/shiva/functions/bases/BasisProduct.hpp","include/shiva/functions/bases/LagrangeBasis.hpp"],
[("sum over support points calling the source","ParentElement::value(coord,var), ParentElement::gradient(coord,var)")],
["calls made on the source","returned value or exception"])

p("C08","A launched kernel runs exactly once with visible results, or fails loudly",
"A kernel launched through the wrapper, with or without a data array, runs exactly once and completes before the wrapper returns, and with a data array every element the kernel wrote is then visible in the caller's array and nothing else in it has changed. If allocation, copying, launch or execution fails on a device, the failure is reported, the process aborts if asked to, and otherwise the wrapper returns with each element of the caller's array holding what it held before or what the kernel wrote. On the host an exception thrown by the kernel reaches the caller unchanged. In every case all device memory taken is released exactly once and no invalid device pointer is used or freed.",
["fault_sequences","schedules","configurations"],
"every device call as the point of failure, every delay of asynchronous work, every kernel behaviour (including a trapped assertion), host, CUDA and HIP builds, repeated and concurrent launches",
"No device is available to the tests here, and failing device calls never occur in them; they only ever see launches that succeed.",
["include/shiva/common/pmpl.hpp"],
[("launch wrappers","genericKernelWrapper (both overloads), genericKernel, deallocateData")],
["kernel executions, device API calls, the caller's array, standard output, process termination"])

p("C09","Aggregating headers yields a complete header, or fails",
"Aggregating from a header writes one file that holds the full content of every project header reachable from it through quoted includes exactly once, after all headers it includes, and leaves no include of an aggregated header in force. If any needed header cannot be found or read, the includes are cyclic, or the output cannot be written, the command terminates with a failure status; it never claims success for an incomplete or empty result. It modifies nothing but its output, always terminates, and rerunning it after a crash or failure at any point gives the same result as an undisturbed run.",
["fault_sequences","crash_points","inputs"],
"all header trees and include graphs, every file operation as the point of an error, a short transfer, a concurrent disappearance or a crash, all hash seeds",
"The script has no tests at all.",
["scripts/aggregateOrSplit.py"],
[("dependency search","create_dependency_graph, resolve_path"),("ordering","generate_header_list"),("writing","aggregate_headers, process_header")],
["exit status, output file, every file operation"])

p("C10","Splitting stays in its output directory and restores each header",
"Splitting an aggregated file recreates each aggregated header, under the given output directory and at its own relative location, with exactly the lines the aggregated file holds for it, in order. It never creates, overwrites or removes anything outside that directory, in particular not the original headers or the aggregated file, whatever paths the aggregated file names. If anything cannot be read or written the exit status reports failure, and rerunning it after a crash or failure at any point gives the same result as an undisturbed run.",
["inputs","fault_sequences","crash_points"],
"all aggregated files including ones naming absolute or parent-relative paths, every file operation as the point of an error or crash, existing or missing output directories",
"The script has no tests at all.",
["scripts/aggregateOrSplit.py"],
[("target paths","split_path"),("splitting","split_aggregated_file, command-line handling of 'split'")],
["exit status, files created or changed anywhere, every file operation"])

p("C11","Configuring is honest, contained and repeatable",
"The configuration script reports success only if the configured build directory holds the result of the cmake command for the given options, and exits with a failure status if any step fails: removing or creating a directory, recording the command, cmake itself, or rendering the dependency graph when asked for. It creates and removes only the build and install directories named by its options, hands paths and unrecognised arguments to cmake unchanged, nothing of an earlier configuration survives in them, and the recorded command file is executable and holds exactly the cmake command that is run. Rerunning it after a crash or failure at any point leaves the same directories as an undisturbed run.",
["fault_sequences","crash_points","inputs","configurations"],
"every file operation and the cmake command itself as the point of failure or crash, all option combinations, prior directory contents including links",
"The script has no tests at all; a failing cmake or file system never occurs in development use of it.",
["scripts/config-build.py"],
[("directory set-up","top-level script, sections 'Setup Build Dir' and 'Setup Install Dir'"),("command line and its record","section 'Build CMake command line'"),("running cmake and dot","section 'Run CMake'")],
["exit status, directory contents, commands executed, every file operation"])

p("C12","CI scripts stop at the first failing step and report its status",
"The container build script runs the configure, build, test, check and coverage steps of the requested mode in order, stops at the first step that fails and exits with a failure status, so that success means that every step of that mode was run and succeeded. It refuses to start without a host configuration or build type, and a step not requested is not run. The launching script hands on its settings and exits with the container's own exit status.",
["fault_sequences","configurations"],
"every step as the point of failure with any status, every combination of options, environment variables and prior directory contents",
"The scripts have no tests; CI only ever sees them run to completion or fail at one place.",
["scripts/ci_build_and_test_in_container.sh","scripts/ci_build_and_test.sh"],
[("fail-stop helper","or_die"),("step sequencing","ci_build_and_test_in_container.sh"),("container launch","ci_build_and_test.sh")],
["commands executed in order with their arguments, exit status"])

# not claimed ------------------------------------------------------------------------------------------------------
p("C13","Gauss rules integrate polynomials exactly",
"A Gauss-Legendre rule with N points integrates every polynomial up to degree 2N-1, and a Gauss-Lobatto rule with N points every polynomial up to degree 2N-3, to within rounding, and its weights add up to the length of the reference interval.",
["inputs"],"all supported point counts and all polynomials up to the degree","The tests compare a few tabulated weights with the same literals.",
["include/shiva/functions/quadrature/Quadrature.hpp","include/shiva/functions/spacing/Spacing.hpp"],[("tables","QuadratureGaussLegendre, QuadratureGaussLobatto")],["coordinate and weight functions"])
p("C14","Support points are ordered and run-time and compile-time tables agree",
"For every spacing the support points increase strictly, are symmetric about the origin, include the end points where the rule says so, and the run-time and compile-time lookups agree for every supported index.",
["inputs"],"all spacings, point counts and indices","The tests sample some of the tables.",
["include/shiva/functions/spacing/Spacing.hpp"],[("tables","EqualSpacing, GaussLegendreSpacing, GaussLobattoSpacing")],["coordinate functions"])
p("C15","Basis functions are cardinal and sum to one",
"Each basis function is one at its own support point and zero at the others, all values at any point sum to one and all gradients to zero, in any dimension.",
["inputs"],"all orders, spacings, dimensions and coordinates","The tests check a few orders at a few points.",
["include/shiva/functions/bases/LagrangeBasis.hpp","include/shiva/functions/bases/BasisProduct.hpp"],[("Lagrange polynomials","LagrangeBasis::value, gradient")],["value and gradient"])
p("C16","Compile-time and run-time evaluation agree",
"Any evaluation usable in a constant expression gives the same result there as at run time, for every element type and every language standard and configuration the project supports.",
["inputs","configurations"],"all evaluations, C++17 and later, all configurations","The tests are built in one configuration.",
["include/shiva/common/ShivaMacros.hpp","include/shiva/functions/bases/LagrangeBasis.hpp","include/shiva/functions/bases/BasisProduct.hpp"],[("constexpr evaluation","all evaluation functions")],["values"])
p("C17","Matrix inversion yields the inverse and the determinant",
"For every invertible 3x3 matrix the in-place inversion yields the inverse and the determinant to within rounding, for C arrays and for array objects alike.",
["inputs"],"all invertible matrices","The tests use one matrix through the cell mappings.",
["include/shiva/common/MathUtilities.hpp"],[("cofactor formula","mathUtilities::inverse")],["matrix and determinant"])
p("C18","Reference-shape counts and measures are right in every dimension",
"Cubes and simplexes report the right number of vertices, edges, faces, cells and hyperfaces and the right length and volume for every dimension and coordinate range.",
["inputs"],"all dimensions and coordinate ranges","The tests check a few shapes.",
["include/shiva/geometry/shapes/NCube.hpp","include/shiva/geometry/shapes/NSimplex.hpp"],[("combinatorial formulas","NCube, NSimplex")],["static member functions"])
p("C19","Comparing formatter settings is complete or fails",
"Comparing two formatter configurations prints every setting present in both with equal values as common and every setting present in both with differing values as different, with both values, none twice and none missing, and exits with success only if both files were read completely and the whole comparison was printed. A missing or unreadable file or wrong usage ends with a failure status. It never changes anything.",
["inputs","fault_sequences","crash_points"],
"all pairs of configurations with any comments, blanks and spacing, every file and output operation as the point of an error, short transfer or crash",
"The script has no tests at all.",
["scripts/compare_uncrustify.py"],
[("parsing","read_uncrustify_config"),("comparison","compare_config_files"),("output","top-level script")],
["exit status, standard output, every file operation"])
p("C20","The installed package can be used by a downstream project",
"A project that finds the installed package compiles against its headers, with the configuration the package was built with.",
["configurations","programs"],"all supported configurations and consumers","No test builds against an installed copy.",
["CMakeLists.txt","include/shiva/Shiva.hpp","cmake"],[("install rules","CMakeLists.txt")],["compilation of a consumer"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
