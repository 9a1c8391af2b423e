import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="source/"; I="source/include/firefly/"
p("C01","Field elements stay canonical under every operation",
 "Every finite-field number that a constructor, conversion, sum, difference, product, quotient, negation, increment or power produces from valid inputs is the representative in [0, p) of the exact result modulo the current prime, in every arithmetic backend. Equality, ordering and zero tests compare representatives directly, so one non-canonical value makes equal numbers unequal.",
 ["inputs","configurations"],"all operand values including 0, p-1, multiples of p, negative and extreme machine integers; every arithmetic backend (own arithmetic, FLINT)",
 "The tests run a few reconstructions with random field points and never compare a single field operation with an expected value; boundary operands have probability about 2^-63 and FLINT/own arithmetic are never compared.",
 [S+"FFInt.cpp",I+"FFInt.hpp"],[("compound and binary operators",S+"FFInt.cpp"),("converting constructors",I+"FFInt.hpp"),("mod_mul/mod_pow/mod_inv",S+"FFInt.cpp")],
 [("n","stored representative","FFInt"),("p","current prime","FFInt")],["return value or updated object of every public operation"])
p("C02","Packed (bunch) arithmetic equals scalar arithmetic lane by lane",
 "Every operation on a packed vector of field numbers gives, in each lane, exactly what the same operation with the same operand order gives on the scalar numbers of that lane, including mixed packed/scalar operands, negation, powers and element access, and no lane reads or writes another lane. Every bunch size the library accepts provides all of these operations.",
 ["inputs","configurations"],"all operand values, all lanes, all supported bunch sizes 2..128, all operand kinds",
 "Only one bunch test with one black box runs; its result is not compared with the scalar run and it exercises only the operators that black box happens to use.",
 [S+"FFIntVec.cpp",I+"FFIntVec.hpp"],[("lane loops in the packed operators",S+"FFIntVec.cpp"),("explicit instantiations per size",S+"FFIntVec.cpp")],
 [("vec","lanes","FFIntVec")],["each lane of the result"])
p("C03","Only distinct 63-bit prime fields are ever used",
 "Every field the library computes in is defined by a genuine prime below 2^63, all available primes are pairwise different, and running out of primes ends with a reported error rather than an invalid field. The field is switched only to members of that fixed list.",
 ["inputs","histories"],"every one of the 300 table entries and every prime counter a reconstruction (fresh or resumed) can reach",
 "A test run uses the first two or three primes only; a wrong digit in entry 57 never shows.",
 [S+"ReconstHelper.cpp",I+"ReconstHelper.hpp",I+"Reconstructor.hpp",I+"MPIWorker.hpp",S+"RatReconst.cpp",S+"ShuntingYardParser.cpp"],
 [("prime table",S+"ReconstHelper.cpp"),("every change of field takes its argument from the table","set_new_prime call sites"),("exhaustion test before the next prime",I+"Reconstructor.hpp")])
p("C04","A change of prime field refreshes all field-dependent data",
 "Whenever the reconstruction moves to another prime field, no probe computation is in flight, and before the next black-box evaluation both the black box and every divided-out factor have been told about the new field, on the master and on every worker process. The field is never changed behind the back of a running reconstruction, and code that changes it temporarily puts it back.",
 ["histories","schedules","configurations"],"all paths from a change of field to the next evaluation, fresh/resumed/with factor scan/with MPI",
 "Tests need one or two primes and do not compare results; stale constants are only visible from the second prime on in black boxes and factors with precomputed constants.",
 [I+"Reconstructor.hpp",I+"MPIWorker.hpp",I+"BlackBoxBase.hpp",S+"ShuntingYardParser.cpp",S+"FFInt.cpp",S+"RatReconst.cpp"],
 [("kill_all before the switch",I+"Reconstructor.hpp"),("prime_changed_internal after the switch",I+"Reconstructor.hpp"),("factor parsers precompute_tokens",I+"Reconstructor.hpp")],
 [("FFInt::p","current field","FFInt.cpp")])
p("C05","A saved function state restores every quantity that was saved",
 "The state file written for a function after a prime field and the code that resumes from it agree section by section: every section that is written is recognised on resume and restores, in the same field order and with nothing swapped between numerator and denominator, the same quantities it was written from. Everything a resumed reconstruction needs to continue is among them.",
 ["histories","inputs"],"every state a function can be saved in (every prime field, with or without shift, factor scan, safe mode) and every resume of it",
 "The save/read tests only check that the process does not crash; a dropped, renamed or swapped section yields a run that still terminates.",
 [S+"RatReconst.cpp",I+"RatReconst.hpp",S+"BaseReconst.cpp",S+"ParserUtils.cpp"],[("save_state",S+"RatReconst.cpp"),("start_from_saved_file",S+"RatReconst.cpp"),("section table",I+"RatReconst.hpp")])
p("C06","Auxiliary save files are read back the way they are written",
 "Anchor points, shifts, variable order, validation values, scanned factors and stored probes are read back on resume from the same files, in the same item order and with the same separators as they were written, and each is written before the state that needs it can be resumed.",
 ["histories"],"all auxiliary files of a save directory for all options that produce them",
 "The read test resumes one prepared directory and does not compare values.",
 [I+"Reconstructor.hpp",S+"RatReconst.cpp",S+"ParserUtils.cpp"],[("writers and readers of ff_save files",I+"Reconstructor.hpp")])
p("C07","Interrupting a save never loses the last complete state",
 "At every instant during saving, for each function at least one complete, readable state file exists under a name the resume procedure looks for: a new state is fully written and closed under a temporary name before it replaces the old one by a rename, and the old one is not removed, truncated or overwritten earlier.",
 ["crash_points","fault_sequences"],"every crash point between any two file-system effects of saving a state or a probe file",
 "No test interrupts a save; the window is a few system calls wide.",
 [S+"RatReconst.cpp",I+"Reconstructor.hpp"],[("write to temporary file, close, rename",S+"RatReconst.cpp")])
p("C08","Shared state is only touched under its lock",
 "With any number of threads, every access to state that several threads use (the job queue and probe bookkeeping, job counters, the table of functions under reconstruction, per-function status, the shared anchor points and shift, the random generator, the task queue, the communication queues) happens while the lock that protects this state is held, unless no other thread can be running.",
 ["schedules"],"all interleavings of the driver thread, pool threads, the MPI communication thread and user calls",
 "A test run sees one or a few interleavings; a missing lock almost never shows in 14 s of tests.",
 [I+"Reconstructor.hpp",I+"MPIWorker.hpp",I+"ThreadPool.hpp",S+"RatReconst.cpp",I+"RatReconst.hpp",S+"BaseReconst.cpp",S+"PolyReconst.cpp"],
 [("std::mutex members with lock_guard/unique_lock scopes",I+"Reconstructor.hpp")],
 [("future_control, job_control, feed_control, status_control, mutex_probe_queue, clean, chosen_mutex","locks of the driver",I+"Reconstructor.hpp")])
p("C09","Locks and waits cannot deadlock",
 "All threads acquire the library's locks in one consistent order and never acquire a lock they already hold; no black-box evaluation, reconstruction step or wait for other work happens while a lock other than the waiting one is held. Every blocking wait re-checks its condition under the lock, and every change that can make that condition true is made under the same lock and followed by a wake-up.",
 ["schedules"],"all interleavings and all call paths from every thread entry point",
 "A deadlock or lost wake-up needs a particular interleaving that the tests do not force.",
 [I+"Reconstructor.hpp",I+"MPIWorker.hpp",I+"ThreadPool.hpp",S+"RatReconst.cpp",S+"PolyReconst.cpp",S+"BaseReconst.cpp"],
 [("lock scopes and condition variables",I+"Reconstructor.hpp")])
p("C10","Outstanding-work counters are balanced on every path",
 "Each unit of work that is announced (a probe to compute, a value to feed, an interpolation to run) is taken back exactly once on every path of the job that does it, including early exits, and the driver is woken when that may let it continue. Hence the driver neither stops while work is outstanding nor waits for work that does not exist.",
 ["schedules","histories"],"all paths through the scheduling, feeding and interpolation jobs",
 "An unbalanced early exit only hangs or ends a run when that exit is taken at the moment the other counters are zero.",
 [I+"Reconstructor.hpp"],[("feed_jobs, interpolate_jobs, probes_queued counters",I+"Reconstructor.hpp")])
p("C11","Every submitted task runs exactly once, and shutdown waits for it",
 "A task given to the thread pool is executed exactly once by some thread (or by the caller when the pool has no threads) unless it is explicitly discarded, never while the pool's lock is held, and priority tasks go ahead of ordinary ones. Destroying the pool runs what is still queued and joins all threads; discarding work returns only when no task is running.",
 ["schedules","configurations"],"all interleavings of submit, wait, discard and destruction; pools of size 0, 1, many",
 "The pool has no test of its own.",
 [I+"ThreadPool.hpp"],[("worker loop, run_task family, kill_all, wait, destructor",I+"ThreadPool.hpp")])
p("C12","Every probe has the known factors divided out, whatever computed it",
 "Each black-box value handed to the reconstruction has been divided by exactly the known factors of the function it belongs to, evaluated at the same point, whether it was computed by a single evaluation, in a bunch of any size, on the master or on a worker process. Values are attributed to the function index and to the evaluation point they were computed for.",
 ["inputs","configurations","schedules"],"all evaluation paths: single and bunched, threaded and MPI, all bunch sizes, all functions",
 "The tests use the factor scan without checking results and run MPI with few processes.",
 [I+"Reconstructor.hpp",I+"MPIWorker.hpp"],[("division by parsed factors after evaluation","compute_probe / worker compute")])
p("C13","Master and workers agree on the message protocol",
 "For every message exchanged between master and worker processes, sender and receiver agree on type, length unit, payload layout and position in the exchange, every broadcast or barrier is matched by all processes in the same order, and every non-blocking send is completed before its buffer is reused or destroyed.",
 ["schedules","configurations","histories"],"all paths of the exchange: start, factor scan, new prime, more points, end; any number of workers",
 "MPI tests run with a fixed tiny number of processes on one path through the exchange.",
 [I+"Reconstructor.hpp",I+"MPIWorker.hpp"],[("MPI calls in mpi_setup, mpi_communicate, send_first_jobs, MPIWorker",I+"Reconstructor.hpp")])
p("C14","All evaluation routes of the expression parser agree",
 "Every operator that parsing can produce is handled by every way of evaluating a parsed expression (plain, precomputed, alternative precomputed, single or packed numbers), with the same meaning: the same field operation, operand order and sign. No route rejects, skips or reinterprets a token that another route accepts.",
 ["inputs"],"all operator and operand kinds the parser can emit, in all evaluation routes",
 "Tests evaluate a few fixed expressions through one route and do not compare the routes.",
 [S+"ShuntingYardParser.cpp",I+"ShuntingYardParser.hpp"],[("evaluate, evaluate_pre, evaluate_pre_2, precompute token switches",I+"ShuntingYardParser.hpp")])
p("C15","Precomputed expression constants are re-derived for each field",
 "After a change of field, refreshing a parsed expression recomputes every constant that was folded when it was prepared, from the full original numbers and with the same folding, and stores it at the same place; removing functions from a parser keeps this record aligned with the remaining functions.",
 ["histories","inputs"],"all expressions, including nested divisions of numbers, all sequences of prepare / change field / add / trim",
 "Needs an expression with folded nested constants and a second prime; the tests have neither with a value check.",
 [S+"ShuntingYardParser.cpp"],[("precompute and precompute_tokens",S+"ShuntingYardParser.cpp")],
 [("partial_rpn","record from which constants are re-derived",I+"ShuntingYardParser.hpp")])
p("C16","Copying or moving a reconstruction object loses nothing",
 "A copy or move of any library object with user-written copy or move operations (constructor or assignment) carries over every data member except locks and documented transient flags, from the corresponding member of the source and in all four operations alike. Self-assignment leaves the object unchanged.",
 ["histories"],"all states of the objects and all four operations",
 "Tests never copy an object in the middle of a reconstruction and compare.",
 [S+"BaseReconst.cpp",S+"RatReconst.cpp",S+"FFThieleInterpolator.cpp",S+"Poly.cpp",S+"FFInt.cpp",I+"FFIntVec.hpp"],[("user-written special members",S+"BaseReconst.cpp")])
p("C17","Reset returns the shared state to its initial condition",
 "After the library's reset, everything process-wide that a reconstruction has set (shift, anchor points, flags, seeds, prime field switch of modes) is back at its initial value, so a second reconstruction in the same process behaves as in a fresh process.",
 ["histories"],"all sequences of reconstructions with different options in one process",
 "Each test performs one reconstruction per process or does not compare the second one.",
 [S+"RatReconst.cpp",S+"BaseReconst.cpp",S+"PolyReconst.cpp",I+"RatReconst.hpp"],[("reset functions",S+"RatReconst.cpp")])
p("C18","A fatal error is never reported and then ignored",
 "Whenever the library reports an error (missing file, unknown option, undeclared variable, unbalanced parentheses, wrong number of values, singular system, corrupt saved state), the operation does not continue as if it had succeeded: the program ends with a failure status or an exception leaves the operation.",
 ["inputs","fault_sequences"],"all error reports on all paths",
 "Tests contain no erroneous input.",
 [S+"ShuntingYardParser.cpp",S+"AmplitudeParser.cpp",S+"RatReconst.cpp",I+"Reconstructor.hpp",I+"MPIWorker.hpp",I+"DenseSolver.hpp",S+"Polynomial.cpp",S+"PolynomialFF.cpp","ff_insert.cpp","firefly.cpp"],[("error report followed by exit or throw","ERROR_MSG sites")])
p("C19","The variable order is applied consistently",
 "When the library reorders variables internally, every evaluation point handed to the black box has each variable's value at the user's position, on every path that builds points, and every result, factor and saved file handed back uses the user's order again.",
 ["inputs","configurations"],"all permutations of variables and all paths that build points or results",
 "Reordering only happens with the factor scan and the tests do not check results.",
 [I+"Reconstructor.hpp"],[("optimal variable order mapping when building points",I+"Reconstructor.hpp"),("set_var_order on results",I+"Reconstructor.hpp")])
p("C20","Results are handed out complete, in function order and with their own factors",
 "Results are only handed out for functions whose reconstruction is finished, in the order in which the black box returns the functions, each combined with the factors found for that same function; asking earlier is refused. A finished function's result is read before its reconstruction object is given up.",
 ["histories","schedules"],"any order in which functions finish, early retrieval in between, with and without factor scan",
 "Tests do not compare results and retrieve them once, after everything is done.",
 [I+"Reconstructor.hpp",S+"RatReconst.cpp"],[("get_result, get_early_results, get_factors_string",I+"Reconstructor.hpp")])
p("C21","Every acquired resource is released exactly once",
 "Reconstruction objects, big-number temporaries, buffers, directory handles, streams and MPI requests that are acquired are released exactly once on every path, and nothing is used after its release.",
 ["histories","fault_sequences"],"all paths through creation, early removal of finished functions, reset and destruction",
 "Leaks and double releases on rare paths do not fail the tests, which run without sanitizers.",
 [I+"Reconstructor.hpp",S+"utils.cpp",S+"RatReconst.cpp",I+"gzstream.hpp",S+"gzstream.cpp",S+"ParserUtils.cpp",I+"ShuntingYardParser.hpp"],[("new/delete of reconstruction objects",I+"Reconstructor.hpp")])
p("C22","All bunch sizes are dispatched to a matching evaluation",
 "Every bunch size that the library can choose, for any queue length, thread number and maximal bunch size it accepts, is handled by an evaluation of exactly that size, on the master and on worker processes; unsupported maximal sizes are refused before the reconstruction starts.",
 ["inputs","configurations"],"all queue lengths, thread numbers and maximal bunch sizes accepted",
 "One bunch test with one size runs.",
 [I+"Reconstructor.hpp",I+"MPIWorker.hpp",S+"utils.cpp",I+"BlackBoxBase.hpp"],[("size switch in get_job and in the worker",I+"Reconstructor.hpp"),("compute_bunch_size",S+"utils.cpp")])
p("C23","Every combination of a function's probes is counted for the right field",
 "A value computed in one prime field is never fed to a reconstruction that has moved to another one: every value fed carries the number of the field it was computed in, and it is discarded unless that is the field the function is working in.",
 ["schedules","histories"],"all interleavings in which a function finishes a field while values are still in flight",
 "Needs a race between a finished field and a late value.",
 [I+"Reconstructor.hpp",S+"RatReconst.cpp",S+"PolyReconst.cpp"],[("prime number passed to feed and compared there",S+"RatReconst.cpp")])
p("N01","The reconstructed function equals the black box",
 "When a reconstruction finishes, each returned rational function equals the black-box function for all arguments, with overwhelming probability over the random points.",
 ["inputs"],"all rational functions and random choices","The tests compare no result; and no finite set of functions settles it.",
 [S+"RatReconst.cpp",S+"PolyReconst.cpp",I+"Reconstructor.hpp"],[("interpolation, CRT, rational reconstruction and the check probe",S+"RatReconst.cpp")])
p("N02","Number reconstruction from residues is exact",
 "Chinese remaindering returns the unique residue modulo the product congruent to both inputs, and rational reconstruction returns a fraction congruent to its input within its bounds or reports failure.",
 ["inputs"],"all residues and coprime moduli","Only indirectly exercised, never compared.",
 [S+"utils.cpp"],[("run_chinese_remainder, get_rational_coef, get_rational_coef_mqrr",S+"utils.cpp")])
p("N03","Univariate and multivariate interpolation is exact",
 "Thiele, Newton and Ben-Or/Tiwari interpolation and the Vandermonde and linear solvers return exactly the polynomial or solution determined by their input values.",
 ["inputs"],"all values and all sparsity patterns","Only indirectly exercised, never compared.",
 [S+"FFThieleInterpolator.cpp",S+"PolyReconst.cpp",S+"utils.cpp",I+"DenseSolver.hpp",S+"Poly.cpp",S+"PolynomialFF.cpp"],[("interpolators and solvers",S+"PolyReconst.cpp")])
p("N04","Reconstruction makes progress and terminates",
 "For every rational black box and enough primes, the reconstruction requests finitely many probes and finishes.",
 ["schedules","inputs"],"all black boxes and schedules","Termination is a liveness property of the whole algorithm.",
 [I+"Reconstructor.hpp",S+"RatReconst.cpp"],[("main loop",I+"Reconstructor.hpp")])
p("N05","Printed expressions denote the value they are printed from",
 "A polynomial or rational function printed as an expression, in expanded or Horner form, parses back to the same function; parsing follows the usual precedence and sign rules.",
 ["inputs"],"all polynomials and all expressions of the grammar","String output is never compared.",
 [S+"HornerGenerator.cpp",S+"Polynomial.cpp",S+"PolynomialFF.cpp",S+"RationalFunction.cpp",S+"ShuntingYardParser.cpp"],[("printers and parser",S+"HornerGenerator.cpp")])
p("N06","Replacement tables are inserted exactly",
 "The insertion tool's coefficient of each basis function equals the sum over all occurring functions of prefactor times replacement coefficient.",
 ["inputs"],"all expressions and replacement tables","No test runs the tool.",
 [S+"AmplitudeParser.cpp","ff_insert.cpp"],[("string splitting and coefficient assembly",S+"AmplitudeParser.cpp")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
