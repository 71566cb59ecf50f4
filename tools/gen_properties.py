import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

GEN=["src/make_tables.c","src/make_red_tables.c","src/make_bitrev_table.c","verifier/vstte20-benchmarks/make_tables.c","verifier/vstte20-benchmarks/make_red_tables.c","verifier/vstte20-benchmarks/make_bitrev_table.c"]
p("C01","A table generator that reports success has written exact, complete tables",
 "If a table generator (power tables, reduced power tables, bit-reversal tables) exits with status 0, then the header and the source file it is documented to write both exist, are complete, and define exactly the constants and tables for the given size and root, whatever system calls and allocations failed, were cut short or were interrupted on the way. If it cannot write them it exits with a non-zero status and a message on standard error; it never dies from a signal and never fails silently.",
 ["fault_sequences","inputs","configurations"],
 "every valid (size, root) pair, every sequence of open/write/close/allocation failures, short writes and interrupted calls at any system call of the run",
 "The tests only run the generators once, with four sizes, on a disk that never fails; no test makes a write, a close or an allocation fail.",
 GEN,[("parameter validation, open_file, print_declarations/print_tables, close_file","main of each generator"),("make rules that trust the exit status","src/Makefile")],
 [("output stream error flag","sticky record that part of the output was lost","FILE * in main")],["exit status","stderr","the two files in the working directory"])
p("C02","A failed or killed generator never leaves tables that build silently wrong",
 "After a generator fails or is killed at any point, each of its two output files is either absent, or rejected by the C compiler, or contains only tables and constants that are exact for the new or the previous parameters. A later build therefore either fails visibly or uses right values; it never uses a table with missing or wrong entries.",
 ["crash_points","fault_sequences","histories"],
 "every kill point and every first I/O or allocation failure in a run, from every previous state of the two files (absent, older version, other root, longer garbage)",
 "Tests never interrupt a generator; make has no rule to delete targets of a failed command, so whatever is left on disk is taken as up to date by the next build.",
 GEN,[("removal of incomplete output; tables emitted as sized arrays closed only at the end","close_file, print_table, print_bitrev_table"),("include guard closed at the end of the header","print_declarations")],
 [("partial output file","bytes already handed to the kernel when the run stops","working directory")],["the two files after exit or kill, compiled with the C compiler"])
p("C03","Generators running at the same time in one directory do not disturb each other",
 "When several generator runs execute concurrently in the same directory, including several with the same arguments as a parallel make starts them, every run exits with status 0 and once all have finished every output file is complete and exact. No run writes, truncates, renames or removes a file that belongs to different parameters or to another generator.",
 ["schedules","inputs"],
 "any number of concurrent runs with equal or different arguments, every interleaving of their system calls, stalls and partial writes",
 "build.sh deliberately runs generators one at a time; no test runs two at once, and the few system calls make a real race nearly impossible to hit.",
 GEN+["src/Makefile"],[("each run writes a function of its arguments only, at its own file offset, with no temporary or shared file","open_file, print_tables")],None,["exit status of each run","directory content after the last run finishes"])
p("C04","Generator output depends only on the arguments; bad arguments change nothing",
 "Over any history of generator runs in a directory, a run with valid arguments produces the same two files byte for byte regardless of what the directory held before (older, longer, truncated or corrupt outputs included), of the environment and of earlier crashed runs, and changes no other file. A run whose arguments are not valid (wrong count, size not a power of two or out of range, value that is not a root of -1 of that order) exits non-zero with a message and leaves the directory exactly as it was.",
 ["histories","inputs","crash_points","configurations"],
 "every sequence of valid, invalid and crashed runs over an arbitrary initial directory content, environment, memory content and address layout",
 "Tests start from a clean copy and call each generator once with valid arguments; rejection and recovery after a crash are not tested at all.",
 GEN,[("validation before the first open; truncating open; output computed from arguments only","main, open_file")],[("directory content","files left by earlier runs","working directory")],["directory before and after each run","exit status, stderr"])
LIB=["src/naive_ntt.c","src/ntt.c","src/ntt_red.c","src/ntt_asm.S"]+[f"src/{k}{n}.c" for k in("naive_ntt","ntt","ntt_red","ntt_red_asm") for n in (16,256,512,1024)]
p("C05","Concurrent callers each get the exact result, in every interleaving and history",
 "When threads call the multiplication, transform and array routines at the same time, each on its own arrays while sharing constant tables and read-only operands, every call delivers exactly what the same call delivers alone: the negacyclic product with coefficients in [0, 12288], the number-theoretic transform, or the documented element-wise result. This holds whatever calls ran before and whichever arrays are reused; read-only operands are never modified, not even temporarily, and no call changes an array it was not given.",
 ["schedules","histories","inputs"],
 "any number of threads, every interleaving of their instructions, every sequence of calls over reused arrays, all sizes and all valid inputs",
 "Every test is single-threaded, calls each routine in one fixed order and compares one result; no two calls ever overlap and no sequence with reused buffers is checked.",
 LIB,[("all working state in the caller's arrays and registers; tables are const","product1..5 and the transforms"),],[("none intended","the library keeps no mutable static state","all library objects")],["result arrays, read-only operands and neighbouring arrays of every caller"])
p("C06","A call interrupted at any instruction, even by another call, is not affected",
 "A library call that is interrupted at any instruction by a signal handler which uses the stack and itself calls library routines on other arrays still delivers its exact result, and so do the nested calls. Every routine, including the hand-written vector code, preserves the registers, flags and stack its caller may rely on under the calling convention and keeps nothing live in memory an interrupt may overwrite.",
 ["schedules","inputs"],
 "every instruction boundary of every routine, every nesting of calls, every input",
 "Tests never deliver a signal inside a routine; stack memory below the protected zone and callee-saved registers are never disturbed or checked.",
 LIB,[("no static scratch memory; leaf routines that use registers only","src/ntt_asm.S and the C modules"),("rbx saved around CPUID","avx2_supported")],None,["result arrays, callee-saved registers, direction flag and stack pointer at return"])
p("C07","A call abandoned at any point harms nothing but its own arrays",
 "If a thread is cancelled, or jumps out of a signal handler, at any instruction inside a library call, then the shared tables, the read-only operands, and the arrays of every other caller are unchanged, only the abandoned call's own writable arrays may hold unfinished values, and every later call by any thread, with those same arrays refilled, delivers its exact result. No call ever blocks because another one was abandoned.",
 ["crash_points","histories","schedules"],
 "every abandonment point in every routine, followed by any sequence of calls",
 "No test interrupts a call and continues; every test process ends after normal returns.",
 LIB,[("no locks, no static state, tables never patched","all library modules")],None,["arrays of the other callers, tables, results of later calls"])
p("C08","Routines touch only the arrays they were given, wherever these are placed",
 "A library call reads and writes only the elements of the arrays passed to it, for every size it accepts and every placement of the arrays: any alignment the element type allows, directly against unmapped pages, and with read-only operands in read-only memory. Neither bits of argument registers that the calling convention leaves undefined nor the caller's floating-point modes (rounding, denormals) have any effect on the result.",
 ["configurations","inputs","fault_sequences"],
 "every routine, size, alignment and page placement, every content of undefined register bits and of surrounding memory",
 "Tests use static arrays with neighbours on both sides and compiler-chosen alignment, so an access just past an array, an alignment assumption or a write to an operand goes unnoticed.",
 LIB,[("loop bounds derived from n; unaligned vector loads and stores for arguments","src/ntt_asm.S, src/ntt_red.c"),("32-bit size argument zero-extended","entry of each vector routine")],None,["memory faults at guard pages","bytes around each array","result"],None)
p("C09","Vector support detection is right on every processor and operating system",
 "The AVX2 detection answers true exactly when the processor reports the OS-enabled extended state, AVX and AVX2 features and the operating system has enabled both the SSE and the AVX register state, for every processor and operating-system configuration. It never executes an instruction the configuration does not support and leaves the caller's registers intact.",
 ["configurations"],
 "every combination of feature bits, highest supported identification leaf, enabled register state, and unrelated bits",
 "The test runs on the one processor at hand, where the answer is true.",
 ["src/ntt_asm.S","src/ntt_asm.h"],[("CPUID leaves 0, 1 and 7 and XGETBV tested in order","avx2_supported")],None,["return value, instructions executed, callee-saved registers"])
AN=["src/intervals.c","src/ntt_red_interval.c","src/red_bounds.c"]
p("C10","The overflow analysis never reports bounds after a failed allocation",
 "When memory runs out at any point of the interval analysis, the program stops with a non-zero status and a diagnostic. It never crashes, never continues with a missing interval, and never prints or returns bounds that differ from those of a run with enough memory.",
 ["fault_sequences","inputs"],
 "every analysed algorithm and size, every sequence of failing allocations",
 "Tests run with plenty of memory; no allocation ever fails.",
 AN,[("checked allocation","new_interval and the array constructors")],None,["exit status, stderr, printed and returned bounds"])
p("C11","The overflow analysis conserves its intervals and encloses every concrete run",
 "Throughout any sequence of analysis steps each interval slot holds exactly one live interval, nothing freed is used again, nothing is freed twice and nothing is lost: after the caller releases its arrays no block remains. Results depend neither on what the allocator returns nor on earlier calls. Every value a concrete run of the analysed step or transform produces lies inside the bounds it returns and prints; a bound that leaves 32 bits is reported, and interval arithmetic that leaves 64 bits stops the program with a diagnostic.",
 ["histories","inputs","configurations"],
 "every sequence of analysis operations, every allocator behaviour (reuse, poisoning, placement), every concrete input inside the initial bounds",
 "The paper tests run each analysis once on the default allocator and look only at the exit status; leaks, unsound bounds, stale reads and allocator-dependent results pass unnoticed.",
 AN,[("replace-and-free of interval slots","abstract and abstract2 routines in src/ntt_red_interval.c")],[("interval slots","each owns one heap block","interval_t ** arrays")],["allocator log, returned intervals"])
p("C12","Speed reports are right for every behaviour of the clock",
 "For every sequence of readings of the time-stamp counter, including equal readings, backward jumps, wrap-around and huge stalls, the speed programs finish normally and, for each measured routine, report the median and the average of exactly the measured differences. They never report an internal sorting error and never lose, repeat or misattribute a measurement.",
 ["histories","fault_sequences"],
 "every history of counter readings over a complete benchmark run",
 "Real runs cannot choose the counter; the tests only check that the programs can be built and run.",
 ["src/sort.c","src/sort.h","src/speed_mul1024.c","src/speed_mul1024_naive.c","src/speed_mul1024_red.c","src/speed_mul1024_red_asm.c"],[("in-place sort, median and average over the sample array","src/sort.c and speed_test")],None,["standard output, exit status"])
# pure-function properties: not applicable
p("C20","Products are exact for every pair of polynomials",
 "For every pair of polynomials with coefficients in [0, 12288] and every supported size, each multiplication routine returns the negacyclic product with coefficients in [0, 12288].",
 ["inputs"],"all 12289^(2n) inputs of each routine","Tests compare a handful of products; the input space cannot be sampled meaningfully.",
 LIB,[("transform, pointwise product, inverse transform, normalisation","product1..5")])
p("C21","Transforms compute the mathematical transform for every input and size",
 "Each generic transform maps every valid array to its number-theoretic transform in the documented order, and each inverse pipeline is its exact inverse.",
 ["inputs"],"all valid arrays and sizes","Tests use random samples of a few sizes.",LIB[:4],[("butterfly loops","ntt_ct_*, ntt_gs_*")])
p("C22","No intermediate value overflows 32 bits in the reduced transforms",
 "For every input within the documented bounds, no intermediate value of the lazy-reduction transforms exceeds the 32-bit range.",
 ["inputs"],"all inputs within the documented bounds","Tests see only sampled magnitudes.",["src/ntt_red.c","src/ntt_asm.S"],[("interleaved reductions","ntt_red_*")])
p("C23","The vector routines and the C routines are equivalent",
 "For every valid input each vector routine leaves the same residues, and where documented the same integers, as its portable counterpart.",
 ["inputs"],"all valid inputs and sizes","Tests compare samples.",["src/ntt_asm.S","src/ntt_red.c"],[("same rounds in both","ntt_asm.S")])
p("C24","Interval operators enclose every concrete result",
 "Each interval operator returns an interval that contains the concrete result for every operand in the argument intervals, and reports 64-bit overflow instead of wrapping.",
 ["inputs"],"all intervals","Tests check a few intervals.",["src/intervals.c","src/red_bounds.c"],[("case analysis on bounds","intervals.c")])
p("C25","Sorting returns the sorted permutation of every array",
 "The sort used for the speed reports returns a sorted permutation of every input array.",
 ["inputs"],"all arrays of 64-bit counts","Only reached indirectly.",["src/sort.c"],[("quick sort with insertion sort for small ranges","sort.c")])
p("C26","The static verifier accepts only programs whose bounds hold",
 "When the static verifier reports an analysed transform as safe, no execution of that program violates the checked bounds.",
 ["programs","inputs"],"all analysed programs and inputs","The verifier is not built by the tests.",["verifier/src"],[("abstract interpretation","verifier/src")])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
import os
for x in P:
    for f in x["anchors"]["files"]: assert os.path.exists("/repo/"+f),f
print(len(P))
