import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    a={"files":["include/floaxie/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["ftoa()/to_*string() result, return value and buffer contents","atof()/from_string() value, status and end pointer"]
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":q},why_tests_cant=why,anchors=a))
p("C01","Concurrent conversions never influence one another",
 "Any number of threads may print and parse numbers at the same time, each with its own buffers and without locking by the caller, and every call produces exactly the text, value, status and end position it produces when it runs alone. This holds for every interleaving of the threads' individual memory accesses. It keeps holding when some of the threads are stalled for long or killed in the middle of a conversion.",
 ["schedules","fault_sequences"],"all interleavings (at memory-access granularity) of up to N caller threads doing any mix of conversions, with stalls and crash-stops at any access",
 "All 14 tests are single-threaded; no schedule other than the sequential one is ever executed.",
 ["ftoa.h","atof.h","grisu.h","krosh.h","prettify.h","cached_power.h","diy_fp.h","static_pow.h","default_fallback.h"],
 [("no shared mutable state: all working storage is automatic or owned by the caller","krosh.h parse_digits/krosh, grisu.h grisu2/digit_gen, prettify.h"),("constant tables only","powers_ten_single.h, powers_ten_double.h, static_pow.h seq_pow, prettify.h digits_lut")])
p("C02","A conversion's outcome depends on its arguments only, not on history",
 "What a print or parse call returns is a function of its arguments alone: earlier conversions on the same thread (successful, out of range, rejected, or ended by an exception), a stale error number left behind by unrelated code, and reuse of the same buffer with other contents never change the result or the reported status. A call which returns without having met a range error itself leaves the caller's error number as it found it (unless user code called by it changed it).",
 ["histories"],"all sequences of conversions, failures, exceptions and ambient error-number values preceding (and inside) a call",
 "Each test makes one short fixed history in a fresh process; only one test ever looks at status after a fallback and it sets the error number up itself.",
 ["atof.h","default_fallback.h","krosh.h","ftoa.h"],
 [("range status is derived from the error number raised by this very fallback call","atof.h atof(), default_fallback.h check_errno()"),("no memo/cache between calls","krosh.h, grisu.h")],
 [("errno","thread's ambient error number, read after the fallback","default_fallback.h check_errno()")])
p("C03","Conversions are independent of every locale, which they never change",
 "The decimal point is always '.', the special-value keywords are recognised by their ASCII letters only, and printed numbers consist of ASCII characters without grouping, whatever C or C++ locale is in force for the process or the thread. This also holds when another thread switches the locale in the middle of a conversion. A conversion never changes, not even temporarily, the locale which other code of the process observes.",
 ["configurations","schedules"],"all C locales (global and per-thread) and C++ global locales incl. user-defined facets, and all instants at which they are switched, during any conversion",
 "All tests run in the start-up \"C\" locale and never switch it.",
 ["krosh.h","default_fallback.h","atof.h","prettify.h"],
 [("keyword matching by characters","krosh.h eat_nan/eat_inf"),("fallback conversion pinned to the \"C\" locale","default_fallback.h default_fallback<>")],
 [("C locale / std::locale()","process-wide ambient state","default_fallback.h, krosh.h")])
p("C04","Allocation failure is reported cleanly and never mishandled",
 "If a memory allocation fails at any point of a parse call or of a print call returning a string, the call either still produces its correct result or throws std::bad_alloc to the caller, with nothing leaked and the caller's text and end pointer untouched; it never ends the process and never returns a wrong result. Printing into a caller-supplied buffer allocates nothing and so cannot fail this way. Once memory is available again, the same call succeeds.",
 ["fault_sequences"],"all subsets of allocation attempts failing, in any call of any history of calls, on any thread",
 "No test makes an allocation fail.",
 ["krosh.h","ftoa.h","atof.h"],
 [("exceptions of the digit storage may leave the parser","krosh.h parse_digits()"),("string wrappers own their storage","ftoa.h to_basic_string()")])
p("C05","Printing writes only inside the caller's buffer, at every instant",
 "While printing into a caller-supplied buffer of the advertised maximum size, the library never writes outside that buffer, not even transiently, so that numbers printed concurrently by several threads into adjacent slots of one block of memory all come out intact and neighbouring memory is never disturbed. The resulting text is terminated by a zero character and its length is exactly the number returned. The previous content of the buffer has no effect on the text.",
 ["schedules","inputs"],"all interleavings of threads printing into adjacent slots, all values, all previous buffer contents",
 "Tests print into one private buffer at a time, and only look at the final text, so a transient or harmlessly placed stray write is invisible to them.",
 ["ftoa.h","grisu.h","prettify.h","memwrap.h"],
 [("buffer bound","ftoa.h max_buffer_size(), grisu.h max_digits()"),("in-place formatting","prettify.h print_decimal/print_scientific/fill_exponent")],
 None,["every store made by ftoa()","contents of adjacent slots"])
p("C06","Parsing reads no further than the terminator and keeps nothing",
 "A parse call reads only the characters from the start of the text up to and including its terminating zero, never modifies them and touches no memory behind the terminator, so that memory may be unmapped or may be being filled by another thread while the parse runs. After the call has returned the library keeps no reference to the text: overwriting the buffer and parsing it again gives the new number.",
 ["schedules","inputs","histories"],"all texts (complete, cut at any character, or garbage), all interleavings with a producer writing behind the terminator, all reuse histories of one buffer",
 "Tests parse string literals, behind which readable memory always follows; over-reads are invisible and no one else owns that memory.",
 ["krosh.h","atof.h"],
 [("every look-ahead is guarded by the previous character","krosh.h parse_digits, eat_nan, eat_inf, extract_fraction_digits, parse_exponent")],
 None,["every load made by atof()","accesses to guard pages"])
p("C07","Conversions are re-entrant at any instruction and from every callback",
 "A conversion may be interrupted at any instruction by code running on the same thread that prints numbers itself (e.g. a signal handler), and user code called by the library (a fallback conversion or an allocation handler) may itself print and parse numbers. Both the interrupted and the nested conversions produce exactly what they produce alone.",
 ["schedules","histories"],"all instants of interruption of any conversion, all nestings through fallback functions and allocation handlers",
 "No test interrupts or nests conversions.",
 ["ftoa.h","grisu.h","prettify.h","krosh.h","atof.h"],
 [("no static or thread-local working storage","krosh.h, grisu.h, prettify.h, ftoa.h")])
p("C08","The user's fallback conversion is used exactly by its contract",
 "A parse call consults the supplied fallback at most once, handing it exactly the caller's text and end-pointer arguments; when it was consulted, its value and end position are returned unchanged, and the status reports a range error only if this very call of the fallback raised one: underflow for a value not larger in magnitude than the smallest normal number, overflow otherwise. An exception thrown by the fallback reaches the caller, nothing is leaked and later conversions are unaffected.",
 ["fault_sequences","histories"],"all behaviours of the fallback (success, range error, exception, re-entry, stale or altered error number) at any call of any history",
 "Tests only use fallbacks which succeed, and do not check how they are called or what status follows.",
 ["atof.h","default_fallback.h"],
 [("single hand-over to the fallback","atof.h atof()"),("status mapping","default_fallback.h check_errno()")],
 None,["arguments and number of fallback calls","value, status and end pointer of atof()"])
p("C09","Numbers survive a text pipe bit for bit",
 "Every float or double which producers print into a text stream and consumers parse from it arrives as the bit-identical value (a zero arrives without its sign, NaN as NaN, infinities with their sign), with exactly the number's own characters consumed and success reported (for a subnormal number or the smallest normal one, underflow may be reported instead). This holds regardless of how the stream splits, delays or interleaves the delivery, and in the presence of stalled threads, allocation failures answered by a retry, locale switches and stale error numbers on either side.",
 ["schedules","fault_sequences","inputs"],"all values, all splittings and delays of delivery, all interleavings of producers and consumers, all sequences of the named faults",
 "The bulk round-trip tests are not runnable here (their number table is missing) and were sequential and fault-free; the remaining ones check 42 printed values.",
 ["ftoa.h","grisu.h","prettify.h","atof.h","krosh.h","diy_fp.h","powers_ten_single.h","powers_ten_double.h"],
 [("printed digits identify the value uniquely","grisu.h grisu2, diy_fp.h boundaries"),("correct rounding or fallback","krosh.h krosh, diy_fp.h downsample, atof.h atof")])
p("C10","Damaged text decodes as its longest valid number, or is rejected",
 "When text (up to 2 KB) is cut, corrupted, duplicated or spliced in transit, parsing what arrives still consumes exactly the longest prefix that is a number in the documented format (optional sign; digits with optional point and optional exponent, or a nan/infinity keyword) and returns its correctly rounded value with its sign; if there is no such prefix, it consumes nothing and returns zero with success. The status is overflow exactly if the value rounds to infinity, underflow if a non-zero number rounds to zero (for a non-zero result not larger in magnitude than the smallest normal number either underflow or success), and success otherwise. Records which arrive undamaged behind a damaged one are decoded correctly.",
 ["fault_sequences","inputs"],"all sequences of cuts, flips, insertions, losses, duplications and splices applied to a stream of printed numbers, at any position",
 "Tests parse about 60 well-formed literals plus one non-number; damaged text is not tried.",
 ["krosh.h","atof.h","diy_fp.h","bit_ops.h","fraction.h"],
 [("one-pass digit scanner","krosh.h parse_digits"),("exponent scanner","krosh.h parse_exponent"),("rounding and range limits","diy_fp.h downsample, bit_ops.h round_up, fraction.h convert_numerator")])
p("C11","Every conversion finishes within bounded steps of its own",
 "A print call finishes within a fixed number of its own steps, and a parse call within a number of steps proportional to the length of its text, whatever the text contains. No conversion ever waits for another thread: it finishes even if other threads are stalled forever or were killed in the middle of their own conversions, and no exception or failed allocation in an earlier conversion can block a later one.",
 ["schedules","fault_sequences","inputs"],"all crash-stop and stall points of the other threads, all texts and values, all earlier failures",
 "No test has a second thread, let alone one which dies in the middle of a conversion; step counts are not observed.",
 ["ftoa.h","grisu.h","prettify.h","krosh.h","diy_fp.h","atof.h"],
 [("no locks","all headers"),("bounded loops","grisu.h gen, krosh.h parse_digits/eat_nan/eat_inf, diy_fp.h normalize")])
p("C12","Diagnostic stream output obeys the stream error protocol",
 "Writing the library's extended-precision number to a std::ostream gives its binary mantissa and its exponent as \"(f = <bits>, e = <exponent>)\". If the stream's sink rejects characters, accepts them only in part or throws, or if memory runs out meanwhile, what reaches the sink is a prefix of that text, the failure is visible in the stream's state or thrown to the caller, nothing is leaked and the process is never ended. A stream which has failed before receives nothing, and a stream's settings are left as they were. Output of other threads to other streams is unaffected. The debugging helpers which return a number's bits as a string return exactly these bits, in the documented groups, or throw std::bad_alloc when memory runs out.",
 ["fault_sequences","schedules"],"all positions at which the sink fails (error, short write or exception), all allocation failures, all interleavings with other threads",
 "Tests only print to std::cout and do not look at the text.",
 ["diy_fp.h","print.h"],[("stream insertion","diy_fp.h operator<<"),("binary formatting","print.h print_binary")],None,["characters received by the sink","stream state","exceptions"])
p("C13","Conversions neither depend on nor change the floating-point environment",
 "The text of a printed number is the same in every floating-point rounding mode of the calling thread and whatever floating-point exception flags it has raised; so are value, status, end position and the decision to consult a fallback of every parse call (only a value which comes from the default fallback, the C library, obeys the rounding mode). The thread's rounding mode and its other floating-point control settings are the same after each call, even if an exception ends it, and user code called by the library (fallback conversion, allocation handler) runs in the caller's settings. Where the thread lets invalid operations, divisions by zero, overflows and underflows trap, conversions which involve no NaN are not interrupted by such a trap (unless the default fallback, the C library, causes it).",
 ["inputs","schedules","histories"],"all rounding modes, raised flags and enabled traps at each call, on every thread, in interrupts and callbacks, with exceptions of the fallback and failing allocations",
 "All tests run in the default environment and none looks at it afterwards.",
 ["grisu.h","k_comp.h","diy_fp.h","krosh.h","atof.h","default_fallback.h","ftoa.h"],[("decimal exponent by floating-point multiplication","k_comp.h k_comp_exp"),("integer arithmetic elsewhere","diy_fp.h, grisu.h, krosh.h"),("status by errno, not by exception flags","default_fallback.h check_errno")],None,["text, value, status and end of each call","control words of the FPU after each call and in callbacks"])
p("C14","Conversions work at every moment of a program's and a thread's life",
 "Printing and parsing give the same results at every moment at which a program can call them: while objects with static storage are initialised, before or after those of any other translation unit; in every thread, including its start and the destructors of its thread-local objects and thread-specific data; in a child forked while other threads are in the middle of conversions; while the program exits, in exit handlers, in destructors of static objects and after all of them, and in threads which are still running then. That holds wherever the first conversion was made and whichever earlier ones failed for want of memory. No conversion uses memory or objects whose lifetime has ended.",
 ["histories","crash_points","schedules"],"all orders of first use, use, fork, thread end and process end, at any phase, with any values, texts and failing allocations",
 "All tests call the library from main or a test body only, never during initialisation, thread end, after fork or during exit.",
 ["ftoa.h","atof.h","grisu.h","krosh.h","cached_power.h","powers_ten_single.h","powers_ten_double.h","default_fallback.h"],
 [("constant-initialised tables","powers_ten_*.h"),("no state with a lifetime of its own","all headers"),("locale object of the default fallback","default_fallback.h")],None,["result of each call","use of released memory","end of the process"])
p("C15","Every conversion takes a small constant amount of memory",
 "The stack a print or parse call takes is bounded by a small constant (at most 4 KiB of frames of its own), and so is the heap memory it has allocated at any time (at most 1 KiB); printing to a buffer allocates none at all. Neither depends on the value, on the length of the text (up to the documented 2 KB) or on what happened before. Whatever a call allocates beyond the string it returns is released when the call ends, be it by return, by an exception of the fallback or by a failed allocation, so that the memory held between calls does not grow with the number of calls or of different values and texts.",
 ["inputs","histories","fault_sequences"],"all values, all texts up to 2 KB, call sequences of any length, with failing allocations, exceptions of the fallback and nested conversions at any point",
 "Tests do not look at memory and parse no text of more than some 100 characters.",
 ["krosh.h","ftoa.h","grisu.h","prettify.h","memwrap.h","atof.h","print.h"],
 [("digit storage bounded by the digits of the type","krosh.h parse_digits"),("in-place formatting","grisu.h, prettify.h"),("string wrappers","ftoa.h to_string family")],None,["stack depth at each memory access","bytes allocated at a time by a call","bytes held after each call"])
p("N01","Printed text is the shortest representation in more than 99 % of cases",
 "For finite values the printed digits are, in more than 99 % of cases, as few as any decimal text which identifies the value can have.",
 ["inputs"],"all finite values","Needs a count over the whole domain of values; tests check one text for length.",["grisu.h"],[("interval shrinking","grisu.h grisu2/gen")])
p("N02","Pre-calculated powers of ten are accurate to half a unit in the last place",
 "Every pre-calculated power of ten used by the conversions is the correctly rounded extended-precision value of that power.",
 ["inputs"],"all table entries of both precisions","Tests touch only the entries used by some 100 literals.",["powers_ten_single.h","powers_ten_double.h","cached_power.h"],[("constant tables","powers_ten_*.h")])
p("N03","All supported character types give the same text and the same number",
 "Printing the same value for any of the supported character types gives the same characters, and parsing the same characters of any supported type gives the same value, status and length.",
 ["inputs"],"all values and texts, all character types","Tests use wide characters for one literal and UTF-16/32 not at all.",["ftoa.h","memwrap.h","krosh.h"],[("character type templates","memwrap.h, prettify.h, krosh.h")])
p("N04","The notation follows the magnitude of the number only",
 "Decimal notation is used exactly if the number has at most 16 digits on each side of the decimal point, and exponent notation with minimal two-digit exponents otherwise.",
 ["inputs"],"all finite values","Tests check the notation of two values.",["prettify.h"],[("format choice","prettify.h choose_format/prettify")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
