#!/usr/bin/env python3
# Generates properties.jsonl (one place to edit the property texts).
import json, os
L = "lib/libloong/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [x.strip() for x in observe.split(",")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("E01", "Integer instructions compute exactly the LoongArch result",
  "For every base integer instruction the emulator implements (arithmetic, logic, shifts and rotates, bit-field, multiply, divide, immediates, PC-relative address formation), every choice of registers and immediates and every register content, execution changes the destination register to the value the LoongArch instruction set defines (word results sign-extended, shift amounts reduced, full-width bit fields, remainder and quotient of the extreme values included), advances the program counter by one instruction and changes nothing else. Register zero reads as zero whatever an instruction names as destination, and no operand value makes the host process trap. This holds both when the instruction is stepped alone and when it runs inside a program under the fast engine.",
  ["inputs", "programs"], "all operand values, immediates and register assignments (including aliased and zero registers) of each integer instruction, in both engines",
  "Each instruction has 2^128 operand pairs and 2^15 register assignments; the unit tests sample a handful of values and mostly one engine.",
  [L+"la_instr_impl.hpp", L+"bytecode_impl.cpp", L+"la64.cpp", L+"threaded_rewriter.cpp"],
  [("instruction handlers", L+"la_instr_impl.hpp"), ("fast bytecodes", L+"bytecode_impl.cpp"), ("decoder", L+"la64.cpp"), ("operand rewriting", L+"threaded_rewriter.cpp"), ("bytecode selection", L+"threaded_bytecodes.hpp")],
  "general registers, pc and memory after each instruction")

p("E02", "Loads, stores and atomics access exactly the addressed bytes",
  "Every scalar load, store, indexed or pointer load/store, load-linked/store-conditional and atomic read-modify-write reads or writes exactly the addressed little-endian bytes: the loaded value is sign- or zero-extended as the instruction says, no other byte of memory and no other register changes, and atomics return the old value and store the combined one. A store-conditional succeeds only if a load-linked is outstanding and consumes it. Both engines agree, whatever the registers, including register zero as data or destination.",
  ["inputs", "programs"], "all addresses, offsets, data values and register choices for each memory instruction, in both engines",
  "Address arithmetic, extension and register-zero corner cases form a product space the tests sample at a few points only.",
  [L+"la_instr_impl.hpp", L+"la_instr_atomic.hpp", L+"bytecode_impl.cpp", L+"threaded_rewriter.cpp", L+"memory_inline.hpp"],
  [("load/store handlers", L+"la_instr_impl.hpp"), ("atomics", L+"la_instr_atomic.hpp"), ("fast load/store bytecodes", L+"bytecode_impl.cpp"), ("memory access", L+"memory_inline.hpp")],
  "registers and the full writable memory after each instruction")

p("E03", "Branches and jumps go where the instruction encodes",
  "Every conditional branch is taken exactly when its comparison (signed, unsigned, zero or condition flag) holds, every branch or jump transfers control to the encoded target for every offset its format can express, forwards or backwards, and linking jumps put the address of the next instruction in the link register even when it is also the base register. Straight-line code of any length between branches does not alter this. Both engines agree.",
  ["inputs", "programs"], "all branch kinds, operand values, offsets of every magnitude and block lengths",
  "Tests branch over a few instructions; long offsets, long blocks and aliased link registers need programs no compiler emitted for them.",
  [L+"bytecode_impl.cpp", L+"threaded_rewriter.cpp", L+"decoder_cache.cpp", L+"la_instr_impl.hpp"],
  [("branch bytecodes", L+"bytecode_impl.cpp"), ("branch operand packing", L+"threaded_rewriter.cpp"), ("block construction", L+"decoder_cache.cpp")],
  "pc sequence and link registers")

p("E04", "Floating-point moves, flags, compares and selects follow IEEE/LoongArch",
  "Scalar floating-point register moves, loads and stores, sign operations, classification, comparisons into condition flags, flag moves, flag branches and selects produce the bit pattern the instruction set defines for every operand, including infinities, subnormals, signed zeros and NaNs, and leave the other condition flags and the other registers alone. A comparison with a NaN is unordered and never reported as less, equal or ordered. Both engines agree.",
  ["inputs", "programs"], "all operand bit patterns and condition codes the emulator supports",
  "Comparison results depend on pairs of operand classes crossed with condition codes; the tests check a few ordered pairs.",
  [L+"la_instr_impl.hpp", L+"bytecode_impl.cpp", L+"registers.hpp"],
  [("fp handlers", L+"la_instr_impl.hpp"), ("fp bytecodes", L+"bytecode_impl.cpp"), ("flags", L+"registers.hpp")],
  "fp registers (bit patterns), condition flags, general registers")

p("E05", "All execution engines give one meaning to a program",
  "Any program of supported instructions, run from the same state, reaches the same registers, memory, program counter and outcome (normal stop or the same kind of fault) whether it is single-stepped, run by the counting engine or run by the non-counting engine, and whether the library was built with threaded or with tail-call dispatch. In particular block formation, instruction rewriting and no-op elimination never drop, add or reorder an effect.",
  ["programs"], "all programs over the implemented instruction set, with faults and self-loops",
  "Equivalence is over all programs; tests run a few compiled programs in one engine each.",
  [L+"threaded_dispatch.cpp", L+"threaded_inaccurate_dispatch.cpp", L+"tailcall_dispatch.cpp", L+"cpu.cpp", L+"decoder_cache.cpp", L+"threaded_rewriter.cpp"],
  [("counting dispatch", L+"threaded_dispatch.cpp"), ("non-counting dispatch", L+"threaded_inaccurate_dispatch.cpp"), ("stepping", L+"cpu.cpp"), ("block construction", L+"decoder_cache.cpp")],
  "final machine state and outcome")

p("E06", "The instruction counter counts every executed instruction once",
  "Whenever the counting engine returns normally, whether by limit, by a stop instruction or by a stop request from a system call, the instruction counter has grown by exactly the number of instructions executed since the run began, independent of block sizes and of how the run was sliced. The count never depends on data other than through the path executed.",
  ["programs", "histories"], "all programs (any block length, branch pattern, system calls) and all slicings of a run",
  "Miscounting appears only for particular block lengths and stop points that tests do not enumerate.",
  [L+"threaded_dispatch.cpp", L+"instruction_counter.hpp", L+"decoder_cache.hpp", L+"decoder_cache.cpp"],
  [("block counting", L+"threaded_dispatch.cpp"), ("block metadata", L+"decoder_cache.hpp")],
  "instruction_counter() after simulate()")

p("E07", "Limits, stops and resumption are transparent to the program",
  "A run with a non-zero instruction limit stops at the first taken control transfer at or after the limit, never before the limit and never running on unboundedly, and reports that it was stopped by the limit rather than that the program finished. Resuming from there, any number of times with any limits, produces exactly the states and final result of one uninterrupted run, and a stop request takes effect at once while a later resume continues after it.",
  ["programs", "histories"], "all programs and all sequences of limits and stop requests",
  "The pause points times program space is unbounded; tests use one limit on one loop.",
  [L+"threaded_dispatch.cpp", L+"machine.hpp", L+"machine_vmcall.hpp"],
  [("limit check", L+"threaded_dispatch.cpp"), ("stop and limit state", L+"machine.hpp")],
  "return value of simulate(), instruction_limit_reached(), stopped(), registers, memory")

p("E08", "Floating-point arithmetic is correctly rounded",
  "Every scalar and vector floating-point addition, subtraction, multiplication, division, fused multiply-add and its negated and subtracting forms, minimum, maximum, comparison and conversion between formats or to and from integers gives, in every lane, the result the exact mathematical value rounds to (to nearest, ties to even; fused operations rounding once; conversions to integers towards zero, saturating at the type's limits, NaN giving zero). Invalid operations and NaN operands give a NaN, except that minimum and maximum of a number and a NaN give the number; signed zeros and subnormal numbers are exact. The result is the same in every engine, and nothing but the destination changes.",
  ["inputs", "programs"], "all operand bit patterns of every implemented floating-point instruction, in every engine",
  "Double rounding, ties, cancellation and range limits show only for particular pairs or triples among 2^128 and more; tests add and multiply ordinary numbers.",
  [L+"la_instr_impl.hpp", L+"bytecode_impl.cpp", L+"registers.hpp"],
  [("fp and vector fp handlers", L+"la_instr_impl.hpp"), ("fp bytecodes", L+"bytecode_impl.cpp"), ("register lanes", L+"registers.hpp")],
  "vector registers after each instruction")

p("E09", "Vector instructions compute exactly the LSX and LASX results",
  "Every implemented 128-bit and 256-bit vector instruction (element arithmetic, comparison, minimum and maximum, shifts, bitwise operations, permutes, shuffles, interleaves, picks and packs, horizontal sums, masks and tests into condition flags, element moves to and from general registers, immediates, and plain and indexed vector loads and stores) gives in every lane what the instruction set defines for all lane contents, immediates and register choices, including a destination that is also a source; loads and stores touch exactly the addressed bytes at any alignment. No other register, flag or byte changes, and all engines agree.",
  ["inputs", "programs"], "all lane contents, immediates, addresses and register choices of every implemented vector instruction, in every engine",
  "Each vector instruction has at least 2^256 operand pairs; the tests run a few compiled programs that use some of them.",
  [L+"la_instr_impl.hpp", L+"bytecode_impl.cpp", L+"la64.cpp", L+"memory_inline.hpp"],
  [("vector handlers", L+"la_instr_impl.hpp"), ("vector bytecodes", L+"bytecode_impl.cpp"), ("vector memory access", L+"memory_inline.hpp")],
  "vector registers, general registers, condition flags and memory after each instruction")

p("E10", "Every instruction word executes as the ISA assigns it or is reported",
  "For every 32-bit instruction word that the LoongArch instruction set assigns to an instruction, the emulator either executes exactly that instruction or reports the word as an illegal or unimplemented instruction at that program counter; it never executes it as a different instruction. An instruction the emulator implements is recognised with every operand: no choice of registers or immediates turns it into another instruction or an illegal one. Both engines decode alike.",
  ["inputs"], "all 2^32 instruction words, in the stepping and the fast engine",
  "The decoder is a long chain of mask tests over 2^32 words; tests run the encodings their programs happen to contain.",
  [L+"la64.cpp", L+"decoder_cache.cpp", L+"threaded_rewriter.cpp", L+"threaded_bytecodes.hpp"],
  [("decoder", L+"la64.cpp"), ("fast bytecode selection", L+"decoder_cache.cpp")],
  "exceptions raised and machine state after executing the word")

p("D01", "Disassembly shows the instruction a word encodes",
  "For every instruction word the library knows, the text it gives (CPU::to_string, current_instruction_to_string) has the mnemonic LoongArch assembly gives that word, or a standard alias of it (nop, move, li.w, li.d, ret, jr, bltz, bgez, bgtz, blez), and its operands in assembler order: the registers of the right file by number or ABI name, immediates with their value, sign and scaling, branch targets as offset or as the address they lead to from that pc. Distinct operands are shown distinctly. No text names an instruction other than the one the word encodes; words that encode no known instruction may be shown in any way. A dump of the registers shows every register's value under its own name.",
  ["inputs"], "all instruction words and program counters",
  "There are some 900 encodings with their own operand layouts; the tests disassemble a handful of words.",
  [L+"la_instr_printers.hpp", L+"la64.cpp", L+"la_instr_impl.hpp", L+"registers.cpp", L+"cpu.cpp"],
  [("text printers", L+"la_instr_printers.hpp"), ("printer selection", L+"la64.cpp"), ("printing at the pc", L+"cpu.cpp"), ("register dump", L+"registers.cpp")],
  "text returned for a word at a pc")

p("D02", "Debugging observes without disturbing",
  "Running a program under DebugMachine::simulate leaves the machine in the state that executing the same number of instructions one by one leaves it in: registers, memory, program counter and faults are those of an ordinary run. The budget counts the instructions of that call, whatever ran before; at the end the counter is the number executed and the machine reports whether it stopped or reached the limit. With verbose output on, one line is printed per instruction, in execution order, with its address and text, and the register dumps show the values the registers have.",
  ["programs", "histories"], "all programs without stop instructions and all slicings of them, with and without earlier runs of the machine",
  "The debugger is exercised by no test; whether it perturbs a run depends on program, slicing and the machine's past.",
  [L+"debug.cpp", L+"cpu.cpp", L+"registers.cpp"],
  [("debug loop", L+"debug.cpp"), ("single step", L+"cpu.cpp"), ("register dump", L+"registers.cpp")],
  "machine state after DebugMachine::simulate and the text it printed")

p("D03", "Backtraces and symbol names tell what the program's symbols and stack say",
  "An address is attributed to a symbol that contains it, else to the nearest symbol below it, else to none; it is shown as that symbol's name, demangled if it is a mangled C++ name, with the offset from the symbol when there is one. A backtrace lists the starting pc, the return address and then the words from the stack pointer upwards until one is zero, cannot be read or 64 are listed, each numbered and with its symbol. Neither fails nor touches host memory outside its own, whatever the stack, the registers and the executable's symbols contain, including names of any length. A call under the debugger (DebugMachine::vmcall) returns what the function returns, executing the instructions an ordinary run executes.",
  ["inputs"], "all symbol tables and symbol names, register and stack contents, starting addresses",
  "The names and stacks come from the guest; tests print at most a backtrace of an ordinary program.",
  [L+"machine_backtrace.cpp", L+"memory.cpp", L+"debug.cpp"],
  [("backtrace", L+"machine_backtrace.cpp"), ("symbol lookup", L+"memory.cpp"), ("call under the debugger", L+"debug.cpp")],
  "text of backtrace() and lookup_demangled_symbol(), results of DebugMachine::vmcall")

p("C01", "The command line emulator shows a shell what the program did",
  "laemu runs the program at the given path with the arguments that follow it, unchanged and in order, whatever they look like; options before the path keep their meaning in every spelling, order and combination. Standard output carries the bytes the program wrote, in order and unaltered, followed by a report of its end unless silent; the exit status is the program's exit code modulo 256, the same in the fast and the precise mode. With fuel, a run that needs no more than the fuel ends as it would without it and one that does not end is reported as a timeout with the number of instructions executed (exactly the fuel in precise mode, in the fast mode the count at the first taken branch at or beyond it), with status 255; the reported instruction counts are exact. A fault is reported with its address and the registers, with status 255. The program can use all of the memory given with -m and nothing beyond. A file that is missing, no executable for this machine, or cannot be given its memory is refused with a message and a non-zero status. The bytecode statistics count every instruction of the code once.",
  ["inputs", "programs"], "all command lines, program arguments, executables, fuels and memory sizes",
  "No test runs the emulator; its behaviour depends on combinations of options, argument texts, run lengths and file contents.",
  ["emulator/src/main.cpp", L+"machine_bytecode_stats.cpp", L+"machine.cpp"],
  [("option parsing and reporting", "emulator/src/main.cpp"), ("bytecode statistics", L+"machine_bytecode_stats.cpp")],
  "exit status, standard output and standard error of laemu")

p("M01", "A guest can only touch its own arena and never its read-only part",
  "Whatever the guest executes, and whatever address and length it passes to a system call, every read touches only readable arena bytes and every write only writable arena bytes; an access that starts outside raises a protection fault that the host can catch, without altering guest memory, and no host memory outside the arena (and the small margin reserved behind its end for accesses that start inside) is ever read or written. Code and read-only data keep the loaded contents for the machine's whole life.",
  ["inputs", "programs"], "all addresses and lengths, including ranges that wrap around or straddle the arena end",
  "Boundary and wrap-around ranges are adversarial inputs; the tests access valid memory.",
  [L+"memory_inline.hpp", L+"memory_rw.cpp", L+"memory.hpp", L+"linux/syscalls.cpp", L+"machine_accelerate.cpp"],
  [("scalar bounds checks", L+"memory_inline.hpp"), ("range checks", L+"memory_rw.cpp"), ("readable/writable predicates", L+"memory.hpp")],
  "exceptions raised, arena bytes and guard regions around the arena")

p("M02", "Host access to guest memory behaves like a bounds-checked byte array",
  "Host-side copies in and out, fills, compares, string reads, views and typed accesses act on guest memory as on one byte array: what was last written is read back, a range is either entirely valid and entirely processed or rejected with a protection fault leaving memory unchanged, ranges that end exactly at the end of the arena are valid, and string reads stop at the terminator or the requested maximum.",
  ["inputs", "histories"], "all sequences of host accesses with all addresses and lengths",
  "Sequences of overlapping accesses at boundaries are not sampled by tests.",
  [L+"memory_rw.cpp", L+"memory_inline.hpp", L+"memory.cpp"],
  [("copy/fill/compare", L+"memory_rw.cpp"), ("views", L+"memory_inline.hpp"), ("strings", L+"memory.cpp")],
  "returned data and exceptions of the host memory API")

p("M03", "Loading an executable builds exactly the image the file describes",
  "For every well-formed statically linked executable, after loading each loadable segment's file bytes are at its address, the rest of its memory size is zero, the start address is the entry point, read-only and writable boundaries follow the segment permissions, and heap, break area, stack and mapping area follow the image without overlapping it or each other and inside the arena. Every function and data symbol resolves to its address, and the address lookup returns the symbol that contains it.",
  ["inputs", "configurations"], "all well-formed executables (segment counts, sizes, permissions, symbol tables) and memory options",
  "Layouts vary over all segment arrangements; tests load a couple of compiler outputs.",
  [L+"elf_loader.cpp", L+"memory.cpp", L+"elf.hpp"],
  [("segment loader", L+"elf_loader.cpp"), ("layout", L+"memory.cpp"), ("symbols", L+"memory.cpp")],
  "arena contents, boundaries, start address, address_of/lookup_symbol")

p("M04", "Malformed executables are rejected, never obeyed out of bounds",
  "Loading any byte string at all either succeeds or throws an error to the host; it never reads outside the given bytes, never writes outside the arena, and never crashes or hangs the host. In particular headers, segments, sections, symbols and relocations whose offsets, sizes or addresses are inconsistent, truncated or overflow are rejected or ignored.",
  ["inputs"], "all byte strings, in particular all single and multiple corruptions of headers",
  "The space of corruptions is combinatorial; tests include none or a few.",
  [L+"elf_loader.cpp", L+"memory.cpp"],
  [("header validation", L+"elf_loader.cpp"), ("section parsing", L+"memory.cpp")],
  "accepted/rejected, sanitizer reports")

p("M05", "Memory mapping hands out fresh, disjoint, zeroed, in-bounds ranges",
  "Every successful anonymous mapping request returns a page-aligned range inside the writable arena that is disjoint from every other live mapping and from the program image, heap and stack, and reads as zero; a request that cannot be satisfied returns an error without changing anything, and a fixed address is honoured only inside the mapping area. Unmapping never affects other live mappings.",
  ["histories"], "all sequences of map and unmap requests of all sizes",
  "Reuse and exhaustion appear only after particular map/unmap sequences.",
  [L+"memory.cpp", L+"linux/syscalls.cpp"],
  [("mmap bump allocator", L+"memory.cpp"), ("mmap/munmap system calls", L+"linux/syscalls.cpp")],
  "returned addresses, memory contents")

p("M06", "Host views of guest-made objects stay inside guest memory",
  "Whatever bytes a guest leaves in the place of a C++ or Rust string or vector, every host operation on that object either is refused with an exception or works on exactly the guest memory its fields name; objects reaching outside memory, with ends before beginnings, sizes beyond the given limit or sizes that overflow are refused, valid ones are not. Read-only guest memory, the native heap's bookkeeping and host memory are never disturbed.",
  ["inputs"], "all contents of guest string and vector objects, all limits and indexes, all host operations on them",
  "A hostile guest chooses 24 to 32 arbitrary bytes; the tests only read objects that were built correctly.",
  [L+"guest_datatypes.hpp", L+"memory_inline.hpp"],
  [("guest object views", L+"guest_datatypes.hpp"), ("bounds-checked arrays", L+"memory_inline.hpp")],
  "result of every host call, host memory outside the arena, read-only guest memory")

p("H01", "The native heap never hands out overlapping or out-of-range memory",
  "For every sequence of allocate, zero-allocate, reallocate and free requests of every size, all live allocations are 16-byte aligned, at least as large as requested, inside the heap and pairwise disjoint; a request that does not fit fails cleanly; reallocation keeps the contents up to the smaller size; zero-allocation returns zeroed memory; free space is merged so that freeing everything restores one full-size block, and the used, free and chunk accounting always adds up. Freeing or reallocating something that is not a live allocation is refused and changes nothing.",
  ["histories", "inputs"], "all request sequences and sizes, including zero, huge and overflowing ones",
  "Allocator corruption needs specific interleavings of split, merge and reuse.",
  [L+"native/heap.hpp", L+"machine_accelerate.cpp"],
  [("chunk list", L+"native/heap.hpp"), ("heap system calls", L+"machine_accelerate.cpp")],
  "returned addresses, sizes, accounting, guest memory contents")

p("H02", "Accelerated C library routines compute what the C library would",
  "When memory and string routines are accelerated, each call returns the result and leaves the memory that the C standard prescribes for memcpy, memmove, memset, memcmp, memchr, strlen, strnlen, strcmp and strncmp, for every content, length and alignment, including overlapping moves, embedded terminators, bytes above 127 and lengths of zero. The guest continues at the caller, and arguments outside guest memory raise a protection fault.",
  ["inputs"], "all buffer contents, lengths, overlaps and addresses",
  "Tests run a few strings; terminators before the length limit and boundary lengths are not covered.",
  [L+"machine_accelerate.cpp", L+"memory.cpp"],
  [("accelerated routines", L+"machine_accelerate.cpp"), ("guest strlen", L+"memory.cpp")],
  "result register, memory, return pc")

p("H03", "Guest container objects keep their contents and release their storage",
  "A guest string or vector created, assigned, appended to, resized, reserved, cleared or moved through the host API always has the size and contents that the same operations give an ordinary string or vector, as seen by the host and by the guest-visible layout. When it is destroyed or replaced every heap block it owned, and nothing else, has been freed exactly once.",
  ["histories"], "all operation sequences on guest strings and vectors with all lengths around the small-string and capacity limits",
  "Leaks and stale pointers show only after particular sequences across the small-string and growth boundaries.",
  [L+"guest_datatypes.hpp", L+"native/heap.hpp"],
  [("guest strings", L+"guest_datatypes.hpp"), ("guest vectors", L+"guest_datatypes.hpp"), ("scoped objects", L+"guest_datatypes.hpp")],
  "to_string/to_vector, guest bytes, heap accounting")

p("S01", "System calls reach exactly the right handler and return to the guest",
  "A system call instruction invokes exactly once the handler installed for the number the guest requested, or the unknown-call handler if there is none or the number is out of range, with the guest's registers and program counter as they were at the instruction; afterwards execution continues behind it with only what the handler changed. Arguments are delivered by type from the proper registers, results are sign-extended into the result register, and an exception thrown by a handler reaches the host with the machine still usable.",
  ["programs", "histories"], "all call numbers, handler tables, argument types and values, in all engines",
  "Number range, table updates and handler behaviours combine; tests install a few handlers.",
  [L+"machine_inline.hpp", L+"threaded_dispatch.cpp", L+"threaded_inaccurate_dispatch.cpp", L+"machine.cpp"],
  [("dispatch", L+"machine_inline.hpp"), ("system call bytecode", L+"threaded_dispatch.cpp"), ("argument conversion", L+"machine_inline.hpp")],
  "handler invocations, registers, pc")

p("S02", "The Linux emulation answers from the sandbox only",
  "The emulated Linux system calls give the guest only sandboxed answers: output goes only to standard output or error descriptors and is exactly the bytes the guest passed in order, reads and opens never reach host files, sizes and counts returned match what was processed, and only the guest buffers named in the call are written. Unsupported descriptors or options yield the error code and no effect.",
  ["inputs", "histories"], "all arguments of the emulated calls",
  "Argument combinations are unbounded; tests only print.",
  [L+"linux/syscalls.cpp"],
  [("system call table", L+"linux/syscalls.cpp")],
  "result register, guest memory, captured output")

p("S03", "Guest threads are scheduled without losing or corrupting any of them",
  "With cooperative threads enabled, for every sequence of thread creation, yield, futex wait, futex wake and exit, exactly one thread runs, every other live thread is either ready or blocked exactly once, a switched-out thread resumes with the registers it had and the proper call result, a wake releases exactly the requested number of matching waiters, and only those, and a ready thread is eventually run. Thread identifiers are unique and delivered to the addresses requested, and clearing the identifier at exit wakes whoever waits for it.",
  ["schedules", "histories"], "all interleavings of thread operations up to the thread limit",
  "Lost wake-ups and stale register sets depend on the order of operations among threads.",
  [L+"posix/threads.cpp", L+"posix/threads.hpp", L+"linux/syscalls_threads.cpp"],
  [("scheduler", L+"posix/threads.cpp"), ("thread system calls", L+"linux/syscalls_threads.cpp")],
  "running thread, register files, ready and blocked queues, results")

p("S04", "Signal dispositions are stored, reported and honoured per signal",
  "Setting a signal action affects that signal only and is reported back unchanged by the next query, numbers out of range are refused, and raising a signal with a handler transfers control to that handler, on the alternate stack of the current thread if the action asks for it, while unhandled or null signals do not transfer control. Each thread has its own alternate stack.",
  ["histories", "inputs"], "all sequences of action, alternate-stack and kill calls over all signal numbers",
  "Aliasing between signals and stacks needs cross-checking all pairs.",
  [L+"posix/signals.cpp", L+"posix/signals.hpp", L+"linux/syscalls.cpp"],
  [("signal table", L+"posix/signals.cpp"), ("signal system calls", L+"linux/syscalls.cpp")],
  "results, pc, sp, guest memory")

p("S05", "The initial process stack is a valid LoongArch Linux process image",
  "For every argument and environment list, the program starts with a stack from which it reads back exactly those arguments and environment strings in order, each terminated and the lists null-terminated, followed by an auxiliary vector that ends with a null entry and whose entries describe the loaded image (program headers, entry point, page size, 16 random bytes inside memory). The stack pointer is 16-byte aligned and everything lies inside the stack area.",
  ["inputs", "configurations"], "all argument and environment lists",
  "Alignment depends on the parity of counts and string lengths; tests pass one or two arguments.",
  [L+"machine.cpp"],
  [("stack construction", L+"machine.cpp")],
  "guest memory at the initial stack pointer")

p("V01", "Calling a guest function follows the LoongArch calling convention",
  "A host call of a guest function delivers integers, enumerations, floats, strings and structures in the registers the calling convention assigns, with strings and structures copied to 16-byte aligned, non-overlapping stack space and pointers to them passed, return address at the exit point and the stack pointer 16-byte aligned, and returns the function's integer or floating-point result in the requested type. Arguments that do not fit are never silently placed in the wrong register.",
  ["inputs", "programs"], "all argument lists (types, counts, values) and return types",
  "Mixed integer, float, string and structure lists are combinatorial.",
  [L+"machine_vmcall.hpp"],
  [("argument marshalling", L+"machine_vmcall.hpp")],
  "registers and stack at function entry, returned value")

p("V02", "Bounded calls either finish or report a timeout, and nest safely",
  "A guest function called with an instruction budget either returns its result or, if the budget runs out, raises a timeout error, and never reports one as the other whatever the function does, including system calls. A preemptive call made while the guest is inside a system call and asked to preserve state leaves the interrupted program's registers other than the call's result register, its stack and its instruction limit intact, so that it continues to the same result.",
  ["programs", "histories"], "all functions, budgets and nesting of calls from system call handlers",
  "Budget exhaustion at each possible point, and nesting, are not sampled by tests.",
  [L+"machine_vmcall.hpp", L+"threaded_dispatch.cpp", L+"machine.hpp"],
  [("bounded calls", L+"machine_vmcall.hpp"), ("limit bookkeeping", L+"threaded_dispatch.cpp")],
  "exceptions, results, registers, guest stack")

p("X01", "Execute segments are shared only between identical code",
  "Two machines share a decoded execute segment only if address range and code bytes are identical, so that every machine always executes the code it loaded; machines loading the same code at the same place with sharing enabled do share one copy. A segment stays valid as long as any machine uses it and is forgotten when the last user is gone, under every interleaving of machine creation, execution and destruction on several host threads.",
  ["schedules", "histories"], "all orders and thread interleavings of create, execute, evict and destroy over several programs",
  "Lifetime races and key confusion depend on interleavings and near-identical programs.",
  [L+"shared_exec_segment.hpp", L+"shared_exec_segment.cpp", L+"decoder_cache.cpp", L+"memory.cpp"],
  [("segment registry", L+"shared_exec_segment.hpp"), ("segment creation", L+"decoder_cache.cpp")],
  "segment identity and use counts, executed results")

p("X02", "Machines do not influence each other",
  "Operations on one machine (running, patching in accelerated routines, faulting, being destroyed) never change registers, memory, results, counters or code of another machine, whether they are used alternately on one host thread or concurrently on several.",
  ["schedules", "histories"], "all interleavings of operations on several machines, with equal or different programs and options",
  "Cross-talk needs particular combinations of machines sharing code and of host threads.",
  [L+"machine.cpp", L+"machine_accelerate.cpp", L+"shared_exec_segment.hpp", L+"decoder_cache.cpp"],
  [("shared tables", L+"machine.cpp"), ("code patching", L+"machine_accelerate.cpp")],
  "per-machine traces compared with running alone")

p("X03", "Faults are precise, typed and survivable",
  "An illegal instruction, a forbidden memory access, a jump outside readable memory or code, a jump to a misaligned address or a missing system call raises an exception of the matching type to the host in every engine, with every earlier instruction's effects visible, none of the faulting instruction's or later effects, and memory otherwise unchanged. Afterwards the machine can be inspected, redirected and run again as if the fault had not happened.",
  ["programs", "inputs"], "all faulting instructions at all positions of a block, followed by any continuation",
  "Fault position inside a block, kind and engine multiply; tests check one or two.",
  [L+"threaded_dispatch.cpp", L+"bytecode_impl.cpp", L+"cpu.cpp", L+"decoder_cache.cpp"],
  [("fault raising", L+"memory_inline.hpp"), ("jump checks", L+"cpu.cpp"), ("invalid bytecode", L+"bytecode_impl.cpp")],
  "exception type and data, registers, memory, subsequent runs")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
