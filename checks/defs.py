"""What each property's check explores."""
from vlib import shards

LEVEL = {}
CHECKS = {}


def check(pid):
    def reg(fn):
        CHECKS[pid] = fn
        return fn
    return reg


def exec_jobs(c, mode, q, t, n=8, driver="exec", **kw):
    return shards(n if c.quick else 2 * n, driver, {"mode": mode, "count": q if c.quick else t, **kw}, "LATrace.tla", seed=c.seed)


def mem_jobs(c, q, t, n=8, **kw):
    return shards(n if c.quick else 2 * n, "mem", {"count": q if c.quick else t, **kw}, "MemTrace.tla", seed=c.seed)


def linux_jobs(c, mode, threads, q, t, n=8):
    return shards(n if c.quick else 2 * n, "linux", {"mode": mode, "threads": threads, "count": q if c.quick else t}, "LinuxTrace.tla", seed=c.seed)


def corner_jobs(c, driver, spec, q, t, **kw):
    return shards(8, driver, {"mode": "corner", "shards": 8, "reps": q if c.quick else t, **kw}, spec, seed=c.seed)


@check("E01")
def e01(c):
    c.build("asan", "exec")
    c.model("MCWord.tla", workers=4)
    c.traces_of(exec_jobs(c, "int", 9000, 60000) + exec_jobs(c, "div", 1500, 12000) + corner_jobs(c, "exec", "LATrace.tla", 2, 10, **{"class": "id"}))
    return c.finish()


@check("E02")
def e02(c):
    c.build("asan", "exec")
    c.traces_of(exec_jobs(c, "mem", 9000, 80000) + corner_jobs(c, "exec", "LATrace.tla", 3, 15, **{"class": "mla"}))
    return c.finish()


@check("E03")
def e03(c):
    c.build("asan", "exec")
    c.traces_of(exec_jobs(c, "br", 9000, 60000))
    return c.finish()


@check("E04")
def e04(c):
    c.build("asan", "exec")
    c.traces_of(exec_jobs(c, "fp", 9000, 80000) + corner_jobs(c, "exec", "LATrace.tla", 3, 15, **{"class": "fx"}))
    return c.finish()


@check("E05")
def e05(c):
    c.build("asan", "exec")
    c.build("tail", "exec")
    c.traces_of(exec_jobs(c, "prog", 550, 8000) + exec_jobs(c, "long", 60, 600) + exec_jobs(c, "long", 6, 60, block=2000, n=4)
                # the same programs under tail-call dispatch
                + exec_jobs(c, "prog", 150, 3000, n=4, driver="exec@tail") + exec_jobs(c, "sys", 100, 2000, n=4, driver="exec@tail") + exec_jobs(c, "br", 1000, 20000, n=2, driver="exec@tail")
                + exec_jobs(c, "limit", 60, 800, n=4, driver="exec@tail") + exec_jobs(c, "limit", 40, 500, n=2, driver="exec@tail", imm=1) + exec_jobs(c, "fault", 60, 1000, n=4, driver="exec@tail")
                + exec_jobs(c, "corner", 0, 0, n=4, driver="exec@tail", shards=8, reps=1) + exec_jobs(c, "long", 6, 60, block=2000, n=2, driver="exec@tail"))
    return c.finish()


@check("E06")
def e06(c):
    c.build("asan", "exec")
    c.traces_of(exec_jobs(c, "limit", 180, 2000) + exec_jobs(c, "limit", 30, 300, block=300, n=4) + exec_jobs(c, "limit", 6, 60, block=2500, n=4)
                + exec_jobs(c, "sys", 250, 3000) + exec_jobs(c, "limit", 60, 600, imm=1, n=4) + exec_jobs(c, "huge", 1, 12))
    return c.finish()


@check("E07")
def e07(c):
    c.build("asan", "exec")
    c.traces_of(exec_jobs(c, "limit", 250, 3000) + exec_jobs(c, "limit", 60, 600, block=40, n=8)
                + exec_jobs(c, "limit", 100, 1000, imm=1) + exec_jobs(c, "sys", 60, 600, imm=1, n=4) + exec_jobs(c, "huge", 1, 12, n=6))
    return c.finish()


def vec_jobs(c, mode, q, t, n=8, **kw):
    return shards(n if c.quick else 2 * n, "vec", {"mode": mode, "count": q if c.quick else t, **kw}, "VecTrace.tla", seed=c.seed)


@check("E08")
def e08(c):
    c.build("asan", "vec")
    c.model("MCFloat.tla", workers=8, timeout=700, **({} if c.quick else {"cfg": "MCFloatFull.cfg"}))
    c.traces_of(vec_jobs(c, "single", 1600, 12000, **{"class": "fp"}) + vec_jobs(c, "seq", 300, 3000)
                + corner_jobs(c, "vec", "VecTrace.tla", 1, 8, **{"class": "fp"}))
    return c.finish(min_cover=["fmadd.s", "fmadd.d", "fcvt.s.d", "fcvt.d.s", "fdiv.d", "xvfmadd.d", "vfcmp.cule.d", "ftintrz.l.d"])


@check("E09")
def e09(c):
    c.build("asan", "vec")
    c.traces_of(vec_jobs(c, "single", 2500, 15000, **{"class": "vec"}) + vec_jobs(c, "seq", 500, 5000)
                + corner_jobs(c, "vec", "VecTrace.tla", 2, 16, **{"class": "vec"}))
    return c.finish(min_cover=["vshuf.b", "xvpermi.q", "vhaddw.d.w", "xvldi", "vldx", "xvstx", "vsetanyeqz.b", "out_prot"])


@check("E10")
def e10(c):
    c.build("plain", "vec")
    c.build("asan", "vec", "exec")
    n = 8
    c.traces_of(shards(n, "vec@plain", {"mode": "map", "shards": n}, "VecTrace.tla", seed=c.seed)
                + vec_jobs(c, "single", 800, 8000, **{"class": "all"})
                + corner_jobs(c, "exec", "LATrace.tla", 1, 6))
    return c.finish(min_cover=["map_ok", "map_ill"])


@check("X03")
def x03(c):
    c.build("asan", "exec")
    c.traces_of(exec_jobs(c, "fault", 250, 3000) + exec_jobs(c, "sys", 150, 1500))
    return c.finish()


@check("M01")
def m01(c):
    c.build("asan", "exec", "mem", "linux")
    c.model("MCMemory.tla")
    c.traces_of(exec_jobs(c, "mem", 3000, 30000) + mem_jobs(c, 120, 1500) + linux_jobs(c, "calls", 0, 8, 120, n=4))
    return c.finish()


@check("M02")
def m02(c):
    c.build("asan", "mem")
    c.model("MCMemory.tla")
    c.traces_of(mem_jobs(c, 300, 4000))
    return c.finish()


@check("S01")
def s01(c):
    c.build("asan", "exec", "sys")
    c.traces_of(shards(8 if c.quick else 16, "sys", {"count": 4000 if c.quick else 40000}, "SyscallsTrace.tla", seed=c.seed)
                + exec_jobs(c, "sys", 120, 2000))
    return c.finish()


@check("S02")
def s02(c):
    c.build("asan", "linux")
    c.traces_of(linux_jobs(c, "calls", 0, 30, 400) + linux_jobs(c, "calls", 1, 10, 150))
    return c.finish()


@check("S04")
def s04(c):
    c.build("asan", "linux", "threads")
    c.traces_of(linux_jobs(c, "sig", 0, 15, 200) + linux_jobs(c, "sig", 1, 15, 200)
                + shards(8 if c.quick else 32, "threads", {"count": 20 if c.quick else 400, "sigs": 1}, "ThreadsTrace.tla", seed=c.seed + 500))
    return c.finish()


@check("S03")
def s03(c):
    c.build("asan", "threads")
    c.model("MCThreads.tla", "MCThreadsFree.cfg" if c.quick else "MCThreadsFreeDeep.cfg")
    p = c.paths("MCThreads.tla", "MCThreads.cfg" if c.quick else "MCThreadsDeep.cfg", "threads.paths", timeout=3000)
    n = 8 if c.quick else 64
    c.traces_of([("threads", {"paths": p, "of": n, "shard": i, "seed": c.seed}, "ThreadsTrace.tla", None) for i in range(n)]
                + shards(8 if c.quick else 16, "threads", {"count": 40 if c.quick else 600}, "ThreadsTrace.tla", seed=c.seed)
                + shards(4 if c.quick else 16, "threads", {"count": 2 if c.quick else 20, "live": 52, "per": 500}, "ThreadsTrace.tla", seed=c.seed))
    return c.finish()


def elf_jobs(c, mode, quick, deep, **kw):
    return shards(8 if c.quick else 32, "elf", {"mode": mode, "count": quick if c.quick else deep, **kw}, "ElfTrace.tla", seed=c.seed)


@check("M03")
def m03(c):
    c.build("asan", "elf")
    c.traces_of(elf_jobs(c, "good", 900, 4000))
    return c.finish()


@check("M04")
def m04(c):
    c.build("asan", "elf")
    jobs = elf_jobs(c, "bad", 700, 4000)
    for f in range(1 if c.quick else 12):
        jobs += [("elf", {"mode": "each", "file": f + c.seed, "of": 8, "shard": i, "seed": c.seed}, "ElfTrace.tla", None) for i in range(8)]
    c.traces_of(jobs)
    return c.finish()


@check("S05")
def s05(c):
    c.build("asan", "elf")
    c.traces_of(elf_jobs(c, "stack", 700, 4000))
    return c.finish()


@check("M05")
def m05(c):
    c.build("asan", "mmap")
    p = c.paths("MCMmap.tla", "MCMmap.cfg" if c.quick else "MCMmapDeep.cfg", "mmap.paths")
    n = 8 if c.quick else 16
    area = 4 if c.quick else 5
    c.traces_of([("mmap", {"paths": p, "of": n, "shard": i, "seed": c.seed, "area": area}, "MmapTrace.tla", None) for i in range(n)]
                + shards(8 if c.quick else 32, "mmap", {"count": 40 if c.quick else 400}, "MmapTrace.tla", seed=c.seed))
    return c.finish()


@check("D01")
def d01(c):
    c.build("asan", "disasm")
    c.model("MCDisasm.tla", workers=8, timeout=700)
    c.traces_of(shards(8, "disasm", {"mode": "words", "shards": 8, "reps": 6 if c.quick else 60}, "DisasmTrace.tla", seed=c.seed)
                + shards(8, "disasm", {"mode": "map", "shards": 8}, "DisasmTrace.tla", seed=c.seed))
    return c.finish()


@check("D02")
def d02(c):
    c.build("asan", "exec")
    c.traces_of(exec_jobs(c, "debug", 60, 800, n=16))
    return c.finish(min_cover=["slices"])


@check("D03")
def d03(c):
    c.build("asan", "backtrace")
    c.traces_of(shards(8, "backtrace", {"mode": "trace", "count": 60 if c.quick else 800}, "BacktraceTrace.tla", seed=c.seed)
                + shards(4, "backtrace", {"mode": "call", "count": 15 if c.quick else 200}, "BacktraceTrace.tla", seed=c.seed))
    return c.finish(min_cover=["no symbol", "inside a symbol", "after a symbol", "deepest", "no callers", "some callers", "stack unreadable", "calls that end", "calls cut short"])


@check("C01")
def c01(c):
    c.build("asan", "cli", "laemu")
    c.model("MCEmulator.tla", workers=8, timeout=700, **({} if c.quick else {"cfg": "MCEmulatorFull.cfg"}))
    c.traces_of(shards(8, "cli", {"count": 110 if c.quick else 1500}, "EmulatorTrace.tla", seed=c.seed))
    return c.finish(min_cover=["precise exit", "fast exit", "precise limit", "fast limit", "precise fault", "fast fault", "silent", "reported", "arg", "argc",
                               "exitgroup", "usage help", "usage none", "usage bad", "file missing", "file elf32", "file huge", "file tiny", "file cut"])


@check("H01")
def h01(c):
    c.build("asan", "heap")
    p = c.paths("MCHeap.tla", "MCHeap.cfg" if c.quick else "MCHeapDeep.cfg", "heap.paths")
    n = 8 if c.quick else 32
    c.traces_of([("heap", {"paths": p, "of": n, "shard": i, "seed": c.seed, "granules": 6 if c.quick else 8, "maxc": 4 if c.quick else 5}, "HeapTrace.tla", None) for i in range(n)]
                + shards(8 if c.quick else 32, "heap", {"count": 40 if c.quick else 300}, "HeapTrace.tla", seed=c.seed))
    return c.finish()


@check("H02")
def h02(c):
    c.build("asan", "clib")
    c.model("MCCLib.tla", "MCCLib.cfg" if c.quick else "MCCLibDeep.cfg", workers=4)
    n = 8 if c.quick else 32
    c.traces_of(shards(n, "clib", {"mode": "all", "of": n, "count": 3 if c.quick else 60, "size": 5 if c.quick else 6}, "CLibTrace.tla", seed=c.seed)
                + shards(n, "clib", {"mode": "tiny", "count": 400 if c.quick else 2500}, "CLibTrace.tla", seed=c.seed)
                + shards(n, "clib", {"mode": "elf", "count": 40 if c.quick else 150}, "CLibTrace.tla", seed=c.seed))
    return c.finish()


@check("H03")
def h03(c):
    c.build("asan", "containers")
    p = c.paths("MCContainers.tla", "MCContainers.cfg", "containers.paths")
    if not c.quick:
        c.model("MCContainers.tla", "MCContainersDeep.cfg", timeout=1500)
    n = 40 if c.quick else 64
    c.traces_of([("containers", {"paths": p, "of": n, "shard": i if not c.quick else (5 * i + c.seed) % n, "seed": c.seed}, "ContainersTrace.tla", None) for i in range(8 if c.quick else n)]
                + shards(8 if c.quick else 64, "containers", {"count": 40 if c.quick else 300}, "ContainersTrace.tla", seed=c.seed))
    return c.finish()


@check("M06")
def m06(c):
    c.build("asan", "views")
    c.traces_of(shards(8 if c.quick else 64, "views", {"count": 1500 if c.quick else 12000}, "ViewsTrace.tla", seed=c.seed))
    return c.finish()


@check("V01")
def v01(c):
    c.build("asan", "callargs")
    c.model("MCCallArgs.tla", None if c.quick else "MCCallArgsDeep.cfg", workers=4, timeout=1500)
    c.traces_of(shards(8 if c.quick else 64, "callargs", {"count": 4 if c.quick else 12}, "CallArgsTrace.tla", seed=c.seed))
    return c.finish()


@check("V02")
def v02(c):
    c.build("asan", "callnest")
    p = c.paths("MCCalls.tla", "MCCalls.cfg" if c.quick else "MCCallsRich.cfg", "calls.paths")
    if not c.quick:
        c.model("MCCalls.tla", "MCCallsDeep.cfg", workers=4, timeout=1500)
    n = 8 if c.quick else 32
    c.traces_of([("callnest", {"paths": p, "of": n, "shard": i, "seed": c.seed}, "CallsTrace.tla", None) for i in range(n)]
                + shards(8 if c.quick else 64, "callnest", {"count": 3000 if c.quick else 20000}, "CallsTrace.tla", seed=c.seed))
    return c.finish()


@check("X01")
def x01(c):
    c.build("asan", "shared")
    c.build("tsan", "shared")
    c.model("MCRegistry.tla", workers=4)
    p = c.paths("MCShared.tla", "MCShared.cfg" if c.quick else "MCSharedRich.cfg", "shared.paths")
    if not c.quick:
        c.model("MCShared.tla", "MCSharedDeep.cfg", workers=4, timeout=1500)
    n = 8 if c.quick else 32
    spec = "SharedTrace.tla"
    # several threads under ThreadSanitizer first: alone they interleave best
    c.traces_of(shards(4 if c.quick else 32, "shared@tsan", {"mode": "threads", "count": 12 if c.quick else 25}, spec, seed=c.seed)
                + shards(4 if c.quick else 32, "shared", {"mode": "threads", "count": 40 if c.quick else 80}, spec, seed=c.seed))
    c.traces_of([("shared", {"paths": p, "of": n, "shard": i, "seed": c.seed}, spec, None) for i in range(n)]
                + shards(8 if c.quick else 64, "shared", {"count": 25 if c.quick else 100}, spec, seed=c.seed))
    return c.finish(min_cover=["concurrent round", "create", "accel", "evict", "reload", "destroy"])


@check("X02")
def x02(c):
    c.build("asan", "crosstalk")
    c.build("tsan", "crosstalk")
    c.build("plain", "crosstalk")
    p = c.paths("MCMachines.tla", "MCMachines.cfg" if c.quick else "MCMachinesRich.cfg", "machines.paths")
    if not c.quick:
        c.model("MCMachines.tla", "MCMachinesDeep.cfg", workers=4, timeout=1500)
    n = 16 if c.quick else 32
    spec = "MachinesTrace.tla"
    c.traces_of(shards(4 if c.quick else 32, "crosstalk@tsan", {"mode": "threads", "count": 25 if c.quick else 50}, spec, seed=c.seed)
                + shards(4 if c.quick else 32, "crosstalk", {"mode": "threads", "count": 25 if c.quick else 50}, spec, seed=c.seed))
    c.traces_of([("crosstalk", {"paths": p, "of": n, "shard": i if not c.quick else (2 * i + c.seed) % n, "seed": c.seed}, spec, None) for i in range(8 if c.quick else n)]
                + shards(8 if c.quick else 64, "crosstalk", {"count": 30 if c.quick else 80}, spec, seed=c.seed)
                # without a sanitizer: freed addresses are used again at once
                + shards(4 if c.quick else 32, "crosstalk@plain", {"count": 60 if c.quick else 160}, spec, seed=c.seed + 100))
    return c.finish(min_cover=["concurrent", "others watched"])


TRUST = ("Trusted: the specification as a reading of the LoongArch manual, the driver's recording, TLC. Bounded by the generated "
         "programs and operands (counts in the evidence file), not exhaustive over 64-bit operands.")
T_ISA = "TLA+ ISA specification (LA64.tla); TLC validates traces recorded from the real engines"
NOTES = {
    "E01": (T_ISA, "Every integer instruction with weighted operands and register aliasing in three engines must match LA64 exactly (registers, memory, pc, count); the word arithmetic under it is itself model-checked (MCWord). " + TRUST),
    "E02": (T_ISA, "Every load, store, LL/SC and atomic at addresses inside and outside the arena, all three engines, whole-memory comparison. " + TRUST),
    "E03": (T_ISA, "Every branch kind over short and long offsets, link aliasing, long blocks, all three engines. " + TRUST),
    "E04": (T_ISA, "Every supported FP move, compare, select, classify over special bit patterns, all three engines. " + TRUST),
    "E05": (T_ISA, "Random whole programs (loops, branches, calls, memory, faults, blocks up to thousands of instructions) must end in the state the specification computes, in all three engines, and so must they, limited slices, system calls and faults under tail-call dispatch (a second build of the library, with clang). " + TRUST),
    "E06": (T_ISA, "Instruction counts of limited, stopped and resumed slices of one machine (blocks up to thousands of instructions, system calls that stop) equal the number of transitions the specification takes. " + TRUST),
    "E07": (T_ISA, "Each slice must end exactly where the specification's limit rule says and be reported as what it was; the next slice starts from that state, so every resume is judged against the uninterrupted semantics. " + TRUST),
    "E08": ("TLA+ specification of IEEE arithmetic (Float.tla, model-checked against laws by MCFloat) and of the instructions (LSX.tla); TLC validates traces recorded from the real engines",
            "Every scalar and vector floating-point instruction over special values, ties, subnormals, overflows, cancellations and NaNs, three engines, and straight lines mixing them: every result bit must be the correctly rounded one, computed by TLC on exact integers. " + TRUST),
    "E09": ("TLA+ specification of the vector instructions (LSX.tla); TLC validates traces recorded from the real engines",
            "Every implemented LSX and LASX instruction over weighted lanes, aliased registers and addresses around every edge, alone and in straight lines, three engines: all 32 vector registers, general registers, flags and memory must be what the specification defines (bits above a narrower write are left open). " + TRUST),
    "E10": ("TLA+ table of the instruction encodings (Isa.tla); TLC validates a map of all 2^22 instruction prefixes recorded from the real decoder and engines, and executions of words drawn from every encoding",
            "Exhaustive over the upper 22 bits of the instruction word in the stepping engine and (except jumps) the fast engine: every word of an instruction the table marks implemented must execute, every word of another known instruction must be reported; words the ISA reserves may do either. " + TRUST),
    "D01": ("TLA+ table of instruction texts (Disasm.tla over Isa.tla, model-checked by MCDisasm: complete, unambiguous, every operand bit visible); TLC validates texts recorded from the real disassembler",
            "The mnemonic of every upper-22-bit pattern (exhaustively), and for every instruction the texts at the corners of its encoding and random operands, at several addresses, through every way the library offers to disassemble; register names of register dumps. Aliases the assembler accepts are accepted. " + TRUST),
    "D02": (T_ISA, "Random programs (loops, memory, floating point, faults) run under DebugMachine in slices of any length, with counters left over from earlier runs: state, counter, reports and faults after each slice must be the specification's after as many transitions, and the lines printed must be the instructions it took, in order. " + TRUST),
    "D03": ("TLA+ specification of symbol attribution, backtraces and calls under the debugger (Backtrace.tla); TLC validates what the real library reported",
            "Generated executables with symbols of any size, overlap and name (mangled, broken, several thousand characters), stacks of any content and depth, unaligned and unreadable stack pointers, under AddressSanitizer: every entry, address, symbol and offset; calls under the debugger with budgets around their length: result, count, lines shown. " + TRUST),
    "C01": ("TLA+ specification of the command line emulator as a transition system over a program's operations (Emulator.tla, laws model-checked by MCEmulator); TLC validates what real runs of the emulator showed a shell",
            "Generated executables and command lines run with the emulator built from the tree (under AddressSanitizer): options in every spelling and order, guest arguments that look like options, fuels at and around the length of the run and its loops, both simulation modes, small and large memories, files that cannot be run: text, exit status, report, counts, fault addresses, statistics. " + TRUST),
    "M01": ("TLA+ memory specification (Memory.tla, model-checked by MCMemory) and LA64.tla; TLC validates traces of real accesses by guest, host and system calls",
            "Loads, stores, host accessors and emulated system calls at and around every region edge, with lengths that wrap or overflow, on machines with tiny arenas under AddressSanitizer: outcome, data and every byte of the arena and its page must be what Memory.tla says. " + TRUST),
    "M02": ("TLA+ memory specification (Memory.tla, model-checked by MCMemory); TLC validates traces of real host accesses",
            "Sequences of host accesses (scalar, copy, array, view, set, compare, string) replayed against the specification's memory, byte for byte. " + TRUST),
    "H03": ("TLA+ container specification (Containers.tla) and model of the host's algorithms on heap blocks (MCContainers, model-checked with every allocation failing); TLC's operation sequences are replayed on the library, and recorded histories validated by TLC",
            "Strings and vectors (C++ and Rust, nested, scoped and in guest memory) through every operation around the small-string and capacity limits, with ample, tight and full heaps: host view, guest-visible layout, string encoding, capacity, owned blocks and the heap's total after every operation; refused operations change nothing. " + TRUST),
    "M06": ("TLA+ specification of what a guest object's fields may show the host (Views.tla); TLC validates recorded host calls on hostile objects",
            "Strings and vectors of arbitrary content (pointers and sizes at every boundary, wrapping, overflowing, reversed) through every host operation under AddressSanitizer: refusals and contents of reading calls must be exactly those of Views.tla; mutating calls must leave read-only memory and the heap's accounts intact. " + TRUST),
    "S01": ("TLA+ specification of dispatch and argument conversion (Syscalls.tla) plus LA64.tla; TLC validates traces recorded at real handlers",
            "Handler tables changing over time (before the first machine, during a handler), sixteen typed signatures, throwing, stopping, redirecting and nesting handlers, all three engines and host-made calls, two machines: who was invoked with which registers, pc and argument values, and the complete state afterwards. " + TRUST),
    "S02": ("TLA+ specification of the Linux emulation (Linux.tla); TLC validates traces of real guest system calls",
            "Each emulated call with arguments around every buffer and range edge: result, every guest byte, captured output, host descriptors and a canary host file must be one of the behaviours the specification allows. " + TRUST),
    "S03": ("TLA+ scheduler specification (Threads.tla, model-checked by MCThreads); TLC's operation sequences are replayed on the real scheduler, and recorded histories validated by TLC",
            "Every transition of the bounded model (three threads, two words, all operations) and long random histories up to the thread limit, three engines: running thread, ready and blocked sets, every register, memory and results must be an outcome the specification allows, and no ready thread may be passed over for long. " + TRUST),
    "S04": ("TLA+ specification of signal actions and alternate stacks (Linux.tla, Threads.tla); TLC validates traces of real guest system calls",
            "Sequences of rt_sigaction, sigaltstack, kill and tgkill over all signal numbers without threads, on several guest threads, and while threads are created, switched, blocked and ended: reports, handler entry, stack pointer and memory must be the specification's. " + TRUST),
    "M03": ("TLA+ specification of the executable format (Elf.tla); TLC validates recorded loads",
            "Generated well-formed executables (segments, program header positions, sections, symbols, entry points, memory options): TLC parses the file itself and requires acceptance and exactly the described image, bounds, layout, symbols and a program that runs from its entry. " + TRUST),
    "M04": ("TLA+ specification of the executable format (Elf.tla); TLC validates recorded loads",
            "Every truncation and every boundary value of every field of a file, and random combinations: TLC parses the same bytes and requires refusal where the file is inconsistent and the described image wherever the loader accepts; exact-size buffers and guarded arenas under AddressSanitizer. " + TRUST),
    "M05": ("TLA+ specification of memory mapping (Mmap.tla, model-checked with its reference allocator by MCMmap); TLC's operation sequences are replayed on a real machine, and recorded histories validated by TLC",
            "Every transition of the bounded model and long random histories of guest and host mapping requests, every page of the arena compared after every operation. " + TRUST),
    "S05": ("TLA+ specification of the initial process stack (Elf.tla); TLC validates recorded stacks",
            "Random argument and environment lists on machines with small stacks: TLC walks the stack from the stack pointer as a program would and compares strings, lists, auxiliary vector, alignment and bounds. " + TRUST),
    "H01": ("TLA+ heap specification (Heap.tla, model-checked with the chunk-list algorithm by MCHeap); TLC's operation sequences are replayed on the real heap, and recorded histories validated by TLC",
            "Every transition of the bounded allocator model and long random histories of guest system calls, patched guest functions and host calls, with huge and overflowing sizes, pointers that are not live, chunk limits: placement, contents, every byte of heap and surroundings, and accounting after every operation. " + TRUST),
    "H02": ("TLA+ specification of the C memory and string functions (CLib.tla, model-checked against the standard's definitions by MCCLib); TLC validates recorded calls of the accelerated routines",
            "Every call with every argument on arenas of a few bytes, random calls on tiny arenas, and patched functions called by guest code and by the host in executables, with long strings, embedded terminators, high bytes, overlap and ranges that leave memory or wrap: result, memory, preserved registers, continuation, and faults exactly when a needed byte is outside. " + TRUST),
    "V01": ("TLA+ specification of the calling convention (CallArgs.tla, against step-by-step marshalling in MCCallArgs); TLC validates what called guest functions recorded at entry",
            "Sixty-four signatures of up to seventeen arguments drawn from integers of every width, enumerations, floats, strings, structures, arrays, string objects and scoped objects, through every calling function: registers, stack words, copies, alignment, overlap, return address, memory elsewhere and the result must be exactly the specification's. " + TRUST),
    "V02": ("TLA+ specification of bounded and nested calls (Calls.tla) and model of the save/restore machine refining it (MCCalls); TLC's scripts are replayed on real machines, and recorded calls validated by TLC",
            "Functions with known instruction counts called with every budget around their transfers, nested up to eight deep by scripts of handlers that call, catch, propagate, stop and fault: outcome, result, every register, counter, limit and the interrupted stack must be the specification's. " + TRUST),
    "X01": ("TLA+ model of the registry of decoded code step by step (MCRegistry, several threads) and of machines sharing it (Shared.tla, MCShared); TLC's histories are replayed on real machines, and recorded histories, also of concurrent threads, validated by TLC",
            "Near-identical programs with equal checksums, in-place patching, eviction, reloading and release, one machine after the other and on several threads under AddressSanitizer and ThreadSanitizer: which machines share code, what each runs, and that nothing outlives its last user. " + TRUST),
    "X02": ("TLA+ specification of several machines as the product of machines alone (Machines.tla) and model of how they share decoded code (MCMachines); TLC's interleavings are replayed on real machines, and recorded histories, also of concurrent threads, validated by TLC",
            "Two to four machines with equal or different programs, each following its own operations (runs, slices, calls, patching, heaps, faults, system calls, eviction, destruction, disassembly), interleaved on one thread or concurrent under ThreadSanitizer: after each operation every machine's registers, memory, counters and result must be those of the same operations followed alone in a process of their own. " + TRUST),
    "X03": (T_ISA, "Every fault kind at every position of a block in all engines: type, data, state before the fault; afterwards the machine is redirected and must follow the specification again. " + TRUST),
}
NA = {}
