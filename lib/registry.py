"""Which engines decide which property."""
import cases, hist

HIST_T = "property-based testing: model-based stateful histories against the real allocator, shrinking"
HIST_N = ("Generated operation histories run against /repo's code next to an executable model of the documented behaviour, in several build configurations; "
          "assurance is that of the sampled histories. Trusts the kernel and the link-time interposition of system calls.")
ENUM_N = "Every (operation, system call) position of generated histories is made to fail in turn (sampled above a cap); histories themselves are sampled. " + "Trusts the link-time interposition of system calls."
CLAIMS = {p: (HIST_T, "exploration", HIST_N) for p in hist.PLAN}
for p in ("C26", "C27"):
    CLAIMS[p] = ("property-based testing: exhaustive fault injection over generated histories, model oracle, shrinking", "fault_enumeration", ENUM_N)
CLAIMS["C25"] = ("property-based testing: differential against a reference ChaCha8, exhaustive draw counting, fault injection", "exploration", "Sampled request patterns and OS streams against an independent reference; every 16-bit draw of each sampled bound is counted. Trusts the reference implementation (checked against the RFC structure) and link-time interposition.")
CLAIMS["C32"] = ("property-based testing: generated operator sequences with scripted handlers and injected exhaustion", "exploration", "Sampled sequences over all operator forms, run against the objects built from new.cc with the operators renamed. Trusts objcopy renaming and the interposition of system calls.")
SCHED_N = "Real threads serialised by an owned, recorded schedule; every lock, unlock, atomic, system call and instrumented memory access of the allocator is a scheduling point and happens-before races are detected with vector clocks. Sequentially consistent executions only; schedules and programs are sampled."
SCHED_T = "property-based testing: generated programs under generated schedules, race/deadlock/model oracle, shrinking"
for p in ("C29", "C37"):
    CLAIMS[p] = (SCHED_T, "exploration", SCHED_N)
CLAIMS["C22"] = ("property-based testing: generated histories, invariant scans of memory, globals and mappings after them, shrinking", "exploration", "Pointers are recognised as 8-byte aligned words; encoded pointers are not. The allocator's globals are told apart by renaming their sections in the objects of /repo's build.")
CLAIMS["C24"] = ("property-based testing: generated sampling campaigns over differently seeded processes, chi-square tests against the documented distributions, exact-range and distinctness oracles", "exploration", "getrandom is replaced by independent streams per sample process; a bias below the resolution of the sample sizes is not seen (exact uniformity of the bounded draws is C25's).")
CLAIMS["C33"] = ("property-based testing: generated mixed-entry-point histories in a process using the shipped libraries, model oracle; differential runs of generated programs, shrinking", "exploration", "Programs are sampled from the tools installed here; outputs are compared with the same run without the library.")
CLAIMS["C34"] = ("property-based testing: generated histories under an emulated tagging instruction set with an adversarial random-tag instruction, shadow-tag oracle, shrinking", "exploration", "The tagging paths are compiled for this machine with arm_mte.h replaced through its include guard; PROT_MTE is tracked through the interposed mmap. Hardware behaviour is the emulation's; histories are sampled. arm_mte.h itself is cross-compiled for AArch64 and its machine code executed by an interpreter on generated ranges and cache-line sizes.")
NOT_APPLICABLE = {}

def run(ck):
    ck.level = CLAIMS[ck.prop][1]
    if ck.prop in hist.PLAN:
        hist.run(ck)
    if ck.prop in cases.PLAN:
        cases.run(ck)
    if ck.prop == "C33":
        import progs
        progs.run(ck)
        import preload
        preload.run(ck)
    if ck.prop == "C34":
        import armmte
        armmte.run(ck)

def replay(prop, path):
    head = open(path).read(4000)
    if '"engine": "progs"' in head:
        import progs
        return progs.replay(path)
    if '"engine": "preload"' in head:
        import preload
        return preload.replay(path)
    if '"engine": "armmte"' in head:
        import armmte
        return armmte.replay(path)
    if "engine hist" in head:
        return hist.replay(path)
    return cases.replay(path)
