"""Technique and assurance of each check (text of MANIFEST.json)."""
LT = "TLA+ trace validation (TLC) of recorded multi-process lock histories against spec/LockTrace.tla"
MC = "; transition cover of spec/LockModel.tla (exhaustively checked) replayed on the code"
SC = "; executions of the real threads under a deterministic scheduler (random, PCT and systematic preemptions) validated by the same specification"
COMMON = ("Bounded: TLC decides every recorded execution of the real code against the specification; "
          "executions are random/enumerated, not all. Trusts the Linux kernel's fcntl locks as ground truth.")
NOTES = {p: (LT + MC + SC, COMMON) for p in ("C01", "C02", "C03", "C04")}
NOTES["C05"] = ("TLA+ trace validation (TLC) of scheduled executions with virtual time against spec/LockTrace.tla, and "
                "of uses of the process-wide options against spec/OptTrace.tla", COMMON)
NOTES["C06"] = (LT, COMMON)
NOTES["C07"] = (LT + SC, COMMON)
ST = ("TLA+ trace validation (TLC) of recorded stream executions (several streams per file, foreign writers, observed "
      "intermediate states, injected faults) against spec/StreamTrace.tla + spec/RsFile.tla")
for p in ("C08", "C10", "C11", "C12", "C16", "C18"):
    NOTES[p] = (ST, COMMON)
LI = ("TLA+ trace validation (TLC): every concurrent history recorded under a deterministic scheduler (random, PCT, systematic "
      "preemptions) and from real processes must have a linearization in spec/LinTrace.tla")
NOTES["C13"] = (LI, COMMON)
NOTES["C15"] = (LI + "; sequences of helpers with all their arguments validated by spec/HelperTrace.tla", COMMON)
NOTES["C17"] = (LT + " (files with several names, two file systems having the same inode numbers, files moved meanwhile); " + ST, COMMON)
NOTES["C12"] = (ST + "; " + LI, COMMON)
NOTES["C09"] = ("TLA+ specification spec/OpenModes.tla (all modes, kinds of paths and arguments explored by TLC, documented guarantees "
                "checked as action properties in OpenModel); all flag sets executed on the real code and every opening validated by "
                "spec/OpenTrace.tla", COMMON)
NOTES["C18"] = (ST + "; openings through the standard and through the patched functions, with the same arguments, validated by the same "
                "spec/OpenTrace.tla", COMMON)
NOTES["C14"] = ("TLA+ model of buffers, page cache and device (spec/Durability.tla, exhaustive, with mutants that must fail); every "
                "recorded sync/write/close with its system calls and injected faults validated by spec/DurTrace.tla", COMMON)
NOTES["C19"] = ("TLA+ trace validation (TLC) of recorded uses of pipes, fifos, sockets and devices (blocking or not, short transfers, "
                "several streams, real threads) against spec/PipeTrace.tla", COMMON)
NOTES["C20"] = ("TLA+ trace validation (TLC) of the Windows streams of both backends executed over a simulated Win32 kernel, against the same "
                "specifications as the native streams (LockTrace, StreamTrace, LinTrace, OpenTrace)",
                COMMON.replace("Trusts the Linux kernel's fcntl locks as ground truth.",
                               "Trusts harness/winsim.py, a simulation of the documented Win32 calls, as ground truth: nothing runs on a real Windows."))
NOT_APPLICABLE = {}
