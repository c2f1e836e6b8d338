"""What the evidence says about each check: how cases are made, what counts as distinct, what is assumed."""

COMMON = [
    "Simulated processes run the real code of /repo's working tree; file contents live on tmpfs, and every open, read, write, close, listing, creation, removal, renaming and accelerated copy below the scratch root is a scheduled step of the simulated disk",
    "stat-type calls (exists, isfile, isdir, realpath) fail only in some runs of C03, and as the simulated permissions demand; the process is killed only between I/O operations or inside a write or copy",
    "sampling of seeded runs: a clean batch is evidence, not proof",
]
DISTINCT = "distinct by (project, complete sequence of I/O operations with the faults that fired and how the process ended)"


def m(rule, *assumptions, **k):
    return dict({"rule": rule, "level": "exploration", "assumptions": list(assumptions) + COMMON}, **k)


META = {
    "C01": m("each run: a generated project, one of 26 relations between input and output path, then 4 to 7 executions, fault-free, killed at a point, interrupted, or with 1 to 3 I/O faults, half of them followed by another run; " + DISTINCT),
    "C02": m("each run: a generated project, one of 10 ways to name the output (also below a file, over a file, through the command line), files that already lie in and around the output, then 4 to 6 executions, fault-free, killed, interrupted or with I/O faults; the whole disk and all mutating calls (audit hook) are compared; " + DISTINCT,
             "temporary files below TMPDIR do not count; a killed single-file run may leave a temporary file beside its output"),
    "C03": m("each run: the fault-free conversion of a generated project as the reference, then 8 to 12 executions with unusual but legal I/O, 1 to 4 faults placed in the recorded trace, a damaged or unreadable source, or something of another kind in the place of an output; " + DISTINCT),
    "C04": m("each run: the reference, then 5 to 7 histories of 1 to 3 attempts (killed, failed, completed, on another version of the sources, with power loss that truncates, empties, zeroes or drops written files, future or past output times, damaged outputs, outputs alike but for one byte, files that were directories), each followed by a fault-free run that must give the reference; distinct by (project, traces of the attempts)",
             "the power loss model damages any file that was written in the killed run, since the code never syncs"),
    "C05": m("each run: the reference, then 6 to 8 executions with other listing order, hash seed (3), clock and calendar, locale encoding, environment, identity (process, user, host, processors), entropy, umask, timestamps, inode order, place of the project, working directory, formatter settings found there, buffer sizes and short reads and writes; distinct by (project, environment, trace)",
             "the installed library versions are not varied"),
    "C06": m("each run: 2 or 3 projects, 3 or 4 histories of 1 to 5 conversions in one process (fault-free, failing on I/O, interrupted, with broken sources, to the same or other paths, repeated after a failure and edits), then a probe that is compared with the same probe in a fresh process; distinct by (projects, history)"),
    "C07": m("each run: 2 or 3 projects converted alone, then 4 to 6 times together in threads under a seeded scheduler that can switch between any two lines of PaConvert code, one thread at a time; some with an I/O fault in one thread; distinct by (projects, list of switches), at least one switch",
             "a switch happens at the start of a line of PaConvert code, at a lock or at the end of a thread, not inside a line or a library"),
    "C08": m("each run: a generated project with all tables on: sums of the result, summary, rate, exported and printed tables; each file alone; then 3 executions with other listing orders, formatter failures, failing log, or earlier conversions; distinct by (project, variant), at least one API",
             "the exported tables are those handed to the spreadsheet library, which is a stub"),
    "C09": m("each run: a generated tree with hidden, excluded, linked, binary and oddly named entries, then 3 or 4 executions with an exclude pattern, listing order, path form and output form, compared with an independent model of the selection; distinct by (tree, variant)",
             "text of converted files is judged by other checks; here only that they were converted at all"),
    "C10": m("each run: a generated project in one of 15 shapes (output inside the input, link cycles, repeated runs, growing size), run 1 to 4 times with an operation budget; outputs must not change from run to run; distinct by (project, shape, trace)"),
    "C11": m("each run: every file of a project rich in helpers converted on its own gives the helpers it needs; then the whole project twice with other listing orders, after failed or completed conversions, over stale helper files; distinct by (project, variant), at least one helper needed"),
    "C12": m("each run: 3 to 24 files converted together and each alone (the others excluded), then together under permuted names; distinct by (file, siblings)"),
    "C13": m("each run: the reference with working formatters and without formatting, then 4 or 5 executions with failing formatter or sorter calls of 10 exception types; distinct by (project, failures), at least one failure fired"),
    "C14": m("each run: two projects, then 10 to 14 executions interrupted at a seeded line of PaConvert code, I/O operation or formatter call, followed in the same process by a conversion that is compared with one in a fresh process; distinct by (project, place of the interrupt)",
             "interrupts arrive at the start of a line (not at with or try headers or in cleanup, where CPython delivers none before the cleanup starts)"),
    "C15": m("each run: three versions of a project and their conversions, then 5 to 7 executions during which another program replaces, deletes or adds files between I/O operations; distinct by (project, edits, trace), at least one edit made",
             "the other program replaces files atomically"),
    "C16": m("each run: the reference without diagnostics, then 6 to 8 executions with seeded logging and reporting options, clock behaviours, failing log files, error streams and spreadsheet library; distinct by (project, variant)"),
    "C17": m("each run: 8 to 10 processes of 1 to 6 conversions with 0 to 2 I/O faults or a damaged source; open simulated files and real descriptors are counted after each; distinct by (project, trace)"),
}
