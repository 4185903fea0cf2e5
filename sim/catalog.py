"""What each check runs: binary, number of runs per tier, and the facts its evidence reports."""

INTERPRETER = ["scanner, parser, type checks, optimiser, syntax tree interpreter", "memory management and object model",
               "native extension functions", "main() of slang"]
LIBC = ["system call layer of libc (files, sockets, clock, terminal, environment, processes): simulated in process"]

LANG_RULE = ("Each run draws a script (functions, methods, loops, handlers, objects) and the outcome of every native call "
             "(value or failure) from the seed, and compares each effect of the real interpreter with a reference interpreter. ")
LANG_NOTE = "seeded exploration of generated programs and native-call outcomes against a reference interpreter; no exhaustiveness claimed"
LANG_MEASURE = "hash over the sequence of native calls with their outcomes and of exceptions raised and handled"


def lang(quick, thorough):
    return {"binary": "sim_slang", "quick": quick, "thorough": thorough, "level": "exploration", "note": LANG_NOTE, "rule": LANG_RULE,
            "measure": LANG_MEASURE, "real": INTERPRETER, "stub": LIBC,
            "assumptions": ["programs stay within the constructs listed in DESIGN.md (no cyclic object graphs among objects with destructors)"]}


def files(quick, thorough, rule):
    return {"binary": "sim_slang", "quick": quick, "thorough": thorough, "level": "exploration",
            "note": "seeded exploration of generated scripts and disk faults against a model of the files; no exhaustiveness claimed",
            "rule": rule, "measure": "hash over the sequence of simulated calls, injected faults and script results",
            "real": INTERPRETER + ["library class System.IO.File", "stdio of libc above the system calls"], "stub": LIBC,
            "assumptions": ["no relative seek or tell on streams opened for both reading and writing (limit of the stream stand-in)"]}


def ops(quick, thorough, rule, model, real=()):
    return {"binary": "sim_slang", "quick": quick, "thorough": thorough, "level": "exploration",
            "note": "seeded exploration of generated scripts and environment faults against " + model + "; no exhaustiveness claimed",
            "rule": rule, "measure": "hash over the sequence of simulated calls, injected faults and script results",
            "real": INTERPRETER + list(real), "stub": LIBC, "assumptions": []}


def debug(quick, thorough, rule, model, assumptions=()):
    return {"binary": "sim_dbg", "quick": quick, "thorough": thorough, "level": "exploration",
            "note": "seeded exploration of generated programs, native-call outcomes and command sequences against " + model + "; no exhaustiveness claimed",
            "rule": rule, "measure": "hash over the sequence of commands, stops, native calls with their outcomes and injected faults",
            "real": INTERPRETER[:-1] + ["debugger core", "local client of slang-dbg", "main() of slang-dbg"], "stub": LIBC,
            "assumptions": list(assumptions)}


def package(quick, thorough, rule, model, assumptions=()):
    return {"binary": "sim_pkg", "quick": quick, "thorough": thorough, "level": "exploration",
            "note": "seeded exploration of repositories, libraries, command histories and faults against " + model + "; no exhaustiveness claimed",
            "rule": rule, "measure": "hash over the sequence of simulated calls, injected faults and exit statuses",
            "real": ["main() and application of slang-pkg", "repository, module and dependency handling", "JSON library"],
            "stub": LIBC + ["libcurl: simulated servers", "shell with tar, rm, cp, addLink.sh and removeLinks.sh: small stand-in on the simulated disk"],
            "assumptions": ["a killed process loses nothing the system had accepted (crash of the process, not of the machine)"] + list(assumptions)}


NET = ["library classes System.Network.ClientSocket and ServerSocket"]

PROPS = {
    "E01": lang(14000, 250000),
    "E02": lang(14000, 250000),
    "E03": lang(14000, 250000),
    "E04": lang(14000, 250000),
    "E05": lang(10000, 200000),
    "E06": lang(14000, 250000),
    "F01": files(5000, 120000, "Each run draws a script of file operations over four native handles and two file objects, buffer sizes, and read, seek and open faults; each result is compared with a model of the file contents. "),
    "F02": files(5000, 120000, "Each run draws a script of file operations over four native handles and two file objects, buffer sizes, and write, close, disk-full and seek faults; after each successful flush or close the simulated disk is compared with the model. "),
    "F03": files(5000, 120000, "Each run draws a script that opens, closes and uses valid and invalid handles under open and close faults and descriptor limits; each file has its own alphabet so a byte in the wrong file is recognised. "),
    "C01": ops(10000, 200000, "Each run draws commands with their output and status, how the pipe splits the output, and failures to start them or to read from the pipe; each result of system() is compared with what the command wrote. ", "the recorded output of each command"),
    "N01": ops(10000, 200000, "Each run draws up to four connections (native handles, client and server objects), the bytes their peers send, and a script of typed reads and writes; splits, interruptions, resets, orderly ends and full failures are drawn per transfer. ", "the byte streams of both ends", NET),
    "N02": ops(9000, 200000, "Each run draws a sequence of set-up, data and close operations on native handles, client and server objects with failures at any of them; each result is compared with the system calls actually made. ", "a record of the socket calls", NET),
    "O01": ops(9000, 200000, "Each run draws a script mixing all output functions, buffering, the sizes in which the system accepts output, and the way the script ends; the bytes arriving at descriptors 1 and 2 are compared with what was written. ", "the text written"),
    "P01": ops(10000, 200000, "Each run draws a sequence of setenv, putenv and getenv calls with other work in between and refused sets; each value read, and the final environment, is compared with a map. ", "a map of the environment"),
    "T01": ops(10000, 200000, "Each run draws a sequence of sleeps and time reads, interruptions, delays and clock changes; each operation is compared with the simulated clock. ", "the simulated clock"),
    "I01": ops(8000, 200000, "Each run draws an import graph over several folders, the file sizes, how reads are split, missing files, and failures to open or read any of them; the program may only start if each file was read to its end, and must then do what the files say. ", "the content of the files"),
    "X01": ops(5000, 120000, "Each run draws a script that forks, waits and works on its variables, the scheduling of all processes at each simulated call, failing forks, interrupted waits and killed children; each process is compared with its own model. ", "one model per process and a table of processes"),
    "V01": ops(3000, 60000, "Each run draws two to five scripts (programs of the E checks, possibly run several times in their machine, programs that do not load, scripts leaving files open or the console redirected) and runs them one after the other, each in its own virtual machine of one process; each is compared with the same script run alone in a fresh process. ", "the same scripts run alone"),
    "F04": files(6000, 120000, "Half of the runs are programs of E03 whose objects own a file, compared with the lifetimes the reference predicts; the others are functions left in every way under arbitrary disk faults, where nothing may be open between two calls. "),
    "F05": ops(14000, 300000, "Each run draws a set of files and directories and a sequence of rename, remove, create, existence and temporary-file calls, any of which the system may refuse; after each call the whole simulated disk is compared with a map. ", "a map of the disk", ["library class System.IO.File"]),
    "L01": ops(12000, 250000, "Each run draws the bytes arriving at standard input, how they arrive in pieces and where they end, and a mix of input functions; each result is compared with the next bytes. ", "the bytes sent"),
    "M01": ops(12000, 250000, "Each run draws the settings of the terminal, the keys and when they are pressed, a mix of mode changes, key reads and pauses, and the way the script ends; each key read is compared with the keys pressed by then, and the settings at the end with those at the start. ", "the keys pressed so far and the settings found at the start"),
    "S01": {"binary": "sim_app", "quick": 8000, "thorough": 150000, "level": "exploration",
            "note": "seeded exploration of services, requests, schedules and faults against one expected answer per request; no exhaustiveness claimed",
            "rule": "Each run draws services and a history of requests over kept connections, the schedule of server and workers at each simulated call, failing forks, interrupted waits, killed workers and failing scripts; each request must get exactly the answer of its own script on its own data. ",
            "measure": "hash over the sequence of simulated calls, schedules, injected faults and answers",
            "real": ["main() and application of slang-app", "services", "interpreter with native extensions"],
            "stub": LIBC + ["libfcgi: simulated web server following the library's rules for requests and connections"],
            "assumptions": ["a worker is not killed after it has completed its answer"]},
    "D01": debug(6000, 120000, "Each run draws a program of the E checks, the outcome of its native calls, and a session of stepping, inspecting and breakpoint commands; each effect of the debugged program is compared with the reference interpreter. ", "the reference interpreter of the E checks",
                 ["commands that change the program on purpose (modify, execute) are not used"]),
    "D02": debug(6000, 120000, "Each run draws a program, native-call outcomes, breakpoints (some with conditions), watches and a session of stepping commands; each stop (in some runs also at exceptions) and each value shown is compared with the statements the reference interpreter executes. ", "the statement trace of the reference interpreter",
                 ["statements with a body (if, loops, switch, try, blocks) may be stopped at while stepping over, breakpoints are set on other statements",
                  "conditions compare a variable with a literal that is not negative"]),
    "D04": debug(9000, 150000, "Each run draws a program, native-call outcomes, a session of stepping commands, and variables to be modified at some of the statements reached; the modification is made in the debugger and, as an assignment, in the reference interpreter, whose effects the debugged program has to match, in each of up to three runs of one session. ", "the reference interpreter of the E checks with the modifications as assignments",
                 ["variables of type int are modified: local, global and member ones, in the frame the program is stopped in"]),
    "D03": debug(6000, 120000, "Each run draws a program and a session, and ends the input or gives quit at some prompt, possibly in the middle of a command; afterwards the program may not go on and the debugger has to end within 200 reads. ", "the end of the session",
                 ["the remote client is only driven with lines it does not understand: its responses are an unfinished prototype"]),
    "K01": package(7000, 250000, "Each run draws a repository, an installed library and one to five package commands; transfers fail, are cut short or answered with errors, packages are damaged, unpacking, disk calls and the process itself fail at drawn points. ", "the state of the library before each command and the packages published",
                   ["unpacking that fails half-way for lack of disk space may leave the module it was unpacking incomplete, if the command reports it"]),
    "K02": package(7000, 250000, "Each run draws a library and one to five commands with failing or interrupted disk calls, full disks and kills before drawn state changes; configuration and cached index are compared with their old and new content. ", "the old and the new content of configuration and index"),
    "K03": package(7000, 250000, "Each run draws a repository (versions, dependencies with limits, cycles, missing modules, damaged data), restrictions, an installed library and one to five commands; success, failure and the resulting modules are compared with a reference resolution. ", "a reference resolution of dependencies",
                   ["dependencies are wanted in their minimum version, or the one of the index if none is given, as the program documents by its behaviour", "versions have no labels"]),
    "K04": package(7000, 250000, "Each run draws a library whose modules and path may have names special to a shell, and one to five removals with failing disk calls and kills; every file outside the named modules is compared with its content before. ", "the files of the named modules"),
    "K05": package(7000, 250000, "Each run draws module sources and up to five push or create commands with failing copies, archivers, connections and refused or cut uploads; success is compared with what the server received. ", "the files received by the server"),
}

PURE = "pure function of its input: no time, concurrency, I/O or failure it could depend on, so there is nothing for a simulator to schedule or inject; "
NOT_APPLICABLE = {
    "A01": PURE + "belongs to static checking and generated negative tests",
    "A02": PURE + "belongs to grammar-based testing",
    "A03": PURE + "belongs to value-level testing or proof",
    "A04": PURE + "belongs to model-based unit testing",
    "A05": PURE + "belongs to exhaustive comparison of small versions",
    "A06": PURE + "belongs to round-trip property testing",
}

SOURCE_COMMITS = []
