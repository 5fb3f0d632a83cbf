#!/usr/bin/python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
MC_RUN = ("stateless model checking of the real runner under a controlled scheduler (all interleavings, "
          "state merging by happens-before history)")
W = ("explicit-state model of the definition grammar (minimal automaton of an independent description), bound to the real parser by a "
     "W-method conformance suite over every state and byte, plus bounded enumeration of edited and composed definitions")
WN = ("Equivalence for parsers with at most a few states more than the model (the suite's bound) and for every enumerated definition; "
      "names in quotes or with a schema are outside the supported form.")
CLAIM = {
 "C01": (MC_RUN + ", plus all completion histories of the scheduler", "model_checking",
         "Every interleaving of every runbook within the bound is executed on the real code; larger runbooks and data races inside a step are not covered."),
 "C02": (MC_RUN + " with deadlock, livelock and panic detection", "model_checking",
         "Every interleaving within the bound; a run without an enabled operation is a deadlock. Tasks are assumed to end."),
 "C03": (MC_RUN + ", valid and invalid dependency relations", "model_checking",
         "Every interleaving within the bound, every dependency relation up to three tasks including circular and dangling ones."),
 "C04": (MC_RUN + ", plus all completion histories of the scheduler", "model_checking",
         "Every interleaving and every completion order within the bound."),
 "C05": (MC_RUN + " with failing starts injected", "model_checking",
         "Every interleaving within the bound, every set of targets that fail to start, target start orders up to the deviation bound."),
 "C06": (MC_RUN + ", maximality checked in every quiescent state; all completion histories of the scheduler", "model_checking",
         "Every quiescent state of every interleaving and every completion order within the bound."),
 "C07": ("explicit-state enumeration: every directed graph up to a size bound and every reachable state of the edit operations, executed on the real code under both map orders", "model_checking",
         "Every graph and edit state within the bound; larger graphs are not covered."),
 "C19": (W, "model_checking", WN), "C20": (W, "model_checking", WN), "C21": (W, "model_checking", WN),
 "C22": (W + "; the place shown for every rejected text", "model_checking", WN),
 "C18": ("exhaustive enumeration of a bounded space of descriptions (every place times an alphabet of values, pairs within a block, block counts, damaged texts), each written, read and written again by the real code", "model_checking",
         "Every description of the space; larger combinations of awkward values are not covered."),
 "C23": ("exhaustive enumeration of a bounded space of descriptions; the SQL generated by the real code is read by an independent lexer and compared token by token with the description", "model_checking",
         "Every description of the space; types, defaults and expressions are taken as SQL text."),
 "C08": ("explicit-state enumeration of runbook documents (every place of a document times an alphabet of contents, all single and double changes), each loaded by the real code and compared with an independent reading", "model_checking",
         "Every document of the space; JSON evaluated by go-jsonnet, whose own language is only sampled by a list of forms."),
 "C09": ("exhaustive enumeration of bounded configurations (inherited variables times target filter times task filter), each started as a real process by the real code; the environment it received is compared with a reference filter", "model_checking",
         "Every configuration of a small alphabet of names and values."),
 "C10": ("explicit-state enumeration of program spellings, directories, arguments and ways of ending, each executed by the real code as a harmless command in a scratch directory", "model_checking",
         "Every spelling up to the length bound; signals and exit codes by enumeration of all values."),
 "C11": ("exhaustive enumeration of a bounded space of runbooks (graphs times awkward names), rendered by the real commands and read back by independent readers of the list, of DOT and of JSON", "model_checking",
         "Every runbook of the space; the meaning of DOT is an own reader's, graphviz is not available here."),
 "C12": ("exhaustive fault enumeration: every command line with a writer that fails at every byte and at every call, and full devices", "fault_enumeration",
         "Every failure point of every command line of a list; the closing of files is not observed."),
 "C24": ("explicit-state model checking of the real queue code under a controlled scheduler (all interleavings, with state merging) for bounded batches, limits and clients", "model_checking",
         "Every schedule of every configuration within the bounds; iteration order of maps deviates at most once per run."),
 "C25": ("explicit-state enumeration of task set documents (every place of a document times an alphabet of contents, all single and double changes; every truncation and insertion), each loaded by the real code and compared with an independent reading", "model_checking",
         "Every document of the space; HCL itself is a dependency."),
 "C26": ("stateless model checking of the real tasks (all schedules with a point before every statement and inside every store, up to a preemption bound), and exhaustive enumeration of task sequences and short texts", "model_checking",
         "Up to three concurrent tasks and two preemptions; every sequence up to the depth on every short text, and every Unicode character."),
 "C27": ("exhaustive enumeration of message sequences (all severities and call styles up to a depth) times verbosities times pairs of outputs, executed on the real logger and read back from its outputs", "model_checking",
         "Every sequence up to the depth; concurrent logging is not covered."),
 "C28": ("exhaustive enumeration of command lines from a grammar (every option, spelling, order and position up to a bound, and every single mistake of a list), each parsed and executed by the real code against protocol servers; what it selected is read from its connections, files and output", "model_checking",
         "Every line of the bounded grammar; the argument parser library is a dependency; help and completion are not covered."),
 "C29": ("stateless model checking of the real runner over the real driver: a server under the harness's control answers the statements in every order and with every outcome, over all small graphs; exhaustive enumeration of settings and statements", "model_checking",
         "Every order of answers of every configuration of the space; between two answers the program runs freely (its own interleavings are C01 to C06)."),
 "C30": ("exhaustive enumeration of command lines from a bounded grammar and of failing worlds, each executed as a real process whose exit status is compared with a model of what was asked", "model_checking",
         "Every line and every failure of the lists."),
 "C31": (MC_RUN + ", tasks with and without messages; the logger is the monitor", "model_checking",
         "Every interleaving within the bound; messages as the runner hands them to its logger (C27 is about what the logger does)."),
 "C32": ("exhaustive enumeration of commands times password sources times passwords times verbosities times TLS modes times server behaviours and faults, each executed as a real process; everything it writes is searched for the password in a list of encodings", "model_checking",
         "Every combination of the lists; encodings that are not listed would not be noticed."),
 "C13": ("exhaustive enumeration of the outcome sequences of connection attempts (every sequence up to the retry bound) and of every combination of option and environment sources, executed on the real code against a protocol server under a virtual clock", "model_checking",
         "Every outcome sequence and parameter source within the bound; name resolution and real network timing are not covered."),
 "C14": ("exhaustive enumeration of client configurations (mode, password and host sources) times server behaviours (certificates, refusals, faults), each executed on the real code over real TLS; a monitor on the wire", "model_checking",
         "Every combination of the space; the driver's own behaviour outside of it (client certificates, unix sockets) is not covered."),
 "C15": ("exhaustive fault enumeration: every point of the server's conversation times every fault kind, and every unreadable definition, on the real code against a protocol server that answers the real catalog queries", "fault_enumeration",
         "Every fault point of every catalog of the space, one fault per run."),
 "C16": ("exhaustive enumeration of a bounded space of catalogs, served by a protocol server with an evaluator of the catalog queries; the real inspection's result is compared with an independent reading of the catalog", "model_checking",
         "Every catalog of the space; the server is a model of PostgreSQL's catalogs, bound to the code by evaluating the SQL it sends."),
 "C33": ("exhaustive enumeration of the pairs of questions about every table and name of a bounded set of catalogs, in sequence on one connection, and of an error or an unreadable definition at every place of every answer before every other question; executed on the real code and driver against a protocol server with an evaluator of the queries", "model_checking",
         "Every pair of questions and every fault point of the catalogs; the server is a model of PostgreSQL's catalogs."),
 "C34": ("exhaustive enumeration of commands times runbooks times names times kinds of output files times faults of the server, each executed as a real process in a directory that is compared before and after with what may change", "fault_enumeration",
         "Every combination of the space; a fault while the output itself is written is C12's."),
 "C35": ("exhaustive enumeration of what tasks write (an alphabet of texts), chains of tasks, their ends, verbosities and the ways to start the program, each executed as a real process whose standard streams are compared with a model of the run", "model_checking",
         "Every run of the space; interleavings of what concurrent programs write are left to the operating system."),
 "C17": ("exhaustive enumeration of catalogs and of the orders in which the server returns rows, times every sorting option, on the real code", "model_checking",
         "Every catalog and row order of the space."),
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        t, lvl, note = CLAIM[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                       "technique": t, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./check setup",
     "checks": checks, "not_applicable": na,
     "notes": "Harnesses are placed into /repo's module by build overlays; /repo carries no hooks. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
