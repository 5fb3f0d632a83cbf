#!/usr/bin/python3
"""Writes known_findings.json. The sigs of known findings are kept in
findings/<id>.sigs, one per line; this is run by hand, never by a check."""
import json, os, subprocess
H = os.path.dirname(os.path.abspath(__file__))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
def commit(key):
    m = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix:") and key in l]
    assert len(m) == 1, (key, m)
    return m[0]
F = []
def fixed(props, key, what):
    c = commit(key)
    for p in props.split():
        F.append({"property": p, "id": "F-" + c, "status": "fixed", "commit": c,
                  "what": "fixed: property=%s %s %s" % (p, c, what)})
def known(prop, id, what):
    sigs = open(os.path.join(H, "findings", id + ".sigs")).read().splitlines()
    F.append({"property": prop, "id": id, "status": "known", "what": what, "sigs": sigs})
fixed("C06 C02", "release every ready", "dag.Next removed elements from the slice it was ranging over, so a completion could skip ready tasks")
fixed("C07 C02", "empty string", "a task whose ID is the empty string was never released, and cycles through it were missed")
fixed("C03 C02", "circular and unknown", "circular or dangling dependencies were not reported by a run")
fixed("C02", "when there are no tasks", "a run without tasks never ended")
fixed("C02 C05", "busy or failed target", "the router blocked for ever on a target that was busy or had failed")
fixed("C05 C02", "can't be started", "a target that could not be started deadlocked or leaked the rest of the run")
fixed("C22", "show the place", "the state number of the parser was shown as the place of the error; errors on a line break were shown on the wrong line")
fixed("C19", "at the end of a constraint", "a constraint that ends in DEFERRABLE was rejected")
fixed("C19", "inside of a check", 'a check whose expression contains ") DEFERRABLE" and the like was read as deferrable')
fixed("C20", "order of an index key", "DESC and ASC were read as operator classes")
fixed("C20", "in the literals", "white space inside string literals of an index condition was collapsed")
fixed("C20", "ends after WHERE", "an index definition that ends after WHERE and blanks was accepted")
fixed("C19 C21", "vertical tabs", "clauses with a vertical tab between their words were read with the tab")
fixed("C21", "every deferral clause", "DEFERRABLE followed by one blank, and NOT DEFERRABLE INITIALLY IMMEDIATE, were rejected in triggers")
known("C20", "K1-nested-parentheses", "an index key whose expression contains nested parentheses is rejected, and such a definition cut short by the closing parentheses is accepted: the grammar ends an expression at the first closing parenthesis (the parser is generated, and ragel is not available here)")
fixed("C23", "generate every event", "the events INSERT, DELETE and TRUNCATE, the columns, the deferral and CONSTRAINT were left out of a trigger's SQL")
fixed("C23", "generate the names of checks", "the names of checks were left out, and a table without columns had a stray comma")
fixed("C23", "quote functions whatever", "function names, languages and bodies with special characters (such as $$) gave other SQL")
known("C18", "K2-normal-form", "text that is not in Unicode normal form C is changed to it when a description is read back (done by the HCL library, a dependency)")
fixed("C16", "every spelling of a boolean", "storage parameters written as on, off, yes, no and the like made the inspection fail")
fixed("C16", "no column owns", "sequences without an owning column were left out of the description")
fixed("C15", "end a list early", "an error or a lost connection after the first rows of a list gave a shorter list without an error")
fixed("C17", "checks of a table when asked", "the checks were sorted after they had been copied, so the description kept the server's order")
known("C17", "K3-index-order", "sorting of indexes leaves them in the server's order: its comparison asks for a smaller schema, table and name at the same time (correcting it changes testdata/expected.hcl, the expectation of an existing test that needs a database)")
fixed("C13", "after the first success", "after a successful attempt further attempts were made and their connections left open; a negative retry count made no attempt and returned no error")
fixed("C13", "attempts to connect grow", "the pauses between attempts did not grow")
fixed("C14", "verify the name of the host", "with PGSSLMODE=verify-full the certificate was compared with PGHOST, also when an option chose another host")
fixed("C14", "keep the environment's certificates", "verify-full chosen by option or password trusted the system's authorities instead of PGSSLROOTCERT")
fixed("C08", "target or a task that is null", "a target or task given as null made the parser panic")
fixed("C11", "quote the names of targets", "names that need quoting gave graphs that were wrong or no graphs, and a graph that could not be made was reported as success")
fixed("C11", "escape the keys", "keys of objects were printed without escaping, so that the output was not JSON")
fixed("C12", "output that can not be written", "list, dot, ping and version ignored failed writes; version --long printed its details elsewhere than to its output")
fixed("C24", "let a queue end", "a queue closed while no task was executed never closed its results and left a goroutine running")
fixed("C24", "keep to the limit", "a queue executed any number of tasks at once, whatever its limit")
fixed("C25", "keep the dependencies", "the dependencies of tasks (after, provides, requires) were dropped when a task set was loaded")
fixed("C25", "declared twice", "a target or task declared twice silently replaced the first one")
fixed("C25", "unknown types of pg and sh", "tasks of unknown types such as pg/nope were accepted")
fixed("C34", "dot keeps the output file", "dot emptied the output file before the graph was made, and with -O replaced a runbook whose name ends in .dot (or to which the derived name is a link)")
fixed("C34", "eval keeps the output file", "eval emptied the output file before the runbook was read: a runbook that fails left it empty, and eval -o of the runbook itself (or of its import) lost it")
json.dump(F, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
