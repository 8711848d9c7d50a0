#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below (run after changing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRAPH = ("TLA+ model graph (ModelGraph.tla) checked by TLC; TLC-generated operation sequences and behaviours replayed into the library",
         "TLC checks exhaustively, on small instances, that the specified graph has no stale result and exact subscriptions; every sequence of at most two operations on a standard model and random long behaviours from the same specification are replayed in the real library, whose every answer must equal that of a model built from scratch. Trusts the numeric parameter table behind the identifiers and the comparison tolerance (1e-7).")
CACHE = ("TLA+ cache specification (CacheRules/CacheImpl.tla, TLC) with trace validation (CacheTrace.tla) of executions under a controlled scheduler",
         "TLC checks the lock-level algorithm exhaustively for 2-3 threads; the real caching.h runs under a cooperative scheduler that enumerates single preemptions and samples others, and TLC decides whether each recorded trace is a behaviour of CacheRules. Sequentially consistent interleavings at instrumented accesses.")
CHECKS = {}
for p in ("P01", "P02", "P03", "P04", "P05", "P19"):
    CHECKS[p] = GRAPH
for p in ("P06", "P07", "P08", "P09"):
    CHECKS[p] = CACHE


def case(spec, what):
    return ("TLA+ specification %s (TLC) with expected answers as real-valued expressions; its behaviours replayed into the library" % spec,
            what + " TLC checks the rules exactly on integers or rationals for small instances and generates behaviours; the expected answers travel with them as expressions, evaluated in floating point and compared with what the real code answers.")


CHECKS["P15"] = case("Compound.tla", "Random histories of changes and replacements of what two compound demands are made of.")
CHECKS["P16"] = case("Fate.tla", "Random histories of setting and unsetting fragilities and costs, adding groups and asking.")
CHECKS["P17"] = case("Fragility.tla", "Random damage-state lists (acceptable and not, in every parameterisation) and demands.")
CHECKS["P18"] = case("Loss.tla", "Every count around the bounds of two-level losses; random histories of loss functions, fragilities, groups and queries.")
CHECKS["P26"] = case("LogNormal.tla", "Every parameterisation over a grid, random chains of scaling, adding and mixing, and lognormal functions in all six parameterisations.")
CHECKS["P27"] = case("DetFunctions.tla", "Random tables and laws queried in random order, from one and from several threads.")

INTEGRATION = case("Integration.tla", "TLC checks exhaustively, on a coarse grid of points, that subdivisions tile the range, budgets hold, every integration is accounted for and each setting changes alone; random histories of settings and integrations, whose integrands are discovered as they are evaluated, are replayed against the real code, outcome by outcome and figure by figure; for P11 and P12 also from several threads under the cooperative scheduler (P12: with every single interruption of pairs of integrations).")
for p in ("P11", "P12", "P13"):
    CHECKS[p] = INTEGRATION

CHECKS["P14"] = ("TLA+ specification Context.tla (trails and the implementation's tree, TLC); its behaviours replayed with real OpenMP teams",
                 "TLC checks exhaustively, for small teams and nesting, that the implementation's tree shows every thread its own trail; random behaviours of nested teams are replayed with real OpenMP threads in the specified order, in any order, and (one level of teams, and the very first contexts) under the cooperative scheduler.")

CHECKS["P10"] = case("Queries.tla", "Random histories of changes, cache clearing, single questions, lists (also from inside parallel regions), and several threads asking at once, freely and under the cooperative scheduler; each answer compared with that of a serial, freshly built model.")


CHECKS["P29"] = case("Definitions.tla", "Random models, changed in between, in all five integration methods; every result is specified as an integral over the demand and over the hazard, evaluated independently on logarithmic grids.")


def script(spec, what):
    return ("TLA+ specification %s (TLC); its behaviours replayed into the scripting layer (SWIG module, pyslat, ANTLR parser built from /repo)" % spec, what)


CHECKS["P20"] = script("PyRegistry.tla", "TLC checks exhaustively that the registry is what the history says; every pair of steps over all kinds, triples over three kinds, and random long histories of definitions, refused definitions and clearing are replayed, with every name of every kind and every native handle looked up after each step.")

CHECKS["P25"] = script("Logging.tla", "Every sequence of five steps (six in the thorough tier) and random long ones of enabling, disabling, naming files and messages, each in a program of its own; what stands on standard error, standard output and in every file at its end is compared, message by message.")

CHECKS["P21"] = script("PyModel.tla", "TLC checks on every sequence of redefinitions (to depth 3, thorough 4) and on random long histories that whatever was built on a name is built on what the name stands for at the end. Every sequence and history is replayed through the scripting layer, asking before, between and after; answers, handles and recorder output must be those of a model with the final definitions only.")
CHECKS["P28"] = script("PyModel.tla", "Random histories of definitions in every form the scripting layer offers (and short exhaustive ones) are replayed; every answer, put for one point or for a list, is compared with the one of library objects built directly in C++ from what the specification says the object means.")
CHECKS["P22"] = script("Recorder.tla", "TLC checks that files hold exactly the runs that went there and that every table is rectangular with a line per point, for every kind of recorder with up to two columns, every order of runs of recorders sharing files, and random histories of definitions (every form of points), runs, changes of the model and of the output directory; each is replayed, and after every run all files and what was printed are compared with the specified tables, filled in by asking directly.")
CHECKS["P24"] = script("Slat.tla", "The specification says of every statement, as it is written (form of every argument, flags and their order, variables, arithmetic), which call with which values it means. Every form of every statement on its own (a sample of each shape in the quick tier) and random programs of several files are run through the interpreter, and the calls they mean made directly, in two processes; what all objects answer, what is printed, all files and the settings must agree.")
CHECKS["P30"] = script("Imports.tla", "The specification writes the statistics of a file's lines and the interpolation between them as expressions (TLC checks the interpolation exactly on small tables); random histories of writing files in varying layouts, importing them by call or statement and asking are replayed.")
CHECKS["P23"] = script("Paths.tla", "TLC checks over every short history that neither directory moves names of the other kind; histories of setting directories, changing the current one, resolving, importing (every candidate file holds other numbers) and recording (the whole tree is compared) are replayed through direct calls and through statements of the language.")


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "checks": [{"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                     "technique": CHECKS[p][0], "level": "model_checking", "level_note": CHECKS[p][1]} for p in ids if p in CHECKS],
         "not_applicable": [{"property": p, "reason": "no check built yet"} for p in ids if p not in CHECKS],
         "notes": "Specifications are TLA+ (TLC), in spec/. No hooks in /repo: the harnesses compile /repo/src as it is."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
