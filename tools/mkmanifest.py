#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the output is committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/lib")
import props, props2, props3
NOTES = {
 "C01": ("TLA+ grammar; TLC checks the parser machine against it; trace validation", "The text grammar (Grammar.tla) is a declarative definition; ShuntingYard.tla, the algorithm, is model-checked against it for every token sequence to a bounded length. Enumerated and random texts are parsed by the real code and the values compared."),
 "C02": ("TLA+ grammar; TLC checks the parser machine against it; trace validation", "Every short text over three alphabets and mutated texts; acceptance, position and message are judged by Grammar.tla."),
 "C03": ("TLA+ printer machine checked against the grammar; trace validation of round trips", "Printer.tla is model-checked to print texts that mean the tree for every small tree; real texts are read back by the specification's grammar and by the real parser."),
 "C04": ("trace validation against a TLA+ specification of number text", "Exact decimal arithmetic in the override module; sampled doubles of every class."),
 "C05": ("trace validation against the TLA+ evaluator", "Values carry error bounds; undecided ones are counted in the evidence and accepted."),
 "C06": ("trace validation against the TLA+ evaluator with settings in the state", "Definitely invalid, definitely valid and undecided values are kept apart; only the first two are judged."),
 "C07": ("TLA+ dual numbers, model-checked against a symbolic derivative; trace validation", "The derivative is computed by forward jets in the specification, at sampled points; MC_Deriv compares jets, derivative rules and difference quotients for every small tree."),
 "C08": ("TLA+ jets and derivative trees, model-checked against each other; trace validation", "As C07, orders to 4 and mixed derivatives."),
 "C09": ("trace validation against TLA+ state (argument slots unchanged)", "Which trees must be refused is MustRefuse of Expr.tla; argument intactness is part of every step."),
 "C10": ("trace validation against the TLA+ normal form and evaluator", "Value preservation at sampled points, normal form on the printed text, idempotence by structural equality."),
 "C11": ("trace validation against TLA+ simultaneous substitution", "Expected trees are computed exactly; values and variables observed."),
 "C12": ("trace validation against the TLA+ variable sets and name grammar", "All bytes in names by position; expressions by histories."),
 "C13": ("trace validation against TLA+ jets per entry", "Shapes 1..4 by 1..4 with repeated and absent variables."),
 "C14": ("TLC-generated histories of the TLA+ system replayed in the real code", "All histories of two commands and random ones of fourteen; after the commands the held expressions are compared with the specification's state."),
 "C15": ("trace validation against TLA+ structural identity", "All pairs of 48 small trees; random trees with one change."),
 "C16": ("trace validation against closed forms in TLA+, model-checked against the recursive definitions", "Deep.tla gives values, names and texts of chains of any length in closed form; MC_Deep checks the forms against the evaluator for short ones. The real code runs chains of 10^5 (10^6 in thorough) on an ordinary stack."),
 "C17": ("TLA+ elimination, model-checked against determinants and enumerated solutions; trace validation", "Classes are decided with margins around the tolerance; systems in between are only checked for soundness."),
 "C18": ("TLA+ elimination, model-checked; trace validation of residuals", "As C17; the residual is computed by the specification."),
 "C19": ("trace validation against TLA+ matrix algebra", "Shapes 1..5; entries within error bounds of the exact ones."),
 "C20": ("TLA+ determinants and inverses, model-checked; trace validation", "Determinant by permutations against elimination in the model; products with the inverse in traces."),
 "C21": ("trace validation against TLA+ matrices of expressions", "Every operation is compared entry by entry after evaluation at sampled points."),
 "C22": ("trace validation of solutions against the TLA+ evaluator and solver machine", "The residual of every returned solution is computed by the specification."),
 "C23": ("trace validation against the TLA+ solver machines", "Newton-Raphson and Levenberg-Marquardt are written out as transitions with error bounds and shadow runs; a run is judged where they determine the outcome (counted in the evidence)."),
 "C24": ("trace validation against the TLA+ solver machines under every small limit", "Each system is solved under twelve limits; the number of iterations needed is known from the specification."),
 "C25": ("TLC-generated setting histories replayed with probes", "All histories of two changes (three in thorough); the settings are read after every operation."),
 "C26": ("trace validation against the TLA+ solver machines and elimination", "Systems of 0..4 equations in 0..4 unknowns, consistent or not."),
 "C27": ("trace validation against TLA+ tables", "Histories of every table operation."),
 "C28": ("trace validation of four builds, and pairwise comparison in TLA+", "Samples of every other property's histories; differing events are judged by Pair.tla."),
 "C29": ("trace validation against the TLA+ search", "The Armijo condition is computed with error bounds at every step size tried."),
 "C30": ("trace validation of the text of every report", "Malformed texts with one or more errors, failing operations of every kind."),
}
NA = {}
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
       "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the public interface. See DESIGN.md."}
for line in open(ROOT + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in props.PROPS:
        t, n = NOTES[p]
        man["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                              "technique": t, "level": "model_checking",
                              "level_note": n + " Assurance is bounded: exhaustive only where stated, sampled beyond. Trusts TLC, the numeric override java/Num754.java and the driver's reporting."})
    else:
        man["not_applicable"].append({"property": p, "reason": NA.get(p, "Its check is not built yet; the method applies (see DESIGN.md).")})
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
