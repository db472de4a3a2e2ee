"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification, TLC: "
TECH = {
 "C01": "exhaustive schema model (MC_Schemas) replayed; trace checking of generator runs under extreme/random draw tapes and walks of draws against Accepts",
 "C02": "exhaustive (schema, value) model (MC_Schemas, MC_Regex) replayed; trace checking of validator verdicts against Accepts(S, v)",
 "C03": "MC_Schemas replayed through both validators; trace checking of every reported error: path followed, fact re-decided",
 "C04": "theorems on MC_Schemas, its schemas replayed; trace checking of substitution results against Carries/Accepts/Keep",
 "C05": "theorems on MC_Schemas, its schemas replayed; trace checking: accepted set included in the original's Accepts",
 "C06": "trace checking: printed text of modelled and random schemas evaluated as a program of the specified declaration language, in several interpreters",
 "C07": "session state machine (MC_Session) explored by TLC, behaviours replayed on the library; recorded sessions judged by the Session specification",
 "C08": "MC_Schemas replayed; trace checking of validation runs over a zoo of hostile values",
 "C09": "exhaustive pattern model (MC_Regex) replayed; trace checking of generated strings against the specified regex language",
 "C10": "declaration state machine (MC_Declare) explored exhaustively and replayed; every recorded call judged",
 "C11": "declaration state machine: all orders of refinement sets executed, one outcome demanded",
 "C12": "theorems on MC_Schemas, its schemas replayed; trace checking of substitution outcomes (exception kind, usability, idempotence)",
 "C13": "exhaustive model of combinations (MC_Combine) with theorems, replayed; trace checking against the union/override/restriction meaning",
 "C14": "exhaustive model of plain values (MC_Native) replayed; trace checking of from_native against the specified value identity",
 "C15": "trace checking of equality over builds and mutants against structural equality and Accepts",
 "C16": "trace checking of pairs (schema with forwarding custom types, schema without)",
 "C17": "seeding state machine (MC_Seeding): all histories replayed in several processes; outputs demanded to be a function of seed and schemas",
 "C18": "exhaustive model of nested mappings (MC_Rollout) replayed, plus trace checking of larger ones",
 "C19": "exhaustive model of modules (MC_Migration) replayed, plus trace checking of larger sources",
}
NOTE = {
 "C18": "Exhaustive over the model's mappings (depth, alphabet and order bounds in spec/MC_Rollout.tla); bounded random beyond.",
 "C19": "Exhaustive over the model's statement lists (spec/MC_Migration.tla), rendered with varying layout; bounded random beyond. Trusts Python's ast to read modules.",
 "C07": "Exhaustive over the model's sessions to depth 2 (quick) / 3 (thorough) and simulated to depth 7, random sessions beyond. Trusts the listed observables and fork() for the 'alone' result.",
}
GEN = ("Every verdict is computed by TLC from the specification; inputs are bounded and sampled (seeded), so absence "
       "of violations is shown for what was explored. Trusts harness/enc.py (description of values and schemas) and TLC.")
m = {"version": 1, "setup_cmd": "./tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check --prop %s --tier quick" % p,
                 "thorough_cmd": "./check --prop %s --tier thorough" % p,
                 "technique": T + TECH[p], "level": "model_checking",
                 "level_note": NOTE.get(p, GEN)} for p in sorted(TECH)],
     "not_applicable": []}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
