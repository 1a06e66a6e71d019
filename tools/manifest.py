"""Writes MANIFEST.json: a check per property that has one, the others listed as not claimed (yet)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = {}
for f in sorted(os.listdir(os.path.join(root, "harness"))):
    if f.endswith(".py"):
        for m in re.finditer(r"^def (C\d+)\(", open(os.path.join(root, "harness", f)).read(), re.M):
            src[m.group(1)] = f
SPECS = {}
for ids, spec in [("C01 C02 C03 C07 C08", "Reading.tla"), ("C04", "Signatures.tla"), ("C05", "Reading.tla"), ("C06", "Files.tla"), ("C09", "Beats.tla, Reading.tla"),
                  ("C10 C11 C12 C13 C14 C15", "Sequence.tla"), ("C16", "Sequence.tla, Piece.tla"), ("C17", "Piece.tla"), ("C18 C73", "Views.tla"), ("C19", "Retiming.tla, Beats.tla, Reading.tla"),
                  ("C20 C21 C22 C23", "Note.tla"), ("C24 C25", "Events.tla"), ("C26", "Saving.tla, Reading.tla"), ("C30 C31", "SortedMap.tla"), ("C32", "Interval.tla"), ("C33", "Tree.tla"),
                  ("C40 C41 C42 C43 C44 C45 C46 C47 C49", "Graph.tla"), ("C48", "Tracks.tla, Graph.tla"), ("C50 C51 C52 C54", "Dataset.tla"), ("C53", "Mapper.tla"),
                  ("C60 C61", "Transforms.tla"), ("C70 C71", "Theory.tla"), ("C72", "Rolls.tla"), ("C80", "Training.tla"), ("C81", "Splitting.tla, Transforms.tla"), ("C82", "Scoring.tla"), ("C83", "Walk.tla")]:
    for i in ids.split():
        SPECS[i] = spec
checks, na = [], []
for p in props:
    i = p["id"]
    if i in src:
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
            technique="TLA+ specification (%s) checked with TLC; generated behaviours replayed and recorded traces validated against it" % SPECS.get(i, "see DESIGN.md"),
            level="model_checking",
            level_note="The specification is exhaustively checked within the constants of its cfg; the code is bound to it by replaying every transition of the bounded model and by validating seeded random traces. Trusts the harness's projection of code state to specification state."))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="true", hooks=dict(guard="NGC_VERIF", enable="NGC_VERIF=1 (no hooks are needed: the public API exposes the abstract state)", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. known_findings.txt lists repaired and recorded defects."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
