"""Source of properties.jsonl and MANIFEST.json (python3 docs/props.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS = []
AI = "abstract interpretation of the LLVM IR (ownership/typestate fixpoint)"
TRUST = "Decided on every abstract path of the current source; trusts clang's IR, the outcome tables for libc/syscalls/allocator and no aliasing between caller arguments."


def prop(id, title, statement, over, text, why, files, mech, tech=AI, note=TRUST, na=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 4, id
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), tech=tech, note=note, na=na))


exec(open(os.path.join(HERE, "props_data.py")).read())

if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as o:
        for p in PROPS:
            o.write(json.dumps({k: v for k, v in p.items() if k not in ("tech", "note", "na")}) + "\n")
    m = dict(version=1, setup_cmd="python3 sa/frontend.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                          thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                          technique=p["tech"], level="other", level_note=p["note"]) for p in PROPS if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]])
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as o:
        json.dump(m, o, indent=1)
        o.write("\n")
    print(len(PROPS), "properties,", len(m["checks"]), "claimed")
