"""Writes properties.jsonl and MANIFEST.json (python3 tools/make.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(),
         note="", technique=None, module="", na=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
        return
    CH.append(dict(
        property=id, quick_cmd=f"bin/check {id}", thorough_cmd=f"bin/check {id} thorough",
        technique=technique or f"TLA+ specification (spec/{module}.tla) explored with TLC; its "
        "behaviours are executed by the real code and the recorded traces validated by TLC "
        "against the specification",
        level="model_checking", level_note=note))


CH = []
exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bin/setup", checks=CH, not_applicable=NA,
                   notes="TLA+ / TLC; no hooks in /repo: every check uses the public API only."),
              f, indent=1, ensure_ascii=False)
    f.write("\n")
