"""The properties, and for each the check that decides it. `python3 lib/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["value of the program run by the bytecode VM, the JIT, and from a dumped and reloaded .pnb"]
    P.append((d, " ".join((technique or "").split()), " ".join((note or "").split()), na))


exec(open(os.path.join(V, "lib", "proplist.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for d, t, n, why in P:
        if why:
            na.append({"property": d["id"], "reason": " ".join(why.split())})
            continue
        checks.append({"property": d["id"], "quick_cmd": "python3 check.py %s quick" % d["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % d["id"], "technique": t,
                       "level": "model_checking", "level_note": n})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
