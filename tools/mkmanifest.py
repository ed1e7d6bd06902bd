"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/finalfusion/"
EMB, IO, NORMS, META = S + "embeddings.py", S + "io.py", S + "norms.py", S + "metadata.py"
ND, PQ, STI = S + "storage/ndarray.py", S + "storage/quantized.py", S + "storage/__init__.py"
VOC, SUB, SIM, VOI = S + "vocab/vocab.py", S + "vocab/subword.py", S + "vocab/simple_vocab.py", S + "vocab/__init__.py"
W2V, TXT, FT = S + "compat/word2vec.py", S + "compat/text.py", S + "compat/fasttext.py"
SC = [S + f"scripts/{n}.py" for n in ("analogy", "bucket_to_explicit", "convert", "select", "similar", "util")]
IDX = [S + f"subword/{n}.pyx" for n in ("explicit_indexer", "hash_indexers", "ngrams")]


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, note=None, na=None, technique=None):
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": mechanism, "observe_at": observe,
                           "hook_needed": None}, _note=note, _na=na, _technique=technique))


exec(open(os.path.join(VERIF, "tools", "proptable.py"), encoding="utf-8").read())


def main():
    built = {p["id"] for p in P
             if os.path.exists(os.path.join(VERIF, "ffsim", "props", p["id"].lower() + ".py"))}
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            if p["_na"] or p["id"] in built:
                f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if p["_na"] or p["id"] not in built:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick bash ./check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash ./check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with fault injection: " + p["_technique"],
            "level": "exploration",
            "level_note": p["_note"],
        })
    man = {
        "version": 1,
        "setup_cmd": "bash ./setup.sh",
        "checks": checks,
        "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if p["_na"]],
        "notes": "No hooks in /repo: the seams are the system-call boundary (ffsim/shim.c, preloaded), the "
                 "interpreter's trace function and the package's own arguments. Replay a violation with "
                 "./check.sh <ID> --replay <file>.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(sorted(built), [p["id"] for p in P if p["_na"]])


main()
