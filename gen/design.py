#!/usr/bin/env python3
"""DESIGN.md = gen/design_head.md + a section per property (from list.py, oracles below and the harness comments) + findings + seeds."""
import json, os, re, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = {
"P01": "an exact one-counter accumulator kept by the harness next to the instance",
"P02": "the state before the commit (availability and min(|k|,|vector|)), and a twin instance that never commits",
"P03": "`Available()` immediately before the request; for the cached gate also the slack after a refresh",
"P04": "min(n, vector) of the state before",
"P05": "availability at the start: the sum of admitted amounts may not exceed it (minus refunds), in one query over all interleavings",
"P06": "the sum of the amounts applied, and the scalar plus folded amounts, at quiescence",
"P07": "the state before Close, and the engine's count of live goroutines",
"P08": "an instance with default options fed the same operations, and the gate's own margins",
"P10": "pointer identity per key, number of keys, live goroutines",
"P11": "a reference predicate for 'due' (threshold, armed, maximum age) and a recording adapter",
"P12": "conservation: durable sum + in-memory vector = sum of admitted, per key",
"P13": "an adapter that fails at symbolic points; conservation and renewed attempts",
"P14": "a reference predicate for 'evictable' and conservation across eviction",
"P15": "conservation with overlapping cycles, and silence after Stop",
"P16": "counts kept by the harness from the responses and the batches",
"P17": "responses counted by the client against what the adapter received",
"P20": "the instance's state before and after, and a reference count per key",
"P21": "a reference store to which each (key, commit id) is applied once, next to the store the script acted on",
"P22": "the same for tables, with fencing tokens and rollback",
"P23": "the batch handed in, re-read from the produced messages with the documented field names",
"P24": "the worker's commits against the entries received, and distinctness of ids for distinct random bytes",
"P30": "the documented rule table over all flag combinations, and FNV-1a recomputed",
"P31": "the cells an operation can touch, enumerated as a set; declared disjoint implies empty intersection",
"P32": "a map from (key, bucket) to (sum, largest sequence number) kept by the harness",
"P33": "the list of operations enqueued per key and the documented audit hash",
"P34": "per-key order and multiset of what was handled, against what reaches sink and callback",
"P35": "per-cell sums over both inputs in their own order",
"P36": "the multiset of accepted operations against what the sink received, and return of Flush/Stop",
"P37": "per-cell sums and maxima of the input",
"P40": "the records written before the cut, in order",
"P41": "the records written before the cut, in order",
"P42": "the requests answered 202, summed per cell, against /state and both logs",
"P43": "the metrics' counts and the answered requests against both logs",
"P50": "the observations made by the harness; FNV-1a and the rate recomputed; ratios over the window from first principles",
}
ALL = []
def P(id, title, statement, over, qtext, why, files, mech, **kw): ALL.append((id, title, statement, over, qtext, why, files, mech, kw.get("note","")))
exec(open(os.path.join(HERE, "gen", "list.py")).read())
cost = json.load(open(os.path.join(HERE, "gen", "cost.json")))
out = [open(os.path.join(HERE, "gen", "design_head.md")).read().rstrip(), "", "## Properties", "",
 "Cost is wall time of `quick` on 8 idle cores. All use the technique above; none is not applicable.", ""]
for id, title, st, over, q, why, files, mech, note in ALL:
    out += [f"### {id} {title}", "", st, "", f"- **Decided over**: {q}.", f"- **Oracle**: {O[id]}.", f"- **Why tests cannot settle it**: {why}",
            f"- **Cost**: {cost.get(id,'?')} s.", "- **Harnesses**:"]
    for f in sorted(glob.glob(f"{HERE}/harness/{id}_*.go")):
        for m in re.finditer(r"((?:^//[^\n]*\n)+)^func (VH_%s_\w+)\(" % id, open(f).read(), re.M):
            c = [l[2:].strip() for l in m[1].splitlines()]
            b = " ".join(x[6:].strip() for x in c if x.startswith("bound:"))
            v = " ".join(x[6:].strip() for x in c if x.startswith("verif:"))
            d = " ".join(x for x in c if not x.startswith(("bound:", "verif:")))
            out.append(f"  - `{m[2]}`{' (thorough only)' if 'tier=thorough' in v else ''}: {d} *{b}*")
    out.append("")
out += [open(os.path.join(HERE, "gen", "design_tail.md")).read().rstrip(), "", "## Planted bugs and what catches them", "",
        "Each is in `seeded/<id>/`; all are caught by the check of the property they break (`gen/trybug.sh`).", "", "| Id | Property | What it breaks | Needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json"), key=lambda x: int(re.sub(r"\D", "", x.split('/')[-2]))):
    m = json.load(open(d)); i = d.split('/')[-2]
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
