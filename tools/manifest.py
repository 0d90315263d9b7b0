#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C10": ("runtime monitoring: sorted-map model and page-graph walk over the real B+tree",
         "exploration", "Seeded operation histories over page sizes, caches, minimum keys, siblings, key kinds and payload sizes; every operation looked up, scans and structure compared; assumes the sampled histories are representative."),
 "C11": ("runtime monitoring: whole-file page ownership audit after operations, releases and reopens",
         "exploration", "Seeded histories over several trees in one file; every page's owner audited, allocation compared with the free list; assumes the sampled histories are representative."),
 "C17": ("runtime monitoring: list model of appended and forced records checked against every read of the real log",
         "exploration", "Seeded append/force/truncate/reopen/lose histories with boundary-filling record sizes, every read compared with a list model; assumes the sampled sizes and interleavings are representative."),
 "C18": ("runtime monitoring: version-list model decoded through a grid of snapshots, before and after trimming",
         "exploration", "Small chains exhaustively (repro exhaustive-small), larger schemas, rows and histories sampled; every decode compared with the version the model entitles the reader to."),
 "C20": ("runtime monitoring: round-trip and hostile-byte oracle on the codec, live server against a reference session, allocation monitor",
         "exploration", "Seeded messages, mutated frames and live server conversations judged against an independent codec model and allocation caps; assumes the sampled shapes are representative."),
}
CLAIMED.update({
 "C01": ("runtime monitoring: recorded file writes replayed as crashes at sampled points, acknowledged-state model compared after reopening; real SIGKILLs",
         "exploration", "Seeded histories on a recorded file layer; crash points weighted to acknowledgements, commits, checkpoints, closes and recoveries; assumes writes that returned stay whole and in order (process death)."),
 "C02": ("runtime monitoring: recorded file writes replayed as crashes at sampled points, exact acknowledged-state oracle over tables and index lookups",
         "exploration", "Seeded histories with open, failed and rolled-back work on a recorded file layer; contents must be a candidate state exactly; assumes writes that returned stay whole and in order (process death)."),
 "C03": ("runtime monitoring: in-memory model of every table compared after each rollback, failed statement and batch, with page audit",
         "exploration", "Seeded histories of up to six sessions against an independent model; every visible state compared; assumes the sampled histories are representative."),
 "C04": ("runtime monitoring: snapshot model of every open session compared after each statement, with first-updater-wins oracle",
         "exploration", "Seeded interleavings of up to six sessions; each session's view compared with its snapshot plus own changes; assumes the sampled interleavings are representative."),
 "C07": ("runtime monitoring: constraint oracle over the model decides for every write whether it must be accepted or refused",
         "exploration", "Seeded histories over tables with primary keys, UNIQUE constraints and indexes, NULLs and NOT NULL, concurrent sessions, rollbacks, VACUUM and reopens; assumes the sampled histories are representative."),
 "C08": ("runtime monitoring: recorded file writes replayed as crashes, also inside recovery, again and again; page and tree audit after each",
         "exploration", "Crash points in work, checkpoints, VACUUM, close and recovery; contents must not depend on the interruptions; assumes writes that returned stay whole and in order (process death)."),
 "C09": ("runtime monitoring: model compared before and after clean closes and reopens with other configurations, identifiers and catalog included",
         "exploration", "Seeded histories with many close and open cycles under any configuration, new tables, indexes and rows in between; assumes the sampled histories are representative."),
 "C12": ("runtime monitoring: the same history under several configurations, outcome by outcome, against the model",
         "exploration", "Seeded histories run under page sizes, caches, pools, minimum keys and siblings; every outcome and table compared; only the explicit out-of-memory error of a small cache excused."),
 "C13": ("runtime monitoring: model compared before and after VACUUM beside open sessions, page and chain growth monitors over repeated work",
         "exploration", "Seeded histories with VACUUM at any point, audits of pages and version chains, storage bounds over repeated cycles; assumes the sampled histories are representative."),
 "C15": ("runtime monitoring: definitions and contents model compared after every DDL statement, commit, rollback and reopen",
         "exploration", "Seeded DDL and DML histories of several sessions, every table, constraint and default probed against the model; assumes the sampled histories are representative."),
})
CLAIMED.update({
 "C05": ("runtime monitoring: every answer compared with an evaluator that follows the definition of the query",
         "exploration", "Seeded tables and queries (joins, groups, aggregates, set predicates, NULLs, limits of ranges, sub-queries) judged by an independent evaluator; assumes the sampled queries are representative."),
 "C06": ("runtime monitoring: equivalent forms of a query, planned differently, compared with an evaluator; every index compared with its table",
         "exploration", "Seeded histories and queries in up to twelve equivalent forms, with and without statistics; EXPLAIN shows which operators answered; hash joins are almost never chosen by the planner."),
})
CLAIMED.update({
 "C14": ("runtime monitoring: threads held up at hooked points, every history of statements searched for a serial order that explains all answers and the final tables",
         "exploration", "Sampled schedules of up to eight threads, statements and sessions on shared tables, with delays and a small cache; serial order search over commuting groups; assumes the sampled schedules are representative."),
 "C16": ("runtime monitoring: any text at all is sent to a session; panics, hangs, internal errors, and any change of the data after an error are alarms",
         "exploration", "Grammar-generated, mutated, truncated, deeply nested and over-long statements, small caches and failing resources; tables dumped around every error; assumes the sampled statements are representative."),
 "C19": ("runtime monitoring: laws of equality, hash, order, cast and round trip evaluated on a grid of values through the types, the trees and SQL",
         "exploration", "All pairs (triples for order) of a grid of extreme values of every type, sampled values beyond; the same laws through B+tree keys, joins, DISTINCT and GROUP BY; assumes the grid holds the interesting values."),
})
EXTRA = os.path.join(ROOT, "tools", "claims.json")
if os.path.exists(EXTRA):
    CLAIMED.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if " verif:" in l]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "--cfg axmos_verif", "enable": "RUSTFLAGS='--cfg axmos_verif' (set by env.sh, used by run.sh)", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        t, lv, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
