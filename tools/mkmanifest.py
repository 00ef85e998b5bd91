#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
done = set()
mc = os.path.join(here, "..", "engine", "mc")
for f in os.listdir(mc):
    done |= set(re.findall(r'props\["(C\d\d)"\]', open(os.path.join(mc, f)).read()))
SEQ = "explicit-state bounded model checking of the real code: exhaustive enumeration of %s against a reference model"
CON = "stateless model checking of the real code under a controlled scheduler: %s"
T = {
 "C01": SEQ % "view histories and random outcomes", "C02": SEQ % "splits of all frame shapes", "C03": SEQ % "column contents, sizes and directions",
 "C04": SEQ % "histories of derivations and writes", "C05": SEQ % "histories of derivations, detachments and writes",
 "C06": SEQ % "histories of derivations and structural operations", "C07": SEQ % "histories of structural operations",
 "C08": SEQ % "pairs and triples of frames and their histories", "C09": SEQ % "frame shapes, batch and reset sequences",
 "C10": SEQ % "small tables and options; plus all worker interleavings of small tables", "C11": SEQ % "frame shapes, strings and options",
 "C12": CON % "all interleavings of writers (delay-bounded for file readers), plus exhaustive row/file/CPU counts",
 "C13": "fault enumeration (every byte, every file, every writer) on the real code, with all interleavings of the workers",
 "C14": CON % "deadlock, leak and panic detection over all interleavings and fault choices",
 "C15": CON % "all interleavings with happens-before race detection, compared results",
 "C16": CON % "all interleavings of concurrent readers with happens-before race detection",
 "C17": SEQ % "placements of unconvertible strings, encodings and derivations", "C18": SEQ % "string tables, views and CPU limits",
 "C19": SEQ % "small columns, options and views", "C20": SEQ % "training/test columns and policy pairs",
 "C21": SEQ % "components, input derivations and histories", "C22": SEQ % "column mixes, options and exclusion sets",
 "C23": SEQ % "components, options and tables (original vs deserialized)", "C24": SEQ % "feature tables, weights, views and names",
 "C25": SEQ % "tables, hyper-parameters and shuffle outcomes", "C26": SEQ % "derivations and mask requests", "C27": SEQ % "frame shapes and column names",
 "C28": SEQ % "builder and merge sequences", "C29": SEQ % "column pairs and views",
 "C30": CON % "all interleavings of the workers of a queue and all shuffles, plus exhaustive element/group counts",
 "C31": SEQ % "header operations on derived frames", "C32": SEQ % "histories run with and without debugging",
 "C33": SEQ % "derivation histories with limit changes, and column/file counts times limits",
 "C35": "metamorphic explicit-state model checking of the real code: exhaustive enumeration of histories times operations, each compared with the same operation on a dataframe rebuilt from what is visible",
 "C37": SEQ % "row sequences, views, row counts and cuts times fitted components",
 "C40": "explicit-state model checking of the real code: every argument within the bounds enumerated, compared with the definition",
 "C39": "explicit-state model checking of the real code: every name within the bounds as the name of a column of every type, histories of one or two operations and whole lives of the components on them, compared with the reference models after each step",
 "C38": "metamorphic explicit-state model checking of the real code: every training table within the bounds times column subsets, row orders, names, repetitions and views, what is learnt compared with training on the column alone",
 "C36": SEQ % "histories times invalid requests",
 "C34": "probabilistic model checking by explicit enumeration of the real code: every outcome of every random draw of the shuffle, sample and training loops, the exact probabilities of the results summed over all outcomes",
}
NOTE = "Exhaustive within the bounds printed in the evidence file (sizes, alphabets, depths, preemption/delay bounds); the code executed is /repo's own, instrumented only at synchronisation, map iteration, random source and CPU count."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh %s --tier thorough" % i,
                           technique=T[i], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="No check is registered yet: the enumeration of this property is under construction."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not yet")
