#!/usr/bin/env python3
# Generates /verif/DESIGN.md from design.md.in, properties.jsonl, harness headers, known_findings.txt and seeded/*/meta.json.
import json, os, re, glob
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ORACLE = {
"D01": "the list of `FIDEDUPERANGE` requests seen by the fake ioctl, folded over the two ranges; any partial progress, status and errno",
"D02": "the recorded requests of the fake ioctl against the pair passed to `BeesContext::dedup`; read-only roots come from fake root items",
"D03": "a direct specification of `may be added` per block (contents, address, zero, toxic), applied to every added block and to the first block not added at each end",
"D04": "block by block accounting of hash insertions, dedupe requests and copies recorded by the replaced operations",
"D05": "a byte model of the temporary file kept by the fake `ftruncate`/`pwrite`; returned ranges compared with it",
"D06": "the set of references whose block really is at the address and equal, computed from the fake file system",
"H01": "an abstract list per bucket; the 8,192-byte bucket after the operation is compared with it, and all other buckets with their old contents",
"H02": "the table file kept by the fake `pwrite`, compared with memory after shutdown, for every interleaving of writer and write-back thread",
"H03": "the loaded region compared entry by entry with the file contents and the rule for toxic marks; the record of reads",
"H04": "exact arithmetic on the file size; the directory state after every system call",
"T01": "an arithmetic definition of the address of (extent, position)",
"T02": "set arithmetic on half-open intervals",
"C01": "a model of the wanted extents: the saved position must not be beyond any unfinished one",
"C02": "the values before the save; for start-up, the set of subvolumes and transaction numbers",
"C03": "a crash model of the directory and of unsynced data, evaluated before and after every system call",
"C04": "the previous and next range compared at each step of the crawler",
"C05": "a direct partition of 64-bit lengths; the list of extents of the tier in the fake tree",
"C06": "the references sorted by (inode, root, offset); the record of scans",
"D07": "the layout of the file after the move and its blocks' contents",
"C08": "a record of the state in memory, at each formatting and in the file",
"C09": "the transaction last reported by the fake kernel, the scans started, and the waits that had to expire",
"C07": "the identity of every descriptor in the fake file system",
"F01": "the fake kernel's own list of items and bytes", "F02": "lexicographic successor of (objectid, type, offset)",
"F03": "the maximum of the positions at or below the target", "F04": "a linear scan of the fake tree's items",
"F05": "the fake tree's extent items and the file size, tiled by a linear walk", "F06": "the reply's bytes and its own length",
"K01": "request and execution counters per task", "K02": "holder count; each refused task runs again", "K03": "live handle count at each execution",
"K04": "in-progress counters per group; all threads finish", "K05": "a list model of the cache; loader counters", "K06": "live instance count per name",
"K07": "owner per key and number of held keys", "K08": "user count per object; hook counters", "L01": "mathematical comparison in wider signed arithmetic",
"L02": "a shadow array; the engine's object bounds", "L03": "the fake file's bytes", "L04": "open descriptor set of the fake kernel",
"L05": "the bit-by-bit polynomial division",
}
TESTS = {"C": "schedules, crash points and subvolume states", "D": "file contents, layouts and kernel answers (no test touches this part)", "F": "kernel replies (tests cannot choose them)",
 "H": "table contents, I/O errors and interleavings", "K": "interleavings", "L": "all values and kernel transfer sizes", "T": "all 64-bit values"}
out = []
for l in open(V + "/properties.jsonl"):
    P = json.loads(l); i = P["id"]
    hs = sorted(glob.glob(V + "/harness/" + i + "_*.cc"))
    out.append("### %s %s" % (i, P["title"]))
    out.append("* code: " + "; ".join(m["where"] for m in P["anchors"]["mechanism"]))
    out.append("* oracle: " + ORACLE.get(i, "?"))
    out.append("* variables: " + P["quantifier"]["text"])
    for h in hs:
        t = open(h).read()
        jobs = len(re.findall(r"^// JOB:", t, re.M)); th = len(re.findall(r"^// THOROUGH:", t, re.M))
        out.append("* `%s` (%d quick jobs%s)" % (os.path.basename(h), jobs, ", %d more in the thorough tier" % th if th else ""))
        for k, n in (("BOUND", "bounds"), ("ASSUME", "assumes")):
            for m in re.findall(r"^// %s: (.*)" % k, t, re.M): out.append("  * %s: %s" % (n, m))
    out.append("")
props = "\n".join(out)
find = "\n".join("* " + l.strip() for l in open(V + "/known_findings.txt") if not l.startswith("#") and l.strip())
seed = ["", "", "| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists(V + "/tools/caught.txt"):
    for l in open(V + "/tools/caught.txt"):
        a = l.split(None, 1)
        if len(a) == 2: caught[a[0]] = a[1].strip()
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seed.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, m["property"])))
mut = open(V + "/tools/mutants.md").read() if os.path.exists(V + "/tools/mutants.md") else ""
t = open(V + "/tools/design.md.in").read()
open(V + "/DESIGN.md", "w").write(t.replace("@PROPS@", props).replace("@FINDINGS@", find).replace("@SEEDED@", "\n".join(seed)).replace("@MUTANTS@", mut))
