"Writes /verif/MANIFEST.json from the checks that exist."
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real client code on simulated servers"
NOTES = {
 "C01": "random schema histories synchronized against executable catalogs of four dialects; the discovered model, a second synchronization and the catalog are compared with the target",
 "C02": "reference map of kept values before/after each synchronization of populated databases, incl. enumeration migrations",
 "C03": "object survival under drop permissions and outside the mapped namespaces, over random histories with bystander objects",
 "C04": "faults (errors, lost connections, crashes, cancellation) at every round trip of a synchronization, then recovery",
 "C05": "row and object writes on simulated servers compared with a keyed map reference model",
 "C06": "instrumented record sources: consumption order, exactly-once, bounded read-ahead, end state",
 "C07": "faults at arbitrary round trips of bulk writes: only a clean prefix of batches may be visible; retry converges",
 "C08": "concurrent writers of enumeration columns under seeded interleavings: lookup table stays one-to-one and labels resolve",
 "C09": "injected driver errors at arbitrary round trips: error surfaces with the statement and the client's model stays truthful",
 "C10": "connection attempts recorded by simulated servers with varying TLS abilities; leak accounting under faults",
 "C11": "event-loop heartbeat, thread accounting and cancellation under stalled blocking drivers",
 "C12": "TSV round trips through streams with seeded chunking, short reads and stalls",
 "C13": "query results through seeded row sets compared with a typed reference; width, name and type mismatches must fail",
 "C14": "discovery of random catalogs with shuffled results and injected failures at each catalog query",
 "C15": "several connections, dialects and tasks interleaved; each must behave as if alone",
 "C16": "random sample data for random types under controlled seeds and clocks",
}
NA = {
 "C17": "parsing and formatting of connection strings is a pure function of its input: no schedule, clock, I/O or fault can influence it, so simulation has nothing to control",
 "C18": "identifier and literal quoting are pure string functions: no schedule, clock, I/O or fault can influence them (C01-C05 exercise the quoting of ordinary names end to end)",
 "C19": "type compatibility is a pure function of two type descriptors without concurrency, time, I/O or several parties",
 "C20": "generating Python classes from a catalog model is a pure function; the part that depends on a server (discovery) is C14",
}
checks, na = [], []
for i in range(1, 21):
    c = f"C{i:02d}"
    if os.path.exists(f"{ROOT}/dst/checks/{c.lower()}.py"):
        checks.append({"property": c, "quick_cmd": f"./check {c} quick", "thorough_cmd": f"./check {c} thorough", "technique": TECH, "level": "exploration",
                       "level_note": NOTES[c], "evidence_file": f"evidence/{c}.json"})
    elif c in NA:
        na.append({"property": c, "reason": NA[c]})
    else:
        na.append({"property": c, "reason": "not checked yet; a simulation check is being built"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
