#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification, TLC trace validation of the real code"
ASCII = ("Every recorded conversion of the real code is judged by an independent TLA+ reader of the ASCII grammar; sound and complete for the recorded cases, "
         "which cover the packed spaces named in the evidence completely and the rest by generation. Trusts the TLA+ grammar, TLC and the trace recorder.")
PANEL = ("Recorded sessions of the real client with scripted panels over loopback are judged by the TLA+ session predicates, which TLC also checks as invariants of a model of the client (every loss, stall and cancellation between any two cells, bounded connections and frames). ")
CLAIMS = {
    "C08": (T, "model_checking", PANEL + "Segmentations of short streams are exhaustive, those of long ones sampled; ASCII lines are compared modulo surrounding blanks."),
    "C09": (T, "model_checking", PANEL + "Interleavings of submitters are those the scheduler produced."),
    "C10": (T, "model_checking", PANEL + "Header values are boundaries and samples; cut points of short frames are exhaustive. Promptness means within a second."),
    "C11": (T, "model_checking", PANEL + "Crash offsets of short streams are exhaustive; cancellation instants are sampled in every phase. Bounds: return within 3 s, reconnect within 1 s of the period. The consumer keeps reading until the call has returned, as documented."),
    "C12": (T, "model_checking", PANEL + "Reply classes are exhaustive, their delays sampled up to 1.85 s."),
    "C19": (T + ", race detector", "model_checking", "Recorded sessions of the real high-level client with scripted panels are judged by the TLA+ session predicates, which TLC also checks on a model of the client's queues (no order of reader, dispatcher, writer and user makes it stand still). Schedules of the real code are those the Go scheduler produced under the race detector. The initialisation window is judged outside of 0.3 s around its end."),
    "C01": (T, "exploration", ASCII), "C02": (T, "exploration", ASCII), "C03": (T, "exploration", ASCII), "C04": (T, "exploration", ASCII),
    "C05": (T, "model_checking", "Every history of chunk lines up to the model bound is replayed in four feeding disciplines plus the C wrapper and judged by a line-level TLA+ oracle that is itself checked against a reader model; longer histories are sampled. Trusts the oracle, TLC and the recorder."),
    "C06": (T + ", race detector", "exploration", "Totality and re-entrancy on the recorded calls only; schedules are those the Go scheduler takes under the race detector, not all interleavings. The TLA+ model states what concurrent calls may return."),
    "C07": (T, "exploration", "Recorded encodings are judged by the TLA+ line-stream specification; break positions are exhaustive for the listed documents, other messages sampled."),
    "C16": (T, "exploration", "Recorded drawing sequences are judged by a TLA+ canvas, whose own properties TLC checks on a small canvas; exact for pixels, lines and rectangles, footprint and clip for the rest. Coordinates up to 2^62 (the ends of the integer range for single pixels), canvases up to 130001 columns, 16000 rows or 66 KB."),
    "C17": (T, "exploration", "Recorded exports and conversions are recomputed pixel by pixel by the TLA+ specification of the formats; colours are exhaustive for 6 bits and 4 bits (and for 16 bits in the thorough tier), sizes and data sampled. Images too large for memory are out of scope."),
    "C20": (T, "exploration", "Recorded renderings are related to each other and to the reported metrics by the TLA+ specification; every character in every font is covered, longer strings sampled. Strings with line feeds are only bounded vertically."),
    "C18": (T, "exploration", "Recorded renderings are judged by TLA+ relations between the tile, its inversion, its geometry and the requested colours; fields are generated in their documented ranges. The glyphs themselves are not modelled; whether a text fits is taken from the library's text metrics, which C20 judges."),
    "C13": (T + ", race detector", "exploration", "Recorded look-ups are recomputed by the TLA+ overlay rule; every subset of override attributes is covered, their values are sampled. Negative sizes and handle indices in overrides may count as given or not."),
    "C14": (T, "exploration", "Recorded histories of transformations are judged step by step by the TLA+ transition relation, which TLC checks on a small model; section arrangements are exhaustive up to 6 components, the rest sampled. A type numbered 0 in the index is out of scope (0 means disabled)."),
    "C15": (T, "exploration", "Recorded documents are read by an independent flattening and judged element by element by the TLA+ specification; colours and text positions are not judged beyond the label order. Known finding: text before child elements in the base document."),
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CLAIMS:
        t, lev, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": lev, "level_note": note})
    else:
        na.append({"property": p, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
