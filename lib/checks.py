"""One function per property: which models are checked, which behaviours are recorded, which module validates them."""
import json, os


def load(path):
    return json.load(open(path, encoding="utf-8"))


def save_cases(path, cases):
    with open(path, "w", encoding="utf-8") as f:
        f.write("[\n" + ",\n".join(json.dumps(c, sort_keys=True) for c in cases) + "\n]\n")


def unhex(s):
    """bytes as the specification sees them: one character per byte"""
    return bytes.fromhex(s).decode("latin-1")

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def nt_msgs(c):
    return bool(c.get("lines")) and bool(c.get("msgs"))


@check("C01")
def c01(r):
    d = r.drive("ascii-in-enc")
    if d:
        r.validate("CheckAsciiIn", "CheckAsciiIn", d + "/enc.json", nt_msgs)
        r.validate("CheckAsciiIn", "CheckAsciiInFlat", d + "/enc-flat.json", nt_msgs)
    r.finish("exploration", "inbound messages: complete packed spaces (mode, extended value, 6-bit colours, font/size/advanced bytes), all single "
             "text fields and field pairs, random subsets, all graphics chunk boundaries, every command and command pair, registers, mixed message "
             "lists; non-trivial: the message produces at least one line; distinct by message and lines")


@check("C02")
def c02(r):
    d = r.drive("ascii-in-dec")
    if d:
        r.validate("CheckAsciiIn", "CheckAsciiIn", d + "/dec.json", lambda c: bool(c.get("msgs")))
    r.finish("exploration", "inbound line sequences (words, packed words, text lines with every field/field pair/truncation, colours with and without "
             "readability bit, graphics transfers, JSON states and message arrays, registers, mutated keywords), decoded in one call and line by line "
             "through the streaming reader; non-trivial: at least one message results")


@check("C03")
def c03(r):
    d = r.drive("ascii-out-enc")
    if d:
        r.validate("CheckAsciiOut", "CheckAsciiOut", d + "/enc.json", nt_msgs)
        r.validate("CheckAsciiOut", "CheckAsciiOutFlat", d + "/enc-flat.json", nt_msgs)
        # the C wrapper: one message in, its lines joined by line feeds out
        res = r.cbind(load(d + "/wires.json"), [])
        if res:
            cs = load(d + "/cbind.json")
            for c, o in zip(cs, res["wires"]):
                if o["panic"]:
                    c.update(kind="panic", panic=o["panic"])
                else:
                    t = unhex(o["out"][0])
                    c["lines"] = t.split("\n") if t else []
                    c["counts"] = [len(c["lines"])]
            save_cases(d + "/cbind-enc.json", cs)
            r.validate("CheckAsciiOut", "CheckAsciiOut", d + "/cbind-enc.json", nt_msgs)
    r.finish("exploration", "outbound messages: all edges, signed value ranges, capability subsets, pairs of message members and identity members, system "
             "statistics at protocol resolution, message lists, payloads over several lines; non-trivial: at least one line is produced")


@check("C04")
def c04(r):
    d = r.drive("ascii-out-dec")
    if d:
        r.validate("CheckAsciiOut", "CheckAsciiOut", d + "/dec.json", lambda c: bool(c.get("msgs")))
    r.finish("exploration", "outbound line sequences: every event kind with edges and values, map entries, capability words, statistics, identity, payloads, "
             "registers, mutated keywords; non-trivial: at least one message results")


@check("C05")
def c05(r):
    alpha = os.path.join(r.work, "alphabet.json")
    r.design("ReassemblyModel", env={"OUT_FILE": alpha})
    if r.thorough:
        r.design("ReassemblyModel", "ReassemblyModelDeep", env={"OUT_FILE": alpha})
    nt = lambda c: c["kind"] == "cut" or bool(c.get("obs"))
    key = lambda c: json.dumps([c.get("texts"), c.get("stream")])
    d = r.drive("reassembly", ["-in", alpha])
    if d:
        r.validate("CheckReassembly", "CheckReassembly", d + "/histories.json", nt, keyf=key)
        r.validate("CheckReassembly", "CheckReassembly", d + "/cuts.json", nt, keyf=key)
    d = r.drive("reassembly-cbind", ["-in", alpha])
    if d:
        res = r.cbind([], load(d + "/lines.json"))
        if res:
            wires = os.path.join(d, "wires.json")
            json.dump([[x["out"] or [] for x in h] for h in res["lines"]], open(wires, "w"))
            r.drive("images-of", ["-in", wires], name="reassembly-cbind")
            imgs = load(d + "/images.json")
            cs = load(d + "/cbind.json")
            for c, h, o in zip(cs, res["lines"], imgs):
                c["obs"] = o
                for x in h:
                    if x["panic"]:
                        c.update(kind="panic", panic=x["panic"])
            save_cases(d + "/cbind-hist.json", cs)
            r.validate("CheckReassembly", "CheckReassembly", d + "/cbind-hist.json", nt, keyf=key)
    r.finish("model_checking", "line histories over 2 targets, 2-3 colour formats, both header forms, index and unrelated lines: every history up to the "
             "model's bound, plus generated longer ones; fed as one batch, line by line, line by line with the reader carried through its JSON form, and "
             "through the C wrapper; plus the chunk lines of images of every size from 1 to several chunks, with unrelated lines in between; "
             "non-trivial: at least one image is delivered (or cut)")


@check("C06")
def c06(r):
    r.design("Converters")
    d = r.drive("total", race=True)
    if d:
        r.validate("CheckConverters", "CheckConverters", d + "/calls.json", lambda c: not c["seq"].startswith("0/"), keyf=lambda c: c["f"] + c["in"])
    r.finish("exploration", "calls of the four converters and the streaming reader: hostile and almost-grammatical lines, their truncations and mutations, "
             "line histories, very long lines; messages decoded from wire bytes with every sub-message present but empty, single fields with edge values, "
             "random presence patterns, damaged and arbitrary wire bytes; each argument called alone and by six goroutines at a time in different orders, "
             "sharing the argument, with and without debug printing, under the race detector; non-trivial: something is returned")


@check("C07")
def c07(r):
    r.design("LineStream")
    d = r.drive("lineframe")
    if d:
        r.validate("CheckLineFraming", "CheckLineFraming", d + "/frames.json", lambda c: bool(c.get("lines")))
    d = r.drive("linestream")
    if d:
        r.validate("CheckLineFraming", "CheckLineFraming", d + "/streams.json", lambda c: bool(c.get("lines")))
    r.finish("exploration", "encodings of messages whose texts contain line breaks: JSON, SVG and message texts broken at every single position, everywhere "
             "and at random places, with LF, CRLF and surrounding blanks, in every payload that is flattened; every string field of both message types with "
             "line feeds; random messages; the bytes an ASCII panel receives from the reconnecting and from the high-level client that are given such "
             "messages, against the produced strings; non-trivial: at least one line is produced")


@check("C16")
def c16(r):
    r.design("CanvasModel")
    d = r.drive("canvas")
    if d:
        r.validate("CheckCanvas", "CheckCanvas", d + "/draws.json", lambda c: any(s["set"] or s["clr"] for s in c["steps"]))
    r.finish("exploration", "sequences of drawing operations and settings on canvases of all small and some large sizes, with zeros, ones or random bytes as "
             "previous content: every pixel of a window around small canvases under several bounding boxes; all starts and lengths of lines and rectangles "
             "around small canvases; round shapes of all small sizes and radii; random sequences with coordinates near, far and at the ends of the "
             "integer range; non-trivial: at least one bit of the buffer changes")


@check("C17")
def c17(r):
    d = r.drive("pixfmt")
    if d:
        r.validate("CheckPixels", "CheckPixels", d + "/pixels.json", lambda c: c.get("w", 0) > 0 and c.get("h", 0) > 0)
    r.finish("exploration", "exports of mono images of all small sizes, all 64 six-bit colours and random 16-bit ones; graphics states of the three formats with "
             "complete, short and longer data, converted through PNG, directly, and onto images of other sizes; every 16th (thorough: every) RGB565 value and "
             "every grey and mono byte; non-trivial: the image has at least one pixel")


@check("C20")
def c20(r):
    d = r.drive("textmetrics")
    if d:
        r.validate("CheckText", "CheckText", d + "/texts.json", lambda c: any(x["ink"] for x in c["runs"]))
    r.finish("exploration", "renderings of every single character and of generated strings in every font, proportional and fixed, with character spacing, at "
             "several cursors (also partly beyond the left and upper edges) and sizes; non-trivial: at least one pixel is lit")


@check("C18")
def c18(r):
    d = r.drive("tiles")
    if d:
        r.validate("CheckTiles", "CheckTiles", d + "/tiles.json", lambda c: bool(c["imgs"][-1]) if c["kind"] == "bar" else c["w"] > 0 and c["h"] > 0)
    r.finish("exploration", "rendered tiles: every formatting, icon, colour index and colour level, all small tile sizes, usual and random geometries with shrink "
             "bits and borders, states with every field generated in its documented range; each state rendered plain, again (with other renderings going on), "
             "and inverted; one- and two-line texts with their reported metrics; strength bars over growing values; non-trivial: the tile has pixels")


@check("C13")
def c13(r):
    r.design("TopologyModel")
    d = r.drive("topo-lookup", race=True)
    if d:
        r.validate("CheckTopology", "CheckTopology", d + "/lookups.json", lambda c: bool(c["topo"]["hwc"]))
    r.finish("exploration", "topologies with every subset of override attributes over complete, empty and complementary base definitions, every input, output and "
             "extended kind, and generated ones (duplicate ids, disabled components, types missing from the index, as built or as parsed from JSON); every "
             "getter and both resolvers for every id, absent ids and positions, in random order and from three goroutines under the race detector; "
             "non-trivial: the topology has components")


@check("C14")
def c14(r):
    r.design("TopologyModel")
    d = r.drive("topo-transform")
    if d:
        r.validate("CheckTopology", "CheckTopology", d + "/histories.json", lambda c: bool(c["topo"]["hwc"]))
        r.validate("CheckTopology", "CheckTopology", d + "/crowds.json", lambda c: c["n"] > 1)
    r.finish("exploration", "sequences of renumberings in both modes, section removals, round trips through JSON and look-ups on generated topologies; every "
             "arrangement of section markers among up to 6 (thorough: 9) components; every attribute alone; renumberings of 1500 types at once (collisions); "
             "non-trivial: the topology has components")


def mixed_text(c):
    """the known finding: the pieces of a mixed element's content are all there, in another order"""
    def pieces(e):
        m = [x for x in e["mix"] if x.startswith("e:")]
        return e["n"], m, sorted("".join(x[2:] for x in e["mix"] if x.startswith("t:")).replace(" ", ""))
    if c["kind"] == "mixed" and c["wellformed"] and not c["empty"] and len(c["kept"]) == len(c["els"]):
        if all(pieces(a) == pieces(b) for a, b in zip(c["kept"][1:], c["els"][1:])):
            return "mixed-text"


@check("C15")
def c15(r):
    d = r.drive("svg")
    if d:
        r.validate("CheckSvg", "CheckSvg", d + "/svg.json", lambda c: bool(c.get("added")) or c["kind"] == "invalid",
                   classify=mixed_text)
    r.finish("exploration", "composite documents of generated topologies over base documents (namespaces, multi-line attributes, CDATA, comments, nested, "
             "generated), availability maps (none, empty, partial), all combinations of options; every truncation of the base documents, other non-XML, "
             "damaged documents and topologies; non-trivial: a component is drawn, or the base document is not XML")


def panel_models(r):
    r.design("PanelClientMC", "PanelClientDeep" if r.thorough else "PanelClientMC")
    r.design("PanelClientMC", "PanelClientDeepLive" if r.thorough else "PanelClientLive")


def scripts(r):
    """behaviours of the environment enumerated by TLC, replayed against the real client"""
    f = os.path.join(r.work, "scripts.json")
    r.tlc("PanelScripts", env={"SCRIPT_FILE": f, "SCRIPT_DEPTH": "long" if r.thorough else "short"})
    r.sessions("panel-scripts", ["-in", f], timeout=600)


SESSIONS = ("%s; non-trivial: a session in which a connection is accepted (or an attempt is cancelled); distinct by script and messages, not by times")


@check("C08")
def c08(r):
    panel_models(r)
    scripts(r)
    r.sessions("panel-framing", timeout=400)
    r.finish("model_checking", SESSIONS % "model behaviours and sessions with a scripted panel: every single and most double cuts of a short stream including the "
             "reply, 1-byte dribble, random cuts of long streams, payloads of 0..499999 bytes, pauses beyond the in-frame timeout between "
             "messages and within lines, slow frames, LF and CRLF")


@check("C09")
def c09(r):
    panel_models(r)
    r.sessions("panel-submit", timeout=400)
    r.finish("model_checking", SESSIONS % "sessions in which 1-4 routines submit lists (empty, long, with large images) in either encoding, with incoming traffic, slow "
             "panels, pauses, on first and later connections")


@check("C10")
def c10(r):
    panel_models(r)
    scripts(r)
    r.sessions("panel-broken", timeout=400)
    d = r.drive("panel-alloc")
    if d:
        r.validate("CheckPanel", "CheckPanel", d + "/alloc.json", env={"PROP": "C10"})
    r.finish("model_checking", SESSIONS % "sessions with headers from 500000 to 2^32-1, frames cut at every offset and stalled, payloads that are no message "
             "(every single byte, every bit flip of short messages, random), combinations over reconnects; memory taken per header value")


@check("C11")
def c11(r):
    panel_models(r)
    scripts(r)
    r.sessions("panel-life", timeout=400)
    r.finish("model_checking", SESSIONS % "sessions lost (FIN, half close, RST) at every offset of a stream in either encoding and within the reply, cancelled in every "
             "phase and at every offset, with default and configured periods, absent panels, blocked writers")


@check("C12")
def c12(r):
    panel_models(r)
    r.sessions("panel-probe", timeout=400)
    r.sessions("panel-detect", timeout=400)
    r.finish("model_checking", SESSIONS % "replies to the probe of every class x delays 0..1.85 s x segmentations, followed or not by a close, for the reconnecting client "
             "and the stand-alone detector")


@check("C19")
def c19(r):
    r.design("HighLevelMC", "HighLevelLong" if r.thorough else "HighLevelMC")
    if r.thorough:
        r.design("HighLevelMC", "HighLevelDeep")
    f = os.path.join(r.work, "hscripts.json")
    r.tlc("HighLevelScripts", env={"SCRIPT_FILE": f, "SCRIPT_DEPTH": "long" if r.thorough else "short"})
    r.sessions("gorwp-scripts", ["-in", f], timeout=600, module="CheckHighLevel", race=True)
    r.sessions("gorwp", timeout=600, module="CheckHighLevel", race=True)
    r.sessions("gorwp-init", timeout=300, module="CheckHighLevel", race=True)
    r.finish("model_checking", SESSIONS % "model behaviours and sessions of the high-level client with a scripted panel in either encoding, under the race detector: every "
             "single cut of a short stream, histories of events of all kinds, pings and updates, bursts whose handlers send feedback, registration by other "
             "routines and by handlers, broken frames and disconnects at any position, arrival of the initial information around the window")
