#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []      # property lines
C = []      # manifest checks
NA = []     # manifest not_applicable
T = "solver-based: symbolic execution of the compiled C++ (LLVM IR), SMT and interval constraint solving, native replay"
NOTE = "Decided for every value inside the stated bounds by path-forking symbolic execution of the real code's LLVM IR; counterexamples are replayed on the natively built code before they are reported, sampled paths are replayed to validate the encoding. Trusts clang's IR, z3, the interval solver and the stream and file-system models. "

def prop(pid, title, statement, over, text, why, files, mech, observe, state=(), note="", na=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b) for a, b in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=pid, reason=na))
    else:
        C.append(dict(property=pid, quick_cmd="python3 vf.py check %s --tier quick" % pid, thorough_cmd="python3 vf.py check %s --tier thorough" % pid, evidence_file="evidence/%s.json" % pid, technique=T, level="model_checking", level_note=NOTE + note))

AW = "ArcWelder/arc_welder.cpp"; SA = "ArcWelder/segmented_arc.cpp"; SS = "ArcWelder/segmented_shape.cpp"; GP = "GcodeProcessorLib/gcode_position.cpp"; PO = "GcodeProcessorLib/position.cpp"; PA = "GcodeProcessorLib/gcode_parser.cpp"; UT = "GcodeProcessorLib/utilities.cpp"
UNIT = "The stable tests only exercise number formatting and one parsing case; no stable test runs the welder at all, and a sampled file cannot cover the space of "
OUTF = "target file content"

prop("W01", "Welded output is the source with runs of moves replaced by arcs",
 "Apart from the inserted header, every line of the output is either a source line, in order and unchanged, or a generated arc command that replaces a run of consecutive linear moves. No other source line is lost, duplicated, reordered or altered, except that blank lines inside a replaced run, carriage returns and the bare ';' of an empty comment may vanish.",
 ["inputs", "configurations"], "all source files (line kinds, positions, endings) and option sets", UNIT + "line sequences around an arc.",
 [AW], [("buffering of not yet written commands", AW + " process_gcode, write_unwritten_gcodes_to_file"), ("removal of merged moves", AW + " write_arc_gcodes"), ("end of file", AW + " process")], [OUTF], [("unwritten commands", "lines read but not yet written")])
prop("W02", "Every arc ends in the same machine state as the moves it replaces",
 "After each generated arc a printer is at the X, Y and Z position, filament position and feedrate it would have after the replaced moves, up to the written precision. This holds for absolute and relative extrusion, coordinate offsets set by the source, and every option set.",
 ["inputs", "configurations", "histories"], "all move sequences, extrusion modes, offsets and option sets", UNIT + "state histories (modes, offsets, feedrates) before an arc.",
 [AW, SA, PO, GP], [("arc text", SA + " get_shape_gcode"), ("accumulated extrusion", SA + " try_add_point"), ("undo of the look-ahead command", AW + " write_arc_gcodes")], [OUTF], [("relative extrusion of the current arc", "sum of E over merged moves")])
prop("W03", "Arcs stay within half the resolution of the source path, same direction",
 "Every point and every segment of the replaced moves lies within half the configured resolution of the generated arc (plus written precision), the radius is within the configured maximum, the arc turns the way the moves turn and sweeps exactly their angle, at most one turn.",
 ["inputs", "configurations"], "all vertex positions, radii, directions, resolutions and radius limits", UNIT + "vertex coordinates and tolerances; the bound is a universally quantified inequality.",
 [SS, SA], [("deviation test", SS + " circle::is_over_deviation"), ("direction and angle", SS + " arc::try_create_arc"), ("slice test", SS + " arc::are_points_within_slice")], [OUTF])
prop("W04", "No arc spans a change of printer state",
 "The moves merged into one arc share one feedrate, one coordinate mode, one set of offsets and, unless 3D arcs are allowed, one height. Any command other than a linear move ends the arc before it is written.",
 ["inputs", "histories", "configurations"], "all interrupting commands at all positions, and all option sets", UNIT + "interleavings of state-changing commands with moves.",
 [AW], [("mergeability test", AW + " process_gcode")], [OUTF])
prop("W05", "Extrusion rate inside an arc varies at most by the configured variance",
 "When a flow-rate variance limit is set, the extrusion per millimetre of two consecutive moves merged into one arc never differs by more than that fraction; moves beyond it start a new arc.",
 ["inputs", "configurations"], "all extrusion amounts, segment lengths and variance limits", UNIT + "extrusion amounts and limits.",
 [AW], [("rate comparison", AW + " process_gcode")], [OUTF], [("previous extrusion rate", "rate of the last merged move")])
prop("W06", "Generated commands respect the maximum command length",
 "When a maximum command length is set, the text of every generated arc command (without comment) is at most that long.",
 ["inputs", "configurations"], "all limits, signs, digit counts and optional words", UNIT + "length limits and digit-count boundaries.",
 [SA, UT], [("length prediction", SA + " get_shape_gcode_length"), ("digit count", UT + " get_num_digits")], [OUTF])
prop("W07", "Generated commands use the configured precision and valid parameters",
 "Generated arcs always carry X, Y, I and J, never have a centre equal to the start, and print coordinates and extrusion with the configured number of decimals, or with the finest precision seen in the source so far when dynamic precision is on.",
 ["inputs", "configurations"], "all precisions, source spellings and option sets", UNIT + "combinations of precisions.",
 [SA, "ArcWelder/segmented_shape.h", AW], [("arc text", SA + " get_shape_gcode"), ("dynamic precision", AW + " process_gcode")], [OUTF])
prop("W08", "Firmware compensation rejects arcs drawn with too few segments",
 "With firmware compensation configured, no generated arc has a radius whose full circle the firmware would draw with fewer than the minimum number of segments, unless the arc is itself no longer than one such segment.",
 ["inputs", "configurations"], "all radii, arc lengths, segment lengths and minimum counts", UNIT + "radii and firmware settings.",
 [SA], [("compensation test", SA + " try_add_point_internal_")], [OUTF])
prop("W09", "The header is inserted once, states the settings, keeps marker lines first",
 "The output carries exactly one generated header, made of comments only and closed by an empty line, which states the settings of the run correctly. It comes first, except that an UltiGCode or PrusaSlicer marker stays the very first line.",
 ["inputs", "configurations"], "all first lines and option values", UNIT + "first lines and options.",
 [AW], [("marker detection", AW + " process"), ("header text", AW + " add_arcwelder_comment_to_target")], [OUTF])
prop("W10", "An in-place run never loses data and reports success truthfully",
 "At every moment of a run either the intact source or the complete result is on disk, whatever I/O step fails and whenever the run is cancelled. Success is reported exactly when the complete result is at its destination, and cancellation exactly when it was requested; the source is untouched when another target is given.",
 ["fault_sequences", "crash_points", "inputs"], "all single I/O faults, all disk-full offsets, all cancellation points, in place or not", "No test injects an I/O fault, cancels a run or overwrites a source.",
 [AW, UT], [("temporary file and replacement", AW + " process"), ("cancellation", AW + " on_progress_")], ["source, target and temporary files", "returned result"], [("temporary file", "result before it replaces the source")])
prop("W11", "Reported counts match the output",
 "The reported numbers of lines, commands, created arcs and compressed points equal what was read and what was written.",
 ["inputs", "histories"], "all source files and option sets", UNIT + "files; counters can drift on rare paths (reprocessed lines, file end).",
 [AW], [("counters", AW + " process_gcode, write_arc_gcodes")], ["returned result", OUTF])
prop("W12", "Travel, extrusion and retraction are never mixed in one arc",
 "All moves merged into one arc extrude, or all retract, or all travel. Travel moves are merged only when travel arcs are allowed.",
 ["inputs", "configurations"], "all sequences of move kinds and option sets", UNIT + "move-kind sequences.",
 [AW, SA], [("kind test", SA + " try_add_point"), ("travel option", AW + " process_gcode")], [OUTF])
prop("W13", "Helical arcs keep every merged point at its height",
 "With 3D arcs allowed, a printer following a generated helical arc passes every merged point at its source height, within half the resolution.",
 ["inputs"], "all height profiles along a run", UNIT + "height profiles.",
 [SS], [("height test", SS + " circle::is_over_deviation")], [OUTF])
prop("W14", "Comments of merged moves are kept on the arc",
 "Every comment on a move that is merged into an arc appears in the comment of the generated arc command.",
 ["inputs"], "all placements of comments and empty lines", UNIT + "comment placements.",
 [AW], [("comment collection", AW + " get_comment_for_arc")], [OUTF])
prop("W15", "Output does not depend on logging, progress reporting or buffer size",
 "For the same source and welding options the output and counts are identical whatever the log level, whether progress is reported, and whatever the size of the position buffer.",
 ["inputs", "configurations"], "all sources x log levels x callbacks x buffer sizes", "No test compares runs with different logging.",
 [AW, "GcodeProcessorLib/circular_buffer.h"], [("logging branches", AW + " process_gcode"), ("buffer growth", AW + " process_gcode")], [OUTF])
prop("W17", "Arc length stays within the path tolerance of the source path",
 "The length a printer travels along a generated arc differs from the length of the replaced moves by at most the configured path tolerance.",
 ["inputs", "configurations"], "all vertex positions and tolerances", UNIT + "vertex coordinates and tolerances.",
 [SS], [("length comparison", SS + " arc::try_create_arc")], [OUTF])

exec(open(os.path.join(V, "props2.py")).read()) if os.path.exists(os.path.join(V, "props2.py")) else None
P.sort(key=lambda p: p["id"]); C.sort(key=lambda p: p["property"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 vf.py setup", checks=C, not_applicable=NA,
    notes="All checks run the project's own symbolic executor (engine/) over LLVM bitcode compiled from /repo's current tree; no hooks in /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
# generated parts of DESIGN.md
import glob, re
def section(text, name, body): return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, body, name), text, flags=re.S)
D = os.path.join(V, "DESIGN.md"); t = open(D).read()
kf = json.load(open(os.path.join(V, "known_findings.json")))["fixed"]
t = section(t, "fixed", "\n".join("* " + re.sub(r"^fixed: property=(\w+) (\w+) ", r"`\1`, commit \2: ", x) for x in kf))
sd = []
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    j = json.load(open(f)); sd.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), j["property"], (j["what_it_breaks"].rstrip(".") + " (" + j["needs"].rstrip(".") + ")").replace("|", "/").replace("\n", " ")))
t = section(t, "seeded", "| Id | Caught by | Change (needs) |\n|---|---|---|\n" + "\n".join(sd))
open(D, "w").write(t)
