"""Which symbolic-execution tasks decide which property (read by vf.py)."""
COMMON = [
    "clang 18 front end and -O1 IR are faithful to the C++ sources; z3 5.3.2 and the interval solver (engine/src/icp.cpp) are correct",
    "iostream, file system, clock and a few libstdc++ out-of-line routines are replaced by the models in engine/shim; sampled symbolic paths are replayed on the g++ build with the real library and compared",
    "number formatting of symbolic values in welder output is represented by the exact value and the requested number of decimals; real formatting is decided separately",
    "sin, cos, atan2 of symbolic arguments are over-approximated by sound interval bounds; candidates count only if the natively built code reproduces them",
]

M = dict(LINES=1, END=2, GEO=3, STATE=4, FLOW=5, MAXLEN=6, FMT=7, FW=8, STATS=9, TRAVEL=10, Z=11, COMM=12, LEN=13, SEG=14, FEAT=15)
INT = list(range(39)); DIG = [40, 41, 42, 43, 44, 45, 46]; XY = list(range(50, 60)); CFG = list(range(60, 92)); PAIR = list(range(100, 139)); FLOWINT = list(range(140, 179))
HEAVY = {66: 30, 83: 10, 87: 10, 63: 10}

def w(mask, scens, deep=(), **kw):
    r = [dict(h="welder", case=M[mask] * 1000 + s, weight=HEAVY.get(s, 2), witness=1, **kw) for s in scens]
    return r + [dict(h="welder", case=M[mask] * 1000 + s, tier="thorough", weight=5, witness=1, **kw) for s in deep]

def c(h, cases, **kw):
    return [dict(h=h, case=x, **kw) for x in cases]

def cb(mask, rows=range(0, 480), geo=range(5000, 5060), fb=()):
    m = M[mask] * 10000; q = list(rows) + list(geo) + list(fb); deep = [r for r in list(range(480, 3000)) + list(range(5060, 5600)) + list(range(6000, 6324)) if r not in set(q) and r != 747]
    return [dict(h="combo", case=m + r, weight=1, witness=1) for r in q] + [dict(h="combo", case=m + r, tier="thorough", weight=1, witness=1) for r in deep]

PSLOW = {149, 121, 290, 259, 945, 646, 537, 426, 854, 508, 940, 747, 1043, 1057, 1072, 1087, 1101, 1159, 1173, 2026, 2053, 2096, 2109, 2144, 2147, 2149, 3005, 3008, 3009, 3016, 3017, 3019, 3034, 3037, 3038, 3043, 3046, 3060, 3064, 3075, 3087, 3094, 3102, 3111, 3112, 3119, 3129, 3130, 3152, 3171, 3183, 3184}
PQ = list(range(0, 500)) + list(range(1000, 1120)) + list(range(2000, 2120)) + list(range(3000, 3120))
PD = list(range(500, 1000)) + list(range(1120, 1200)) + list(range(2120, 2200)) + list(range(3120, 3200))
def pos(mask, quick=PQ, deep=PD):
    return [dict(h="position", case=mask * 10000 + r, weight=9 if r in (157, 32, 19, 143, 247, 245, 64, 326, 398, 435, 442, 2093, 3032, 3017, 1015) else 1, witness=1) for r in quick if r not in PSLOW] + [dict(h="position", case=mask * 10000 + r, tier="thorough", weight=20 if r in PSLOW else 1, witness=1) for r in list(deep) + sorted(PSLOW & set(quick))]
def one(h, base, idx, w=1, tier=None, **kw):
    return [dict(h=h, case=base + i, weight=w, witness=1, **(dict(tier=tier) if tier else {}), **kw) for i in idx]
IHEAVY = {11: 8, 13: 10, 19: 8}
def inv(mask, scens=range(0, 27), **kw):
    return [dict(h="inverse", case=mask * 10000 + sc * 100 + k, weight=IHEAVY.get(sc, 5 if sc < 10 else 1), witness=1, **kw) for sc in scens for k in range(8) if (sc != 16 or k in (1, 2, 6)) and (sc != 17 or k in (1, 7))]
BI = ("All 8 simulated firmware versions with their default settings; arcs of radius 0.8 to 40 mm, sweeps of 3 to 360 degrees in both directions, 4 start angles, absolute and relative coordinates and filament, with any filament amount (two decimals), height and feedrate digits; "
      "coordinate offsets, tool changes, arcs with omitted words, arcs in a row, 16 kinds of other lines (with look-alikes such as G3.1 and M3), free segment length (0.4 to 4 mm), minimum segment length, minimum segments 1 to 60, segments per second 5 to 60, correction intervals 0 to 40, end points off the circle by up to 0.01 mm. "
      "Outside: arcs given by R (not expanded by the program), planes other than XY, several free numbers per arc beyond those, more than 65535 segments, full circles which the simulated Marlin 1 and Prusa firmware themselves drop through rounding.")
BP = ("828 command histories (quick; 1600 thorough) of 6 to 14 commands from a generated covering table over motion, G92, G28, G90/G91, M82/M83, tool changes, tool offsets and other commands, 1 to 8 tools, shared or separate extruders, zero- or one-based tools, every default mode, home positions, position buffers of 2 to 50 entries; "
      "a part of them concentrates on tool changes and tool offsets, on axes that are not known yet, and on filament; up to 3 commands of every history carry free parameter values (+-300 mm, feedrate to 20000). Outside: longer histories, G18/G19 planes, G20 inches.")

BW = ("Sources of 5 to 130 lines around one or two curves (radius 0.3 to 6000 mm): one of 39 kinds of interrupting line at 3 places x both extrusion modes x 3 option sets, ordered pairs of interruptions, "
      "and scenarios in which extrusion digits, feedrate digits, one vertex coordinate, heights, or a numeric option (resolution, maximum radius, path tolerance, flow variance, segment length, minimum segments, length limit) is any value in its range; "
      "and 480 combined sources (quick; 3000 thorough) generated from a fixed covering table over geometry, noise, spelling, extrusion style, interruptions and options, each with up to 3 free fields (extrusion, feedrate, length limit, one coordinate). "
      "Outside: sources with several simultaneously free coordinates, curves of more than 120 moves.")

BPY = ("Every setting missing, as Python int, float or bool with any value (integers of 32 bits, numbers within +-1e6), alone beside complete or missing others, and all settings free at once; every required argument missing, None or of another type; wrong call tuples; a failing import of the logging module, any one logger call that raises; "
      "up to three progress calls with any figures, each answered by None, True, False, an integer or an exception; success, failure and cancellation with any final figures. The Python runtime is a stand-in (objects, reference counts, dictionaries, pending exception) compiled against the real Python.h, the conversion itself a stand-in which checks its settings. "
      "Outside: settings of unrelated types (text for a number), callback answers of other types, Python 2, interpreter memory exhaustion.")
def undef(tasks):
    return [dict(t, opts=t.get('opts', []) + ['--undef-check']) for t in tasks]
CHECKS = {
 "W01": dict(tasks=w("LINES", INT + DIG + XY + CFG + PAIR) + cb("LINES"), reach=["output explained", "arc judged"], bounds=BW),
 "W02": dict(tasks=w("END", INT + DIG + XY + CFG, PAIR) + cb("END"), reach=["arc judged"], bounds=BW),
 "W03": dict(tasks=w("GEO", XY + [0, 1, 2, 24, 99] + CFG, INT) + cb("GEO", geo=range(5000, 5200), fb=range(6000, 6324)), reach=["arc judged"], bounds=BW),
 "W04": dict(tasks=w("STATE", INT + DIG + CFG, PAIR) + cb("STATE"), reach=["arc judged"], bounds=BW),
 "W05": dict(tasks=w("FLOW", INT + DIG + CFG + FLOWINT, PAIR) + cb("FLOW"), reach=["arc judged"], bounds=BW),
 "W06": dict(tasks=w("MAXLEN", [64, 65, 0, 66, 87]) + cb("MAXLEN"), reach=["arc judged"], bounds="Length limit any value 0..80; all sign and digit-count combinations of X, Y, I, J, E, Z, F reached by 5 placements x 2 E modes x feedrate word; 2D and 3D. Outside: coordinates above 10^6."),
 "W07": dict(tasks=w("FMT", [66, 67, 98, 70, 87, 88, 89, 64, 65, 82] + INT) + cb("FMT"), reach=["arc judged"], bounds=BW),
 "W08": dict(tasks=w("FW", [63, 60, 76, 79, 87]) + cb("FW"), reach=["arc judged"], bounds="Segment length any hundredth 0.01..60 mm, minimum segments any 1..100, radii 2, 20, 100 mm, 6 and 20 moves."),
 "W11": dict(tasks=w("STATS", INT + DIG + XY + CFG, PAIR) + cb("STATS"), reach=["output explained"], bounds=BW),
 "W12": dict(tasks=w("TRAVEL", INT + DIG + [66, 70, 78, 79, 80, 87, 88, 89, 90], PAIR) + cb("TRAVEL"), reach=["arc judged"], bounds=BW),
 "W13": dict(tasks=w("Z", [68, 69, 70, 71, 65, 82, 88, 8]) + cb("Z"), reach=["arc judged"], bounds="Helices of 4 to 9 moves with one height any of 100 values, 5 pitches, height jumps at every position, resolution 0.05 and 0.2."),
 "W14": dict(tasks=w("COMM", [83, 91, 20, 85, 72, 84]) + cb("COMM"), reach=["arc judged"], bounds="Six moves, every subset commented (same, distinct or overlapping texts), empty lines at every position."),
 "W17": dict(tasks=w("LEN", [61, 62, 76, 79, 87, 70, 71, 60, 0], INT) + cb("LEN"), reach=["arc judged"], bounds=BW),
 "W09": dict(tasks=c("session", range(0, 11), witness=2), reach=["header checked"], bounds="First line: marker texts, marker with any final printable characters, any 3 printable characters; every header option with its value free on a decimal grid."),
 "W10": dict(tasks=c("session", range(1000, 1010), witness=4), reach=["run finished under faults"], bounds="One fault per run out of: source or target cannot be opened, disk full after any number of bytes, source read error, remove fails, rename fails, cancellation at the first or second progress report; in place or separate target; with or without directory; disk state checked before every file operation."),
 "W15": dict(tasks=c("session", range(2000, 2039), witness=1), reach=["runs compared"], bounds="The 39 interruption sources x both E modes x 2 option sets, compared between no logging and verbose, debug, progress callback, and position buffers of 3 and 303 entries."),
 "W16": dict(tasks=w("SEG", [x for x in INT if x != 34] + DIG + XY + CFG, PAIR) + cb("SEG"), reach=["statistics judged"], bounds=BW + " Moves whose length or filament is within rounding of zero are not judged; arcs of the source given by R or without a centre are not counted."),
 "W18": dict(tasks=w("FEAT", [92, 93, 94, 95, 96, 97, 0, 2, 3, 20, 83], INT) + cb("FEAT", rows=range(0, 60), geo=range(5000, 5010)), reach=["arc judged"], bounds="Seven moves, every pair of 8 comments (four features, look-alikes, none) at 5 places and alternating, both extrusion modes; and a part of the combined sources."),
 "S01": dict(tasks=pos(1), reach=["position judged"], bounds=BP),
 "S02": dict(tasks=pos(2), reach=["position judged"], bounds=BP),
 "S03": dict(tasks=pos(3), reach=["undo judged"], bounds=BP),
 "S04": dict(tasks=pos(4), reach=["position judged"], bounds=BP),
 "S05": dict(tasks=pos(5), reach=["position judged"], bounds=BP),
 "S06": dict(tasks=pos(6), reach=["extrusion judged"], bounds=BP + " Extrusion amounts within the tracker's own tolerance (0.00002 mm) of zero or of the primed point are not judged."),
 "S07": dict(tasks=pos(7), reach=["motion judged"], bounds=BP),
 "S08": dict(tasks=pos(8, quick=[x for x in range(4000, 4300) if x not in (4159, 4111, 4211)] + list(range(8000, 8060)) + list(range(9000, 9100)), deep=range(4300, 4600)), reach=["layer judged"], bounds="457 command histories (quick; 760 thorough) of 9 to 14 commands concentrating on heights and extrusion; free coordinates (+-150 to 250 mm, heights 0 to 3 mm) in up to 3 commands of each; rectangular and circular areas, priming height, minimum layer height, height increments, 1 to 8 tools. Filament amounts are fixed numbers; 100 histories place heights and coordinates exactly on the limits, 60 change between tools with different lift heights; heights and coordinates otherwise within the tracker's own tolerance (0.00002 mm) of a limit are not judged."),
 "S09": dict(tasks=one("comments", 0, range(0, 160)) + one("comments", 1000, range(0, 60)) + one("comments", 2000, [a * 29 + b for a in (1, 4, 9, 14, 23) for b in range(29)]) + one("comments", 2000, [a * 29 + b for a in range(29) if a not in (1, 4, 9, 14, 23) for b in range(29)], tier="thorough") + one("comments", 0, range(160, 900), tier="thorough"), reach=["feature judged"], bounds="220 sequences (quick; 960 thorough) of up to 6 section and line comments from all texts the three slicers use and look-alikes, with any one character of any text free, inserted or dropped; 145 (thorough: all 841) ordered pairs of section texts with any character before or behind the second."),
 "G01": dict(tasks=one("parser", 0, range(0, 30)) + one("parser", 1000, [x for x in range(0, 30) if x != 21]) + one("parser", 2000, [9, 19, 30, 34, 43]) + one("parser", 3000, range(32, 47)), reach=["line kept"], bounds="30 line shapes with 1 to 4 arbitrary bytes (1..255) each, in a heap block of exactly the line's size; numbers of up to 7 digits before and 7 after the point."),
 "G02": dict(tasks=one("parser", 1000, range(0, 30), 20), reach=["word judged"], bounds="30 line shapes with 1 to 4 arbitrary bytes (1..255) each."),
 "G03": dict(tasks=one("parser", 2000, [k for k in range(0, 40)]) + one("parser", 2000, [8 * (fd + 1) + i for fd in (7, 8, 9, 10) for i in (0, 1, 2)]) + one("parser", 2000, range(40, 64), tier="thorough") + one("parser", 3000, [x for x in range(0, 47) if x not in (38, 39)]), reach=["number judged"], bounds="Numbers with 0 to 7 digits before and 0 to 4 (thorough: 6) after the point, up to 2 before and 7 to 10 after (value to within 1e-9), all digits free, 6 sign and space spellings, 6 lines around them; every interpreted command; tool numbers of 1 to 6 free digits; every subset of home axes in 4 spellings."),
 "G04": dict(tasks=one("parser", 0, range(0, 30)), reach=["line kept"], bounds="30 line shapes with 1 to 4 arbitrary bytes (1..255) each."),
 "F01": dict(tasks=one("format", 0, range(0, 680)) + one("format", 10000, [10074 - 10000, 42, 38, 40, 72, 10, 8, 6, 39, 95, 7, 70, 41, 69, 67, 5, 31, 36, 9, 79, 94, 63], 30) + one("format", 10000, range(0, 96), 30, tier="thorough") + one("format", 40000, [1, 2]), reach=["number judged"], bounds="Every digit string of 1 to 17 free digits scaled by 10^-26 to 10^13, at precisions 0 to 7, 12, 19 and 25; 22 (thorough: 96) families of doubles between 1e-16 and 1e9 with 4 free mantissa bits, both signs, precisions 0 to 6; zero. Outside: other mantissa patterns in the digit generation (grisu2)."),
 "F02": dict(tasks=one("format", 30000, range(0, 28)) + one("format", 40000, [0]), reach=["width judged"], bounds="Every double up to 1.5 million in magnitude at precisions 0 to 6 (to within 1% of half a unit of the last decimal), every int."),
 "I01": dict(tasks=inv(1), reach=["file expanded"], bounds=BI),
 "I02": dict(tasks=inv(2), reach=["arc end judged"], bounds=BI),
 "I03": dict(tasks=inv(3), reach=["arc path judged"], bounds=BI + " Vertices are compared with the circle up to the error of the small-angle steps the simulated firmware takes, and rounding."),
 "I04": dict(tasks=inv(4), reach=["segments judged"], bounds=BI + " Segment counts within one of the exact quotient are accepted where the simulated firmware computes it in single precision."),
 "I05": dict(tasks=inv(1, opts=["--undef-check"]), o0=True, reach=["file expanded"], bounds=BI + " Decided on unoptimised IR, so that reads the optimiser would remove count."),
 "K01": dict(tasks=one("containers", 0, [1, 2, 3]) + one("containers", 1000, [1, 2, 3]) + one("containers", 2000, [1, 2, 3]) + one("containers", 4000, range(1, 7)) + [dict(h="containers", case=3000 + i, opts=["--throw-ok"]) for i in range(6)] + [dict(h="containers", case=x, tier="thorough", weight=50) for x in (4, 5, 1004, 1005, 2004, 2005, 2006)], reach=["sequence judged"], bounds="Every state (rotation, fill) of capacities 1 to 3 (thorough: 5), any two operations, then (ring) a full turn of pushes; lists growing at 48 to 50 items; item values free; resizing to every size that holds the items. Copies onto larger, equal and smaller targets, every rotation and fill of the source."),
 "W19": dict(tasks=one("session", 3000, range(0, 184), w=5), reach=["progress judged"], bounds="Sources of 0, 1, 2 and 999 to 2001 lines (reports are due every 1000 lines), ending in a command, a comment with any two printable characters, a move or an empty line, with or without a final line end, LF or CRLF, with or without a first line that has to stay first, with a callback that goes on or stops at any report, or without one; reports as often as the code allows, or every second with any time between two readings of the processor clock. Blank lines of a carriage return only may be counted as commands. Outside: failing file operations (W10), time estimates beyond being finite and not negative."),
 "S10": dict(tasks=undef(pos(1)), o0=True, reach=["position judged"], bounds=BP + " Decided on unoptimised IR, so that reads the optimiser would remove count."),
 "W20": dict(tasks=undef(w("LINES", INT + DIG + XY + CFG) + cb("LINES", rows=range(0, 120), geo=range(5000, 5010))), o0=True, reach=["output explained"], bounds=BW + " Decided on unoptimised IR, so that reads the optimiser would remove count."),
 "C01": dict(tasks=one("console", 0, range(0, 288)) + one("console", 1000, range(0, 11)), reach=["run judged"], bounds="Nine numeric options x 32 value texts with up to 3 free digits or any printable characters; all switches in both spellings; option, progress and log level names with any one character replaced; 1 to 3 paths in any order; duplicate, unknown, empty and valueless options; several options at once. Outside: unknown words without a dash (taken as paths), combined short switches, everything behind --."),
 "C02": dict(tasks=one("straight", 0, range(0, 400)) + one("straight", 1000, range(0, 10)), reach=["run judged"], bounds="Ten numeric options x 32 value texts with up to 3 free digits or any printable characters, every option with each of the 8 simulated firmware versions; firmware names, versions, G90 behaviour and log level names with any one character replaced; 1 to 3 paths in any order; duplicate, unknown, empty and valueless options; all options of a firmware at once. Outside: unknown words without a dash (taken as paths), combined short switches, everything behind --; numbers the program documents no range for are all accepted."),
 "C03": dict(tasks=one("straight", 2000, [0, 2, 3, 4, 5, 6]), reach=["run judged"], bounds="A source of seven lines; one fault per run out of: target cannot be opened, disk full after any number of bytes, source read error, remove fails, rename fails; in place (named or not) or separate target; with or without directory; disk state checked before every file operation."),
 "P01": dict(tasks=one("pymod", 10000, [b * 1000 + st * 10 + f for b in (0, 1) for st in range(14) for f in (0, 1, 2)] + [2000, 2001]) + one("pymod", 10000, list(range(4000, 4018))), reach=["call judged"], bounds=BPY),
 "P02": dict(tasks=one("pymod", 20000, [3000, 3001, 3002, 3100, 3101, 3102, 3103], w=20), reach=["call judged"], bounds=BPY),
 "P03": dict(tasks=one("pymod", 40000, [3000, 3001, 3002], w=20) + one("pymod", 40000, [3100, 3101, 3102, 3103] + list(range(4000, 4018)) + list(range(4100, 4119)) + [4900]), reach=["call judged"], bounds=BPY),
}
