# further properties (executed by props.py)
FP = "GcodeProcessorLib/fpconv.cpp"; EX = "GcodeProcessorLib/extruder.cpp"; CB = "GcodeProcessorLib/circular_buffer.h"; AL = "GcodeProcessorLib/array_list.h"; PC = "GcodeProcessorLib/parsed_command.cpp"; PP = "GcodeProcessorLib/parsed_command_parameter.cpp"
POSQ = "the tracked position after each command"; HI = "No stable test runs the position tracker; its state depends on the whole command history and on free numeric values."
PR = "The one stable parser test feeds a handful of fixed lines."
prop("S01", "Tracked position, feedrate and modes follow the moves and mode commands",
 "After any history of G0-G3, G90, G91, M82 and M83 commands the tracked axis positions, feedrate, filament position per tool and absolute/relative modes are those of a machine executing it. An axis counts as known only once the history determines it.",
 ["histories", "inputs", "configurations"], "all command histories, parameter values and default modes", HI,
 [GP, PO], [("motion", GP + " process_g0_g1, update_position"), ("modes", GP + " process_g90 .. process_m83")], [POSQ], [("x_null .. f_null", "axis or feedrate not determined yet")])
prop("S02", "Coordinate offsets set by G92 are tracked exactly",
 "G92 never moves the machine: it redefines the coordinates of the named axes and of the current tool's filament (all of them if none is named), and later moves, homing and tool offsets are interpreted in these coordinates.",
 ["histories", "inputs"], "all histories with G92 at any place and any value", HI,
 [GP, PO], [("coordinate offsets", GP + " process_g92"), ("reported coordinates", PO + " get_gcode_x")], [POSQ], [("x_offset .. e_offset", "difference between coordinates and machine position")])
prop("S03", "Undo restores earlier states exactly and the position history never changes",
 "Undoing any number of processed commands restores exactly the earlier state, entries of the position history stay what they were when later commands are processed, and enlarging the history keeps its entries.",
 ["histories", "configurations"], "all histories of commands, undos and growth, all buffer sizes", HI,
 [GP, CB], [("history", GP + " update, undo_update, grow_max_positions"), ("ring", CB + " push_front, pop_front, resize")], ["entries of the position history"])
prop("S04", "Tool changes and tool offsets are tracked per tool",
 "T selects the tool (zero or one based, clamped to the existing tools), each tool keeps its own filament position and coordinate, and offsets set by G10 P or M218 T shift the coordinates of moves made with that tool, never those of another tool.",
 ["histories", "inputs", "configurations"], "all histories of tool changes and offsets, 1 to 8 tools", HI,
 [GP, EX], [("tool selection", GP + " process_t"), ("tool offsets", GP + " process_g10, process_m218")], [POSQ], [("current_tool", "selected tool"), ("firmware offsets", "offset of each tool")])
prop("S05", "Homing sets exactly the homed axes to their home position",
 "G28 homes all axes when none is named and otherwise exactly the named ones, whatever value follows the letter, moves them to the configured home position if there is one, and leaves the others untouched.",
 ["histories", "configurations"], "all G28 variants at any place of any history, all home positions", HI,
 [GP], [("homing", GP + " process_g28")], [POSQ], [("homed flags", "axis has been homed")])
prop("S06", "Retraction and extrusion of the current tool are tracked exactly",
 "After every command that moves something the tracked retraction length, extruded length, and the extruding and extrusion-start flags of the current tool are those which follow from its filament movements: filament pushed beyond the primed point extrudes, filament pulled back is retracted until it is pushed forward again.",
 ["histories", "inputs"], "all histories of filament movements and tool changes", HI,
 [GP, EX], [("extruder state", GP + " update"), ("extruder fields", EX)], ["extruder state after each command"], [("retraction_length", "filament pulled back")])
prop("S07", "Every command reports exactly the movement it caused",
 "After each command the reported relative filament movement and height change are those of the command, a change of position is reported whenever one happened or an axis became known and not when nothing moved, and a travel move is exactly a move of X or Y without an extrusion word.",
 ["histories", "inputs"], "all histories and parameter values", HI,
 [GP, PO], [("change detection", GP + " update"), ("travel", PO + " is_travel")], ["movement fields after each command"])
prop("G01", "Parsing any line terminates and touches only the line's memory",
 "For any line of arbitrary bytes, terminated by a null character, the parser terminates, never reads beyond the terminator, and never writes outside its own data or uses uninitialised data.",
 ["inputs"], "all byte strings", PR,
 [PA, PP], [("scanning", PA + " try_parse_gcode, try_extract_parameter")], ["memory accesses and termination of the parser"])
prop("G02", "A line is a command exactly if it begins with a command word",
 "A line is recognised as a command exactly if, after optional spaces, it begins with G or M and a number, T and a tool, or an @ word. The command word is read exactly, in upper case, without inner spaces or leading zeros; other lines carry no command, and keeping the text or not never changes the reading.",
 ["inputs"], "all byte strings", PR,
 [PA], [("command word", PA + " try_extract_gcode_command, try_extract_at_command")], ["parsed command"])
prop("G03", "Parameters are read as written: letter, exact value, number of decimals",
 "For every interpreted command each parameter is returned once, in order, with its letter in upper case, the decimal value exactly as written (sign, digits before and after the point, spaces in between), and the number of decimals written. Letters without a number are kept as such.",
 ["inputs"], "all numbers, signs, spacings and letters", PR,
 [PA], [("numbers", PA + " try_extract_double, try_extract_unsigned_long"), ("parameters", PA + " try_extract_parameter")], ["parsed parameters"])
prop("G04", "Command text and comment are kept byte for byte",
 "Parsing a line and printing the parsed command reproduces the line's bytes: the text up to the first semicolon is kept unchanged and so is the comment behind it, except for carriage returns and the semicolon of an empty comment.",
 ["inputs"], "all byte strings", PR,
 [PA, PC], [("text and comment", PA + " try_parse_gcode"), ("printing", PC + " to_string")], ["printed command"])
prop("F01", "Printed numbers are the value rounded to the requested decimals",
 "A number printed with p decimals is the nearest decimal with exactly p decimals (ties either way; zero may be a bare 0), in plain notation with a leading digit and a minus sign only for negative values, for every magnitude from the tiniest to the largest, and without touching memory outside the buffer.",
 ["inputs"], "all doubles and precisions", "The stable tests compare a million random values in three ranges per run; carries, very small and very large values are hit rarely or never, and the ranges near zero already fail for ties.",
 [FP, UT], [("rounding and padding", FP + " emit_digits_decimal"), ("digits", FP + " grisu2"), ("buffer", UT + " dtos")], ["printed text"])
prop("F02", "The predicted width of a number equals its printed width",
 "The number of integer digits predicted for a value at a precision equals the number of integer digits printed, including values that gain a digit by rounding and values too large for an int once scaled.",
 ["inputs"], "all values and precisions", "No stable test calls the prediction.",
 [UT], [("prediction", UT + " get_num_digits")], ["predicted width"])
prop("K01", "Lists and ring buffers behave as plain sequences",
 "Whatever their capacity, rotation and fill, the list and the ring buffer hold exactly the items pushed to either end and not popped, in order, after pushing, popping, clearing, indexing, growing, initialising and copying; a full ring drops the item at its far end, a full list grows or refuses, and popping from an empty one is refused.",
 ["inputs", "histories"], "all states and operation sequences", "No stable test touches the containers, and a rotated state needs a particular history.",
 [CB, AL], [("ring", CB), ("list", AL)], ["items by index, count, capacity, returned items"])
AI = "ArcWelderInverseProcessor/arc_interpolation.cpp"; FWB = "ArcWelderInverseProcessor/firmware.cpp"; FWS = [AI, FWB] + ["ArcWelderInverseProcessor/%s.cpp" % x for x in ("marlin_1", "marlin_2", "repetier", "prusa", "smoothieware")]
NI = "No test runs the arc expansion at all."
prop("I01", "Expanding arcs copies every other line unchanged and in order",
 "The arc-expanding tool writes a comment header, replaces each G2/G3 line by G1 moves only, and copies every other line of the source byte for byte and in order, also the last one and lines which merely mention an arc.",
 ["inputs", "configurations"], "all source files, firmware types and options", NI,
 FWS, [("line loop", AI + " process")], ["lines of the output file"])
prop("I02", "An expanded arc ends where the arc ends, with its filament, height and feedrate",
 "Whatever the coordinate and extrusion modes, offsets and omitted words, the moves replacing an arc end at the arc's end point and (for firmware that moves it) height, push exactly its filament, and run at its feedrate, up to rounding of the printed decimals.",
 ["inputs", "configurations", "histories"], "all arcs, modes, firmware types and options", NI,
 FWS, [("start and target", AI + " process"), ("printed moves", FWB + " g1_command")], ["machine state after the moves of an arc"])
prop("I03", "Expanded arcs follow the commanded circle in its direction",
 "The moves replacing an arc visit points of the commanded circle in the commanded direction, cover its whole angle exactly once (a closed arc is a full circle), and spread filament and height evenly along it, within the small-angle error of the simulated firmware.",
 ["inputs", "configurations"], "all arcs, firmware types and options", NI,
 FWS, [("interpolation", "plan_arc / mc_arc / arc / append_arc of each firmware")], ["vertices of the expanded arc"])
prop("I04", "Segment lengths and counts follow the configured limits",
 "The number of moves replacing an arc is the arc's length divided by the configured segment length (rounded up or down as the simulated firmware does), where that length is the one resulting from the segments-per-second, per-radius, minimum-segments, minimum-length and maximum-error options.",
 ["inputs", "configurations"], "all arcs and option values", NI,
 FWS, [("segment count", "plan_arc / mc_arc / arc / append_arc of each firmware")], ["number of moves per arc"])
prop("I05", "Arc expansion uses only initialised data and valid memory",
 "Expanding a file never reads uninitialised data to decide anything or to print it, never accesses memory outside its objects, and releases what it allocated in the matching way.",
 ["inputs", "configurations"], "all source files, firmware types and options", NI,
 FWS, [("construction and destruction", "constructors and destructors of the firmware classes, " + AI)], ["memory accesses"])
CP = "GcodeProcessorLib/gcode_comment_processor.cpp"; AWH = "ArcWelder/arc_welder.h"
prop("S08", "Layers, print height, lifts and the printable area follow the extrusions",
 "After any history a new layer is counted exactly when the primed printer extrudes, inside the printable area, above everything extruded before by at least the minimum layer height; layer height, last extrusion height and height increments follow from it, a lift is reported exactly while the nozzle is above the last extrusion by the lift height, and the position is reported inside the printable area exactly if it is.",
 ["histories", "configurations"], "all command histories and printer settings", HI,
 [GP], [("layer and bounds logic", GP + " update")], ["layer, height, last_extrusion_height, is_zhop, is_in_bounds, height_increment of the position"])
prop("S09", "Lines carry the print feature their slicer comments name",
 "A line is labelled with the feature of the slicer section it stands in, else with the feature its own comment names, else with none; a section starts and ends at the comments its slicer writes, comments of other slicers do not change it, and text which is not exactly such a comment has no effect.",
 ["inputs", "histories"], "all comment texts and sequences", "No test covers the comment processor.",
 [CP, GP], [("comment state machine", CP), ("labelling", GP + " update")], ["feature_type_tag of the position"])
prop("W16", "The length statistics count every move of source and target once",
 "For extrusions, retractions and (if enabled) travels, the reported number and total length of source moves are those of the source, the number and length for the target are those of the moves and arcs written, and the length classes add up to the totals.",
 ["inputs", "histories", "configurations"], "all source files and options", "No test inspects the statistics.",
 [AW, AWH], [("statistics", AW + " process_gcode, write_arc_gcodes, write_unwritten_gcodes_to_file"), ("length of source arcs", UT + " get_arc_distance")], ["progress statistics"])
prop("W18", "Moves of different print features never share an arc",
 "If line comments name print features, no generated arc replaces moves of different features, or moves with a named feature together with moves without one.",
 ["inputs"], "all placements of feature comments", "No test uses feature comments.",
 [AW, CP], [("feature comparison", AW + " process_gcode")], [OUTF])
AC = "ArcWelderConsole/ArcWelderConsole.cpp"; AS = "ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp"; NC = "No test runs the console programs."
prop("C01", "The console converts with exactly the given options and refuses bad ones",
 "The ArcWelder console passes every option, in short or long form, with exactly its value and every omitted one with its documented default to the conversion. Values that are no numbers or out of their range, unknown names, duplicate options and a missing source are refused with an error status and without converting. The exit status is zero exactly if the conversion succeeded or help was asked for.",
 ["inputs", "configurations"], "all command lines", NC,
 [AC], [("options, checks and exit status", AC + " main")], ["arguments of the conversion, exit status"])
prop("C02", "ArcStraightener applies exactly the given firmware settings",
 "ArcStraightener passes the chosen firmware type and version with their default settings, changed by exactly the options given, to the expansion. An option the firmware does not have, a value that is no number, an unknown name, version or option and a missing source are refused with an error status and without converting; G90 behaviour DEFAULT is that of the firmware. The exit status is zero exactly if the conversion succeeded or information was asked for.",
 ["inputs", "configurations"], "all command lines", NC,
 [AS] + FWS, [("options and exit status", AS + " run_arc_straightener"), ("defaults", "get_default_arguments_for_current_version of each firmware")], ["arguments of the expansion, exit status"])
prop("C03", "Arc expansion never loses the source and reports success truthfully",
 "Whatever file operation of ArcStraightener fails, the source or the complete result is on disk at every moment, a separate target never changes the source, an in-place run ends with the result in place of the source or the source untouched (or the complete result beside it), and the exit status is zero exactly if the complete result was written.",
 ["crash_points", "inputs"], "all failing file operations at any point", NC,
 [AS, AI], [("file handling", AI + " process"), ("replacement", AS + " run_arc_straightener")], ["files on disk, exit status"])
PA = "PyArcWelder/py_arc_welder.cpp"; PE = "PyArcWelder/py_arc_welder_extension.cpp"; PH = "PyArcWelder/python_helpers.cpp"; PL = "PyArcWelder/py_logger.cpp"; NP = "No test loads the Python module."
prop("P01", "The Python module converts with exactly the given settings",
 "ConvertFile of the Python module passes every setting of its argument dictionary with exactly its value, given as int, float or bool, to the conversion; omitted or impossible settings take their defaults, and a missing or unusable required argument, progress callback or call is refused without converting.",
 ["inputs", "configurations"], "all argument dictionaries", NP,
 [PA, PE, PH], [("reading the settings", PA + " ParseArgs"), ("entry point", PE + " ConvertFile")], ["arguments of the conversion"])
prop("P02", "Python progress and results report exactly the conversion's figures",
 "Every figure the Python callback and the result of ConvertFile receive under a name is the figure of the conversion with that meaning, to the full range of its type, and the conversion goes on after a progress call exactly if the callback did not answer with a false value.",
 ["inputs", "histories"], "all figures and callback answers", NP,
 [PA, PE], [("progress dictionary", PA + " build_py_progress"), ("callback", PA + " on_progress_"), ("result", PE + " ConvertFile")], ["dictionaries given to Python, continuation of the conversion"])
prop("P03", "A Python call returns or raises, and leaves no reference behind",
 "ConvertFile either returns a result with no exception pending or returns nothing with an exception pending, calls Python only with no exception pending, and leaves every reference count of the objects it was given as it was, releasing everything it created except its result, whatever arguments it is given and whatever the callback answers or raises.",
 ["inputs", "fault_sequences"], "all arguments and callback behaviours", NP,
 [PA, PE, PH, PL], [("error paths", PE + " ConvertFile"), ("references", PA + " build_py_progress"), ("logging", PL + " log")], ["result, pending exception, reference counts"])
prop("W19", "Progress reports are truthful and never go back",
 "Every progress report gives a position within the source, the percentage (0 to 100) and the numbers of lines and commands belonging to it, and ratios belonging to the reported sizes; figures never decrease from report to report; reports keep the notification period; the last report and the results describe the whole source and the real size of the target.",
 ["inputs", "histories"], "all source files", "The tests print progress and check nothing of it.",
 [AW, AWH], [("figures", AW + " get_progress_"), ("when and with which position", AW + " process")], ["progress reports, results"])
prop("S10", "Position tracking uses only initialised data and valid memory",
 "Parsing and tracking any history of commands never uses uninitialised data to decide anything or to report it, never accesses memory outside its objects, and releases what it allocated in the matching way.",
 ["histories", "configurations"], "all command histories and printer settings", HI,
 [GP, "GcodeProcessorLib/position.cpp", "GcodeProcessorLib/extruder.cpp"], [("construction and copying", "GcodeProcessorLib/position.cpp constructors, operator="), ("tracking", GP + " update")], ["memory accesses"])
prop("W20", "Arc conversion uses only initialised data and valid memory",
 "Converting a file never uses uninitialised data to decide anything or to write it, never accesses memory outside its objects, and releases what it allocated in the matching way.",
 ["inputs", "configurations"], "all source files and options", "No test runs under a memory checker.",
 [AW, "ArcWelder/segmented_arc.cpp", "ArcWelder/segmented_shape.cpp"], [("construction and reset", AW + " constructor, reset"), ("conversion", AW + " process_gcode")], ["memory accesses"])
