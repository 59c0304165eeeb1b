"""Every property: its text (properties.jsonl), and how it is checked (MANIFEST.json, check.py).  gen.py writes both files."""
F = "parser/fanuc/"
AAP = F + "AllAttributesParser.cpp"
COMMON = ["std::string, containers and iostreams of libstdc++ are executed as compiled; string search and number formatting go through models in engine/runtime.cpp, replayed concretely on every path",
          "a counterexample is reported only when the ordinary g++ build of the same sources reproduces it"]
REAL = "doubles are treated as exact reals on the symbolic side (rounding is outside the claim), sin/cos/tan/atan/exp/log as uninterpreted functions with the same arguments; 64-bit integer arithmetic is taken not to wrap there"

PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mech, harnesses, bounds, note="", assumptions=(), state=(), observe=()):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, harnesses=harnesses,
                      bounds=bounds, note=note, assumptions=COMMON + list(assumptions), state=list(state), observe=list(observe), level="model_checking")
    assert len(title) <= 80, title


def h(file, name, quick, thorough=None, **k):
    return dict(file=file, name=name, quick=quick, thorough=thorough or quick * 6, **k)


def m(name, where):
    return {"name": name, "where": where}


prop("C01", "Parsing any line of text terminates with a verdict and never crashes",
     "For every byte string given as a line of a Fanuc/Haas program, the parser returns a verdict (accepted or rejected) without crashing, hanging, reading outside its data or letting an exception escape. This holds with syntax checking only and with macro evaluation and code-group analysis switched on.",
     ["inputs"], "all lines of up to 3 (thorough: 4) arbitrary bytes, and longer lines made from templates with arbitrary bytes in the places where numbers, brackets, macros and operators stand",
     "the unit tests parse a few dozen well formed lines; a crash needs one particular odd character sequence",
     [AAP, F + "AllAttributesParserGrammar.h", F + "SystemMacroAssigner.cpp", F + "MacroEvaluator.cpp", F + "ValueCalculator.cpp", F + "MacroEvaluatedCodeVerifier.cpp"],
     [m("grammar and its error handlers", F + "AllAttributesParserGrammar.h"), m("exceptions turned into messages", AAP)],
     [h("parse.cpp", "text3", 60, reach=["accepted", "rejected"], bounds="every line of 3 bytes 0..255, macro evaluation and code groups on"),
      h("parse.cpp", "textt", 60, 600, reach=["accepted", "rejected"], bounds="templates of longer lines with 2 to 4 arbitrary bytes 0..255"),
      h("parse.cpp", "text4", 0, 600, bounds="every line of 4 bytes 0..255 (thorough only)")],
     "lines of 3 bytes (thorough: 4), and the stated templates")

prop("C02", "The words of an accepted line reproduce the line",
     "When a line is accepted, writing its parsed words one after the other gives the line again, character for character apart from blanks between words. Nothing the programmer wrote is lost, duplicated, reordered or changed; the only exception is an alphabetic name after the program number, which is not kept.",
     ["inputs"], "all lines of 3 arbitrary bytes and 19 templates of longer lines with 1 to 3 arbitrary printable characters",
     "tests compare the parsed words of a handful of lines",
     [F + "AllAttributesParserGrammar.h", F + "AllAttributesParserDefines.h", AAP],
     [m("attribute grammar", F + "AllAttributesParserGrammar.h")],
     [h("words.cpp", "fid3", 60, reach=["accepted", "rejected"], bounds="every line of 3 bytes 0..255"),
      h("words.cpp", "fidt", 90, reach=["accepted", "rejected"], bounds="19 templates, 1-3 bytes 0x20..0x7e each")],
     "lines of 3 bytes and the templates; the word table of the shipped Fanuc mill")

prop("C03", "A word is accepted exactly when its number is in the configured range",
     "A numeric word is accepted exactly when its signed integer part lies within the range configured for the word, and its decimal digits, read as a number, lie within the configured decimal range; a decimal point is allowed only if decimals are configured, and a number needs an integer part or decimal digits. A reference to a macro variable is checked against the range of macro variable numbers; a word that is not configured makes the line invalid.",
     ["inputs", "configurations"], "all integer ranges within -100000..100000, all decimal ranges within 0..100000, numbers of up to 4 integer and 4 decimal digits with or without sign, four kinds of words, three words on a line",
     "tests use one fixed table and a few values; off-by-one errors at configured limits need values at the limits of every table",
     [F + "AllAttributesParserGrammar.h", AAP], [m("range checks in the grammar's semantic actions", F + "AllAttributesParserGrammar.h")],
     [h("words.cpp", "range", 60, reach=["accepted", "rejected"], bounds="symbolic word table (from, to, decimal from, decimal to), 0-4 integer digits, sign, dot, 0-4 decimals"),
      h("words.cpp", "range_macro", 20, reach=["accepted", "rejected"], bounds="symbolic range of '#', 1-4 digits"),
      h("words.cpp", "range_line", 60, reach=["accepted", "rejected"], bounds="three words of a symbolic table, blanks or not")],
     "numbers of up to 4+4 digits; ranges within +-100000")

prop("C04", "The verdict on a line does not depend on the lines before it",
     "For any line that only states words (no macro variables assigned before are used), the verdict, the message and the parsed words are the same whether it is parsed by a fresh parser or after any other line, accepted or rejected. In particular a syntax error, an unclosed bracket or an unfinished macro expression on one line leaves no trace on the next.",
     ["histories", "inputs"], "14 kinds of preceding lines with arbitrary characters in them, 11 kinds of following lines with arbitrary characters",
     "tests parse lines one at a time with a fresh parser",
     [AAP, F + "AllAttributesParserGrammar.h"], [m("grammar state cleared for every line", F + "AllAttributesParserGrammar.h")],
     [h("words.cpp", "lines", 90, reach=["accepted", "rejected"], bounds="14 x 11 templates with up to 2 symbolic printable characters each")],
     "two lines; macro evaluation off (values of macro variables are meant to carry over)",
     state=[{"name": "bracket/macro state of the grammar", "meaning": "open brackets and expression being read", "where": F + "AllAttributesParserGrammar.h"}])

prop("C05", "A word that may occur once per line is rejected when it occurs again",
     "A line is rejected as having a duplicate word exactly when a word configured as unique occurs more than once in it, whatever the form of its value (number, macro variable, bracketed expression) and wherever in the line; words inside comments do not count. On Haas machines M is always treated as unique when macros are evaluated.",
     ["inputs", "configurations"], "2-3 words out of five kinds with arbitrary digits, every combination of unique flags, Fanuc and Haas mill and lathe",
     "tests check one duplicate of one word",
     [F + "UniqueCode.cpp", F + "SameWordInBlockVerifier.cpp", AAP], [m("UniqueCode", F + "UniqueCode.cpp"), m("SameWordInBlockVerifier", F + "SameWordInBlockVerifier.cpp")],
     [h("words.cpp", "unique", 60, reach=["accepted", "rejected"], bounds="symbolic unique flags of 4 words, 2-3 words on a line, machine type, evaluation on/off"),
      h("words.cpp", "unique_forms", 40, reach=["accepted", "rejected"], bounds="macro references, brackets and expressions as values")],
     "up to 3 words per line")

prop("C06", "Two codes of the same modal group on one line are rejected",
     "With code-group verification on, a line is rejected exactly when two of its G codes, or two of its M codes, belong to a common modal group; a code with a decimal (G54.1) is a different code from its integer part, leading zeros do not matter, G and M groups are independent, and a code in no group never conflicts. A code number given by a macro variable counts with the variable's value.",
     ["inputs", "configurations"], "every membership of three codes in two groups for G and M, all pairs of code numbers of 1-2 digits against a fixed table, codes given by variables",
     "tests use one table and a few pairs",
     [F + "CodeGroupsVerifier.cpp", AAP], [m("CodeGroupsVerifier", F + "CodeGroupsVerifier.cpp")],
     [h("words.cpp", "groups", 60, reach=["accepted", "rejected"], bounds="symbolic group membership, 2 codes out of 5 spellings each, G or M"),
      h("words.cpp", "groups_num", 90, reach=["accepted", "rejected"], bounds="symbolic digits of code numbers, 5 forms of lines")],
     "two codes per line (three with the comment form), two groups")

prop("C07", "A macro variable has the value assigned last before the line",
     "With macro evaluation on, the value of a macro variable used on a line, as the value of a word or in an expression, is the one assigned on the latest earlier line that assigns that very variable number; a line that uses a variable with no earlier assignment is rejected with a message naming it.",
     ["histories", "inputs"], "three assignments to two variables on increasing line numbers with gaps of 1..1000, every digit value, then a use; the lookup itself for all variable numbers 1..9999 and line numbers 0..100000",
     "tests assign and read one or two variables on consecutive lines",
     [F + "MacroDefines.h", F + "MacroEvaluator.cpp", F + "MacroEvaluatedCodeVerifier.cpp", F + "ValueCalculator.cpp"],
     [m("ordering of the variable table", F + "MacroDefines.h"), m("MacroEvaluator", F + "MacroEvaluator.cpp")],
     [h("macros.cpp", "lookup", 60, reach=["defined", "undefined", "earlier"], bounds="3 assignments to #1/#2, gaps 1..1000, one use"),
      h("macros.cpp", "ids", 20, reach=["found", "none"], bounds="3 entries and a lookup with symbolic 1..9999 numbers and 0..100000 lines")],
     "three assignments", assumptions=[REAL])

prop("C08", "A macro expression has its arithmetic value",
     "The value of a macro expression is the one mathematics gives it: * and / bind before + and -, equal operators go from left to right, brackets override, a leading minus negates, and ABS, SQRT, EXP, LOG, LOG10, FIX (down), FUP (up), ROUND and the trigonometric and hyperbolic functions have their usual values with arguments (or results, for the inverse ones) in degrees.",
     ["inputs"], "all numbers of up to 2 integer digits and 1 decimal, all pairs of operators in seven shapes of expressions with or without blanks and a leading minus; every function of every number of 2 digits and 1 decimal, of both signs",
     "tests evaluate about twenty expressions",
     [F + "ValueCalculator.cpp", F + "ValueCalculator.h"], [m("expression grammar and evaluator", F + "ValueCalculator.cpp")],
     [h("macros.cpp", "arith", 60, reach=["accepted"], bounds="7 shapes x 4 x 4 operators, operands with 1-2 digits and 1 decimal"),
      h("macros.cpp", "funcs", 30, bounds="17 functions of a number with 2 digits and 1 decimal, both signs")],
     "three operands", assumptions=[REAL, "division by zero is outside the claim"])

prop("C09", "Integer operations and BCD/BIN conversion are exact",
     "AND, OR, XOR and MOD in macro expressions work on the integer values of their operands (MOD has the sign of the dividend), AND and MOD bind like * and OR and XOR like +, MOD by zero is reported as an error, BIN writes every decimal digit of its argument into a four-bit group, and BCD reverses BIN.",
     ["inputs"], "all operands that are 32-bit values (MOD: up to 100000 by 100) of either sign, all arguments of BIN and BCD of up to 9 digits, all pairs of integer and arithmetic operators",
     "tests evaluate a few pairs", [F + "ValueCalculator.cpp"], [m("expression grammar and evaluator", F + "ValueCalculator.cpp")],
     [h("macros.cpp", "bits", 40, reach=["mod0", "value"], bounds="operands of 1-3 digits (MOD 1-2)"), h("macros.cpp", "bcd", 40, bounds="arguments of 1-4 digits"),
      h("macros.cpp", "bits_signed", 30, reach=["mod0", "value"], bounds="operands from macro variables, any 32-bit value (MOD: -100000..100000 by -100..100)"),
      h("macros.cpp", "bits_mixed", 60, reach=["value"], qms=30000, cpu=60, bounds="a op b op c for all pairs of 7 operators"),
      h("macros.cpp", "bcd_wide", 40, reach=["value"], bounds="all arguments of 5 to 9 digits")],
     "operands of the stated ranges, exact IEEE doubles")

APC = F + "AttributesPathCalculator.cpp"
PC = F + "PathCalculator.cpp"

prop("C10", "A line with macro references means the line with their values",
     "With macro evaluation on, a line whose words take their numbers from macro variables has the verdict, the positions and word ranges, the unit system and the system variables of the same line with the variables' values written in place of the references; a sign before a reference negates or keeps the value. A value the word does not allow makes the line invalid.",
     ["inputs"], "16 forms of lines with references to a variable holding any integer of 1-2 digits and 7 forms with any number of 1+1 digits, positive or negative",
     "tests substitute a handful of values that are all valid",
     [AAP, F + "MacroEvaluator.cpp", F + "AllAttributesParserGrammar.h"], [m("substitution and second parse", AAP)],
     [h("nc.cpp", "subst_int", 75, reach=["accepted", "rejected"], qms=10000, cpu=40, bounds="16 templates, value of 1-2 digits with or without minus"),
      h("nc.cpp", "subst_dec", 60, reach=["accepted", "rejected"], bounds="7 templates, value d.d with or without minus")],
     "one variable; numbers of up to two digits", assumptions=[REAL])

prop("C11", "System macro variables hold the numbers stated last",
     "With macro evaluation on, the system variables of the words B, D, E, F, H, M, N and S (4102/4302/4502, 4107/.., 4108/.., 4109/.., 4111/.., 4113/.., 4114/.., 4119/..) hold the number the word stated last, with its sign and decimals, on any line up to the current one; a variable whose word has not been stated is undefined and words without a system variable set none. Reading #4109 and so on in an expression on a later line gives that number.",
     ["histories", "inputs"], "two lines with two words each, out of eleven words, in four forms of numbers with arbitrary digits",
     "tests check single assignments with fixed numbers",
     [F + "SystemMacroAssigner.cpp", AAP], [m("SystemMacroAssigner", F + "SystemMacroAssigner.cpp")],
     [h("nc.cpp", "sysvar", 40, bounds="2 lines x 2 words, forms 12 / -12 / 12.5 / #7; then reading the variables")],
     "two lines of two words", assumptions=[REAL])

prop("C12", "G20 and G21 select the word table lines are checked against",
     "Lines are checked against the word table (ranges, decimals, uniqueness) of the unit system in force: the default one, or that of the last accepted line with G20 (inch) or G21 (millimetre), however the code is spelled and wherever it stands in its line. The table applies from the next line on and a reset brings the default back.",
     ["histories", "configurations", "inputs"], "metric and imperial limits of any size 0..9999, selecting lines in all spellings with arbitrary digits in between, default metric or imperial, reset",
     "tests switch once with fixed tables",
     [F + "GrammarSelector.cpp", AAP, F + "AllAttributesParserGrammar.h"], [m("GrammarSelector", F + "GrammarSelector.cpp")],
     [h("nc.cpp", "units", 60, reach=[], bounds="symbolic limits of both tables, up to 2 selecting lines, 4 checked lines")],
     "two selections", assumptions=[REAL])

prop("C13", "Speed, tool and feed are accepted up to the machine's limits",
     "With analysis of NC settings on, a spindle speed S, tool number T or feed F is accepted exactly when it does not exceed the machine's maximum speed, number of tools or maximum working feed; on lathes the tool number is the leading half of a word of more than two digits. The message of a rejected line names the word.",
     ["inputs", "configurations"], "all limits 0..20000 and numbers of 1-5 digits (S, F with one decimal), alone or between other words, mill, lathe and mill-turn",
     "tests use one machine and a few numbers",
     [F + "RangeVerifier.cpp", AAP], [m("RangeVerifier", F + "RangeVerifier.cpp")],
     [h("nc.cpp", "limits", 30, reach=["accepted", "rejected"], bounds="symbolic limits 0..20000; numbers of 1-5 digits, 0-1 decimals")],
     "numbers of up to 5 digits", assumptions=[REAL])

prop("C14", "Moves beyond the machine's travel are rejected",
     "With a zero point set and path calculation on, a move is accepted exactly when the machine position it leads to - the programmed position plus the zero point for absolute programming, the old position plus the distance for incremental - lies within the travel of the axis; a position exactly at the limit is accepted. The message of a rejected line names the axis.",
     ["inputs", "configurations"], "all zero points -500..500, travels from -500..0 to 0..500, coordinates of 3+1 digits of either sign on each of the three axes, rapid or working, absolute or incremental",
     "tests use one travel and one position each",
     [AAP, APC, PC], [m("verification of the zero point ranges", AAP)],
     [h("nc.cpp", "travel", 30, reach=["accepted", "rejected"], bounds="symbolic zero point, travel and coordinate; one move from the base point")],
     "one move", assumptions=[REAL])

prop("C15", "Working motion without a rotating spindle is reported",
     "With analysis of NC settings on and a spindle the operator does not start, the first G1 or G81..G89 for which no S and no M3/M4 has been stated up to and including its line is rejected once, with a message naming what is missing. When the operator starts the spindle, S, M3 and M4 are rejected.",
     ["histories", "inputs"], "all sequences of three lines out of ten forms with arbitrary digits in the code numbers, codes given by variables",
     "tests check three or four fixed sequences",
     [F + "RotationVerifier.cpp", AAP], [m("RotationVerifier", F + "RotationVerifier.cpp")],
     [h("nc.cpp", "rotation", 60, reach=["accepted", "rejected"], bounds="3 lines, 10 x 10 x 4 templates with 1-2 symbolic digits each")],
     "three lines")

prop("C22", "The path of a straight move is the distance between its ends",
     "For G0 and G1, modal or stated, the path calculated for a block is the distance in space between the last position and the new one: coordinates are positions with G90 and distances with G91, axes not stated keep their position, and on lathes X counts half when programmed in diameters. Rapid and working path are separate, totals are sums, and blocks whose axis words are not positions (dwell, offsets, coordinate systems) move nothing.",
     ["inputs", "histories", "configurations"], "all start positions and coordinates within +-999.999, every set of axes, three blocks with any change of G0/G1 and G90/G91, mill, lathe and mill-turn",
     "tests calculate some twenty fixed moves",
     [APC, PC], [m("straight motion", PC), m("modal state", APC)],
     [h("path.cpp", "move1", 45, reach=["work", "rapid"], bounds="one block from any position; 5 machine set-ups, default and stated programming and motion, any axes"),
      h("path.cpp", "move3", 100, reach=["work", "rapid"], bounds="three blocks, growing coordinates, changes of G0/G1 and G90/G91"),
      h("path.cpp", "no_motion", 20, reach=["arc", "line"], bounds="11 codes whose words are not positions, after rapid, work or arc, then a move")],
     "up to three blocks; coordinates within +-999.999", assumptions=[REAL])

prop("C23", "The range of a word spans the values it took",
     "After every accepted block the range kept for a position word (axes, I, J, K, R, U, P and rotary axes of the machine) has the least and greatest value it took and the last one; incremental blocks count with the position they lead to, G28 leads to the base point, and blocks that state offsets do not count. Other words have no range.",
     ["inputs", "histories"], "three blocks with any coordinates within +-999.999, G90, G91, G28 and G92 between them; twelve words",
     "tests check two fixed programs", [APC], [m("word ranges", APC)],
     [h("path.cpp", "ranges", 90, reach=["absolute", "incremental"], bounds="3 blocks x 5 kinds, symbolic coordinates"), h("path.cpp", "range_words", 20, reach=["range", "none"], bounds="12 words, 3 values each")],
     "three blocks", assumptions=[REAL])

prop("C24", "The path of an arc or helix is its length",
     "The path of G2 and G3 is the radius times the angle travelled, in the stated direction, for arcs given by centre (I, J, K) or radius (R, of either sign), in the three planes, absolute and incremental, on mills and lathes (diameters); an arc without end point is a full circle. Chained arcs start where the last one ended. A helix of full or quarter turns has the length of its turns. An arc without centre, or from an unknown position, is reported.",
     ["inputs", "histories", "configurations"], "all circles up to 999.999 with eight or more start and end directions, any radius, arcs of both signs of R, two chained blocks, three planes, mill and lathe",
     "tests sample fixed arcs; rounding to int of small radii and the direction in other planes went unseen", [PC, APC], [m("G17/G18/G19 arcs", PC), m("arc blocks", APC)],
     [h("arcs.cpp", "arc_ij", 45, reach=["circle", "long", "short"], bounds="centre given: directions from a set of exact points of the unit circle, symbolic radius and position"), h("arcs.cpp", "arc_r", 45, reach=["long", "short"], bounds="radius given"),
      h("arcs.cpp", "arc_chain", 30, reach=["absolute", "incremental", "lathe", "radius"], bounds="two chained arcs"), h("arcs.cpp", "helix", 30, reach=["full", "quarter"], bounds="helices of full and quarter turns"), h("arcs.cpp", "arc_missing", 20, reach=["accepted", "no centre", "no position"], bounds="any subset of the words and known positions")],
     "Archimedes spirals (Q, L) and the last half turn of a helix are outside the claim", assumptions=[REAL])

prop("C25", "The path of a drilling cycle is that of its motions",
     "For every hole of a drilling cycle (G73, G74, G76, G81-G89) the working path is the depth drilled, as often as it is worked, and the rapid path is the way to R, the retractions and pecks, the return to the stated level (G98/G99) and the distance from the hole before; in the three planes, for absolute and incremental depth and positions. K repeats the cycle, a block that states another cycle or depth has holes of its own, G80 ends the cycle at the last hole, and a cycle without R, depth, Q or a known position is reported.",
     ["inputs", "histories", "configurations"], "all levels within +-300, R up to 50, depths up to 200 (steps of 1/4), up to 3 pecks and a remainder, two holes and the move after; three planes, three ways to state the depth, three sources of the return level",
     "tests sample one depth per cycle; sign combinations of level, R and depth and sequences of cycles are not sampled", [PC, APC], [m("DrillCyclePath*", PC), m("drill cycle blocks", APC)],
     [h("drill.cpp", "drill_simple", 45, reach=["G90", "G91", "G99"], bounds="8 cycles without Q x 3 planes x 3 modes x 3 return modes, symbolic level, R, depth, holes"), h("drill.cpp", "drill_q", 75, reach=["G90", "G91", "G99"], bounds="G83, G73, G76, G87; Q of 0.5, 2"),
      h("drill.cpp", "drill_repeat", 20, reach=["none", "repeated"], bounds="K absent, 0, 1, 3"), h("drill.cpp", "drill_again", 20, reach=["cycle", "depth"], bounds="3 x 8 cycles, with or without G80"), h("drill.cpp", "drill_missing", 20, reach=["accepted", "no position", "no word"], bounds="12 cycles x 3 planes x any subset of the words")],
     "two holes; modal R, depth and Q stated alone in a later block are outside the claim", assumptions=[REAL])

prop("C26", "Machining time is path divided by feed, plus the configured events",
     "The time of a working move is its path divided by the feed in force (per minute, or per revolution times the spindle speed on lathes), that of a rapid move its path divided by the rapid feed; dwell, tool exchange, pallet exchange and tool measurement take their stated or configured time. F, S and the modal codes stay in force when stated in a block without motion, a missing feed (or speed, where it is needed) is reported, and totals are the sums over the blocks.",
     ["inputs", "histories", "configurations"], "all feeds 1..9999.9, speeds, rapid feeds and coordinates up to 999.999 over three blocks, all pairs out of nine events with any times, five kinds of modal state",
     "tests calculate a few fixed programs", [APC, PC], [m("time calculation", APC)],
     [h("times.cpp", "time_feed", 30, reach=["no feed", "moves"], bounds="3 moves, rapid or work, new feed or modal"), h("times.cpp", "time_rev", 30, reach=["no speed", "per revolution", "per minute"], bounds="mill, lathe, mill-turn; G94/G95, G97, default mode; two blocks"),
      h("times.cpp", "time_events", 30, reach=["events"], bounds="two events out of nine, symbolic times"), h("times.cpp", "forms", 20, reach=["move", "dwell"], bounds="X, U, P, F as 12, 12., 12.3, .3 with any digits"), h("path.cpp", "modal", 30, reach=["revolution", "incremental", "feed"], bounds="five kinds of first block, four kinds of modal block, then a move")],
     "three blocks; constant surface speed (G96) is outside the claim", assumptions=[REAL])

prop("C27", "Path and time of a tool are those of the blocks it was active in",
     "The active tool is the one exchanged last: by T with M6, or by T alone where T executes the exchange; on lathes its number is the leading half of a word of more than two digits. The path and time reported for the tool are the sums over the blocks it was active in, also when it returns later, and the tool variables (#4120, #4320, #4520) hold its number.",
     ["histories", "inputs"], "programs of five blocks with two tools, exchange, preselection and moves with any coordinates; tool numbers of 1-4 digits on mill, lathe and mill-turn",
     "tests have two fixed programs", [APC, PC], [m("tool results", APC)],
     [h("times.cpp", "tools", 45, reach=["one", "two"], bounds="5 blocks, 2 tools, symbolic coordinates and exchange point"), h("times.cpp", "tool_number", 20, reach=["preselected", "exchanged"], bounds="T with 1-4 digits, M6/M06 or not, 3 machines")],
     "five blocks, two tools", assumptions=[REAL])

prop("C28", "After a reset the calculator behaves like a new one",
     "After a reset, paths, times, ranges, the active tool and the verdict of any following block are those of a calculator that has just been created with the same settings, whatever blocks were calculated before and whether they were accepted.",
     ["histories", "configurations"], "two preceding blocks out of 18 kinds with any coordinates, then one block of 18 kinds; three sets of defaults, mill and lathe",
     "tests reset after one or two fixed blocks", [APC, PC], [m("reset", APC), m("reset", PC)],
     [h("times.cpp", "reset", 75, reach=["accepted", "rejected"], bounds="18 x 7 preceding blocks, 18 following blocks")],
     "two blocks before, one after", assumptions=[REAL])

prop("C29", "Positions are relative to the zero point",
     "With a zero point set, the base point and the tool exchange point of the machine have, as programmed positions, their machine coordinates minus the zero point; a tool exchange or G28 leads there with a rapid traverse of the distance between the two positions.",
     ["configurations"], "all base points, exchange points and zero points within +-500", "tests use one zero point",
     [AAP, APC, PC], [m("set_ncsettings / set_zero_point", AAP), m("zero point", APC)],
     [h("times.cpp", "zero_point", 30, reach=["exchange", "base"], bounds="symbolic points; T1M6 or G28")],
     "one block", assumptions=[REAL])

prop("C16", "Renumbering changes only the numbers of the blocks",
     "Renumbering gives the blocks the numbers start, start + step and so on, restarting at the least allowed number once the maximum is passed, on every block or every nth (or only where a number was), with leading zeros on request. Program start, program number, leading comment and optional blocks are left alone, the rest of every line is unchanged, and the verdict is that of the parser.",
     ["inputs", "configurations", "histories"], "three lines of ten kinds with any step, frequency, start, maximum and flags; 23 line templates with any printable characters",
     "tests renumber one list of words with a few settings; the wrap-around, the frequency and computed numbers need particular combinations",
     [F + "Renumberer.cpp", AAP], [m("renumbering", F + "Renumberer.cpp")],
     [h("convert.cpp", "renum", 60, reach=["numbered", "none"], bounds="three lines, symbolic settings: step 1-90, frequency 0-3, maximum 1-99, start 0-99"),
      h("convert.cpp", "renum_any", 40, reach=["accepted", "rejected", "skipped"], bounds="23 templates, 1-3 characters 0x20..0x7e each")],
     "three lines; templates; a block number given as an expression in brackets is outside the claim")

prop("C17", "Removing block numbers removes the numbers and nothing else",
     "Removing the numbering takes the block number off the beginning of a line and leaves every other word as it was, including numbers in the middle of a line, after an optional block or in comments; the verdict is that of the parser.",
     ["inputs"], "23 line templates with any printable characters", "tests use three lists of words",
     [F + "Renumberer.cpp", AAP], [m("removal", F + "Renumberer.cpp")],
     [h("convert.cpp", "remove_any", 40, reach=["accepted", "rejected", "removed"], bounds="23 templates, 1-3 characters 0x20..0x7e each")], "the templates")

prop("C18", "Unit conversion keeps every length and touches nothing else",
     "Converting a line between millimetres and inches multiplies every length and feed by the ratio of the units, rounded to the decimals of the word, keeping sign and word and writing no needless zeros; G20 and G21 become each other. Angles, speeds, codes, comments, macros, the words of a dwell (G4) and the rotation words of G68 stay as they are. The verdict is that of the parser.",
     ["inputs", "configurations"], "all numbers of up to 3+3 digits with any sign and any number of decimals configured; every G code with and without decimals in six forms of a line; 21 templates with any printable characters",
     "tests convert about twenty fixed words; rounding, zeros and the order of words vary without end",
     [F + "UnitConverter.cpp", AAP], [m("conversion", F + "UnitConverter.cpp")],
     [h("convert.cpp", "convert1", 40, reach=["converted", "rejected", "unchanged"], bounds="five kinds of words, 0-3 digits, 0-3 decimals, 0-4 decimals configured, both directions"),
      h("convert.cpp", "convert_small", 20, reach=["inch", "metric"], bounds="every number 0-99, 0-4 decimals, text compared in full"),
      h("convert.cpp", "convert_line", 20, reach=["dwell", "rotation", "unit", "other"], bounds="G0-G99 with decimal 0-4 or none, six forms"),
      h("convert.cpp", "convert_any", 40, reach=["accepted", "rejected"], bounds="21 templates, 1-3 characters 0x20..0x7e")],
     "feeds are converted also in G93/G95 blocks (outside the claim); lines beginning with an optional block are left alone (so the tests have it); the layout of numbers with more than two digits is examined on one number per path", assumptions=[REAL])

prop("C19", "Rotating a program turns its axes, planes and arcs together",
     "Rotation by 90, 180 or 270 degrees about X, Y or Z turns axis and offset words with their signs, turns the plane codes with the axes and reverses the direction of arcs exactly when the normal of the plane is turned to a negative axis, whatever leading zeros and notation are used, and leaves everything else as it is. The verdict is that of the parser.",
     ["inputs", "configurations"], "nine rotations, three planes, both arc directions, every axis word and offset with five notations and any sign and digits; 18 templates with any printable characters",
     "tests rotate one fixed list of words per option, without leading zeros",
     [F + "AxesRotator.cpp", AAP], [m("rotation table", F + "AxesRotator.cpp")],
     [h("convert.cpp", "rotate_codes", 20, reach=["arc", "no arc", "reversed arc"], bounds="nine rotations x four planes x G0-G3 with or without leading zero"),
      h("convert.cpp", "rotate_words", 30, reach=["no arc"], bounds="nine rotations, one or two words, five notations, symbolic digits"),
      h("convert.cpp", "rotate_any", 20, reach=["accepted", "rejected", "turned"], bounds="18 templates, 1-3 characters 0x20..0x7e")],
     "one block; the plane is taken from the block, G17 when it has none")

prop("C20", "A split program has every block once, in order, cut where it may be",
     "Splitting puts every block into exactly one piece, in order, with consecutive numbers, adding only the retraction plane at the end of a piece and the beginning of the next. A piece ends before the first block that may start a new one once the number of blocks, the path or the time of work has been reached, before every further tool change, or before every line with the text: not inside a drilling cycle, and with rapid traverse only, just before rapid moves. An invalid line or limit is reported.",
     ["inputs", "configurations", "histories"], "programs of 3 to 4 blocks out of 14 kinds, every limit, rapid-only and retraction plane or not, cycles cancelled by G0/G1 or not; any path or time of the blocks as real numbers; any comment text",
     "tests split three programs with one set of limits",
     [F + "FileSplitter.cpp", AAP], [m("splitting", F + "FileSplitter.cpp"), m("renumbering of the pieces", AAP)],
     [h("split.cpp", "split_blocks", 60, reach=["one", "two", "three"], bounds="4 blocks, step 1-3"), h("split.cpp", "split_lines", 40, reach=["one", "two", "three"], bounds="3 blocks of 10 kinds"),
      h("split.cpp", "split_tools", 40, reach=["one", "two", "three"], bounds="4 blocks"), h("split.cpp", "split_text", 30, reach=["one", "two", "three"], bounds="3 lines with symbolic comments"),
      h("split.cpp", "split_work", 40, reach=["one", "two", "three", "no limit"], bounds="4 blocks, symbolic limit and real-valued path or time"), h("split.cpp", "split_file", 40, reach=["one", "two", "three"], bounds="whole programs of 4 blocks, lengths 0, 20 and 90, any limit"),
      h("split.cpp", "split_bad", 15, reach=["split", "invalid line", "no limit"], bounds="five ways to split, four invalid lines in three places")],
     "four blocks; an empty text is outside the claim", assumptions=[REAL])

prop("C21", "Comments and optional blocks are removed, and nothing else",
     "Removing comments drops every comment of a line and no other word; removing optional blocks drops the block-delete codes at the beginning of a line and no other word (a division or a code in the middle of a line stays). The verdict is that of the parser.",
     ["inputs"], "13 and 12 line templates with any printable characters", "tests have a handful of lines", [AAP], [m("remove_comment, remove_optional_block", AAP)],
     [h("convert.cpp", "comment_any", 20, reach=["accepted", "rejected", "removed"], bounds="13 templates, 1-3 characters 0x20..0x7e"), h("convert.cpp", "optional_any", 20, reach=["accepted", "rejected", "removed"], bounds="12 templates")],
     "the templates")

LSP = "nclangsrv/"
JMH = LSP + "JsonMessageHandler.cpp"
CA = LSP + "NCParser.cpp"
JSONLIB = "rapidjson, iostreams and the standard library are executed as compiled; what the server writes is parsed back and compared"

prop("C31", "A rejected line is explained the same in both languages",
     "Whenever a line is rejected, the message names what is wrong: the value, the range allowed and the word for a value out of range; the word for a word missing, repeated or unknown; the group or codes for codes that exclude one another. English and Polish give the same verdict and the same position and name the same things; an accepted line has no message.",
     ["inputs", "configurations"], "all one and two digit values outside all ranges of small bounds, limits of the machine, one text for each kind of error, and every line of 3 characters and 12 templates in both languages",
     "tests compare the messages of a handful of lines, in one language",
     [AAP, F + "AllAttributesParserGrammar.h", F + "MessageText_en.cpp", F + "CodeGroupsVerifier.cpp", F + "RangeVerifier.cpp"],
     [m("error handlers of the grammar", F + "AllAttributesParserGrammar.h"), m("translated texts", F + "MessageText_pl.cpp")],
     [h("messages.cpp", "msg_range", 20, reach=["told"], bounds="four words, symbolic range 0-7, one or two digits outside it"), h("messages.cpp", "msg_decimal", 15, reach=["told"], bounds="symbolic decimal range, one digit outside it"),
      h("messages.cpp", "msg_limits", 15, reach=["told"], bounds="speed, tools and feed, listed values"), h("messages.cpp", "msg_travel", 15, reach=["told"], bounds="three axes, listed values"),
      h("messages.cpp", "msg_table", 15, reach=["told"], bounds="18 kinds of errors, listed lines"), h("messages.cpp", "msg_operator", 10, reach=["told"], bounds="an operator's spindle"),
      h("messages.cpp", "msg_any", 30, reach=["accepted", "rejected"], bounds="every line of 3 characters 1..126, both languages"), h("messages.cpp", "msg_line", 20, reach=["accepted", "rejected"], bounds="12 templates, both languages")],
     "messages carried by C++ exceptions lose the symbolic characters, so those are examined on listed values")

prop("C32", "Settings are read as they stand, and nothing else is accepted",
     "Every value of every enumeration of the settings has one text that reads back as that value, and no other text reads as a value (save the second names of the turning directions). A settings file that tells every setting is read with each of them as it stands; a file with a setting missing or of the wrong type, a cut file or none is refused without an exception, and a whole file read afterwards is read whole.",
     ["inputs", "configurations"], "every value of every enumeration; every text of up to 5 characters, and their texts with any one character changed; settings files with any one member missing or of another type, or cut",
     "tests read the shipped settings files only", ["parser/GeneralParserDefines.cpp", F + "AllAttributesParserDefines.cpp", LSP + "NCSettingsReader.cpp"],
     [m("settings file", LSP + "NCSettingsReader.cpp"), m("texts of the enumerations", "parser/GeneralParserDefines.cpp")],
     [h("settings.cpp", "enum_round", 10, reach=["value"], bounds="every value of every enumeration"), h("settings.cpp", "enum_words", 10, reach=["value"], bounds="every kind of word"),
      h("settings.cpp", "enum_text", 15, reach=["no", "yes"], bounds="texts with symbolic characters"), h("settings.cpp", "settings_whole", 15, reach=["read"], bounds="every setting with listed or symbolic values"),
      h("settings.cpp", "settings_part", 15, reach=["accepted", "not accepted"], bounds="one member missing or wrong"), h("settings.cpp", "settings_none", 10, reach=["none"], bounds="no file")],
     "numbers pass through the text of a file and are examined on listed values")

prop("C33", "The path and time shown beside a program are those of its lines",
     "For every line whose block moves, the editor is given the path and time up to and including that line, cut and rapid separately, rounded to the digits shown, at that line and no other; lines above, blank lines and comments change nothing and text in comments is not taken for results.",
     ["inputs", "histories"], "all programs of three lines out of five kinds with five listed distances each", "tests of the server do not exist",
     [JMH, CA], [m("path and time of every line", CA), m("code lens answer", JMH)],
     [h("lsp.cpp", "lens_sums", 45, reach=["lens", "still"], bounds="three lines out of five kinds, five distances")],
     "distances are listed, not symbolic (they are printed); totals of tools are outside", assumptions=[JSONLIB])

prop("C34", "Every wrong line has one diagnostic, at the error, with its whole text",
     "After a document is opened or changed, exactly the rejected lines have a diagnostic, one each, at that line, beginning at the character (in UTF-16 units) where the error is, with the whole explanation; whatever the line holds (colons, the word line, tabs, characters outside ASCII) and however the lines end.",
     ["inputs", "histories"], "three lines of six kinds under 0, 9 or 100 blank ones with three line ends; a wrong line with any 4 printable characters", "tests of the server do not exist",
     [CA, JMH], [m("messages turned into diagnostics", JMH), m("lines analysed", CA)],
     [h("lsp.cpp", "diag_lines", 45, reach=["clean", "error"], bounds="three lines of six kinds, three line ends, three positions"), h("lsp.cpp", "diag_text", 30, reach=["error"], bounds="4 characters 0x20..0x7e")],
     "three lines", assumptions=[JSONLIB])

prop("C35", "Hovering tells the code or variable under the cursor, and its value there",
     "Asked about a position, the server tells the G or M code standing there with its description and exact range, or the macro variable with the value assigned last at or above that line, or the code a variable stands for; nothing where there is nothing. Positions count UTF-16 units.",
     ["inputs", "histories"], "lines with any arrangement of letters and digits of codes, every code of two digits with decimals, variables assigned on three lines and used on five, characters of one to four bytes before the word",
     "tests of the server do not exist", [JMH, CA, LSP + "CodesReader.cpp"], [m("hover", JMH)],
     [h("lsp.cpp", "hover_code", 30, reach=["described", "nothing", "unknown"], bounds="three templates, every position"), h("lsp.cpp", "hover_digits", 20, reach=["described", "unknown"], bounds="G and M, two digits, decimal or none"),
      h("lsp.cpp", "hover_macro", 30, reach=["defined", "undefined"], bounds="five lines, four symbolic variables"), h("lsp.cpp", "hover_macro_code", 20, reach=["described", "undefined", "unknown"], bounds="symbolic variable and value of two digits"),
      h("lsp.cpp", "hover_utf16", 30, reach=["code", "nothing"], bounds="three characters of five kinds, every position")],
     "the stated lines; the descriptions of the shipped Fanuc mill", assumptions=[JSONLIB])

prop("C36", "The language server answers any message and survives it",
     "Whatever message arrives - not JSON, members missing or of any type, an unknown method, a position or document that does not exist, before or after initialisation - the server goes on without a crash or an escaping exception; every request gets exactly one answer, framed by its right length, with the id of the request (number or string) and either a result or an error; a notification gets none.",
     ["inputs", "histories"], "13 methods with any one member missing or of 8 other values; any 4 bytes in 5 places of a message; any id of two characters; hovers over words with numbers of up to 11 digits",
     "tests of the server do not exist", [JMH, CA], [m("message handler", JMH)],
     [h("lsp.cpp", "msg_total", 45, reach=["answered", "published"], bounds="13 methods, 8 members, 9 changes, a document open"), h("lsp.cpp", "msg_cold", 45, reach=["answered", "published"], bounds="the same with nothing open"),
      h("lsp.cpp", "msg_text", 60, reach=["answered", "ignored"], bounds="any 4 bytes 1..127 in five places"), h("lsp.cpp", "msg_id", 20, reach=["number", "string"], bounds="any number or text of two characters"),
      h("lsp.cpp", "hover_odd", 30, reach=["nothing", "told"], bounds="5 words, 0, 1, 10 or 11 digits, a line that is not there")],
     "one message at a time", assumptions=[JSONLIB])

prop("C37", "A macro variable has the description its range gives it, the user's first",
     "The description of a macro variable is that of its number, or of the range holding it (both ends included); a description of the user goes before that of the machine. A number that is in none, or text that is no number, has no description.",
     ["inputs", "configurations"], "every number of up to 6 digits and every text of up to 5 characters, with and without a user's file", "tests of the server do not exist",
     [LSP + "MacrosDescReader.cpp"], [m("look-up of a description", LSP + "MacrosDescReader.cpp")],
     [h("macrodesc.cpp", "desc_base", 20, reach=["described", "none"], bounds="numbers of 1-6 digits"), h("macrodesc.cpp", "desc_user", 20, reach=["described", "none"], bounds="the same with a user's file"), h("macrodesc.cpp", "desc_any", 20, reach=["none", "some"], bounds="any 0-5 bytes 1..127")],
     "one file of single variables and ranges; ranges that overlap one another are outside the claim")

prop("C38", "The C interface gives what the parser gives",
     "Through the C interface used by the plug-ins, every operation - parsing, macro variables, path and time, conversion, renumbering, rotation, removal of numbers, comments and optional blocks, splitting - has the same verdict, message, words and numbers as the parser behind it, and every setting given through it reaches the parser.",
     ["inputs", "histories", "configurations"], "every line of 3 characters, 24 templates with any digits, sequences of three lines, any value of each setting, every edit and split of short programs",
     "tests call the C++ classes only", ["parser/fanuc/AllAttributesParserWrapper.cpp"], [m("wrapper", "parser/fanuc/AllAttributesParserWrapper.cpp")],
     [h("capi.cpp", "capi_line", 30, reach=["accepted", "rejected"], bounds="every line of 3 characters 1..126"), h("capi.cpp", "capi_words", 20, reach=["accepted", "rejected"], bounds="24 templates, any digits"),
      h("capi.cpp", "capi_groups", 40, reach=["accepted", "rejected"], bounds="G?M?G?"), h("capi.cpp", "capi_lines", 30, reach=["accepted", "rejected"], bounds="three lines out of 10"),
      h("capi.cpp", "capi_macros", 20, reach=["none", "some"], bounds="up to two lines, any digits"), h("capi.cpp", "capi_path", 30, reach=["results"], bounds="three blocks, any digits"),
      h("capi.cpp", "capi_settings", 20, reach=["results"], bounds="17 settings with symbolic values"), h("capi.cpp", "capi_edit", 30, reach=["convert", "remove comment", "remove numbering", "remove optional block", "renumber", "rotate"], bounds="13 templates, six edits"),
      h("capi.cpp", "capi_split", 30, reach=["rejected", "text", "words"], bounds="up to three lines")],
     "the stated lines", assumptions=[REAL])

prop("C41", "The server reads every message of its input and ends with it",
     "The server takes messages off its input by their Content-Length, whatever other header fields there are, in any order and with any text, and whatever the body holds; it answers each request once and in order, and ends - without waiting for ever - at an exit message or at the end of the input, wherever that comes.",
     ["inputs", "histories", "crash_points"], "up to three messages with four arrangements of header fields; a field of any name and text; bodies that look like headers; the input cut at every byte; exit at any place",
     "tests of the server do not exist", [LSP + "nclangsrv.cpp"], [m("main loop", LSP + "nclangsrv.cpp")],
     [h("frame.cpp", "frame_fields", 30, reach=["answered"], bounds="1-3 messages, 4 arrangements"), h("frame.cpp", "frame_text", 30, reach=["answered"], bounds="any field of 4+5 characters"), h("frame.cpp", "frame_body", 20, reach=["answered"], bounds="listed bodies"),
      h("frame.cpp", "frame_end", 30, reach=["both", "none", "one"], bounds="every byte of two messages"), h("frame.cpp", "frame_exit", 20, reach=["answered", "exit"], bounds="three messages")],
     "three messages; standard streams are replaced by streams of text", assumptions=[JSONLIB])
