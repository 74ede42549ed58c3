#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, re-run, commit both."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Scanner position is always valid and failed moves leave it alone",
  "Whatever sequence of Scanner operations is called with whatever arguments (markers and distances out of range included; only Get and Since, which cut out text, need positions inside of it) on whatever text, valid UTF-8 or not, no call panics, the position stays inside the text, and Head()+Tail() is always exactly the text. A call that reports failure leaves the position where it was, ToMarker/Move/ToStart/ToEnd go exactly to the requested position or refuse if it is outside the text, and AtStart/AtEnd/Mark/Since/Get agree with the position. A coupled Tracker is told every change of position, so the last marker it got is the current one.",
  ["histories", "inputs"], "all operation sequences over all texts and arguments",
  "The tests call one primitive per scanner with in-range arguments; no test makes a sequence, uses an out-of-range marker, a too short text, invalid UTF-8 or a Tracker.",
  ["scanner.go", "scanner_rev.go", "read.go", "token.go", "tracker.go"],
  [("Move / ToMarker range checks", "scanner.go"), ("Tracker.Update calls", "scanner.go")],
  ["Scanner.Head, Tail, Mark, AtEnd, AtStart, Since, Get and the bool/error results"],
  [{"name": "pos", "meaning": "byte offset of the scanner", "where": "scanner.go Scanner"}])

p("C02", "Forward If/To/While primitives match exactly what they say",
  "For every text, position and argument: an If-call (string, list of strings, fold, rune, set of runes, range, predicate) succeeds exactly when the text at the position starts with a match and then moves right behind it (of a list of strings, behind the first in the list that matches); a To-call succeeds exactly when a match exists at or after the position and moves to the start of the first one; a While-call moves over the maximal run of matching runes (While with an own function repeats it until it returns false) and reports true exactly when it moved. Fold variants compare rune by rune under Unicode simple case folding, also where upper and lower case differ in encoded length; nothing but an empty string matches at the end of the text.",
  ["inputs"], "all texts, positions, patterns, rune ranges and predicates",
  "One or two ASCII examples per primitive, always from position 0, results ignored, no text without a match, no text shorter than the pattern.",
  ["scanner.go"],
  [("If, IfAny, To, IfFold, ToFold, IfRune, ToRune, WhileRune, IfAnyRune, ToAnyRune, WhileAnyRune, IfBetween, ToBetween, WhileBetween, IfMatch, ToMatch, WhileMatch", "scanner.go")],
  ["bool result and Mark() of each primitive"])

p("C03", "Backward Rev primitives mirror the forward ones",
  "For every text, position and argument: a RevIf-call succeeds exactly when the text before the position ends with a match and then moves right before it; a RevTo-call (non-empty pattern) succeeds exactly when a match ends at or before the position and moves to the end of the last one; a RevWhile-call moves back over the maximal run of matching runes and reports true exactly when it moved. A character is matched or not in the same way as in the forward direction.",
  ["inputs"], "all texts, positions, patterns, rune ranges and predicates",
  "The Rev tests for between and match are empty tables, the others have one or two ASCII examples starting at the end; no test has a text without a match or shorter than the pattern.",
  ["scanner_rev.go", "intl.go"],
  [("RevIf*, RevTo*, RevWhile*", "scanner_rev.go"), ("reverse rune iterator", "intl.go")],
  ["bool result and Mark() of each primitive"])

p("C04", "Moving and reading by runes steps over whole runes, both ways",
  "MoveRunes(n), ScanString(n), ReadRune and RevReadRune step over exactly n (or 1) runes as Go decodes them (a byte that is not valid UTF-8 counts as one rune), and succeed exactly when that many are left in that direction; the single-rune reads refuse only the end of the text and bytes that are not UTF-8. From a rune boundary, moving n runes forward and n runes back returns to the start, and ScanString returns precisely the text it moved over.",
  ["inputs", "histories"], "all texts incl. invalid UTF-8 and U+FFFD, all n, all positions",
  "Tests use two short valid texts; reading exactly to the end, n=0, invalid bytes, U+FFFD and the reverse read are untested.",
  ["scanner.go", "intl.go", "read.go"],
  [("MoveRunes, ScanString", "scanner.go"), ("ReadRune, RevReadRune", "read.go"), ("getPrefix, revItr", "intl.go")],
  ["results and Mark()"])

p("C05", "LineCol reports the true line and column of the position",
  "For every text, position and tab width, LineCol gives as line one plus the number of line breaks (\\n or \\r\\n) before the position, and as column one plus the width of the text since the last line break, where a tab counts tab columns and every other byte one. Reading on never decreases the (line, column) pair for a positive tab width.",
  ["inputs"], "all texts, positions and tab widths",
  "Ten fixed examples, none with \\r\\n, multi-byte text or tabs in earlier lines than the last.",
  ["scanner.go"], [("LineCol", "scanner.go")], ["the two results"])

p("C06", "Number and bool reads return the value of the longest fitting literal",
  "ReadInt/ReadUint (and the Int/Uint readers) for every base 8, 10, 16 and bit size 8, 16, 32, 64 consume the optional sign (ReadInt only) and then the longest run of digits whose value still fits the bit size, return exactly that value, never a wrapped-around one, and fail without moving and with the value zero if there is no digit. ReadBool (and the Bool reader) accept exactly the spellings of the chosen format, and unknown bases, bit sizes or formats give an error, the value zero or false, without moving.",
  ["inputs", "configurations"], "all digit strings of any length, bases, bit sizes, formats",
  "The 64 bit overflow test inputs are the three boundary values; values further beyond the range (where the wrapped product is larger again) are not tested, ReadBool is not tested at all.",
  ["read.go", "reader.go"], [("overflow tests in ReadInt/ReadUint", "read.go"), ("BoolReader, IntReader, UintReader", "reader.go")],
  ["value, error, Mark(), reader Value field"])

p("C07", "Every reader composition reads exactly what its parts define",
  "For every reader built from the built-in readers (also recursive ones through Rules) and every text and position, the reader succeeds exactly when its definition says so and ends exactly there: Seq all in order, Any the first alternative that succeeds, Opt zero or one, Zom/Many greedily as often as possible until the part fails or succeeds without moving (Many at least once, and it has to move), Times exactly n, SkipSeq with skips before, between and after, At without moving, Not one rune if the part does not match, To/Past up to/behind the first position where the part matches (the end of the text included), Body/BodyTail up to/behind the first match of the tail with everything before it read by the body. Leaf readers accept exactly their runes or strings.",
  ["programs", "inputs"], "all reader expressions and all texts",
  "Five of the about forty readers appear in a test of what they read, in two expressions and three texts; no test has a failing alternative that consumed something, a nested repetition or a Body.",
  ["reader.go", "grammar.go"], [("Read methods of all readers", "reader.go")], ["error or nil and Mark() after Read/Use"])

p("C08", "A failed read never moves the scanner",
  "Whenever a built-in reader, any composition of them, a Use/UseFunc/TraceUse/TokenizeUse/CaptureUse call or a Scope/Trace/Tokenize/Capture call fails, the scanner stands afterwards where it stood before, even if the failing part or callback had moved it. Lookahead (At) leaves the position unchanged also on success, and the traced, tokenized or captured text of a successful call is exactly the text between the position before and after it.",
  ["programs", "inputs", "histories"], "all reader expressions, callbacks that move arbitrarily and fail, all texts",
  "No test looks at the position after a failed composite read.",
  ["reader.go", "scanner.go", "token.go"], [("ToMarker(m) on the error paths", "reader.go, scanner.go, token.go")], ["Mark() after a failing call; returned strings and tokens"])

p("C09", "Reading always terminates",
  "For every reader built from the built-in readers (without left recursion) and for the JSON, Lua and MXT grammars, reading any text, valid UTF-8 or not, complete or cut off anywhere, comes to an end: repetitions stop when their part succeeds without consuming anything, and searches advance at every step. The number of part reads stays within the bound given by the expression and the text length.",
  ["programs", "inputs"], "all reader expressions and texts; all prefixes of documents",
  "No test reads a cut off document, a repetition of something that can match nothing, or invalid UTF-8.",
  ["reader.go", "scanner.go", "grammar/json.go", "grammar/lua.go", "grammar/mxt.go"],
  [("progress of Zom/Many/To/Past/Body loops", "reader.go"), ("MoveRunes", "scanner.go")], ["number of reads of the leaf readers; CPU time of a single case"])

p("C10", "Read errors name the deepest failure, at a position inside the read text",
  "When a read fails, the ReadError's marker lies between the position where the read began and the end of the text; a sequence, Times or At fails with the error of the part that failed, and an Any fails with the error of the alternative that got furthest (the later one on a tie). A search, repetition or negation fails at the position where it began; the message says what was expected and the position ('not able to read X at N').",
  ["programs", "inputs"], "all reader expressions and texts that do not match",
  "No test looks at an error value.",
  ["error.go", "reader.go"], [("getDeepest, Later", "reader.go, error.go"), ("ErrorFor, ErrorIfFalse", "error.go")], ["ReadError.Marker, What, Error()"])

p("C11", "A coupled Basket holds exactly the segments of the successful parse",
  "After a read with a Basket coupled to the scanner, the picked non-empty segments are exactly those of the picked readers and rules that took part in the successful reading, in the order in which they were completed, each with its name and the range of the scanned text it read. Whatever an abandoned alternative, a failed repetition or a lookahead had picked is gone, and after a failed read nothing of it is left. A Basket that is not coupled to the scanner holds every success of its picked readers, in order of completion.",
  ["programs", "inputs", "histories"], "all grammars with picked rules and all texts",
  "No test looks at the content of a Basket.",
  ["tracker.go", "reader.go", "scanner.go"], [("Basket.Update pruning", "tracker.go"), ("pickReader", "tracker.go"), ("Tracker.Update in Move/ToMarker", "scanner.go")],
  ["Basket.Picked()"], [{"name": "segments", "meaning": "picked so far, ends never decrease", "where": "tracker.go Basket"}])

p("C12", "Map hands out exactly the token that was read, each time it is read",
  "Each time a mapped reader or rule succeeds, its function is called exactly once with the token of the scanned text it just read, in the order of the successes, and it is never called for a failing read. This holds wherever the mapped reader stands, also inside Body, lookahead and searches, where positions refer to the whole text.",
  ["programs", "inputs"], "all reader expressions with mapped parts and all texts",
  "Map is only used to collect names in one MXT document.",
  ["reader.go", "token.go", "grammar.go"], [("mapReader", "reader.go"), ("TokenizeUse", "token.go"), ("Rule.Map", "grammar.go")], ["tokens passed to the MapFunc"])

p("C13", "The Log records every monitored read completely and correctly nested",
  "A Log has one entry per read of a monitored reader or rule, in the order in which they were entered, with the name, the position entered, the nesting level, the position left and the error returned (nil exactly for successful reads), however many entries there are and however deep they nest. Reset empties it for the next run, each entry is printed on one line with its level, a dot per level, the position and the name, and its printed preview is the text that starts at the position it was entered. Several logs, and several observers on one rule, do not disturb each other.",
  ["programs", "inputs", "histories"], "all monitored grammars and texts, any number and depth of entries",
  "The one test that monitors only prints the log if something else failed.",
  ["monitor.go", "grammar.go", "intl.go"], [("Enter/Exit", "monitor.go"), ("PrintWithPreview", "monitor.go")], ["Log.Entries; output of Print and PrintWithPreview"])

p("C14", "Names and observers do not change what is read",
  "Wrapping any part of a reader in Named, Map, Pick, Monitor or a Rule, coupling a Basket or another Tracker, or monitoring, picking or mapping the rules of the JSON, Lua and MXT grammars, never changes whether a text is read, where the scanner ends, or the position of an error.",
  ["programs", "inputs", "configurations"], "all reader expressions, all placements of observers, all texts",
  "No test compares a reader with and without observers.",
  ["reader.go", "monitor.go", "tracker.go", "grammar.go"], [("namedReader, mapReader", "reader.go"), ("monitorReader", "monitor.go"), ("pickReader", "tracker.go"), ("Rule", "grammar.go")],
  ["error and Mark() with and without observers"])

p("C15", "Readers and grammars can be reused: earlier reads do not change later ones",
  "Reading with a reader or grammar (JSON, Lua, MXT included) that was used before, on whatever other texts and with whatever outcomes, gives the same success, end position and captured tokens as reading with a freshly built one (apart from a Janus end that is read before its begin, see C16). The same holds for a reader used at two places of one expression.",
  ["histories", "inputs", "programs"], "all sequences of texts read with one reader value",
  "Every test builds a new reader or reads only once with it.",
  ["reader.go", "grammar/mxt.go", "grammar/lua.go", "grammar/json.go"], [("Janus state", "reader.go"), ("salt handling", "grammar/mxt.go"), ("long brackets", "grammar/lua.go")],
  ["results of repeated reads"], [{"name": "janus end string", "meaning": "what the closing reader expects", "where": "reader.go janusEndReader"}])

p("C16", "A Janus end matches exactly what its begin last matched",
  "After the begin reader of a Janus pair matched a string, the end reader succeeds exactly where that very string stands, however often it was tried before and at however many places it or the reader around it failed in between. Used as delimiters, the pair finds the first closing delimiter with the same string as the opening one.",
  ["inputs", "histories"], "all begin strings, bodies with near-miss delimiters, repeated tries",
  "Three texts, none with a delimiter that matches only in part, and the error results are compared with a condition that can never be true.",
  ["reader.go", "grammar/lua.go", "grammar/mxt.go"], [("janusBeginReader, janusEndReader", "reader.go")], ["captured text"])

p("C17", "Invalid reader arguments give a reader that always fails and says so",
  "Building a reader with arguments it does not accept (a list value that is neither rune, string nor Reader, a malformed range string, an odd number of range bounds) never panics; the result fails on every text without moving, and its description and that of every composition showing it contain the invalid-reader marker, which HasInvalidReader and AnyHasInvalidReader find. Descriptions of readers built with valid arguments never contain the marker.",
  ["programs", "inputs"], "all constructor arguments and compositions",
  "One invalid argument in one composition is tested.",
  ["reader.go"], [("asReader, InvalidReader, HasInvalidReader", "reader.go")], ["What(), Read() error, Mark()"])

p("C18", "Reader descriptions are the documented notation of their structure",
  "What() of a built-in reader is determined by its structure alone: the operator sign of the reader (such as ? * + ! @ -> --> n* and the brackets of Any, sets, ranges, bodies and skip sequences) applied to the descriptions of its parts in order, with strings and runes quoted; a named reader or rule shows only its name. Rule lines and GrammarLines show each rule once, in order, as name, colon and the description of its reader; reading with a reader does not change its description.",
  ["programs"], "all reader expressions",
  "Fifteen expressions are compared, none with Past, Times, Body, SkipSeq, Janus, Int, At or Opt.",
  ["reader.go", "grammar.go"], [("What methods", "reader.go"), ("Rule, GrammarLines", "grammar.go")], ["What(), Rule(), GrammarLines()"])

p("C19", "Token relations agree with the ranges they stand for",
  "For all tokens, whatever the order of the two markers they are made of: Len, Before, After, Covers, Clashes, Merge and Split agree with the half-open ranges of positions: Clashes is symmetric and true exactly if the ranges overlap and neither contains the other, Merge is the smallest token that covers both, Split gives the parts left and right of a covered separator so that the three lengths add up. Get returns exactly the bytes of the range.",
  ["inputs"], "all pairs and triples of tokens",
  "Fourteen pairs of three non-empty tokens; Before, After, Merge, Split, Len and empty tokens are untested.",
  ["token.go"], [("Token methods", "token.go")], ["results of the Token methods, Scanner.Get"])

p("C20", "Sorting segments keeps them all and puts covering segments first",
  "SortSegments and SortSegmentsByOrder only permute the slice; for segments that do not clash, each segment comes before the segments it covers and before those that lie behind it, empty segments included, and segments with equal tokens keep their relative order. SortSegmentsByOrder additionally orders segments with equal tokens by the position of their info in the order list, infos that are not listed first.",
  ["inputs"], "all slices of non-clashing segments, any length and input order, all order lists",
  "One slice of four and one of five segments.",
  ["segment.go"], [("segSorter comparison", "segment.go")], ["the sorted slice"])

p("C21", "Segmentate cuts a range into gapless, ordered pieces",
  "For a list of segments that lie inside the range one after the other, Segmentate of a segment or of a whole scanner text returns pieces that join without gap or overlap to exactly the range, contain the given segments unchanged and in order, and in which every other piece is non-empty and carries the info of the split segment (empty for a scanner). A list that is out of order, overlapping or outside the range gives an error.",
  ["inputs"], "all ranges and segment lists, empty segments and lists included",
  "One text with three segments.",
  ["segment.go", "token.go"], [("Segmentate", "segment.go"), ("Token.Split", "token.go")], ["returned segments and error"])

p("C22", "The graph is the containment tree of the accepted segments",
  "Whatever segments are appended in whatever order: a segment is refused exactly if it clashes with a segment accepted before, and a refused segment leaves the graph unchanged; every accepted segment is in the graph exactly once, each node covers its children, siblings are in text order and do not overlap, and no node has a sibling that covers it. The root keeps its name and spans exactly the accepted segments, and for segments with distinct tokens the graph does not depend on the order of appending.",
  ["histories", "inputs"], "all append sequences",
  "Five fixed graphs with at most four segments.",
  ["graph.go"], [("rankNodes, Append, BuildGraph", "graph.go")], ["Graph.Root tree, Append result, Equal"])

p("C23", "Leafs, flame stacks and graph equality render the tree faithfully",
  "FlameStack of every graph has exactly one line per node in depth-first order, each line being the path of numbered segments from the root joined by semicolons, a space and the length of the node; Leafs returns exactly the segments of the nodes without children in text order. Equal holds exactly for graphs with the same tree.",
  ["inputs"], "all graphs",
  "Leafs is tested on one graph, FlameStack and inequality not at all.",
  ["graph.go"], [("makeStackLines, appendLeafs, Equal", "graph.go")], ["FlameStack(), Leafs(), Equal()"])

p("C24", "The JSON grammar reads exactly the JSON language",
  "A text is read completely by the JSON grammar exactly if it is a valid JSON text (RFC 8259, as judged by Go's encoding/json, which also accepts bytes that are not UTF-8 inside strings); on any other text, cut off and malformed ones included, it ends with an error or before the end of the text, and never panics or hangs. Each single rule (string, number, ...) reads exactly the longest such item at the position.",
  ["inputs"], "all texts",
  "Four valid documents; not a single invalid one.",
  ["grammar/json.go", "reader.go"], [("JSON()", "grammar/json.go")], ["Use error and AtEnd()"])

p("C25", "JSON rules pick exactly the values, keys and containers of the document",
  "For every valid JSON text, the segments picked for the object, array, key, string, number, bool and null rules (and for the rules of their parts: value, element(s), member(s), character(s), escape, integer, fraction, exponent) are exactly the places of these items in the document, and decoding their text gives the document's values in order. The graph built from them has the nesting of the document, so that the json-stack demo prints one flame stack line per item.",
  ["inputs"], "all valid JSON documents in any formatting",
  "No test picks from JSON; the demo is not tested.",
  ["grammar/json.go", "tracker.go", "graph.go", "demo/json-stack/main.go"], [("JSON()", "grammar/json.go"), ("Basket", "tracker.go"), ("BuildGraph", "graph.go")], ["Basket.Picked(), graph, demo output"])

p("C26", "MXT documents are taken apart into the chunks they were written from",
  "For every list of chunks (name, optional comment, optional salt, content without a line that starts with the marker of the salt in force), written in any of the allowed header layouts and with either line ending, reading with the MXT grammar succeeds, consumes everything and yields exactly these names, contents, comments and salts in order. A content line that only resembles a marker because the salt differs stays content. A document with a header that lacks its marker, name, arrow or the space before the name, or has other text than a salt behind the arrow, is not read completely.",
  ["inputs"], "all chunk lists and header layouts",
  "Two documents; salts that do not apply to a later chunk, empty contents, CRLF and a comment on the header line are not combined.",
  ["grammar/mxt.go", "reader.go"], [("MXT()", "grammar/mxt.go"), ("Janus salt", "grammar/mxt.go")], ["Map/Pick of name, content, comment, salt; AtEnd()"])

p("C27", "Lua strings, numerals, names and comments are read to their exact end",
  "A Lua string literal (either quote, all escape sequences, long brackets of any level), numeral (decimal and hexadecimal, fraction, exponent), name or comment (line and long, also at the end of the file) at the position is read completely and not beyond its end, whatever follows it. A string that is not terminated or contains an unknown or malformed escape is not read, and a keyword is not read as a name.",
  ["inputs"], "all lexical items of the Lua grammar and all continuations",
  "Four strings; no numeral, no comment, no unterminated literal.",
  ["grammar/lua.go", "reader.go"], [("LuaString, LuaNumeral, LuaComment", "grammar/lua.go")], ["captured text per rule"])

p("C28", "Lua programs are read to the end and their statements are found",
  "Every program made of the statements and expressions of Lua 5.4, in any layout with white space and comments between the tokens, is read completely by the Lua grammar (by the script rule with or without a shebang line before it). The segments picked for names, numerals, strings, comments, operators, function names and the shebang line are exactly those of the program, each picked statement starts with its first token and ends behind its last and before the next one, and a program with a missing or surplus closing token, or with a character unknown to Lua between its tokens, or any other sequence of tokens that the grammar of Lua 5.4 (manual, section 9) does not derive, is not read completely.",
  ["programs", "inputs"], "all programs of the covered Lua subset and layouts",
  "The only program read as a whole is the empty one.",
  ["grammar/lua.go", "reader.go", "tracker.go"], [("Lua()", "grammar/lua.go")], ["AtEnd(), Basket.Picked()"])

p("C29", "Rule names are set, checked and collected for every grammar struct",
  "For every grammar struct, SetRuleNames gives each exported Rule field exactly the name of its tag (fields without a tag and other fields stay untouched) or returns an error if a tag is no rule name, and CollectRules returns the addresses of exactly the exported Rule fields in order. A rule name is valid exactly if the whole string is a letter followed by letters, digits, '+', '-', '.' or '_'; CheckRules fails exactly if some rule has an invalid name or no Reader, and the Must variants panic exactly then.",
  ["programs", "inputs"], "all grammar struct types, tags and names",
  "One struct with valid names; CheckRules, CheckRuleName and invalid names are untested.",
  ["grammar.go"], [("SetRuleNames, CollectRules, CheckRules, CheckRuleName, RuleName", "grammar.go")], ["rule names, returned errors and slices"])

p("C30", "Independent readings do not influence each other",
  "Readings with separately built readers, grammars, scanners, baskets and logs give the same results whatever other readings run in between, inside their callbacks, or at the same time in other goroutines. One reader that keeps nothing of what it reads (no Janus, Map, Pick, Monitor or value reader in it; the JSON grammar for instance) may be used by several goroutines and inside its own readings at once, without a data race and with the result of a reading alone.",
  ["schedules", "inputs", "programs"], "all pairs of readings and interleavings of them",
  "No test runs two readings at once or one inside a callback of another.",
  ["reader.go", "scanner.go", "grammar.go", "monitor.go", "tracker.go", "grammar/json.go", "grammar/lua.go", "grammar/mxt.go"], [("state per instance only", "reader.go"), ("Janus", "reader.go"), ("Basket, Log", "tracker.go, monitor.go")], ["results of concurrent and nested readings"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
