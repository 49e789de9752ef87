#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl (and is imported by mkmanifest.py)."""
import json, os, sys

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                             **({"observe_at": observe} if observe else {}),
                             hook_needed=None))

PROPS = [
P("C01", "Quoting round-trips every string",
  "For every byte string, unquoting its quoted form returns exactly the original string, whether the quotes were forced or only added when needed. The quoted form starts and ends with a double quote, contains no control characters and no unescaped quote or backslash, and as-needed quoting leaves a string unchanged exactly when it has no space, control character, quote or backslash.",
  ["inputs"], "all byte strings (any byte value 0..255, any length)",
  "The single existing test quotes one ASCII string; bytes >= 128, NUL, adjacent escapes and digits after an escape are never sampled.",
  ["flut/string_tools.cpp", "flut/string_tools.hpp"],
  [("per-character escaping and its inverse", "flut/string_tools.cpp encode_char/decode_char/quoted/try_quoted/try_unquoted/needs_quotes")]),
P("C02", "Unquoting and escape decoding are safe on malformed text",
  "For any text, however malformed (lone quotes, trailing backslash, truncated or invalid escapes), unquoting terminates and never reads outside the text; text that does not both start and end with a double quote is returned unchanged. Decoding one character from a non-empty buffer consumes at least one and at most the available number of characters, returns an ordinary character as itself, maps the documented escapes to their characters and anything invalid to '?'.",
  ["inputs"], "all byte buffers and all buffer lengths >= 1",
  "No test passes malformed text; memory safety and termination are universally quantified over inputs.",
  ["flut/string_tools.cpp"], [("bounds of the unquoting loop and of the octal reader", "flut/string_tools.cpp try_unquoted/decode_char")]),
P("C03", "Token reading is safe, makes progress and loses no text",
  "For any text and any delimiter, operator and quotation characters, reading tokens until the stream ends terminates, never reads outside the text and yields the tokens in text order: each operator character is a token of its own, every maximal run of other characters between delimiters and operators is one token, and quoted parts contribute their decoded content to the token they touch. No character outside delimiters, quotes and escapes is dropped or duplicated, and line reading returns the text up to the line end. A copied stream continues where the original stood, independently of it.",
  ["inputs"], "all texts, delimiter sets, operator sets and quotation sets",
  "No test calls the token reader at all; tokenizers fail on rare adjacency of quotes, operators, delimiters and buffer end.",
  ["flut/char_stream.cpp", "flut/char_stream.hpp"], [("token loop and delimiter skipping", "flut/char_stream.cpp get_token/get_line"), ("position, eof and fail bookkeeping", "flut/char_stream.hpp")]),
P("C04", "Typed extraction reads exactly the values in the text",
  "Extracting values from text yields the numbers and words in order, with the value the text denotes; extraction fails exactly when no value of the requested type starts at the current position, and end of stream is reported exactly when only delimiters remain. Scanning several variables returns the number of variables successfully read, and converting a text to a list returns every value up to the requested maximum and nothing else.",
  ["inputs"], "all texts, all sequences of extractions, all integer widths",
  "One test scans one well-formed line and ignores the returned count.",
  ["flut/char_stream.hpp", "flut/char_stream.cpp", "flut/string_tools.hpp"], [("conversion, end-pointer and flag handling", "flut/char_stream.hpp operator>>/process_end_pos"), ("count accumulation", "flut/string_tools.hpp scan_str/str_to_vec")]),
P("C05", "Splitting, trimming and key/value parsing partition the text correctly",
  "Splitting a text on a set of separator characters returns exactly its maximal runs of non-separator characters, in order. Trimming removes exactly the leading and/or trailing characters of the given set and nothing inside; taking the part left (right) of a delimiter stops at the first (starts after the last) delimiter, and key/value parsing splits at the first separator and trims both sides.",
  ["inputs"], "all texts and all separator sets",
  "Tests split two fixed strings; empty texts, all-separator texts, leading and trailing separators are not sampled.",
  ["flut/string_tools.cpp"], [("find_first_of/find_last_of arithmetic", "flut/string_tools.cpp split_str/trim_str/trim_right_str/left_of_str/right_of_str/make_key_value_str")]),
P("C06", "Prefix, suffix and slice operations follow their definition",
  "A text begins (ends) with another exactly when its first (last) characters equal it, also when the other text occurs several times or is empty or longer. Taking n characters from the left or right returns the first or last n characters, a negative n drops that many characters from the opposite end, and the complementary slices concatenate back to the original text.",
  ["inputs"], "all pairs of texts and all slice sizes within the text",
  "No test calls these functions.",
  ["flut/string_tools.hpp"], [("find/substr arithmetic", "flut/string_tools.hpp str_begins_with/str_ends_with/left_str/right_str/mid_str/in_str")]),
P("C07", "Path decomposition and composition are consistent",
  "For every path, the file name is what follows the last separator (the whole path if there is none), the parent is what precedes it, the extension is what follows the last dot of the file name and the stem is the file name without its extension. Replacing or removing an extension or file name changes only that part, never a directory; joining inserts exactly one separator where needed, and normalising separators changes only separators.",
  ["inputs"], "all path texts, including empty, dots in directory names, trailing and mixed separators",
  "Tests use a handful of well-formed paths; dotted directories, missing extensions and bare names are not sampled.",
  ["flut/system/path.cpp", "flut/system/path.hpp"], [("last separator / last dot arithmetic", "flut/system/path.cpp")]),
P("C08", "File-name string helpers partition the name",
  "For every file name text, the folder part (up to and including the last separator, empty if none) followed by the part without folder gives back the text. The extension is what follows the last dot of the part without folder (empty if none) and removing the extension removes exactly the dot and the extension.",
  ["inputs"], "all texts",
  "No test calls these functions.",
  ["flut/string_tools.cpp"], [("find_last_of arithmetic", "flut/string_tools.cpp get_filename_ext/get_filename_without_ext/get_filename_folder/get_filename_without_folder")]),
P("C09", "Glob matching decides exactly the glob language",
  "A text matches a pattern exactly when the whole text can be produced from it, where * stands for any (possibly empty) run of characters including separators and dots, ? for any single character, and other characters for themselves, case sensitively and with backslash having no special meaning. A multi-pattern matcher accepts a text exactly when at least one of its delimited patterns does.",
  ["inputs"], "all texts and patterns over letters, separators, dots, backslashes, * and ?",
  "No test calls the matcher.",
  ["flut/string_tools.cpp", "flut/pattern_matcher.hpp"], [("delegation to the platform matcher with the right argument order and flags", "flut/string_tools.cpp pattern_match")]),
P("C10", "String hashing is the same at compile time and run time, and is FNV-1a",
  "For every text, the run-time hash of a C string, the run-time hash of the equal string object, and the compile-time hash are all equal to the published 64-bit FNV-1a hash of its bytes. This holds for every byte value, including bytes above 127.",
  ["inputs"], "all NUL-free byte strings",
  "Tests compare three ASCII words against their compile-time hash only.",
  ["flut/hash.hpp"], [("byte folding loop and its constexpr twin", "flut/hash.hpp")]),
P("C11", "Integer, boolean and enum values survive conversion to text and back",
  "Converting an integer, enum or string value to text and back yields the same value, the text being the canonical decimal form. Conversion of text to the wider integer types returns the denoted value for the whole range of the type, rejects text that does not start with a number, and the convertibility test agrees with whether conversion succeeds.",
  ["inputs"], "all values of the integer types",
  "No test converts values; range limits and sign handling need all values.",
  ["flut/system/string_cast.hpp", "flut/string_tools.hpp"], [("per-type conversion table", "flut/system/string_cast.hpp")]),
P("C12", "Flat map behaves as a map under any history",
  "After any sequence of insertions, assignments, look-ups and erasures, the map holds each key at most once, in order of first insertion, with the value last assigned to it. Look-up by index inserts a default value only for an absent key, checked look-up fails exactly for absent keys, and find, count, membership and size agree with the contents.",
  ["histories", "inputs"], "all operation sequences, all keys and values",
  "Tests insert three distinct keys once.",
  ["flut/flat_map.hpp"], [("linear search plus append on miss", "flut/flat_map.hpp")]),
P("C13", "Sorted vector stays sorted and finds exactly its elements",
  "After any sequence of insertions and erasures the vector is in non-decreasing order and contains exactly the inserted (and not erased) elements with their multiplicity; elements that compare equal keep insertion order. Finding a value returns the position of an equal element if there is one, and the end otherwise.",
  ["histories", "inputs"], "all insertion sequences and all searched values",
  "The existing test inserts five elements and asserts nothing; find is never instantiated.",
  ["flut/sorted_vector.hpp"], [("upper_bound insertion, lower_bound search", "flut/sorted_vector.hpp")]),
P("C14", "Dictionary look-ups are inverse and total where promised",
  "For any table of (element, name) pairs, looking up an element returns the name of the first pair with that element, and looking up a name returns the element of the first pair with that name. A missing element or name raises an error, or yields the given default in the look-up that takes one, and a look-up never alters the table.",
  ["inputs"], "all tables and all looked-up names and elements",
  "Tests use one three-entry table with distinct names and one missing name.",
  ["flut/dictionary.hpp"], [("first-match linear search", "flut/dictionary.hpp")]),
P("C15", "Dynamic array copies, moves and assigns by value",
  "Copying or assigning a dynamic array (to itself too) yields an independent array with the same size and elements; moving transfers them and leaves a valid array whose size matches its contents. Filled construction sets every element, checked access fails exactly for indices outside the array, and iteration visits every element once in order.",
  ["histories", "inputs"], "all sizes, contents and construct/copy/move/assign sequences",
  "No test uses the class; move assignment is not even instantiated.",
  ["flut/dynarray.hpp"], [("ownership pointer plus end pointer", "flut/dynarray.hpp")]),
P("C16", "Channel labels and their index always agree",
  "After any sequence of constructing, adding, setting, resizing and clearing labels, finding a label returns the position at which that label currently stands, and reports absence exactly when it stands nowhere. Adding or setting a label that is already present is rejected and changes nothing.",
  ["histories", "inputs"], "all label operation sequences",
  "No passing test uses the class; positions other than the last one are never set.",
  ["flut/buffer/data_header.hpp"], [("label vector plus label-to-index map", "flut/buffer/data_header.hpp")]),
P("C17", "Frame storage and table keep every cell value under growth",
  "In a frame/channel storage or labelled table, after any sequence of adding frames/rows and channels/columns, resizing and writing, every cell reads back the value last written to it, cells never written hold the given default, and the number of frames, channels and cells is consistent. Growing never moves or loses existing data, shrinking is rejected, and access by label and checked access refer to the same cells.",
  ["histories", "inputs"], "all growth and write histories",
  "The storage tests do not compile in the available build and assert nothing about contents.",
  ["flut/storage.hpp", "flut/table.hpp", "flut/buffer/data_header.hpp"], [("row-major re-layout on growth", "flut/storage.hpp resize, flut/table.hpp resize")]),
P("C18", "Circular frame buffer returns the most recent frames",
  "For any number of added frames, the buffer returns for each of the most recent frames that fit in it, and each channel, the value written when that frame was current, whether addressed by frame number, relative to the latest frame, or as the latest frame. Checked access succeeds exactly for existing frames that have not been overwritten and existing channels.",
  ["histories", "inputs"], "all buffer sizes, frame counts and written values",
  "No test exercises the buffer.",
  ["flut/buffer/circular_frame_buffer.hpp"], [("frame number modulo buffer size", "flut/buffer/circular_frame_buffer.hpp")]),
P("C19", "Circular deque behaves as a double-ended queue",
  "After any sequence of pushes and pops at either end, with or without spare capacity, the deque contains exactly the elements a double-ended queue would, in order, through front, back, indexing and iteration, const or not. Growing beyond capacity keeps all elements in order, and popping from an empty deque is rejected.",
  ["histories", "inputs"], "all push/pop histories and all initial capacities",
  "The existing test does not compile in the available build and only pushes on one side.",
  ["flut/circular_deque.hpp"], [("front index and size modulo capacity, insertion on growth", "flut/circular_deque.hpp")]),
P("C20", "Property trees store and return values by key and order",
  "In a property tree, setting a key stores the value in the first child with that key or appends a new child, appending always adds a last child, and reading returns the value of the first child with the key, the default if there is none, or an error when the key is required. Delimited access walks nested keys the same way; copies are independent deep copies and equality holds exactly when values, keys, order and descendants are equal.",
  ["histories", "inputs"], "all operation sequences over keys and values",
  "The property tree tests are not part of the available build and follow one fixed script.",
  ["flut/prop_node.hpp", "flut/prop_node.cpp"], [("ordered vector of key/child pairs", "flut/prop_node.hpp"), ("recursive equality", "flut/prop_node.cpp")]),
P("C21", "Property text written to a file reads back as the same tree",
  "Saving a property tree whose keys start with a letter and loading the file again gives an equal tree, in the readable as well as the compact layout, whatever characters keys and values contain. Saving reports success exactly when the file was written. Merging trees adds exactly the missing keys and replaces existing ones only when asked to.",
  ["inputs"], "all trees within the stated bounds, all byte values in keys and values",
  "One script saves and loads one tree (not in the available build).",
  ["flut/prop_node_tools.cpp", "flut/char_stream.cpp", "flut/string_tools.cpp"], [("writer with as-needed quoting; recursive-descent reader over tokens", "flut/prop_node_tools.cpp write_prop_none/read_prop_node/get_prop_token/merge_prop_nodes")]),
P("C22", "Parsing property text is safe on arbitrary input",
  "Parsing any text as properties terminates, never reads outside the text, and either returns a tree or reports an error. For well-formed text the tree has exactly the keys, values and nesting of the text, in order, and comments are ignored up to the end of their line only.",
  ["inputs"], "all texts",
  "No test feeds malformed or commented text.",
  ["flut/prop_node_tools.cpp", "flut/char_stream.cpp"], [("recursive-descent reader", "flut/prop_node_tools.cpp parse_prop/read_prop_node/get_prop_token")]),
P("C23", "Scalar helpers respect their documented ranges",
  "For all ordinary numbers and ordered limits, clamping returns the nearest value inside the limits and changes nothing inside them, soft clamping stays inside the limits, wrapping returns an equivalent value inside the range, and bounds report containment and signed violation consistently with clamping. Sign, signed and inverse roots, square wave (period 2), power-of-two, parity, set-if-smaller/bigger and comparison with a relative tolerance follow their definitions.",
  ["inputs"], "all integer and IEEE double values (clamping, sign, comparisons, parity), all reals within bounds (wrapping, soft clamping, square wave)",
  "No passing test touches the math helpers; boundary values and negative arguments are rare.",
  ["flut/math/math.hpp", "flut/math/bounds.hpp", "flut/math/bounding_box.hpp"], [("comparison chains", "flut/math/math.hpp")]),
P("C24", "Vector, quaternion and transform algebra obeys its laws",
  "Vector operations act component-wise on all components; dot and cross products satisfy their defining identities, normalizing gives length one and keeps the direction, and polar coordinates give the point they describe. Quaternion multiplication composes rotations and is associative and norm-multiplicative, rotating by a unit quaternion preserves lengths and dot products and is undone by the conjugate, and transforms compose with and are undone by their inverse. Rotations made from an axis and angle, from Euler angles in any order, from two directions (equal and opposite ones too) or from three axes are the rotations that those describe, and the axis and angle, the rotation vector, and pitch, yaw and roll read from a rotation describe that rotation. Vectors, quaternions and transforms stored in a property tree read back with all their components.",
  ["inputs"], "all real component values (exact arithmetic; floating-point rounding is outside)",
  "The math tests are not part of the available build and sample a few vectors.",
  ["flut/math/vec3.hpp", "flut/math/vec3_type.hpp", "flut/math/vec4.hpp", "flut/math/vec4_type.hpp", "flut/math/quat.hpp", "flut/math/quat_type.hpp", "flut/math/transform.hpp", "flut/math/mat33.hpp", "flut/math/mat33_type.hpp"], [("component formulas", "flut/math/quat.hpp, flut/math/vec3.hpp, flut/math/vec4.hpp")]),
P("C25", "Averages, medians and regressions compute their definition",
  "For all inputs, the weighted average equals the weighted sum divided by the total weight (zero when empty), the median is the middle element or the mean of the two middle ones, index sorting returns a permutation that orders the values, and linear regression through points on a line returns that line. Polynomials evaluate to the sum of coefficients times powers, and differences telescope to last minus first.",
  ["inputs", "histories"], "all finite sequences within the bounds, all real values (exact arithmetic)",
  "No passing test calls them.",
  ["flut/math/average.hpp", "flut/container_tools.hpp", "flut/math/linear_regression.hpp", "flut/math/polynomial.hpp", "flut/math/delta.hpp", "flut/buffer/data_algorithms.hpp"], [("accumulation formulas", "flut/math/average.hpp, flut/container_tools.hpp")]),
P("C26", "Filters and delayers implement their recurrence for every signal",
  "A digital filter's output obeys its difference equation for every input history, and the low-pass design passes a constant signal unchanged. A delay line started with an initial value returns that value until samples replace it, reproduces a constant signal exactly, delays a steadily rising one by the set delay (within one time step), and its output is always a weighted combination (weights summing to one) of samples it has been given.",
  ["histories", "inputs"], "all sample histories within the bounds, all real values (exact arithmetic)",
  "The delay and filter tests are commented out upstream and assert nothing.",
  ["flut/filter.hpp", "flut/math/delayer.hpp"], [("shift registers and coefficients", "flut/filter.hpp"), ("circular sample array and interpolation weights", "flut/math/delayer.hpp")]),
P("C27", "Interpolation is exact at samples and bounded between them",
  "Interpolating a sampled series returns the sample value at a sample position, a value between the two neighbouring samples in between (on the straight line through them), and the first or last sample outside the range. A piecewise linear function built from a function agrees with it at every grid point and lies on the straight line in between. A Catmull-Rom spline passes through its inner control points at their times.",
  ["inputs"], "all sample values, keys and sorted positions within the bounds (exact arithmetic)",
  "The interpolation test only logs values and is not part of the available build.",
  ["flut/buffer/interpolation.hpp", "flut/buffer/buffer_access.hpp", "flut/math/regular_piecewise_linear_function.hpp", "flut/math/catmull_rom.hpp", "flut/storage.hpp"], [("upper_bound search and weight computation", "flut/buffer/interpolation.hpp")]),
P("C28", "Flags are independent of each other",
  "After any sequence of setting, clearing and assigning flags, each flag reads as last set or cleared, no operation on one flag changes another, and the any-test is true exactly when some flag is set. This holds for every flag the storage type has room for, and for list forms and compile-time forms alike.",
  ["histories", "inputs"], "all operation sequences, all flag positions, several storage widths",
  "No test uses flags directly.",
  ["flut/flag_set.hpp"], [("bit masks", "flut/flag_set.hpp")]),
P("C29", "Optional values report presence and value faithfully",
  "A default-constructed optional is empty; after construction from or assignment of a value it is present and yields that value, for number types (except the one reserved value) and other types. Reading an optional from text makes it present with the denoted number, and leaves it unchanged when no number can be read.",
  ["inputs", "histories"], "all values of integer, floating-point and class types",
  "No test uses optionals.",
  ["flut/math/optional.hpp", "flut/math/math.hpp"], [("sentinel / NaN encoding", "flut/math/optional.hpp")]),
P("C30", "Log messages reach exactly the interested sinks",
  "After any history of creating, registering, removing sinks and changing log levels, a message reaches every registered sink whose level is at or below the message level exactly once, in registration order and with the exact text, and reaches no other sink. Formatted messages follow the same rule, and the reported global level is the lowest level among registered sinks, which also decides whether a level counts as logged.",
  ["histories", "inputs"], "all registration/level histories and message levels",
  "Tests use one sink at one level.",
  ["flut/system/log.cpp", "flut/system/log.hpp", "flut/system/log_sink.hpp"], [("cached lowest level and per-sink filter", "flut/system/log.cpp")], state=[("global sinks", "registered sinks in order", "flut/system/log.cpp"), ("lowest level", "cached minimum used as fast filter", "flut/system/log.cpp")]),
P("C31", "Test framework counts and reports every result",
  "After any sequence of test results, the number of tests equals passed plus failed, each result is counted in exactly one of them and returned to the caller, and the report signals failure exactly when at least one test failed since the last reset. Resetting sets all counters to zero.",
  ["histories"], "all sequences of results and resets",
  "The framework does not test itself; failures and resets never occur in the passing suite.",
  ["flut/system/test_framework.cpp"], [("three counters", "flut/system/test_framework.cpp")]),
P("C32", "Version numbers print and parse consistently",
  "Printing a version gives major.minor.patch, followed by .build when the build is positive and by the postfix when present. Parsing that text gives back the same version, and parsing a text without build or postfix gives build zero and an empty postfix.",
  ["inputs"], "all non-negative version components within the bounds",
  "No test uses versions; absent components read uninitialised memory unless every path sets them.",
  ["flut/system/version.hpp"], [("stream parsing", "flut/system/version.hpp")]),
P("C33", "Memoization calls the function once per distinct argument",
  "A memoized function returns for every call the value the wrapped function returned for those arguments, and calls the wrapped function exactly once for each distinct argument tuple, whatever the order and repetition of calls.",
  ["histories", "inputs"], "all call histories within the bounds",
  "No test uses memoization.",
  ["flut/memoize.hpp"], [("tuple-keyed map", "flut/memoize.hpp")]),
P("C34", "Timers, stopwatch and profiler account for all time",
  "For any non-decreasing clock, elapsed times in all units denote the same non-negative duration since construction or reset. The stopwatch's measures plus its own overhead add up to the time since the first measure, with equal names summed, and in the profiler every section's time is attributed to its caller's child once, so exclusive times are non-negative and sum to the total.",
  ["histories", "schedules"], "all clock sequences and all properly nested section histories within the bounds",
  "Tests read the real clock a few million times without asserting anything.",
  ["flut/timer.hpp", "flut/stopwatch.cpp", "flut/system/profiler.cpp"], [("epoch subtraction", "flut/timer.hpp"), ("section tree", "flut/system/profiler.cpp")]),
P("C35", "Factories create exactly the registered type",
  "After any sequence of registrations, creating by name returns an object of the type last registered under that name, built from the given arguments. Creating an unregistered name raises an error (or yields nothing in the trying form), and the membership query agrees.",
  ["histories", "inputs"], "all registration sequences and names",
  "The factory test is not part of the available build.",
  ["flut/factory.hpp", "flut/flat_map.hpp"], [("name to creator map", "flut/factory.hpp")]),
P("C36", "Identifier tidying keeps exactly the bare name",
  "Tidying an identifier removes everything up to the last scope separator, a member prefix when there is no scope separator, and leading or trailing underscores, and keeps all other characters in order. The result of tidying is the same whether the identifier carries those decorations or not.",
  ["inputs"], "all identifier texts",
  "No test calls it; it decides which configuration key a variable reads.",
  ["flut/system_tools.cpp"], [("prefix and underscore stripping", "flut/system_tools.cpp tidy_identifier")]),
P("C37", "INI text written to a file reads back as the same groups",
  "Saving a two-level property tree as INI and loading it again gives the same groups, keys and values in order; comment lines and blank lines in the file affect no other line.",
  ["inputs"], "all groups, keys and values without INI metacharacters, within the bounds",
  "No test reads or writes INI files.",
  ["flut/prop_node_tools.cpp", "flut/char_stream.cpp"], [("line-based reader", "flut/prop_node_tools.cpp load_ini/save_ini")]),
P("C38", "XML files round-trip property trees",
  "Saving a property tree with one root as XML and loading it again gives an equal tree, and malformed XML is reported as an error instead of being read out of bounds.",
  ["inputs"], "all trees with valid XML names",
  "No test reads or writes XML.",
  ["flut/prop_node_tools.cpp", "contrib/rapidxml-1.13/rapidxml.hpp"], [("rapidxml DOM conversion", "flut/prop_node_tools.cpp")]),
P("C39", "File system helpers create and copy what they report",
  "Creating directories makes all missing levels and reports success exactly when that call created the folder. A unique folder is always newly created, never an existing one, and running out of names is an error. A file copy reports success exactly when the target afterwards equals the source; otherwise, and when the target exists and overwriting was not asked for, the target is left as it was. Existence queries tell files from folders.",
  ["inputs", "fault_sequences"], "all directory states and failing system calls",
  "filesystem.cpp is not compiled by the available build.",
  ["flut/filesystem.cpp"], [("stat/mkdir loops", "flut/filesystem.cpp")]),
P("C40", "Floating-point values survive conversion to text and back",
  "Converting a float or double to text and back yields a value within the printed precision of the original.",
  ["inputs"], "all finite floats and doubles",
  "No test converts floating-point values.",
  ["flut/system/string_cast.hpp"], [("std::to_string / std::stod", "flut/system/string_cast.hpp")]),
P("C41", "Integer ranges enumerate exactly their integers",
  "Iterating over an integer range visits begin, begin+step, ... in order, stopping before the end of the range whether or not the step divides it, for positive and negative steps. Iterator distance is the number of steps, and postfix and prefix increment give the old and new value.",
  ["inputs"], "all begin values, spans and steps within the bounds",
  "No test uses integer ranges; a step that does not divide the range never ended.",
  ["flut/math/irange.hpp"], [("begin/end/step iterators", "flut/math/irange.hpp")]),
P("C42", "Bounding boxes are the smallest box around what was added",
  "After adding any points or boxes to a bounding box, every added point lies inside and every face of the box touches an added point; a box built from nothing is neutral, and adding a box leaves that box alone.",
  ["inputs", "histories"], "all points and boxes within the bounds",
  "No test uses bounding boxes.",
  ["flut/math/bounding_box.hpp", "flut/math/math.hpp"], [("min/max per axis", "flut/math/bounding_box.hpp operator+=")]),
P("C43", "Cloned owning pointers are deep and independent",
  "Cloning an owning pointer or a vector of them makes exactly one new equal object per original, in order; changing or destroying either side never affects the other, and every object is destroyed once.",
  ["inputs", "histories"], "all values and vector lengths within the bounds",
  "No test clones owned objects.",
  ["flut/memory_tools.hpp"], [("element-wise copy", "flut/memory_tools.hpp clone")]),
P("C44", "Random numbers stay in range and repeat for a seed",
  "Two generators with the same seed produce the same numbers, a copy continues the sequence and reseeding restarts it. Uniform numbers lie within the requested range (0 to 1 by default) and are the numbers of the unit range scaled to it; normal numbers are the mean plus the standard deviation times a standard normal number. The free functions draw from one global generator.",
  ["inputs", "histories"], "all seeds, ranges and orders of draws within the bounds",
  "No test uses random numbers.",
  ["flut/math/random.hpp"], [("standard library engine and distributions", "flut/math/random.hpp")]),
P("C45", "Debug output keeps every value in its column and frame",
  "Every value written for debugging appears exactly once in the output file written at program end: one column per label in order of first use, one line per frame, a new frame starting exactly when a label is written a second time within the current one, and every line having an entry for every label. Without values no file is written. A sampled function is written as one line per sample with equally spaced arguments and the function's value there.",
  ["inputs", "histories"], "all histories of labels and values within the bounds",
  "No test writes debug output; the columns depend on the order in which labels first appear.",
  ["flut/system/debug_storage.cpp", "flut/debug_tools.hpp"], [("storage of frames written on exit", "flut/system/debug_storage.cpp"), ("sampling loop", "flut/debug_tools.hpp output_function")]),
P("C46", "Errors are reported once, in the place the caller chose",
  "An error code holds exactly the code and message last set; zero is the only code that means no error. Loading a missing or malformed file stores an error and returns nothing when an error code was passed, and raises an exception when it was not; loading a good file does neither. The error macros raise exactly when their condition says so, with the given text in the message. An interrupt request is seen by the object it was made on and by no other.",
  ["inputs", "histories", "fault_sequences"], "all codes, messages, file states and request histories within the bounds",
  "No test uses error codes or interrupts, or loads a broken file.",
  ["flut/system/error_code.hpp", "flut/system/assert.hpp", "flut/interruptible.cpp", "flut/prop_node_tools.cpp", "flut/string_tools.cpp"],
  [("code/message pair", "flut/system/error_code.hpp"), ("error code or exception", "flut/prop_node_tools.cpp load_xml/load_prop, flut/string_tools.cpp load_string"), ("interrupt flag", "flut/interruptible.cpp")]),
P("C47", "Merging and including property files yields the combined tree",
  "Merging one tree into another appends its children with new keys in order and replaces (when overwriting) or keeps (when not) children with equal keys, leaving the merged tree itself and the value of the target alone. Loading a file with includes gives the tree in which every include is replaced by the contents of the file it names, found relative to the including file at any nesting, merging includes adding to what is already there. A missing or unsuitable file and files that include each other in a circle are reported as errors, never looping or loading part of the tree.",
  ["inputs"], "all trees and include structures within the bounds",
  "No test merges trees or includes files.",
  ["flut/prop_node_tools.cpp", "flut/prop_node.cpp"], [("merge and recursive include", "flut/prop_node_tools.cpp merge_prop_nodes/load_file_with_include")]),
P("C48", "Properties that were never read are reported exactly",
  "After any history of reads, the number of unread properties is exactly the number of nodes not read since loading or clearing, counting reads nothing, and the report has one line per unread property and its parents at the requested level, naming it and its value. A copy of a tree starts unread; new properties and new values leave what was read as it was. Variables initialised by name get the property's value if present and otherwise the default, required ones raise an error when missing, and stored variables are read back unchanged.",
  ["inputs", "histories"], "all histories of reads within the bounds",
  "No test uses access tracking.",
  ["flut/prop_node.hpp", "flut/prop_node.cpp", "flut/prop_node_tools.hpp", "flut/prop_node_tools.cpp"], [("accessed flags", "flut/prop_node.hpp access/count_unaccessed"), ("report", "flut/prop_node_tools.cpp log_unaccessed"), ("initialisation macros", "flut/prop_node_tools.hpp INIT_PROP/SET_PROP")]),
P("C49", "Formatted and printed text is complete",
  "printf-style formatting returns the full text for results of any length, using every argument once. Printing a vector writes its elements in order separated by tabs, printing a property tree writes one line per node in order with its key and value, indented by depth.",
  ["inputs"], "all texts, lengths and trees within the bounds",
  "Tests format a few short texts; results near or above the internal buffer size are never sampled.",
  ["flut/string_tools.cpp", "flut/container_tools.hpp", "flut/prop_node.cpp"], [("formatting into a buffer", "flut/string_tools.cpp stringf"), ("recursive printing", "flut/prop_node.cpp to_stream")]),
P("C50", "Angles keep their meaning across units",
  "An angle reads back unchanged in its own unit, and as the same angle (180 degrees are pi radians) in the other one, whether by reading, copying, constructing or assigning, and converting back gives it again. Sums, differences, negations, scalings and divisions act on the angle itself, an operand in the other unit is converted, comparisons order angles of one unit as numbers, and the sine and cosine do not depend on the unit. Printing and reading keep the value.",
  ["inputs"], "all real angle values and factors within the bounds (exact arithmetic up to the library's pi), all floats and doubles for comparison",
  "The math tests are not part of the available build; which conversion a template picks depends on both units and types.",
  ["flut/math/angle.hpp", "flut/math/math.hpp"], [("unit conversion", "flut/math/angle.hpp angle_converter"), ("arithmetic and comparison", "flut/math/angle.hpp angle_")]),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in PROPS: jsonschema.validate(p, sch)
    except ImportError: pass
    print(len(PROPS), "properties")
