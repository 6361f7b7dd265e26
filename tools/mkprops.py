#!/usr/bin/env python3
"""Writes properties.jsonl (the single place property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Generated parsers decode accepted bytes to exactly the described values",
 "For every well-formed format description, code generation succeeds, the generated package compiles, and whenever a generated parser accepts an input every field of the result holds exactly the value the description assigns to those bytes (big-endian integers, strings without their terminator, arrays in order with the described length, nested structures, only the selected union case, positions as offsets into the structure). The bytes returned as remaining are exactly the input bytes after the last one the description consumes.",
 ["programs", "inputs"],
 "all descriptions built from the language's constructs (integers of every width, constraints, characters, strings, fixed/variable/remainder/leftover arrays, nested and inline structures, unions with every kind of case, length limits, contexts, positions, end markers, constants) x all input byte strings x all context values",
 "The code generator's package is not part of the runnable test suite and its own tests compare a handful of golden files; the tests of the generated examples run tens of fixed inputs per construct, so wrong offsets, widths, orders or selections for other descriptions or bytes go unseen.",
 ["gen/decl.go", "gen/core.go", "gen/printer.go", "inspect/inspect.go", "ast/types.go", "parse/parse.go"],
 [("marshaller generation from the syntax tree", "gen/decl.go"), ("constant, structure and context resolution", "inspect/inspect.go")],
 [("cursor", "the unread input while parsing", "generated Parse methods")],
 ["generated Parse method: receiver fields, returned slice"])

prop("C02", "Generated parsers accept exactly the inputs the description allows",
 "For every well-formed format description and every input, the generated parser returns an error if and only if the bytes do not conform: too few bytes anywhere, an integer outside its allowed list, a missing string terminator, a union tag whose case is forbidden, bytes left over inside a length-limited union, a length limit or trailer that does not fit, or bytes after an end-of-structure marker. Bytes after the end of a structure that has no end marker are never an error.",
 ["programs", "inputs"],
 "all descriptions built from the language's constructs x all input byte strings x all context values",
 "Existing tests try a few truncated or invalid inputs per example; boundary values of constraints, off-by-one lengths and case lists of other descriptions are never tried, and the generator is not run by the stable suite at all.",
 ["gen/decl.go", "gen/core.go", "inspect/inspect.go"],
 [("length checks, constraint conditions, union switch and end-of-data assertions", "gen/decl.go")],
 [], ["generated Parse method: returned error"])

prop("C03", "Generated parsers are total: no crash, no hang, input never modified",
 "For every well-formed format description, every input byte string and every context value, the generated parser returns without panicking, looping forever, or exhausting memory on the strength of a length field alone, and leaves the input bytes unchanged. On success the returned remaining bytes are a suffix of the input, and on error no remaining bytes are returned.",
 ["programs", "inputs"],
 "all descriptions x all input byte strings, in particular hostile length fields of every width (8 to 64 bits) and elements that consume no bytes",
 "Fuzz entry points are generated but never run by the suite; hostile 32/64-bit length fields and zero-progress elements do not occur in any test input.",
 ["gen/decl.go"],
 [("length checks before slicing and loop conditions", "gen/decl.go")],
 [], ["generated Parse method: panics, termination, input buffer"])

prop("C04", "One-shot parse functions agree with parsing into a value, fresh or reused",
 "The generated one-shot function returns a value identical to what parsing the same bytes and contexts into a fresh value yields, and returns no value together with the error exactly when that parse fails. Parsing into a value that was already used for another message gives the same acceptance, the same error, the same remaining bytes and the same value for every field the new message determines, and no two parsed values share memory with each other's fields.",
 ["programs", "inputs", "histories"],
 "all descriptions x all pairs of messages parsed one after the other into one value x all contexts",
 "Tests always parse into new values and almost never call the one-shot functions with contexts or failing inputs; state carried from an earlier message is never exercised.",
 ["gen/decl.go"],
 [("one-shot wrapper generation and slice allocation per parse", "gen/decl.go")],
 [("receiver fields", "values left over from an earlier parse", "generated structs")],
 ["generated ParseX function and Parse method"])

prop("C05", "Integer literals in descriptions mean exactly the number written",
 "Every decimal, octal (leading zero) or hexadecimal (0x, either letter case) literal denotes exactly its mathematical value wherever a number may appear (constant definitions, array lengths, constraint and case lists and ranges, length limits). A literal that does not fit in a signed 64-bit number or has digits invalid for its base makes the whole description rejected, never silently a different number.",
 ["inputs"],
 "all literal spellings up to the checked length in every syntactic position",
 "Tests use a dozen small literals, mostly decimal, mostly in constants; value boundaries, upper-case hex, octal in other positions and overflow are untested.",
 ["parse/trunnel.pigeon", "parse/internal/parser/gen-parser.go", "parse/parse.go", "ast/types.go"],
 [("literal rules and their actions", "parse/trunnel.pigeon"), ("packrat matching of generated rules", "parse/internal/parser/gen-parser.go")],
 [], ["syntax tree returned by parsing"])

prop("C06", "Accepted descriptions yield exactly the declarations written",
 "Whenever a description is accepted, the resulting syntax tree contains exactly the declarations, members, types, names, lengths, constraints, case lists, contexts and options that were written, in source order, with inline structures both listed as declarations of their own and referenced from where they were written. Nothing from abandoned parse attempts, and nothing from text elsewhere in the file, leaks into it.",
 ["inputs", "programs"],
 "all accepted texts of the grammar up to the checked size, including every spelling of names near keywords",
 "Tests compare a few dozen fixed texts; names that start with or resemble keywords, nested inline structures, mixed member orders and multi-case unions in combination are not covered.",
 ["parse/trunnel.pigeon", "parse/internal/parser/gen-parser.go", "parse/parse.go", "ast/types.go"],
 [("grammar actions building the tree", "parse/trunnel.pigeon"), ("backtracking state restore for inline structures", "parse/internal/parser/gen-parser.go")],
 [("lingering declarations", "inline structures collected while parsing", "parser state store")],
 ["syntax tree returned by parsing"])

prop("C07", "Whitespace and comments never change what a description means",
 "Replacing any stretch of whitespace between tokens by any other non-empty mix of spaces, tabs, line ends, line comments and block comments, with any text inside the comments, leaves the parse result unchanged; adding such stretches at the start or end of the file or around declarations, members and list elements does too. An unterminated block comment is an error, and text inside comments is never parsed.",
 ["inputs"],
 "all layout strings up to the checked length at every gap of the checked descriptions, including comment openers, closers, stars and slashes inside comments",
 "Tests contain a few benign comments; comment bodies with star and slash runs, adjacent comments, comments at end of file and carriage returns are not covered.",
 ["parse/trunnel.pigeon", "parse/internal/parser/gen-parser.go"],
 [("whitespace and comment rules", "parse/trunnel.pigeon")],
 [], ["syntax tree returned by parsing"])

prop("C08", "Text outside the language is rejected with an error, never a crash",
 "Parsing returns an error for every text that is not a sentence of the description language and no error for every text that is; it never panics, and never returns both a tree and an error or neither. Reading several files returns one tree per file in the order given, or an error if any of them is unreadable or malformed.",
 ["inputs", "fault_sequences"],
 "all texts obtained by arbitrary character substitutions, insertions and truncations of the checked descriptions, including control characters and non-ASCII or invalid UTF-8 bytes; every failing position in a list of files",
 "The existing invalid-input tests are a short list of whole files; single-character corruptions at arbitrary positions and failures in the middle of a file list are not enumerated.",
 ["parse/trunnel.pigeon", "parse/internal/parser/gen-parser.go", "parse/parse.go"],
 [("grammar rules and end-of-file check", "parse/trunnel.pigeon"), ("panic recovery into errors", "parse/internal/parser/gen-parser.go"), ("file loop", "parse/parse.go")],
 [], ["result and error of the parse entry points"])

prop("C09", "Interval operations agree with sets of 64-bit integers",
 "For all intervals and all 64-bit values: membership, size, single-value and textual form of an interval, textual form of a set, overlap detection, simplification, membership in a set, and subtraction of sets give exactly the answers of the sets of integers they stand for. Overlap is reported exactly when some value lies in two of the given intervals, simplification yields an ascending list of pairwise disjoint intervals of the same set, and no operation modifies its arguments.",
 ["inputs"],
 "all lists of up to the checked number of intervals with all 64-bit end points, including 0 and the maximum, adjacent, nested and equal intervals",
 "Tests use a few dozen small intervals; 64-bit boundary values, adjacency and empty operands are not reached, and the package is not in the runnable suite.",
 ["internal/intervals/intervals.go"],
 [("edge sweep with thresholds", "internal/intervals/intervals.go")],
 [], ["exported functions and methods of the intervals package"])

prop("C10", "Random draws from an integer set stay inside it and can reach all of it",
 "For every non-empty integer set and every sequence of random numbers, drawing a random member returns a value in the set after a bounded amount of work for all but a vanishing share of random sequences. Every member of the set can be drawn.",
 ["inputs", "fault_sequences"],
 "all sets of up to the checked number of intervals with arbitrary 64-bit bounds x all outcomes of the random source",
 "Tests draw some values from small fixed sets with a real generator; extreme random values, 64-bit wide sets and unreachable members are not observable that way.",
 ["internal/intervals/intervals.go"],
 [("uniform index selection and mapping to intervals", "internal/intervals/intervals.go")],
 [], ["random draw methods of interval sets"])

prop("C11", "Names resolve to their one definition, whatever the order of files",
 "Resolving constants, structures, contexts, integer expressions, integer lists and references gives the definition written in the description set, independent of the order of files, of declarations and of internal iteration. Two different definitions of one name, unknown names, references to missing or non-integer fields, and lists with overlapping entries are reported as errors, while an extern declaration never hides or conflicts with the definition it announces.",
 ["inputs", "configurations"],
 "all sets of up to the checked number of declarations distributed over files in every order, with arbitrary constant values and names, and every map iteration order",
 "Tests use single fixed file lists in one order, and the package is not in the runnable suite; conflicts across files, order effects and map-order effects are not exercised.",
 ["inspect/inspect.go", "ast/types.go", "fault/errors.go"],
 [("resolver symbol tables with conflict detection", "inspect/inspect.go")],
 [("symbol tables", "structures, contexts and constants seen so far", "inspect/inspect.go")],
 ["resolver construction and lookup methods"])

prop("C12", "Union case lookup agrees with the case the generated parser takes",
 "For every union with non-overlapping case lists and every value of its tag, looking up the tag gives exactly the case whose list contains it, otherwise the default case, otherwise none; the reported value sets of the cases are pairwise disjoint, lie within the tag's width, and the default's set is exactly the complement of the others. The generated parser takes that same case for that tag value.",
 ["inputs", "programs"],
 "all unions with up to the checked number of cases and ranges, arbitrary case values, default present or absent in any position, all tag widths, all tag values",
 "Tests cover a few fixed unions with 8-bit tags; wide tags, boundary values and defaults in other positions are not covered, and the package is not in the runnable suite.",
 ["inspect/branches.go", "inspect/inspect.go", "internal/intervals/intervals.go", "gen/decl.go"],
 [("branch table with complement for the default", "inspect/branches.go")],
 [], ["branch construction, lookup and enumeration; generated Parse"])

prop("C13", "Every generated test vector parses completely with the generated parser",
 "For every supported description and every outcome of the random source, each test vector produced for a structure, parsed under the contexts recorded with it, is accepted by the generated parser of that structure and leaves no bytes over. Producing vectors never panics, and fails with an error only for descriptions that use unsupported or unresolvable features.",
 ["programs", "inputs", "fault_sequences"],
 "all descriptions built from the supported constructs x all random sequences",
 "Vectors are only checked against golden files made from one random seed; other descriptions, seeds and combinations of length fields, tags and contexts are never checked, and the package is not in the runnable suite.",
 ["tv/generator.go", "tv/constraints.go", "tv/selector.go", "gen/decl.go", "inspect/branches.go"],
 [("constraint propagation from later fields to earlier length and tag fields", "tv/generator.go")],
 [("constraints", "values forced on earlier fields and contexts", "tv/constraints.go")],
 ["vectors returned by generation, fed to generated parsers"])

prop("C14", "Generated test vectors cover every permitted union case of every structure",
 "With exhaustive selection, for every outcome of the random source, every structure of the description that is not extern gets at least one vector, and every union case of it that does not fail outright is exercised by at least one of its vectors. Selecting a sample instead returns exactly the requested number of vectors drawn without repetition from the candidates, or all of them when there are fewer.",
 ["programs", "fault_sequences"],
 "all descriptions built from the supported constructs x all random sequences x all sample sizes",
 "Only the golden corpora of about fifteen descriptions under a fixed seed are compared; missing cases for other unions are invisible.",
 ["tv/generator.go", "tv/selector.go", "inspect/branches.go"],
 [("per-branch generation and cross product", "tv/generator.go"), ("selectors", "tv/selector.go")],
 [], ["vectors returned by generation"])

prop("C15", "Constraint stores keep exactly the recorded values and never alias",
 "Recording, looking up, merging and clearing field constraints behaves like a table keyed by scope and field: a recorded value is returned exactly until its scope is cleared, recording the same value again is accepted, recording or merging a different value is an error, and merging yields the union of both tables. A copy is independent of its original in both directions, copying only the shared scope drops exactly the local one, and merging leaves its operands unchanged.",
 ["inputs", "histories"],
 "all operation sequences up to the checked length on up to the checked number of stores, scopes and fields with arbitrary values",
 "There is no direct test of the constraint store; it is only exercised indirectly by vector generation, outside the runnable suite.",
 ["tv/constraints.go"],
 [("two-level map with set/lookup/merge/clone", "tv/constraints.go")],
 [("constraint tables", "scope to field to value", "tv/constraints.go")],
 ["exported methods of the constraint store"])

prop("C16", "Code generation is deterministic and independent of hidden order",
 "For the same descriptions, package name and random seed, generated parsers, generated tests, fuzz entry points and test vectors are identical on every run, whatever order internal tables are iterated in and whatever was generated earlier in the same process. Every declaration is emitted exactly once and in source order.",
 ["programs", "histories", "configurations"],
 "all descriptions of the checked set x every map iteration order x earlier generations in the same process",
 "Go randomises map order per run, so a test that happens to pass proves nothing about other orders; the generator tests are not in the runnable suite.",
 ["gen/core.go", "gen/decl.go", "gen/tests.go", "gen/fuzz.go", "tv/generator.go", "tv/constraints.go", "inspect/inspect.go"],
 [("ordered traversal of declarations", "gen/core.go"), ("resolver tables", "inspect/inspect.go")],
 [], ["bytes returned or written by generation"])

prop("C17", "Package generation reports every failure and never claims a partial success",
 "Generating a package into a directory succeeds only if every artefact was written completely with the generated contents; any failure to resolve, generate, format or write any artefact or corpus file is returned as an error. Descriptions for which vectors are not supported still get their parser file, and existing unrelated files are left alone.",
 ["fault_sequences", "configurations"],
 "every position at which a file operation can fail x descriptions with and without vector support",
 "Write failures are not injected by any test; golden comparisons only see the success path.",
 ["gen/core.go", "tv/corpus.go", "fault/errors.go"],
 [("error checks after each artefact", "gen/core.go"), ("corpus writer", "tv/corpus.go")],
 [], ["error of package generation, files in the output directory"])

prop("C18", "Generated tests, fuzz entries and corpus files reflect vectors and parsers",
 "The generated test file compiles and lists, for every structure whose vectors need no context values, exactly its vectors byte for byte; corpus files on disk contain exactly the bytes of each vector, one file per distinct vector, under the structure's own directory. The generated fuzz entry of a structure returns its interesting verdict exactly when the structure's parser accepts the data.",
 ["programs", "inputs"],
 "all vectors (any bytes, any lengths up to the bound, any context values) x all descriptions of the checked set x all fuzz inputs",
 "Only golden outputs of fixed corpora are compared; particular byte values (quotes, zeros, high bytes), empty vectors and context values are not varied.",
 ["gen/tests.go", "gen/fuzz.go", "tv/corpus.go"],
 [("test and fuzz emitters", "gen/tests.go, gen/fuzz.go"), ("content-addressed corpus files", "tv/corpus.go")],
 [], ["generated test source, fuzz functions, corpus directory"])

prop("C19", "Syntax errors name the file and the place where the text goes wrong",
 "Every error for a malformed description names the file it was read from and gives line, column and byte offset of one and the same place in the text (lines and characters counted from one, a line break being column zero of the line it begins). At that place is a byte sequence that is no character, a literal that denotes no number, or the word or sign at which the text stops being the beginning of a description; in the latter two cases the text before the place is accepted on its own or reported as wrong only at its end.",
 ["inputs"],
 "all texts of the checked set with any byte substituted, inserted or removed at a place, cut off, spread over several lines, with multi-byte characters, out-of-range literals, and lists of files",
 "No test looks at the place of an error; a wrong line after a comment, a column that counts bytes, or a place reported too early or too late needs an oracle for every malformed text.",
 ["parse/parse.go", "parse/internal/parser/gen-parser.go", "parse/trunnel.pigeon"],
 [("position tracking and furthest-failure reporting", "parse/internal/parser/gen-parser.go"), ("entry points that pass the file name on", "parse/parse.go")],
 [], ["error returned for a malformed description"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
