claim("C04","context-sensitive points-to and effect analysis over SSA","No write instruction reachable from any exported function can target the caller's bytes, in a may-alias over-approximation (k=3 call strings, field sensitive). Trusts that library code outside the analysed packages writes only to its own memory or to the modelled arguments.")
claim("C05","points-to/effect analysis plus dominance check of sync.Once guards","Every exported query is shown to write nothing reachable from its receiver or package variables except under a once-guard that dominates all reads. Does not model third-party code that receives the font.")
claim("C06","points-to/effect analysis over call histories","In two families of histories (subset then change the subset; merge twice then change the result), for both parsers, no write targets the operand that must stay untouched.")
claim("C07","must-return-error forward dataflow over SSA","Every call in the repository that returns an error (and every sticky error state of a reader) is an obligation: the error is looked at, and on every path where it is non-nil the function returns a non-nil error. A short table lists the places that tolerate a failure by design.")
claim("C14","conditional finite-set constant propagation over SSA","FontStyle.String, ParseStyle, the CSS tables and the style constants are evaluated abstractly for every style value of the finite domain; round trip and distinctness are decided exactly.")
claim("C16","path-sensitive nilness of return tuples over SSA","For every (value, error) function, each return is shown to carry a non-nil error or a non-nil value; every required table's parsed view is set before success.")
claim("C17","conditional finite-set constant propagation over SSA","The set of formats detection can return is computed and each is pushed through Extension, ToSFNT and the tool's writer; format identifiers are compared across functions.")
claim("C18","operator tables of reader and writer extracted by conditional constant propagation and compared","For every operator byte the fields stored by the reader's callback, the reader's default, operand count and the writer's entry (resolved through helpers), guard, operand kinds and opcode bytes are computed and compared. Numeric encoding of operand values is outside.")
claim("C12","path-sensitive typestate over SSA","Every file opened by the library or the tool is followed along every path (including through helpers that take or return it) to a Close; for files that are written the error of Close must be looked at and returned. Panics between open and close are not modelled.")
claim("C13","conditional constant propagation under assumptions, interprocedural","Every call that can truncate, replace, rename or remove a file is shown unreachable under the assumption that consent was refused and the file exists, and under the assumption that reading or parsing the input failed. Races between the existence test and the open are outside.")
claim("C09","position dataflow over SSA compared with the layouts of the specification","For each version of head, hhea, vhea, maxp, OS/2, post and name, the byte position, width and sign from which each field of the parsed form is read is computed along every successful path of the parser (reads through any helper), and compared with the layout of the OpenType specification embedded in the check; the same for the records of name and of the table directory (base, stride, count), for the writing methods of the parsed forms, and for tables that are copied with changes (kept bytes stay in place, each change covers one field and is the value that the parsed form gets). Values inside of variable parts (strings, glyph names) are outside.")
claim("C11","order-sensitivity and value-flow analysis over SSA","Every iteration over a map is shown to have an effect that does not depend on the order (counts, own entry, own object, or a slice that is totally sorted before any other use, followed through helpers); readings of the clock flow only into the modification date of head; no call that is random, unordered or concurrent is made; no pointer is formatted; no package variable holds state that functions change. Determinism of compression libraries and the standard library is assumed.")
claim("C15","comparison of literal tables with embedded standards; interval analysis of the code-point function","Every package variable that is one of the standard tables (recognised by its contents) is compared entry for entry with a copy of the standard kept here; every use of it is checked for offsets and borders; the function that gives the OS/2 Unicode-range words is analysed over intervals of the code point and compared with the table of the specification for all 0x110000 code points, alone and next to another one.")
claim("C08","must/may dataflow of presence facts over SSA with function summaries","Every use of a parsed table through its pointer, in the library and the tools, is an obligation: on every path the pointer was tested, just set, or follows from what is known about the font (a table that was found in the map has its parsed form, which is itself shown of every function that adds tables; a successful call of a parser; the flag for the kind of outlines after a parse). Exported methods get no promise about the font at all. Assumes that callers do not change the exported fields themselves.")
claim("C10","symbolic layout of the written file over SSA, with learned strides and residues modulo four","Each writer (SFNT.Write, ParseWOFF, ParseWOFF2, FromGoFreetype, WriteWOFF2) is followed with symbolic positions, for a table of each length modulo four, being the head table, another one, or with no head table at all; loops over the tables become prefix sums whose stride is learned and confirmed. The entry, the padding, the order, the checksum, the adjustment and the lengths in the header are then compared as terms, for any number of tables and any lengths. Nothing is executed and no solver is asked.")
claim("C19","may dataflow of update states over SSA with function summaries, value agreement","For every function of the library that changes a font, the states of each table (bytes new, parsed form new, both, bytes made from the parsed form) are computed along every successful path, through helpers and parser calls; the same bytes, list values, patched fields and dependent fields go to both; when the number of glyphs changes every table with an entry per glyph is rewritten or shown absent; the stored length and the caches worked out once are refreshed. After both bytes and parsed form were set, a later change of one alone in the same function is seen only where bytes are made from the parsed form or where the values are compared.")
claim("C02","ranking measures proved by linear arithmetic over SSA; call-graph cycles with a bounded level","Every loop of the library and the tool is an obligation: an integer expression taken from its exit tests is proved (linear inequalities over SSA values and memory cells, wrap-around of the machine types included) to be non-negative while the loop goes on and smaller after every iteration, and to be no larger than the data or a 32-bit number at the start; or one of the listed arguments holds (readers that use up data or keep their error, alignment loops, stacks of bounded depth, iterations of monotone functions up to a bound). Every cycle of the call graph needs a level parameter that grows under a constant limit. Loops inside libraries are taken to end; the time that nested components or subroutines within the limits can take is bounded but not small.")
na.update({
"C01":"the rule is built (every index, slice bound, allocation length and divisor is an obligation of the linear prover in c01.go) and led to the repairs listed in known_findings.txt, but obligations remain that the prover neither proves nor refutes; a check that leaves them out would claim more than it decides",
"C03":"needs the total of allocations over loops and decompression related to the size of the input; the linear prover bounds single lengths, not sums over iterations or what an external decompressor writes",
"C20":"whether a length test should admit equality depends on what the format puts last; the analysis has no independent statement of that for the nested tables",
"C21":"equality of a value with what a decoder makes of its encoding (triplets, flags, varints) for all glyph data is not a dataflow or typing fact; it is a matter for a solver or for tests",
"C22":"value equality over arbitrary glyph programs after renumbering; the parts that are decidable statically are in C06, C08, C09 and C19",
"C23":"agreement of two searches over run-time arrays; needs functional correctness of both, not a dataflow fact",
"C24":"arithmetic of curve construction on run-time coordinates; the values are what is to be decided",
})

claim("C25","effect analysis over the call graph, and value-flow of file names, over SSA","For every exported function and the package initialisation, everything that can be reached (through the dependencies down to the standard library) is classified by its effect (printing, ending the process, environment, files, network, processes, goroutines without a wait, assignments to variables of other packages) and compared with the effects that function is for; the name of every file that is opened is followed back to a parameter, a walk below a parameter, or the option of the command for it. Functions of the standard library are classified by package and name; an unknown package is a violation.")
claim("C26","path-sensitive must-check analysis over SSA","From every call that returns a value that can be nil together with an error, every path is followed on which the error was not found to be nil (through variables, phis, conversions, negations and named conditions); a use of the value on such a path is reported with its position. Values kept in fields of other objects are not followed.")

claim("C27","conditional constant propagation under assumed option values, and value-flow, over SSA","Each command is evaluated with one option assumed (forced, quiet, appending or not, each encoding and type, also unknown ones) and all else unknown, through the functions of the tool, and the calls that can be reached are compared with what the option promises; selections, patterns, sizes and switches are followed backwards from the library calls to the options. That a selection contributes is shown, not that each of its elements does.")
