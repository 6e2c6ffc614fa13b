#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one dict per property).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)

p("C01","Malformed fonts are rejected with an error, never with a panic",
  "For every byte string handed to a parser or converter of font files (TTF, OTF, TTC, WOFF, WOFF2, EOT, AFM), the call returns a result or an error. Every index, slice bound, allocation size and length that is computed from the file's bytes has been validated against the data that is really there before it is used, so no input makes the parser index or slice out of range.",
  ["inputs"],"all byte strings given to the parsing and converting functions",
  "Tests parse a few dozen sample files; the claim is about every truncation and every hostile count, offset or glyph index.",
  ["sfnt.go","sfnt_cmap.go","sfnt_truetype.go","sfnt_cff.go","sfnt_os2.go","woff.go","woff2.go","eot.go","afm.go"],
  [("length and range checks before each fixed-size read","sfnt.go, sfnt_*.go parse functions"),("record bounds checks on the table directory","parseSFNT, ParseWOFF, ParseWOFF2")])
p("C02","Parsing, querying and subsetting always terminate",
  "Every call on every input terminates: a loop counter never wraps around before its bound is reached, a loop that is driven by file contents ends when the file's bytes run out, and nesting of composite glyphs and CFF subroutines is cut off at a fixed depth.",
  ["inputs"],"all fonts, glyph IDs, code points and command-line ranges",
  "A hang needs one particular value (0xFFFF as an upper bound, a self-referencing glyph); the sample fonts contain none.",
  ["sfnt_cmap.go","sfnt_truetype.go","sfnt_cff.go","woff2.go","cmd/fontcmd/subset.go"],
  [("depth limits on composite glyphs and subroutines","glyfTable.contour, cffTable.parseCharString"),("bounded counters","all loops")])
p("C03","Memory use while reading a font is bounded",
  "However small and hostile the input, a parser never allocates more than a small multiple of the input size, of a 16-bit count, or of the package's memory limit: sizes taken from the file are checked before memory is allocated for them, and compressed data is never expanded beyond its declared and limited size.",
  ["inputs"],"all byte strings given to the parsing and converting functions",
  "Needs a crafted declared length or a decompression bomb; tests use well-formed files.",
  ["woff.go","woff2.go","sfnt_cff.go","sfnt_cmap.go","util.go"],
  [("MaxMemory and remaining-length checks before make","ParseWOFF, ParseWOFF2, parseINDEX, parseCmap")])
p("C04","The caller's font bytes are never modified",
  "No function of the library that is given font bytes, or a font parsed from them, ever writes to those bytes: parsing, converting, querying, drawing, subsetting, merging, renaming and writing leave the buffer the caller passed in exactly as it was.",
  ["inputs","histories"],"all inputs and all sequences of calls on the fonts parsed from them",
  "The tests never compare the input buffer before and after a call, and the parsed tables alias it everywhere.",
  ["woff.go","woff2.go","eot.go","font.go","sfnt.go","sfnt_merge.go","sfnt_subset.go"],
  [("tables are sub-slices of the input and are only rebuilt, never patched","parseSFNT, Merge, Subset, Write")],
  [("Tables","table name to bytes, aliasing the caller's input","sfnt.go SFNT")],["the []byte passed to any exported function"])
p("C05","Read-only queries on one font are safe from many goroutines",
  "Queries on a parsed font (glyph lookup, glyph names, metrics, kerning, bounds, outlines, writing it out) change nothing that is reachable from the font or shared in the package, apart from caches that are filled exactly once under a once-guard and read only after that guard. Any number of goroutines can therefore use one font at the same time without a data race.",
  ["schedules","histories"],"all interleavings of query calls on one shared font",
  "No test runs queries concurrently; a race needs a particular schedule.",
  ["sfnt.go","sfnt_cmap.go","sfnt_truetype.go","sfnt_cff.go","sfnt_os2.go","system.go"],
  [("sync.Once around the reverse cmap and glyph-name caches","cmapFormat*.ToUnicode, postTable.Find")],
  [("reverse maps","lazily built caches","cmapFormat4/12, postTable")])
p("C06","Subset and Merge leave the other font and the caller's lists untouched",
  "Subsetting a font never changes the font it is called on, the list of glyph IDs or the option values the caller passed in; merging a second font into the first never changes the second font. After either call the untouched font answers every query as it did before.",
  ["inputs","histories"],"all fonts, glyph lists, options and call sequences",
  "Tests check the result of a subset, never that the source is unchanged; shared slices only show up in a later call.",
  ["sfnt_subset.go","sfnt_merge.go","sfnt_cff.go"],
  [("copy before write of parsed tables","Subset, Merge, cffINDEX.Copy/Extend, ReindexSubrs")])
p("C07","No failure is swallowed",
  "When a step of parsing, converting, subsetting, merging, saving or writing reports an error, the operation that performed the step reports an error too: the error is neither discarded, nor overwritten before it was looked at, nor turned into a success. The few places that deliberately tolerate a failure (a bounding box of a broken glyph, an unreadable file during a font scan) are the only exceptions.",
  ["inputs","fault_sequences"],"all inputs and all I/O failures",
  "A dropped error is invisible as long as the step succeeds, which it does in the tests.",
  ["sfnt.go","sfnt_cff.go","sfnt_subset.go","sfnt_merge.go","woff.go","woff2.go","eot.go","afm.go","system.go","font.go","cmd/fontcmd"],
  [("if err != nil return after each fallible call","whole repository")])
p("C08","Fonts without optional tables can be queried, subset, merged and written",
  "A font returned by the library may lack any table that its kind of parse does not require (OS/2, kern, vhea, vmtx, and for embedded or PDF-subset fonts also cmap, name and post). Every query, subset, merge and write on such a font returns a defined value or an error; a missing table is never dereferenced.",
  ["inputs","histories"],"all fonts returned by parse, embedded parse, subset; all later calls",
  "Sample fonts are complete, so absent tables are hardly exercised.",
  ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_os2.go"],
  [("nil checks on optional tables","SFNT methods")])
p("C09","Fixed-layout tables are decoded from the byte positions of the specification",
  "Each field of the fixed-layout OpenType tables (head, hhea, vhea, maxp, OS/2, post, name, table directory) is read from the byte offset, with the width and signedness, that the OpenType specification gives it, and where the library rebuilds such a table it writes each field at that same offset. Values patched into a copied table (index-to-loc format, number of horizontal metrics, glyph count, character ranges) land on their own field.",
  ["inputs"],"all values of all fields",
  "A swapped or mis-sized field goes unnoticed when sample values coincide or are never asserted.",
  ["sfnt.go","sfnt_os2.go","sfnt_subset.go","sfnt_merge.go"],
  [("sequential big-endian reads and writes","parseHead, parseHhea, parseMaxp, parseOS2, parsePost, maxpTable.Write, postTable.Write")])
p("C10","Written fonts carry correct padding, directory entries and checksums",
  "In every font file the library writes, tables start on four-byte boundaries with zero padding, each directory entry records the table's own offset, unpadded length and checksum, entries are sorted by tag, and the whole-file checksum adjustment is computed last over the finished file with that field zeroed. A font without a head table gets no adjustment. A WOFF2 file records its own length, the length of its compressed data without the padding, the number of tables and the size of the font without the tables that are left out, and is padded with zeros to four bytes.",
  ["inputs"],"all fonts written as SFNT, converted from WOFF/WOFF2, or rebuilt from other structures",
  "Readers here ignore checksums, so nothing in the tests would notice.",
  ["sfnt.go","woff.go","woff2.go","font.go"],
  [("checksum and padding code","SFNT.Write, ParseWOFF, ParseWOFF2, FromGoFreetype, calcChecksum")])
p("C11","Output is deterministic",
  "Writing, subsetting, merging, converting, listing and naming produce the same bytes for the same inputs on every run: iteration order of maps, randomness, goroutine timing and addresses never influence a result, and the clock only enters the head table's modification date.",
  ["schedules","inputs"],"all inputs and all runs",
  "Go randomises map iteration; a test that runs once cannot see a difference between two runs.",
  ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_cmap.go","sfnt_cff.go","woff2.go","system.go","cmd/fontcmd"],
  [("sort after collecting map keys","Write, Subset, cmapWrite, SystemFonts.String")])
p("C12","Every opened file is closed on every path and write failures surface",
  "Each file the library or the command-line tool opens is closed on every path out of the function that opened it, including error paths. When a file was written, a failure to flush or close it is reported to the caller as an error.",
  ["fault_sequences","crash_points"],"all control paths and all I/O failures",
  "Leaks and close errors do not show in passing tests.",
  ["system.go","cmd/fontcmd/util.go","cmd/fontcmd/css.go","cmd/fontcmd/draw.go"],
  [("Close on all exits","LoadSystemFonts, SystemFonts.Save, readFont, writeFont, CSS.Run, Show.Run")])
p("C13","The command-line tool never overwrites a file without consent",
  "A command of the tool truncates or replaces an existing output file only when the user forced it or answered the overwrite question with yes; when consent is refused the file is left untouched, and no output file is opened for writing before the input has been read and parsed.",
  ["inputs","configurations"],"all commands, options and existing files",
  "The command-line tool has no tests.",
  ["cmd/fontcmd/util.go","cmd/fontcmd/css.go","cmd/fontcmd/draw.go"],
  [("exists-check plus force flag or prompt before create","writeFont, CSS.Run, Show.Run")])
p("C14","Font style names, style parsing and style constants agree",
  "Printing any combination of a known weight and the italic flag as text and parsing that text gives the same style back, every CSS keyword and numeric weight maps to the style of the same weight, and the weight, italic and unknown constants occupy distinct values so that weight and italic can be combined and separated without loss.",
  ["inputs"],"all weights with and without italic",
  "No test parses every printed style.",
  ["system.go"],
  [("switch tables over the style constants","ParseStyle, ParseStyleCSS, Style.String")])
p("C15","Built-in name, tag and range tables equal the published standards",
  "The built-in Macintosh glyph order, the CFF standard strings, the WOFF2 known-table list, the Adobe glyph list, the platform, encoding and name identifiers and the OS/2 Unicode-range assignment (OS/2 version 4) equal the published standard tables entry for entry and are indexed without an offset, so that standard indices decode to and encode from the standard meaning.",
  ["inputs"],"all indices and all code points",
  "Sample fonts use a few of the hundreds of entries.",
  ["sfnt_data.go","sfnt_os2.go","woff2.go"],
  [("literal tables","macintoshGlyphNames, cffStandardStrings, woff2TableTags, os2UlUnicodeRangeBit")])
p("C16","A parse result is either a complete font or an error, never neither or both",
  "Every function that returns a value together with an error returns, on each path, either a usable (non-nil) value and no error, or an error; success with a missing value is never reported, and a parsed font never carries the parse of only part of a required table.",
  ["inputs"],"all inputs and all control paths",
  "Only the error paths that the samples trigger are exercised.",
  ["sfnt.go","font.go","woff.go","woff2.go","eot.go","sfnt_subset.go","system.go","sfnt_cff.go"],
  [("return nil, err / return value, nil discipline","whole repository")])
p("C17","Every detected font format can be converted, and the formats agree everywhere",
  "Every format that detection can report has a file extension, a conversion to SFNT, and a decision (supported or explicitly refused) in the command-line tool's writer; detection, conversion and naming use the same format identifiers.",
  ["inputs","configurations"],"all formats",
  "Tests do not cover the cross product of detection, conversion and writing.",
  ["font.go","cmd/fontcmd/util.go"],
  [("switches over media types","MediaType, Extension, ToSFNT, writeFont")])
p("C18","CFF dictionaries: each operator is read into and written from the same field",
  "For every CFF top-level and private dictionary operator that is understood on reading, the same operator with the same default is produced on writing from the field it was read into, so a dictionary that is read and written again keeps every entry. Operators that locate other parts of the file are written anew with the new positions; operators that only describe CID-keyed or CFF2 fonts, which the library does not write, are excepted.",
  ["inputs"],"all dictionary contents",
  "Sample fonts contain few of the operators and the tests do not compare dictionaries.",
  ["sfnt_cff.go"],
  [("operator switches","parseTopDICT, cffTopDICT.Write, parsePrivateDICT, cffPrivateDICT.Write")])
p("C19","Rewritten tables and the parsed view of a font stay in step",
  "When subsetting, merging or renaming replaces the bytes of a table in a font, the parsed form of that table is replaced in the same operation, and the reverse; so queries on the font answer the same as queries on the font written out and parsed again.",
  ["histories"],"all sequences of subset, merge, rename, write, parse",
  "Tests compare either the bytes or the queries of one operation, not both after a sequence.",
  ["sfnt_subset.go","sfnt_merge.go"],
  [("paired assignment of Tables[tag] and the parsed field","Subset, Merge, SetGlyphNames")])
p("C20","A complete file is accepted: ending exactly at the last field is not truncation",
  "A well-formed EOT, WOFF, WOFF2 or SFNT file is accepted whatever comes last in it: a read that consumes the data up to its very last byte counts as complete, and only a read past the end counts as truncation.",
  ["inputs"],"all well-formed files",
  "The tests that would show it fail at the pinned commit and are excluded from the stable set.",
  ["eot.go","woff.go","woff2.go"],
  [("explicit remaining-length checks","ParseEOT, ParseWOFF2, reconstruct functions")])
p("C21","Converting to WOFF2 and back reproduces the same font",
  "For every font that can be written as WOFF2, reading the WOFF2 file gives a font whose glyph outlines, metrics and mappings equal those of the original.",
  ["inputs"],"all fonts",
  "Tests round-trip a handful of fonts.",
  ["woff2.go"],[("transform and reconstruct","transformGlyf, reconstructGlyfLoca, transformHmtx, reconstructHmtx")])
p("C22","Subsetting preserves outlines, metrics and mappings of the kept glyphs",
  "After subsetting, each kept glyph has the outline, advance, side bearing, kerning and code points it had in the original font.",
  ["inputs"],"all fonts and glyph lists",
  "Tests check sample glyphs in sample fonts.",
  ["sfnt_subset.go","sfnt_cff.go"],[("glyph renumbering","Subset, ReindexSubrs")])
p("C23","Glyph lookup and reverse lookup agree",
  "A glyph lists a code point among its code points exactly when looking that code point up gives that glyph, in every character-map format.",
  ["inputs"],"all fonts, code points and glyphs",
  "Tests look up single code points.",
  ["sfnt_cmap.go"],[("Get and ToUnicode","cmapFormat0/4/6/12")])
p("C24","Outlines and bounds are numerically those of the specification",
  "Paths drawn for TrueType and CFF glyphs, their bounds, advances and scaling equal what the OpenType and Type 2 charstring specifications define for the glyph data.",
  ["inputs"],"all glyphs",
  "Tests compare a few glyphs.",
  ["sfnt_truetype.go","sfnt_cff.go"],[("interpreters","glyfTable.ToPath, cffTable.ToPath")])
p("C25","The library only computes, and files are opened only where the caller named them",
  "Parsing, querying, subsetting, merging, converting, matching and writing fonts only compute a result from their arguments: no exported function, and no initialisation of the package, prints or logs, ends the process, leaves a goroutine running, waits, uses the network, starts a process or changes process-wide state. Only DefaultFontDirs reads the environment, only finding or loading the list of system fonts reads files, and only saving that list writes one; each opens exactly the file or the directories its caller named, or a file it found below those. A command of the tool opens for reading only its inputs and for writing only its outputs, and never removes, renames, links or changes the mode of a file, starts a process, or uses the network. (The deprecation notice of ParseFont is the one message the library prints.)",
  ["inputs","configurations"],"all exported functions and commands, every path below them",
  "A stray message, lookup or file on a rare path is invisible to a test that compares results.",
  ["system.go","font.go","cmd/fontcmd/util.go","cmd/fontcmd/css.go","cmd/fontcmd/draw.go","cmd/fontcmd/subset.go","cmd/fontcmd/merge.go"],
  [("calls with effects","DefaultFontDirs, FindSystemFonts, LoadSystemFonts, SystemFonts.Save, ParseFont; readFont, writeFont and the Run methods")])
p("C26","A result is used only after its error was ruled out",
  "When a call gives a pointer, an interface, a function, a map or a list together with an error, the value is dereferenced, called, indexed or passed on only on paths where the error was found to be nil or the value was found not to be nil. So a file that cannot be opened or examined, or data that cannot be parsed, leads to an error and never to a crash or to work on half a result.",
  ["inputs","faults"],"every call that returns an error, every path after it",
  "The tests do not make most calls fail, least of all in unusual ways.",
  ["system.go","sfnt.go","sfnt_cff.go","sfnt_layout.go","woff2.go","cmd/fontcmd"],
  [("calls returning a value and an error","whole repository")])
p("C27","Every option of a command has the effect it describes",
  "The font that is read is the one at the given index; when forced no overwrite question is asked; when quiet nothing but font data goes to standard output and no warnings are given, and otherwise warnings are kept; appending adds to the file and not appending replaces it; an unknown encoding or output type is refused before any file is written, base64 is applied to all output exactly when asked for, and an explicit type decides what is written whatever the file is called; every way of naming glyphs (IDs, characters, names, code points, categories and scripts, in and above the basic plane) contributes to the glyphs that are kept or drawn; patterns make the glyph names or selectors; rearranging, sizes, scale and ratio reach the operation they are for. No option is ignored.",
  ["configurations"],"all combinations of options",
  "The tool has no tests of its commands.",
  ["cmd/fontcmd","sfnt_subset.go","sfnt_merge.go"],
  [("options and their use","Run methods of the commands, readFont, writeFont, fmtName; SubsetOptions, MergeOptions")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
