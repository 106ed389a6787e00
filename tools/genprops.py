#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/genprops.py > properties.jsonl)."""
import json

P = []

def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })

p("C01", "Loading and inspecting any input is total",
  "For every byte sequence and every combination of load options, loading terminates and returns either a usable file or an error; it never panics, hangs or exhausts the stack. Every file so obtained can be listed, queried with every accessor and written out, also without panicking.",
  ["inputs", "configurations"],
  "All byte sequences (including invalid UTF-8, NUL, partial BOMs, unterminated quotes) under all combinations of load options.",
  "Tests load about two dozen well-formed documents and nine malformed ones; totality quantifies over all inputs and all option combinations, and the parser indexes into slices at dozens of places.",
  ["parser.go", "file.go", "key.go", "section.go"],
  [("main parse loop", "parser.go:parse"), ("key name scanner", "parser.go:readKeyName"), ("value scanner", "parser.go:readValue, readMultilines, readContinuationLines, readPythonMultilines"), ("encoder", "file.go:writeToBuffer"), ("list splitter", "key.go:Strings")],
  observe=["LoadSources", "File.WriteTo", "all Key/Section accessors"])

p("C02", "Documents parse into the prescribed ordered sections and keys",
  "Loading a document yields its sections and keys in order of first appearance, repeated sections merged and a repeated key taking its last value, each key named exactly as written before the first key-value delimiter (quoted names unwrapped, '-' numbered #1, #2, ... per section header) and keys before any header placed in the default section. A line that is neither blank, comment, section header nor key-value pair makes loading fail with an error that identifies the offending line as lacking a delimiter or a key name, unless boolean keys or skipping of unrecognizable lines is enabled. Boolean keys, custom delimiters and skipped lines behave as their options document.",
  ["inputs", "configurations"],
  "All documents over a line menu and all short strings over the structural alphabet, under all option sets that deviate from the default in a bounded number of options.",
  "Each test checks one document under one option set; the meaning of a line depends on the lines before it and on pairs of options, and those products are never enumerated.",
  ["parser.go", "section.go", "file.go", "error.go"],
  [("line classification", "parser.go:parse"), ("key name scanner", "parser.go:readKeyName"), ("create-or-overwrite", "section.go:NewKey"), ("create-or-merge", "file.go:NewSection")],
  observe=["File.Sections", "Section.KeyStrings", "Key.Value", "IsErrDelimiterNotFound", "IsErrEmptyKeyName"])

p("C03", "Values decode exactly by the quoting, comment and continuation rules",
  "The value of a key is the text after the delimiter with surrounding white space removed, where back-quoted and triple-double-quoted text is taken verbatim (also across lines), one surrounding pair of single or double quotes is dropped unless preserved, and a trailing backslash joins the next line unless continuation is ignored. An inline comment starts at the first # or ; (only after a space in space-before-comment mode, never when inline comments are ignored) and is not part of the value. The unescape options rewrite exactly the escapes they document, and a quote that is never closed is an error.",
  ["inputs", "configurations"],
  "All value texts up to a length bound over the alphabet of characters the value rules mention, under all combinations of the value-related load options.",
  "Tests contain a few dozen literal values; interactions between quotes, comment symbols, backslashes, line ends and options form a product that is only settled by enumeration.",
  ["parser.go"],
  [("value scanner", "parser.go:readValue"), ("multi-line quotes", "parser.go:readMultilines"), ("continuation", "parser.go:readContinuationLines"), ("quote test", "parser.go:hasSurroundedQuote")],
  observe=["Key.Value", "Key.String"])

p("C04", "Comments attach to exactly the section or key they describe",
  "Comment lines are attached, in order and complete, to the next section header or key, together with the inline comment of that header or key; none is lost, duplicated or leaked to a later element, and a new source starts with no pending comment. Comment text never becomes part of a name or value, and a value's text never becomes part of a comment.",
  ["inputs", "configurations"],
  "All documents of bounded length over a menu of comment, header, key, quoted, multi-line and continuation lines, under all comment-related option sets.",
  "A handful of tests look at a comment of one element; leakage shows only for particular sequences of comment-carrying constructs.",
  ["parser.go"],
  [("pending comment buffer", "parser.go:parser.comment"), ("inline comment of header", "parser.go:cleanComment"), ("comment after closing quote", "parser.go:readMultilines")],
  observe=["Section.Comment", "Key.Comment"])

p("C05", "Indented blocks become Python-style or nested values, and only then",
  "With Python-style multi-line values enabled, the indented lines directly following a value are appended to it, each after a newline and verbatim, and the first line that is not indented ends it, however long the lines or the block are. With nested values enabled, the indented lines following a key with an empty value become that key's nested values in order, trimmed, and never extend past a section header; without these options indentation has no meaning. Nested values written out load back as the same nested values.",
  ["inputs", "configurations"],
  "All documents of bounded length over a menu of indented, blank, key, header and comment lines x (Python, nested, continuation, comment and quote options), and blocks of every size around the reader's buffer boundaries.",
  "Tests use one Python-style sample and four nested samples, all much smaller than the read buffer.",
  ["parser.go", "key.go", "file.go"],
  [("Python look-ahead", "parser.go:readPythonMultilines"), ("nested collection", "parser.go:parse (isLastValueEmpty, lastRegularKey)"), ("nested output", "file.go:writeToBuffer")],
  observe=["Key.Value", "Key.NestedValues", "File.WriteTo"])

p("C06", "Loading does not depend on how the bytes are delivered",
  "The same bytes load to the same file or the same error whether they come from a file, a byte slice, a reader or a read-closer, in whatever pieces the reader returns them (single bytes, short reads, empty reads, the last bytes together with end-of-file), whatever reader buffer size is configured and wherever they fall relative to that buffer. A leading UTF-8 or UTF-16 byte order mark is dropped and nothing else is; LF and CRLF line ends are equivalent outside verbatim multi-line text.",
  ["inputs", "schedules", "configurations"],
  "All ways of cutting a document into reads (every composition up to a length bound), all source kinds, every alignment of a construct to the buffer boundary.",
  "Every test delivers its document in one read and below 4096 bytes; three BOM files are the only delivery variations.",
  ["parser.go", "data_source.go", "ini.go"],
  [("BOM skipping", "parser.go:BOM"), ("line reads", "parser.go:readUntil"), ("look-ahead", "parser.go:readPythonMultilines"), ("source kinds", "data_source.go:parseDataSource")],
  observe=["LoadSources"])

p("C07", "Read failures are reported and streams are closed exactly once",
  "If a source cannot be opened, or its reader fails with anything but end-of-file at any point, even once, loading, appending or reloading returns an error, and never a file silently built from partial data. Every stream that loading obtained, whether opened from a path or given as a read-closer, is closed exactly once on success, on read failure and on malformed content alike. An error in one source stops the load before any later source is read.",
  ["fault_sequences", "inputs"],
  "A read fault at every byte offset and in every read of every document of a menu, persistent or one-shot, bare or together with data, in each position of a list of sources and under the options that look ahead.",
  "No test injects a read failure; the only error sources are a missing file and an unsupported type.",
  ["file.go", "parser.go", "data_source.go"],
  [("deferred close", "file.go:reload"), ("error propagation", "parser.go:readUntil, BOM, readPythonMultilines")],
  observe=["LoadSources error", "ReadCloser.Close calls"])

p("C08", "Several sources overlay in order; reload and append are consistent",
  "Loading several sources equals loading them one after another into one file: later values and comments override earlier ones, new sections and keys are added at the end, nothing else changes. Loose mode skips missing files and nothing but missing files; short-circuit mode stops after the first source that loads; appending a source gives the same content as having listed it from the start, and reloading unchanged sources changes nothing. A reload reflects current file contents and keeps keys that the sources no longer mention.",
  ["histories", "configurations", "fault_sequences"],
  "All lists of sources up to a length bound over good, malformed, missing and unreadable sources x loose x short-circuit, and all histories of append, reload, file rewrite and file removal up to a depth.",
  "Tests try five source lists and one reload; which sources win is a property of all lists and histories.",
  ["ini.go", "file.go", "data_source.go"],
  [("source loop", "file.go:Reload"), ("append", "file.go:Append"), ("merge", "file.go:NewSection, section.go:NewKey")],
  observe=["LoadSources", "File.Append", "File.Reload"])

p("C09", "The sections of a file behave as an ordered set of names",
  "After any history of creating, fetching-or-creating, looking up, listing and deleting sections, the file lists exactly the existing sections in creation order, every listed section is found by its name and nothing else is; creating an existing section returns it unchanged and a deleted section is gone with its keys. Pure lookups (get, has, list) never create or change anything, while Section(name) creates exactly the missing section it is asked for. The empty name denotes the default section for lookup and deletion, and is refused for creation.",
  ["histories"],
  "All histories of section operations over a small set of names up to a depth bound, from the empty file and from loaded files, with blocking mode on and off.",
  "Tests run one or two operations per file; the list, the index list and the map must agree after every history.",
  ["file.go"],
  [("create", "file.go:NewSection"), ("lookup", "file.go:SectionsByName"), ("delete", "file.go:DeleteSectionWithIndex")],
  state=[("sectionList", "ordered names", "file.go:File"), ("sectionIndexes", "occurrence index per list entry", "file.go:File"), ("sections", "name to sections", "file.go:File")],
  observe=["File.Sections", "File.SectionStrings", "File.GetSection", "File.HasSection", "File.WriteTo"])

p("C10", "The keys of a section behave as an ordered map with one current value",
  "After any history of creating, setting, fetching-or-creating, defaulting and deleting keys, a section lists exactly its existing keys in creation order, and every way of reading a key's value (value, string, key hash, has-value, written output) reports the value most recently given to it. Looking keys up or listing them never creates or changes anything, while Key(name) creates exactly the missing key, empty; an empty key name is refused. Operations through a handle of a deleted key or section never bring it back.",
  ["histories"],
  "All histories of key operations over a small set of names and values up to a depth bound, including operations through handles kept from before a deletion.",
  "Tests check single operations; the key list, the key map and the name-to-value hash are separate copies that must agree after every history.",
  ["section.go", "key.go"],
  [("create or overwrite", "section.go:NewKey"), ("set", "key.go:SetValue"), ("delete", "section.go:DeleteKey"), ("default written back", "key.go:Must*")],
  state=[("keyList", "ordered names", "section.go:Section"), ("keys", "name to key", "section.go:Section"), ("keysHash", "name to value", "section.go:Section")],
  observe=["Section.Keys", "Section.KeyStrings", "Section.KeysHash", "Section.HasValue", "Key.Value"])

p("C11", "Child sections inherit keys from their nearest ancestor that has them",
  "A key looked up in a section is the section's own key if it has one, otherwise that of the nearest existing ancestor (by dropping trailing components of the name at the child delimiter) that has it, otherwise it does not exist. Parent keys list the keys of all existing ancestors, nearest first; child sections are exactly the sections whose name extends the given one by the delimiter, each once, in file order. Inheritance never applies between unrelated sections and follows the configured delimiter.",
  ["histories", "configurations"],
  "All files with any subset of a universe of nested section names and any placement of a small set of keys, for each delimiter.",
  "Tests cover one two-level hierarchy; the rule quantifies over all shapes, gaps in the chain and delimiters.",
  ["section.go"],
  [("ancestor walk", "section.go:GetKey"), ("parent keys", "section.go:ParentKeys"), ("children", "section.go:ChildSections")],
  observe=["Section.GetKey", "Section.HasKey", "Section.ParentKeys", "Section.ChildSections", "File.ChildSections"])

p("C12", "Case-insensitive loading makes every name operation ignore case",
  "When sections and/or keys are insensitive, names differing only in letter case denote the same section or key in every operation (parsing, creation, lookup, has, deletion, sections by name, inheritance, interpolation, struct mapping), and listed or written names are lower case. When an aspect is not insensitive, its names are distinguished by case everywhere. The default section is reachable under its default name, in any case, and under the empty name.",
  ["histories", "inputs", "configurations"],
  "All histories up to a depth bound over case variants of section and key names, and all short documents over them, under the four insensitivity settings.",
  "Tests use one document per setting and only a few of the operations.",
  ["file.go", "section.go", "parser.go"],
  [("section name folding", "file.go:NewSection, SectionsByName, DeleteSectionWithIndex"), ("key name folding", "section.go:NewKey, GetKey, DeleteKey")],
  observe=["File.GetSection", "Section.GetKey", "File.DeleteSection", "Section.DeleteKey"])

p("C13", "Shadow values are kept in order, de-duplicated, and only when allowed",
  "With shadows allowed, repeated assignments of a key keep the first value and every further distinct value in order of appearance (every value when duplicates are allowed), empty ones being left out of listings, and writing then loading gives the same list. Without shadows the last assignment replaces the value and adding a shadow is refused; shadows on boolean or auto-increment keys are always refused with an error and no change. Other keys and sections are never affected.",
  ["histories", "inputs", "configurations"],
  "All histories of assignments and shadow additions over a small value set up to a depth bound, by parsing and by API, under the four shadow settings.",
  "Tests use five fixed shadow sequences.",
  ["key.go", "section.go", "file.go"],
  [("add shadow", "key.go:addShadow"), ("list", "key.go:ValueWithShadows, StringsWithShadows"), ("create", "section.go:NewKey"), ("write", "file.go:writeToBuffer")],
  observe=["Key.ValueWithShadows", "Key.StringsWithShadows", "Key.AddShadow", "File.WriteTo"])

p("C14", "Interpolation substitutes references from the right scope and terminates",
  "Reading a key as a string replaces every %(name)s, repeatedly, by the raw value of that name looked up as a key of the same section (with inheritance) or, when it is missing there or is the key itself, in the default section; a reference that cannot be resolved leaves the text as it is, and a value mapper is applied first, once, to the raw value. Reading always terminates with bounded work, also for self-referential and mutually recursive values, and never modifies any stored value.",
  ["inputs", "configurations"],
  "All assignments of values from a reference-bearing menu to a small set of keys in a default, parent and child section, including all reference cycles.",
  "Tests cover three reference shapes; the reference graph, its cycles and the scoping rule are only settled by enumerating graphs.",
  ["key.go"],
  [("substitution loop", "key.go:transformValue"), ("depth limit", "ini.go:depthValues")],
  observe=["Key.String", "Key.Strings", "Key.StringsWithShadows"])

p("C15", "Scalar conversions are exact; defaults and ranges apply only as documented",
  "Each typed accessor returns precisely the value its text denotes (all boolean words, decimal/hex/octal integers, floats, durations, times) and an error for any other text. The Must form returns a given default exactly when the text is invalid (empty, for strings) and then stores the default's text as the key's value, otherwise changes nothing; the In form returns the value exactly when it is among the candidates, and the Range form exactly when it lies within the inclusive bounds, else the default.",
  ["inputs"],
  "All texts of a menu of valid, boundary and invalid representations and all short strings over the number alphabet, for every accessor, default and candidate set.",
  "Tests check one valid and one missing value per accessor; boundary values, overflow and the inclusive ends are not exercised.",
  ["key.go"],
  [("parsers", "key.go:parseBool, Float64, Int, Int64, Uint, Uint64, Duration, TimeFormat"), ("defaults", "key.go:Must*"), ("candidates", "key.go:In*"), ("ranges", "key.go:Range*")],
  observe=["Key typed accessors"])

p("C16", "List values split, unescape and convert element by element",
  "Splitting a value by a non-empty delimiter yields its trimmed elements in order, where a backslash makes a following delimiter or backslash literal and is otherwise kept, for delimiters of any length and any characters. The typed list accessors convert element by element: the plain form gives the zero value (or the nearest representable number) for invalid elements and keeps the count, the Valid form drops exactly the invalid ones, the Strict form fails on the first invalid one.",
  ["inputs"],
  "All strings up to a length bound over an alphabet of letters, blanks, backslash and delimiter characters (ASCII and multi-byte), for each delimiter; all element lists up to a length over a menu of valid and invalid elements for each typed accessor.",
  "Tests contain six escape samples with a one-byte delimiter.",
  ["key.go"],
  [("splitter", "key.go:Strings"), ("element conversion", "key.go:doParse, parse*"), ("shadow splitter", "key.go:StringsWithShadows")],
  observe=["Key.Strings", "Key.Ints ...", "Key.ValidInts ...", "Key.StrictInts ..."])

p("C17", "Writing is complete, deterministic, side-effect free and faithful about errors",
  "Writing a file emits every section, key, shadow, nested value and comment exactly once, in order, in the layout selected by the format settings, options and indent; it produces the same bytes every time and changes nothing observable in the file. WriteTo and SaveTo produce the same bytes, the returned count is the number of bytes the destination accepted, and a destination that fails or accepts too little yields an error. A file that fails to save never reports success, and saving replaces the whole previous content.",
  ["inputs", "configurations", "fault_sequences"],
  "All files of bounded size over a menu of names, values, comments and kinds x all format settings x all write-fault points.",
  "Tests compare a few golden outputs under default settings and never let the destination fail.",
  ["file.go"],
  [("encoder", "file.go:writeToBuffer"), ("buffered write", "file.go:WriteToIndent"), ("save", "file.go:SaveToIndent")],
  observe=["File.WriteTo", "File.WriteToIndent", "File.SaveTo", "File.SaveToIndent"])

p("C18", "What is written loads back to the same sections, keys and values",
  "For every file whose names and values are representable (any text without back-quotes, carriage returns, leading or trailing quote characters or trailing backslashes; newlines, comment symbols, delimiters, inner quotes, leading and trailing blanks included), writing it and loading the output with the same options gives the same sections, keys, values and shadow values in the same order, under every format setting. Writing the reloaded file gives the same bytes again.",
  ["inputs", "configurations"],
  "All files over all short values and names of the representable alphabet, x all format settings, write delimiters and the relevant load options.",
  "Tests compare output to golden text and rarely reload it; which values survive depends on combinations of special characters.",
  ["file.go", "parser.go"],
  [("quoting on write", "file.go:writeToBuffer"), ("unquoting on load", "parser.go:readKeyName, readValue")],
  observe=["File.WriteTo then LoadSources"])

p("C19", "Comments survive writing and reloading",
  "Every comment set on a section or key, of one or several lines, with or without leading comment symbols, empty lines included, is written as comment lines directly before its element and, when the output is loaded, is attached to the same element with the same text up to the documented normalisation (a comment symbol and one space before each line). Comments never change names, values or structure, and writing never panics because of them.",
  ["inputs", "configurations"],
  "All comment texts up to a length bound over letters, blanks, #, ; and newline, on sections and keys in every position, x indentation and format settings.",
  "One golden test has one two-line comment each.",
  ["file.go", "parser.go"],
  [("comment output", "file.go:writeToBuffer"), ("comment collection", "parser.go:parse")],
  observe=["Section.Comment", "Key.Comment", "File.WriteTo"])

p("C20", "Mapping a file to a struct sets exactly the fields that have valid values",
  "Mapping sets each exported field that corresponds (by tag, name mapper or field name) to a key or section to the value that key converts to, element by element for lists and recursively for structs, pointers, embedded and extended structs and non-unique sections; fields with no key, an invalid value or a '-' tag keep what they held. In strict mode an invalid scalar value is an error, in normal mode it never is; an unsupported field type is an error, and mapping never panics or stores a truncated number. The mapped file is not changed.",
  ["inputs", "configurations"],
  "All combinations of field kind (plain, pointer, named, slice) x tag options x value menu x strict or not x prior field value, and a set of nested, embedded, extended and non-unique struct shapes over all section placements.",
  "Tests map one large struct from one good and one bad document.",
  ["struct.go"],
  [("field walk", "struct.go:mapToField"), ("scalar set", "struct.go:setWithProperType"), ("slice set", "struct.go:setSliceWithProperType"), ("section slices", "struct.go:mapToSlice")],
  observe=["File.MapTo", "Section.MapTo", "StrictMapTo", "MapToWithMapper"])

p("C21", "Reflecting a struct into a file is complete and is undone by mapping",
  "Reflecting a struct writes every exported field that is not excluded or (with omitempty) empty, under its mapped name, into the section that its position denotes, with its comment tag, overwriting what was there and leaving all other content alone, whatever the other fields hold. Mapping the file to a fresh value of the same type gives back the same field values, also after writing and reloading, for values representable in text. Reflecting never panics, unsupported types are errors, and struct reflectors are called for the fields that implement them.",
  ["inputs", "configurations"],
  "All combinations of field kinds, tag options, field values from menus (zero, boundary, nil, empty) and field orders in bounded struct shapes.",
  "Tests reflect four structs with one value each.",
  ["struct.go"],
  [("field walk", "struct.go:reflectFrom"), ("scalar output", "struct.go:reflectWithProperType"), ("slice output", "struct.go:reflectSliceWithProperType"), ("empty test", "struct.go:isEmptyValue")],
  observe=["File.ReflectFrom", "Section.ReflectFrom", "ReflectFromWithMapper"])

p("C22", "Concurrent use in blocking mode is race-free, atomic and deadlock-free",
  "In blocking mode (the default), goroutines may concurrently create, look up, list and delete sections and keys, set key values, and read the key hash or search values of one file: there is no data race, no deadlock, and no operation leaves the file locked, also when it fails. Every operation appears to take effect atomically at one moment between its call and its return, so results and final content are those of some sequential order, and no update is lost.",
  ["schedules", "histories"],
  "All interleavings (at lock operations, under a happens-before race detector) of two threads with up to two operations each and three threads with one operation each, over colliding names.",
  "No test starts a goroutine.",
  ["file.go", "section.go", "key.go"],
  [("file-wide RWMutex", "file.go:File.lock"), ("locked sections", "file.go:NewSection, SectionsByName, Sections, DeleteSectionWithIndex; section.go:NewKey, GetKey, HasValue, KeysHash, DeleteKey; key.go:SetValue")],
  observe=["operation results", "final content", "lock state"],
  hook="none in /repo: the check substitutes package sync by a build overlay generated from the working tree")

p("C23", "Results are snapshots; files are independent of each other and their inputs",
  "Names, sections, keys, hashes and value lists returned by listing accessors are copies: changing them, or changing the file afterwards, does not affect the other. Loading never modifies the bytes it is given, two loads of the same data are independent, and no operation on one file can be observed in another.",
  ["histories"],
  "All pairs of a listing accessor and a subsequent mutation (of the returned container or of the file) on a set of files, and all pairs of operations on two files loaded from the same source.",
  "Tests never modify a returned container and hardly use two files.",
  ["file.go", "section.go", "key.go", "data_source.go"],
  [("copies", "file.go:SectionStrings, Sections, SectionsByName; section.go:KeyStrings, Keys, KeysHash, ChildSections; key.go:ValueWithShadows")],
  observe=["returned slices and maps"])

p("C24", "Unparseable sections keep their body verbatim and others are unaffected",
  "The lines under a section declared unparseable are not interpreted as keys but form its body in order (without blank lines, leading white space and comment lines), up to the next section header; sections not so declared parse as usual. The body can be replaced only on such sections, is written out as is, and writing then loading with the same options gives the same body.",
  ["inputs", "histories", "configurations"],
  "All documents of bounded length over a menu of raw-looking lines and headers, for each set of declared names (and case-insensitive matching), and all short body texts.",
  "Tests use one document with one raw section.",
  ["parser.go", "section.go", "file.go"],
  [("raw collection", "parser.go:parse (inUnparseableSection)"), ("body", "section.go:Body, SetBody"), ("raw creation", "file.go:NewRawSection")],
  observe=["Section.Body", "Section.SetBody", "File.WriteTo"])

p("C25", "Non-unique sections form an ordered list of independent sections per name",
  "With non-unique sections allowed, every header or creation adds a new section; the file lists all of them in order, those of one name are reachable by index in creation order, and each keeps its own keys, comment and place in the output. Deleting by name and index removes exactly that one and re-indexes only later ones of that name, deleting by name removes all of that name, and an index out of range changes nothing. Without the option a non-zero index is refused.",
  ["histories", "inputs"],
  "All histories of create, fetch, add-key, delete and delete-by-index over a small set of names up to a depth bound, from the empty file and from parsed files, compared after every step including the written output.",
  "Tests delete one section from one document.",
  ["file.go", "struct.go"],
  [("index bookkeeping", "file.go:DeleteSectionWithIndex, NewSection"), ("indexed access", "file.go:SectionWithIndex, Sections")],
  state=[("sectionIndexes", "occurrence index per list entry", "file.go:File")],
  observe=["File.Sections", "File.SectionsByName", "File.SectionWithIndex", "File.WriteTo"])

for o in P:
    print(json.dumps(o, ensure_ascii=False))
