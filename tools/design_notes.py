"""Per-property notes for DESIGN.md: how it is decided, against which oracle."""
NOTES = {
"C01": "A file with symbolic content is written to a scratch directory, opened by `Specfile`, one of 12 kinds of use is chosen (each view opened without edits, reload, properties…), and saved. Oracle: the bytes of the file before. Also: content that can't be encoded and external modification. Reaches undecodable bytes, lone carriage returns, Unicode line separators and missing final newlines anywhere.",
"C02": "`MacroDefinitions.parse` then `get_raw_data` on lines with symbolic characters. Oracle: the input lines.",
"C03": "`Sections.parse` then `get_raw_data` and `str`; the expansion of header arguments (which decides whether a line is a header) is an arbitrary choice. Oracle: the input lines.",
"C04": "`Tags.parse` then `get_raw_section_data`. Oracle: the input lines.",
"C05": "`Changelog.parse` then `get_raw_section_data`. Oracle: the input lines.",
"C06": "`Prep.parse` then `get_raw_section_data`. Oracle: the input lines.",
"C07": "`Sourcelist.parse` then `get_raw_section_data`. Oracle: the input lines.",
"C08": "`Options.tokenize` then joining of tokens. Oracle: the string itself; only the library's own exceptions are accepted.",
"C09": "`ValueParser.parse`, `count_brackets`, `split_conditional_macro_expansion`, and the continuation logic of tags and macro definitions. Oracle: a reference scanner written from `expandMacro()`/`matchchar()`/`readLine()` of RPM, executed symbolically on the same string.",
"C10": "Documents made of symbolic sequences of condition keywords around items; every result of an evaluation is a choice. Oracle: a stack machine written from RPM's `readLine()`.",
"C11": "A list of any of the six kinds is built from a line-level description, parsed, one attribute of one item is changed and the result is rendered, compared with the lines expected, and parsed again; changing it back restores the lines. Oracle: the description.",
"C12": "As C11, deleting in any way. Oracle: the description without the items.",
"C13": "As C11, inserting in any way. Oracle: the description with the new items; for tags, any place between the neighbours outside of conditions they don't share; for %patch, an order by number.",
"C14": "Spec files with symbolic arrangements of Source/Patch tags and lists; one operation. Oracle: a Python list of locations, and RPM's numbering rule written down independently on the rendered text.",
"C15": "Option strings assembled from symbolic items; one operation. Oracle: the list of items.",
"C16": "Symbolic nesting of views with symbolic places of edits and exceptions. Oracle: the expected text after each of the edits, identity of the yielded objects, and the file on disk.",
"C17": "Symbolic histories of operations on two instances over a model of RPM's global state. Oracle: what a fresh process would answer for the current content.",
"C18": "Symbolic outcomes of every run of the parser and symbolic faults of the file system, with real files, environment variables and file descriptors in a scratch directory. Oracle: a snapshot of all of these before.",
"C19": "Symbolic epochs, versions, releases, names and arches. Oracle: `rpm.labelCompare` transcribed and compared with RPM in setup; algebraic laws (totality, transitivity, hash consistency).",
"C21": "Symbolic documents of macro definitions and a tag referring to them, symbolic new value. Oracle: an independent macro expander.",
"C22": "Symbolic releases and placements of definitions. Oracle: the rules of rpmdev-bumpspec written down independently, line-by-line comparison, `labelCompare`.",
"C23": "Symbolic entries and pairs of kinds of changelog sections. Oracle: the expected section text.",
"C24": "Symbolic changelogs ordered by EVR and symbolic bounds. Oracle: per-entry comparison with `labelCompare`; symbolic headers.",
"C25": "Symbolic arrangements of names in true and false conditions and symbolic questions. Oracle: first valid, otherwise first, by a plain scan of the description.",
"C26": "As C11–C13; after each change positions are compared with indices of lines in the rendered text.",
"C27": "As C11; edits of the copy or the original. Oracle: the text of the other one before the edit, equality.",
"C28": "As C11 (same documents and changes): the edited list against a copy or a list parsed again; pairs of symbolic values for the scanner's nodes; pairs of option strings; attribute-wise pairs for the small classes. Oracle: the rendered text and everything observable of the items.",
"C29": "`Macros` on a model of RPM's macro table (stacks of definitions, levels, failing expansions) with symbolic contents. Oracle: the table itself.",
"C30": "`guess_packager` with git, user database, environment and RPM as stubs whose answers are symbolic. Oracle: the documented order.",
"C31": "Symbolic locations; whole spec files with tags and lists. Oracle: `addSource()` of RPM transcribed.",
"C32": "Sections with symbolic choices of macro, options, numbers and spellings. Oracle: RPM's option strings written down independently, a plain list of names.",
"C33": "Names of all sections and tags with one symbolic character, symbolic arguments, all options. Oracle: lists of RPM written down independently in the harness.",
}
