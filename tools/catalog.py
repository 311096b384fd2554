"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

PROPERTIES = []


def P(id, title, statement, over, quant, why, files, mech, **kw):
    PROPERTIES.append(
        dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, **kw)
    )


P(
    "C01",
    "Opening and saving a spec file without edits keeps its bytes",
    "Loading a spec file and saving it back without making a change leaves exactly the same text in the file, "
    "whatever characters, control characters, undecodable bytes, carriage returns or missing final newline it contains; "
    "an empty file stays empty. The same holds after a reload and after opening and closing any of the views "
    "(lines, macro definitions, sections, tags, changelog, prep, sources, patches) without changing anything in them. Content that cannot be encoded is "
    "refused and leaves the file as it was; saving under another path leaves the original file as it was.",
    ["inputs", "histories"],
    "every file content, within the length bounds of the harness, and every view opened without edits",
    "The tests load about twenty well-formed spec files; whether bytes survive depends on every possible line content "
    "and line end.",
    ["specfile/specfile.py", "specfile/sections.py", "specfile/tags.py", "specfile/macro_definitions.py"],
    [("reading and splitting the content", "specfile/specfile.py Specfile._read_lines"),
     ("joining and writing", "specfile/specfile.py Specfile.__str__, save"),
     ("write-back of every view", "specfile/specfile.py lines, sections, tags, ...")],
)
P(
    "C02",
    "Macro definitions round-trip: parse then render is the identity",
    "Parsing lines into macro definitions and rendering them back gives exactly the same lines, for any lines: "
    "multi-line bodies, line continuations, unterminated bodies, commented-out definitions (with # or %dnl), "
    "odd or trailing whitespace and lines that are no definition at all. Parsing never fails.",
    ["inputs"],
    "all line contents within the shapes and lengths of the harness",
    "The tests contain a handful of definitions; the claim is over every line content.",
    ["specfile/macro_definitions.py", "specfile/conditions.py", "specfile/utils.py"],
    [("parser", "specfile/macro_definitions.py MacroDefinitions.parse"),
     ("renderer", "specfile/macro_definitions.py MacroDefinition.get_raw_data, MacroDefinitions.get_raw_data")],
)
P(
    "C03",
    "Sections round-trip: split then join is the identity",
    "Splitting lines into sections and joining the sections back gives exactly the same lines, including odd case, "
    "trailing whitespace, options and line continuations of section headers and lines that merely look like headers.",
    ["inputs"],
    "all line contents within the shapes and lengths of the harness",
    "The tests contain a handful of section headers; the claim is over every line content.",
    ["specfile/sections.py", "specfile/macro_definitions.py", "specfile/options.py"],
    [("splitter", "specfile/sections.py Sections.parse"), ("joiner", "specfile/sections.py Sections.get_raw_data")],
)
P(
    "C04",
    "Tags round-trip: parse then render is the identity",
    "Parsing a preamble-like section into tags and rendering it back gives exactly the same lines, for any lines: "
    "comments, empty lines, conditions, unusual separators and trailing whitespace, tags wrapped in conditional macro "
    "expansions, multi-line values and lines that are no tag at all. Parsing never fails.",
    ["inputs"],
    "all line contents within the shapes and lengths of the harness",
    "The tests contain a handful of tags; the claim is over every line content.",
    ["specfile/tags.py", "specfile/utils.py", "specfile/value_parser.py"],
    [("parser", "specfile/tags.py Tags.parse, Comments.parse"),
     ("renderer", "specfile/tags.py Tags.get_raw_section_data")],
)
P(
    "C05",
    "Changelog round-trip: parse then render is the identity",
    "Parsing a changelog section into entries and rendering it back gives exactly the same lines, for any lines, "
    "including text before the first entry, blank lines between and after entries, and lines that merely look like "
    "entry headers. Headers and contents of entries are the right lines, blank lines that follow an entry not being part of its content.",
    ["inputs"],
    "all line contents within the shapes and lengths of the harness",
    "The tests contain a few changelogs; the claim is over every line content.",
    ["specfile/changelog.py"],
    [("parser", "specfile/changelog.py Changelog.parse"),
     ("renderer", "specfile/changelog.py Changelog.get_raw_section_data")],
)
P(
    "C06",
    "Prep macros round-trip: parse then render is the identity",
    "Parsing a prep section into its setup and patch macros and rendering it back gives exactly the same lines, for any "
    "lines whose macro options can be tokenized, including macros wrapped in conditional expansions, several spellings "
    "of the same macro, quoting, and surrounding text.",
    ["inputs"],
    "all line contents within the shapes and lengths of the harness",
    "The tests contain a few prep sections; the claim is over every line content.",
    ["specfile/prep.py", "specfile/options.py", "specfile/utils.py"],
    [("parser", "specfile/prep.py Prep.parse"), ("renderer", "specfile/prep.py Prep.get_raw_section_data")],
)
P(
    "C07",
    "Source lists round-trip: parse then render is the identity",
    "Parsing a source list or patch list section into entries and rendering it back gives exactly the same lines, for "
    "any lines including comments, empty lines and conditions.",
    ["inputs"],
    "all line contents within the shapes and lengths of the harness",
    "The tests contain a few lists; the claim is over every line content.",
    ["specfile/sourcelist.py", "specfile/tags.py"],
    [("parser", "specfile/sourcelist.py Sourcelist.parse"),
     ("renderer", "specfile/sourcelist.py Sourcelist.get_raw_section_data")],
)
P(
    "C08",
    "Option strings round-trip: tokenize then render is the identity",
    "An option string (of a section header or a prep macro) that can be tokenized renders back to exactly the same text "
    "when nothing is changed: quotes, backslashes, repeated whitespace, empty quoted arguments and macro expressions are "
    "all preserved. A string that cannot be tokenized is rejected with the library's own exception, never another one. "
    "Values of its tokens make up the arguments RPM (poptParseArgvString) reads from it.",
    ["inputs"],
    "all strings up to the length bound",
    "The tests tokenize about ten strings; the claim is over every string.",
    ["specfile/options.py", "specfile/value_parser.py"],
    [("tokenizer", "specfile/options.py Options.tokenize"), ("renderer", "specfile/options.py Token.__str__, Options.__str__")],
)
P(
    "C09",
    "Scanning of macro expressions is lossless and agrees with RPM",
    "Scanning a value into literal text, macro references, conditional expansions, shell, expression and built-in macros "
    "is lossless: the parts concatenate back to the value. The parts begin and end where RPM's own macro scanner begins "
    "and ends them (escaped percent signs, nesting, escaped brackets, names, conditional prefixes), unterminated "
    "expressions are rejected with the library's own exception, and definitions and tag values continue on the next line "
    "exactly when RPM would continue them.",
    ["inputs"],
    "all strings up to the length bound",
    "The tests scan about twenty values; the claim is over every string, and the interesting ones are rare.",
    ["specfile/value_parser.py", "specfile/utils.py"],
    [("scanner", "specfile/value_parser.py ValueParser.parse"),
     ("bracket counting", "specfile/utils.py count_brackets"),
     ("conditional expansion splitting", "specfile/utils.py split_conditional_macro_expansion")],
)
P(
    "C10",
    "Validity of lines inside conditions follows RPM's %if semantics",
    "A tag, macro definition or list entry is reported as valid exactly when RPM would process its line: all the "
    "enclosing branches (%if, %ifarch, %ifnarch, %ifos, %ifnos, %elif, %elifarch, %elifos, %else) are taken, at most one "
    "branch of each condition is taken, and an expression that cannot be evaluated counts as false. Unbalanced or "
    "unfinished conditions never make parsing fail.",
    ["inputs"],
    "all condition structures within the line and nesting bounds, all truth values of their expressions",
    "The tests contain about ten condition layouts; the claim is over every arrangement of branches and truth values.",
    ["specfile/conditions.py", "specfile/tags.py", "specfile/macro_definitions.py"],
    [("condition processing", "specfile/conditions.py process_conditions"),
     ("expression evaluation", "specfile/conditions.py resolve_expression")],
)
P(
    "C15",
    "Editing options changes only what was asked and reads back",
    "Setting, changing or deleting an option or a positional argument of a section header or a prep macro reads back as "
    "the value that was set, leaves every other option and argument untouched, and survives rendering and parsing again. "
    "Values are quoted as needed, so no value can be mistaken for another option or argument.",
    ["inputs", "histories"],
    "all option strings and values within the length bounds of the harness",
    "The tests edit about twenty option strings; the claim is over every combination of option string, option and value.",
    ["specfile/options.py", "specfile/prep.py"],
    [("option access", "specfile/options.py Options.__getattr__, __setattr__, __delattr__"),
     ("positional arguments", "specfile/options.py Positionals"),
     ("quoting", "specfile/options.py Token.__str__")],
)
P(
    "C19",
    "EVR, NEVR and NEVRA order like RPM and round-trip through text",
    "Comparing two EVRs (or two NEVRs, or NEVRAs, of the same package and architecture) gives the answer RPM gives for their "
    "epochs, versions and releases, with all of the comparison operators consistent with each other, and equal objects have equal hashes; "
    "those of different packages, architectures or kinds are never equal and have no order. A valid object rendered as text is read back "
    "as an equal one, and any string is either rejected with the library's own exception or split into parts that make it up.",
    ["inputs"],
    "all pairs and triples of versions and releases, all strings, within the length bounds",
    "The tests compare about twenty pairs; the claim is over every pair of versions.",
    ["specfile/utils.py"],
    [("ordering and hash", "specfile/utils.py EVR.__lt__, __eq__, __hash__, NEVR, NEVRA"),
     ("text", "specfile/utils.py from_string, __str__")],
)
P(
    "C22",
    "Reading, setting and bumping the release",
    "release is the part of the Release tag before the dist macro and the minor bump, and setting it (also together with the version) "
    "changes exactly that part, keeps the dist macro and nothing else in the file. bump_release() follows the rules of rpmdev-bumpspec: "
    "it increments the right number in the effective place (the first effective definition of macro release or baserelease, otherwise the Release tag), "
    "the new release is newer than the old one, and no other line changes; a release managed by %autorelease is left alone.",
    ["inputs", "histories"],
    "all releases within the length bounds, spec files with up to two macro definitions",
    "The tests bump about twenty releases; the claim is over every release string and placement of the definitions.",
    ["specfile/specfile.py"],
    [("splitting a release", "specfile/specfile.py Specfile._split_raw_release, _get_updated_release"),
     ("setting and bumping", "specfile/specfile.py Specfile.release, set_version_and_release, bump_release")],
)
P(
    "C23",
    "Adding a changelog entry adds only that entry",
    "add_changelog_entry() puts the new entry on top of every %changelog section that is not automatic, with the given author, timestamp, "
    "EVR (the EVR of the package without dist by default) and content, separated by an empty line from the previous entry and in the format (padding of "
    "the day, extended timestamp) that section uses; everything else in the spec file stays as it was. Sections using %autochangelog are left alone, "
    "and the arguments are not modified.",
    ["inputs", "histories"],
    "all authors, e-mails, EVRs and entry lines within the length bounds, all kinds of changelog sections listed",
    "The tests add about five entries; the claim is over every entry and every pair of changelog kinds.",
    ["specfile/specfile.py", "specfile/changelog.py"],
    [("adding", "specfile/specfile.py Specfile.add_changelog_entry, contains_autochangelog"),
     ("formatting", "specfile/changelog.py ChangelogEntry.assemble, day_of_month_padding, extended_timestamp")],
)
P(
    "C24",
    "Filtering a changelog selects exactly the entries in the EVR range",
    "Changelog.filter(since, until) returns, in order, exactly those entries whose EVR is not lower than since and not greater than until "
    "according to RPM's ordering, for changelogs ordered by EVR, also when entries have no EVR; it doesn't modify the changelog. "
    "The EVR at the end of a header is recognized in all of the usual notations, and a header without one has none.",
    ["inputs"],
    "all changelogs ordered by EVR within the bounds, all headers in the listed notations",
    "The tests filter one changelog; the claim is over every changelog and range.",
    ["specfile/changelog.py", "specfile/utils.py"],
    [("filter", "specfile/changelog.py Changelog.filter"), ("EVR of a header", "specfile/changelog.py ChangelogEntry.evr")],
)
P(
    "C16",
    "Views can be nested freely; edits are written back once and never lost",
    "Using a view (lines, macro definitions, sections, tags, changelog, prep, sources, patches) again while it is open, with the same "
    "arguments, gives the same object; views of different arguments, distinct sections or different Specfile instances are never shared. "
    "When the outermost use is closed, normally or by an exception (which propagates unchanged), all edits are in the content, and in the file "
    "with autosave, and nothing else changed. Views that were closed, dropped or only asked for their content leave nothing open, and "
    "properties of Specfile used inside of an open view see and change what that view holds.",
    ["schedules", "histories"],
    "all nestings and sequences of views, places of edits and exceptions within the depth bounds",
    "The tests nest a few pairs of views; the claim is over every nesting, with edits and exceptions anywhere.",
    ["specfile/context_management.py", "specfile/specfile.py"],
    [("sharing and closing", "specfile/context_management.py ContextManager.__call__, GeneratorContextManager"),
     ("write-back", "specfile/specfile.py Specfile.lines, macro_definitions, sections, tags, changelog, prep, sources, patches")],
)
P(
    "C17",
    "Expansion and rpm_spec always reflect the current state of their instance",
    "Expanding macros, rpm_spec, tainted, active macros and expanded values of tags always answer according to the current content, extra macros "
    "source directory and forced parsing of the Specfile instance they are asked of, whatever was done before with that or any other instance (edits, extra "
    "macros, deep copies, deleted instances, failed or interrupted parsing). A spec file that cannot be parsed fails every time until it is "
    "repaired, and nothing is parsed again when nothing changed. The sections of a parsed spec file make up the text RPM has made of it.",
    ["histories"],
    "all histories of operations on two instances within the length bound",
    "RPM's macro context is one global state shared by all instances and parsing is cached; the tests check a single history.",
    ["specfile/spec_parser.py", "specfile/specfile.py", "specfile/macros.py"],
    [("caching of parsing", "specfile/spec_parser.py SpecParser.parse"),
     ("macro context", "specfile/spec_parser.py SpecParser._do_parse, specfile/macros.py Macros.reinit, define, remove")],
)
P(
    "C18",
    "Whatever goes wrong while parsing, everything is put back",
    "Parsing leaves the source directory (no dummy sources left, no existing file or symlink lost or changed), the environment variables, the "
    "standard error stream and the open file descriptors as they were, whether RPM succeeds, fails or is interrupted, and whatever file cannot be "
    "created or removed. While parsing, every missing source is available as a file of the type given by its extension. Failures of RPM are "
    "reported as RPMException with RPM's message; other exceptions propagate unchanged.",
    ["fault_sequences", "inputs"],
    "all outcomes of every run of RPM's parser, all listed faults of the file system, sources and included files",
    "The tests parse a handful of spec files where nothing goes wrong.",
    ["specfile/spec_parser.py", "specfile/context_management.py", "specfile/macros.py"],
    [("dummy sources", "specfile/spec_parser.py SpecParser._make_dummy_sources"),
     ("environment", "specfile/spec_parser.py SpecParser._sanitize_environment"),
     ("stderr", "specfile/context_management.py capture_stderr")],
)
P(
    "C11",
    "Changing one item changes nothing but that item",
    "Changing an attribute of a single macro definition, tag, list entry, %prep macro, section or changelog entry changes only the lines of that "
    "item: all lines before and after it stay as they were, and reading the result again gives the changed item with the new value of what was "
    "changed and the old value of everything else, and all other items as they were.",
    ["inputs", "histories"],
    "all arrangements of items and lines in between, all items and changes within the bounds",
    "The tests change a few attributes in a few documents and look at those attributes, not at all other lines.",
    ["specfile/macro_definitions.py", "specfile/tags.py", "specfile/sourcelist.py", "specfile/prep.py", "specfile/sections.py", "specfile/changelog.py", "specfile/options.py"],
    [("rendering", "get_raw_data and get_raw_section_data of all containers"),
     ("parsing", "parse of all containers")],
)
P(
    "C12",
    "Deleting items removes exactly them and keeps all other lines",
    "Deleting items of a list-like part of a spec file in any way (del with an index or a slice, pop, remove, clear, by name), removes exactly the "
    "lines of these items: all lines in between (conditions, comments not belonging to the items, texts) stay in order (empty lines around a deleted "
    "tag or changelog entry excepted), and the same items as in a Python list remain.",
    ["inputs", "histories"],
    "all arrangements of items and lines in between, all indices and slices within the bounds",
    "Lines that are not items are kept with the item that follows; the tests delete single items in a few documents.",
    ["specfile/macro_definitions.py", "specfile/tags.py", "specfile/sourcelist.py", "specfile/prep.py", "specfile/sections.py", "specfile/changelog.py", "specfile/utils.py"],
    [("deletion", "__delitem__ and __delattr__ of all containers"),
     ("other ways", "specfile/utils.py UserList")],
)
P(
    "C13",
    "Inserting items adds exactly their lines at the right place",
    "Inserting items to a list-like part of a spec file (insert with any index, append, extend, +=), adds exactly the lines of these items and "
    "changes no other line; reading the result again gives the items in the same order as in a Python list. A new tag is never made part of a "
    "condition block unless both of its neighbours are. add_patch_macro() puts a %patch macro in the order of patch numbers.",
    ["inputs", "histories"],
    "all arrangements of items and lines in between, all indices within the bounds",
    "The tests insert a few items; surrounding conditions and unusual indices matter.",
    ["specfile/macro_definitions.py", "specfile/tags.py", "specfile/sourcelist.py", "specfile/prep.py", "specfile/sections.py", "specfile/changelog.py", "specfile/utils.py"],
    [("insertion", "specfile/tags.py Tags.insert, specfile/utils.py UserList"),
     ("rendering", "get_raw_data and get_raw_section_data of all containers")],
)
P(
    "C14",
    "Sources and patches have the numbers RPM gives them and stay distinct",
    "Every source and patch has the number RPM assigns (its own, or the one following the previous source; entries of all %sourcelist or "
    "%patchlist sections continue the numbering of tags). Inserting (by index or number), appending, replacing and removing (by index, slice, "
    "location, number) sources gives the same sequence of locations as in a Python list; a new source has the requested number (the one of the "
    "source it was inserted before, or the next one) and following sources get a higher number only when they would collide. Duplicates are refused, unless "
    "allowed, without changing anything, and all other lines stay as they were. add_patch() adds a patch with the highest number, with its comments, and renumbers "
    "no other patch; a number that is not the highest is refused. The first patch tag follows the last source.",
    ["inputs", "histories"],
    "all arrangements of numbered, implicitly numbered and listed sources, locations and arguments within the bounds",
    "The tests run through a few arrangements; collisions, gaps, padding, implicit numbering and lists combine.",
    ["specfile/sources.py", "specfile/specfile.py", "specfile/tags.py", "specfile/sourcelist.py"],
    [("numbers", "specfile/sources.py Sources._get_tags, _get_items"),
     ("insertion", "specfile/sources.py Sources.insert, insert_numbered, _get_tag_format, _deduplicate_tag_names"),
     ("patches", "specfile/specfile.py Specfile.add_patch")],
)
P(
    "C21",
    "Updated tags expand to the requested value",
    "After update_tag(), update_version() or setting an attribute of Specfile, the tag expands to the requested value (a detected pre-release suffix "
    "being separated by a tilde), whatever macros its value refers to and however they are defined. Substitutions of local macros and tags are "
    "preserved by updating their values whenever the parts of the value can be told apart; protected macros and everything else stays as it was. "
    "The pre-release macro is defined exactly if the version is a pre-release.",
    ["inputs", "programs"],
    "all combinations of macro definitions and values referring to them, all requested values within the bounds",
    "The tests update a few spec files; macros referring to each other, conditional expansions and commented out definitions combine.",
    ["specfile/specfile.py", "specfile/value_parser.py", "specfile/macro_definitions.py"],
    [("matching", "specfile/value_parser.py ValueParser.construct_regex"),
     ("updates", "specfile/specfile.py Specfile.update_value, update_tag, update_version")],
)
P(
    "C25",
    "Looking items up by name finds the right one",
    "Tags are found by their names regardless of case, macro definitions by their exact names and sections by their IDs (the case of the section name "
    "does not matter). If there are more, the first one that is valid (not in a false condition) is found, or the first one if none is. All ways of "
    "looking up (find, get, attribute access, in) agree, and so do setting and deleting by name. A section is found by its ID whether it was read or made with its options. Attributes of Specfile read and write the tags they "
    "are named after and no other text; an attribute of an absent tag is None.",
    ["inputs", "configurations"],
    "all arrangements of names and conditions and all names asked within the bounds",
    "The tests look up names that are there once.",
    ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/sections.py", "specfile/specfile.py"],
    [("lookup", "find, get, contains, __getattr__ of Tags, MacroDefinitions and Sections"),
     ("attributes", "specfile/specfile.py Specfile.__getattr__-like tag properties")],
)
P(
    "C26",
    "Positions of tags and macro definitions are the numbers of their lines",
    "The position of a tag or a macro definition in its container is the index of the line it starts on in the rendered container, when parsed and "
    "after any insertion or deletion; find() and get() with a position find exactly the item that is there.",
    ["inputs", "histories"],
    "all arrangements of items and lines in between within the bounds",
    "The order of evaluation of macros and tags depends on positions; the tests check a single document.",
    ["specfile/tags.py", "specfile/macro_definitions.py"],
    [("positions", "specfile/tags.py Tag.get_position, specfile/macro_definitions.py MacroDefinition.get_position")],
)
P(
    "C27",
    "Copies are equal and independent",
    "A deep copy of a Specfile or of any of its parts is equal to the original, renders to the same text, and changing either one in any way never "
    "changes the other. A shallow copy is a list of its own having the same items. Items created with the same comments or options do not share them.",
    ["inputs", "histories"],
    "all arrangements of items and lines in between, all kinds of edits within the bounds",
    "The tests copy one instance of each class; shared inner objects show up only after particular edits.",
    ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/sections.py", "specfile/sourcelist.py", "specfile/prep.py", "specfile/changelog.py", "specfile/options.py", "specfile/specfile.py"],
    [("copies", "__deepcopy__ and copy() of all classes")],
)
P(
    "C28",
    "Equality of objects agrees with their contents",
    "Parts of a spec file read from the same text are equal; as soon as anything of an item is changed (a name, value, body, comment, option, line, …) it and "
    "the list it is in differ from the original, and they are equal again when it is changed back. Options are equal exactly if they mean the same, parsed values "
    "if they are the same text, instances of Specfile if their paths, contents and settings are the same. Equality is symmetric, != is its negation, equal objects "
    "have equal hashes, and comparing with anything else gives False.",
    ["inputs", "histories"],
    "all arrangements and kinds of changes, all pairs of values within the bounds",
    "The tests compare copies; whether each attribute takes part in comparisons only shows with objects that differ in nothing else.",
    ["specfile/tags.py", "specfile/macro_definitions.py", "specfile/sections.py", "specfile/sourcelist.py", "specfile/prep.py", "specfile/changelog.py", "specfile/options.py", "specfile/value_parser.py", "specfile/macros.py", "specfile/specfile.py", "specfile/spec_parser.py"],
    [("equality", "__eq__ and __hash__ of all classes")],
)
P(
    "C29",
    "Operations with the global macro context do exactly what they say",
    "After Macros.define() a macro expands to the new body and after Macros.remove() it is undefined, however many times it was defined before and whether or not it can "
    "be expanded; no other macro changes. A macro that cannot be removed is reported. Macros.reinit() loads the configuration once and keeps exactly the macros up to the "
    "given level. Macros.dump() returns name, options, body, level and use of every macro RPM lists. A failed expansion is reported as RPMException.",
    ["inputs", "histories"],
    "all previous definitions, levels and bodies within the bounds",
    "The tests mock RPM with a single answer; stacks of definitions and failing expansions matter.",
    ["specfile/macros.py"],
    [("definition and removal", "specfile/macros.py Macros.define, remove, reinit"), ("dump", "specfile/macros.py Macros._parse, dump")],
)
P(
    "C30",
    "The packager is taken from the first place that knows it",
    "guess_packager() returns the value of RPM_PACKAGER if it is set, otherwise the value of the packager macro if it is defined, otherwise the name and e-mail from the git "
    "configuration, the full name or name of the user standing in for a missing name and the e-mail being left out if it isn't known; git is not run unless needed.",
    ["inputs", "configurations"],
    "all combinations of places that know the packager and all values within the bounds",
    "The tests check one value for each place.",
    ["specfile/changelog.py"],
    [("guessing", "specfile/changelog.py guess_packager, _getent_name")],
)
P(
    "C31",
    "File names of sources are those RPM uses",
    "The file name of a source or a patch, given by a tag or by an entry of a list, is the part of its location RPM takes for it (after the last slash, and after the last equals sign "
    "following it), before or after expanding macros in the location; a source is remote exactly if its expanded location is a URL with a host.",
    ["inputs"],
    "all locations within the length bounds",
    "The tests check about five locations.",
    ["specfile/sources.py", "specfile/utils.py", "specfile/sourcelist.py"],
    [("file names", "specfile/utils.py get_filename_from_location"), ("sources", "specfile/sources.py TagSource, ListSource, Source.remote")],
)
P(
    "C32",
    "Macros of %prep are found by name and their options are those of RPM",
    "Each of %setup, %autosetup, %patch and %autopatch has exactly the options RPM knows, flags and options with arguments, with RPM's defaults; any of them can be read, set and "
    "deleted without affecting the others. The number of a %patch macro is read and set in all of its spellings. Macros are found, deleted and asked for by name or class, the first one of "
    "several; a missing one is reported as such. An option without its argument does no harm to the others.",
    ["inputs"],
    "all options and pairs of options, all numbers and spellings, all arrangements of names within the bounds",
    "The tests use a few options of each macro.",
    ["specfile/prep.py", "specfile/options.py"],
    [("options", "specfile/prep.py OPTSTRING and DEFAULTS of all macros"), ("numbers", "specfile/prep.py PatchMacro.number"), ("lookup", "specfile/prep.py PrepMacros, Prep")],
)
P(
    "C33",
    "Sections and tags RPM knows are recognized, no others are",
    "A line starts a section exactly if its first word is a percent sign followed by the name of a section RPM knows, regardless of case, and it is a tag exactly if it starts with the name of a "
    "tag RPM knows, regardless of case, followed by a colon; tags RPM knows to have an argument may have one in parentheses and sources and patches a number. Every section has exactly the "
    "options RPM knows for it. Sections which are shell scripts (other than %prep) say so, other sections do not.",
    ["inputs"],
    "all names of sections and tags and all strings differing from them in one character, all options",
    "The tests use a few names.",
    ["specfile/constants.py", "specfile/sections.py", "specfile/tags.py"],
    [("sections", "specfile/sections.py Sections.parse, Section.is_script"), ("tags", "specfile/tags.py get_tag_name_regex, Tags.parse"), ("names and options", "specfile/constants.py")],
)
NOT_APPLICABLE = {}
