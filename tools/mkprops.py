#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one compact JSON object per line).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("C01","A lookup returns exactly the stored translation of the selected plural form",
 "When the catalog of the localizer's language holds a non-empty translation for (domain, context, message, plural form), every lookup method returns exactly that text and no other entry's. The entry is selected by domain, context and message id together, and the plural form by applying that catalog's plural rule to n. This holds for PO, MO and JSON catalogs and for any number of domains, contexts and languages loaded into one bundle.",
 ["inputs","configurations"],"all sets of catalogs (languages x domains x formats, overlapping ids and contexts) and all lookups with every integer n",
 "Tests look up a handful of fixed ids in the fixed testdata catalogs; collisions between domains, contexts, ids and plural indices only show on arbitrary combinations.",
 ["localizer.go","locale.go","catalog/po.go","catalog/json.go","catalog/po_decoder.go"],
 [("Localizer methods","localizer.go Get..DNPGetf"),("per-locale lookup","locale.go lookupSingularTranslation/lookupPluralTranslation"),("catalog lookup","catalog/po.go getMessage; catalog/json.go getTranslation")],
 "return value of Localizer / KeyLocalizer methods")

p("C02","Missing translations fall back in order and the text is never lost",
 "If the selected language has no usable translation, the text of the fallback language is returned; if that has none either, the source text itself is returned (singular or plural form picked by the source language's plural rule, English-like if unknown). A localizer for which no language matches uses the fallback language, and without one the source text. No lookup ever returns an empty string for a non-empty source message, whatever is missing (domain, context, id, plural form).",
 ["inputs","configurations"],"all bundles with any subset of languages/domains/contexts/messages/forms missing, with and without fallback and source language, all lookups and all n",
 "Tests cover a few fixed fallback situations; the chain has many combinations (missing domain vs context vs id vs single plural form, in locale and in fallback).",
 ["localizer.go","locale.go","bundle.go"],
 [("fallback chain","localizer.go lookupSingularTranslation/lookupPluralTranslation"),("source message","locale.go printSourceMessage"),("fallback/source locale choice","bundle.go NewBundle")],
 "return value of lookup methods, LocalizeWithError error")

p("C03","A localizer serves the language the bundle's matcher selects",
 "For any list of requested languages (tags, or Accept-Language style strings), the localizer uses exactly the loaded language that the bundle's language matcher picks for the parsable requests in their order of preference; entries of other types or that cannot be parsed are ignored. If nothing matches it reports that no locale was found and uses the fallback language (else the source language). The reported language, domains, default domain and support queries agree with what was loaded.",
 ["inputs","configurations"],"all sets of loaded languages and all request lists of tags, strings, Accept-Language headers with q-values, garbage and foreign types",
 "Tests use a few fixed language lists; agreement between the matcher index, the loaded list and the served catalog must hold for every list and order.",
 ["localizer.go","bundle.go"],
 [("negotiation","localizer.go NewLocalizerForDomain/newLocalizerFromTag"),("loaded languages order","bundle.go createLocale")],
 "Localizer.Language/HasLocale/Domains/HasDomain/DefaultDomain, Bundle.IsLanguageSupported, translated text")

p("C04","All lookup entry points agree, and formatting uses the language's printer",
 "Every convenience method equals the general lookup with the missing parts defaulted: default domain, empty context, and for key-based lookup the key as plural text; a localizable message is equivalent to the corresponding direct call. The formatted variants return the looked-up text passed with the arguments through the print function of the language the text was served in, and without arguments the default print function returns the text verbatim, percent signs included. A custom printer is initialised once with all loaded languages and its functions are the ones used.",
 ["inputs","configurations"],"all texts (with and without verbs), argument lists, domains, contexts, message structs, printers",
 "There are 32 near-identical methods; tests call each with one fixed message, so swapped arguments or lost domain/context/vars pass whenever those are empty.",
 ["localizer.go","locale.go","utils.go","localize/types.go"],
 [("method family","localizer.go"),("print functions","utils.go defaultPrinter; locale.go"),("localizable","localizer.go LocalizeWithError")],
 "return values of all methods")

p("C05","Gettext plural expressions are evaluated with C semantics",
 "For every Plural-Forms header the parser accepts and every non-negative integer n, the selected form is the value of the expression under C semantics (precedence and associativity of ?:, ||, &&, ==, !=, <, <=, >, >=, %, parentheses, any non-zero value being true). Every header of a sensible length (nplurals and plural, each closed by a semicolon) whose expression is built from these operators in the usual gettext grammar is accepted, whatever its spacing or redundant parentheses; a text that is not such a header is rejected. Recognising a well-known rule never changes the result.",
 ["inputs"],"all expressions of the gettext plural grammar (except %0) x all n in [0, 2^53], plus all well-known rules with cosmetic variations",
 "Tests evaluate a list of well-known formulas on small n; operator nesting, truthiness and shortcut recognition can only be judged over generated expressions.",
 ["catalog/poplural/rule.go","catalog/poplural/ast/parser.go","catalog/poplural/ast/compile.go","catalog/poplural/builtin_gen.go"],
 [("parser","catalog/poplural/ast/parser.go"),("evaluation","catalog/poplural/rule.go evaluateNode"),("builtin shortcut","catalog/poplural/rule.go Parse -> getBuiltInForRawRule(CompileToString)")],
 "poplural.Parse(...).Evaluate(n), catalog LookupPlural")

p("C06","CLDR plural categories are correct for every language and number",
 "For every supported language the plural category of every number is the one the published CLDR cardinal rules of that language assign, over integers, decimals with any visible fraction digits and compact exponents. The category list of a language is exactly the categories its rules define, in the order zero, one, two, few, many, other. Regional and script variants resolve to their own rules if they have some (for example European Portuguese), otherwise to those of the parent or base language, and unknown languages to English.",
 ["inputs"],"all languages with rules plus regional/script variants and unknown tags x all integers and decimal strings (integer part up to 15 digits, up to 9 visible fraction digits, exponents)",
 "Generated tests only check the sample numbers listed in CLDR (about 20-40 per category), and mostly through the rule text, not for arbitrary numbers.",
 ["catalog/cldrplural/builtin_gen.go","catalog/cldrplural/builtin.go","catalog/cldrplural/cldr.go","catalog/cldrplural/evaluation.go"],
 [("compiled rules","catalog/cldrplural/builtin_gen.go"),("language resolution","catalog/cldrplural/builtin.go ForLanguage"),("operands","catalog/cldrplural/cldr.go NewOperands")],
 "cldrplural.ForLanguage(lang).Evaluate(n)")

p("C07","Custom CLDR rules evaluate as the rule language defines",
 "For every syntactically valid set of mutually exclusive CLDR plural rules, the parsed rule set assigns to each number the category whose condition holds and 'other' if none does, with the CLDR meaning of operands, modulo, and/or, =, != and range lists (ranges contain integers only). Samples in the rule text do not influence evaluation. The result and the reported categories are the same on every call and every parse. A text that is not a rule of this language is rejected with an error, surplus commas and marks of omission aside. (Rule text of up to 64 KB, with the words of the rule language separated by white space.)",
 ["inputs"],"all generated CLDR conditions over all operands, modulus > 0, ranges and lists, x integers and decimals",
 "Tests parse about a dozen fixed rules; and/or nesting, ranges with decimals and category iteration order need generated rules and repetition.",
 ["catalog/cldrplural/evaluation.go","catalog/cldrplural/ast/parser.go","catalog/cldrplural/ast/scanner.go"],
 [("rule parser","catalog/cldrplural/ast/parser.go"),("evaluator","catalog/cldrplural/evaluation.go evaluateNode/evaluateExpression")],
 "cldrplural.ParseRules(...).Evaluate")

p("C08","The plural form depends on the number, not on its Go representation",
 "The same number given as any integer type, a named numeric type, a pointer to one, a float with integral value or its decimal string selects the same plural form or category, whatever its sign (the form of -n is the form of n); integers count exactly up to 2^53, and larger ones still select a form or category that exists. Plural operands of a decimal string are the CLDR operands of exactly the digits written: absolute value, integer digits, visible fraction digits with and without trailing zeros, exponent. Values that are not numbers yield an error, never a panic or an arbitrary form.",
 ["inputs"],"all integers that fit the respective types (including type extremes), decimals up to 15+9 digits, pointers, nil, non-numbers",
 "Tests pass each type once with a small number; large magnitudes, negatives and tiny floats take different conversion paths.",
 ["catalog/cldrplural/cldr.go","catalog/poplural/rule.go","internal/cast/number.go"],
 [("operand conversion","catalog/cldrplural/cldr.go NewOperands"),("number cast","internal/cast/number.go ToNumber/Indirect")],
 "Evaluate / NewOperands / NGet results")

p("C09","Writing a PO file and reading it back preserves its content",
 "For every PO file, encoding it and parsing the result gives the same messages (context, id, plural id, all translation forms), the same header fields and values, and the same comments, references and flags, for every wrap width. Encoding the parsed file again gives the same bytes when wrapping is off. Wrapping may change only where comment lines break. (References without a column; indentation and empty lines of comments, and white space around header values aside.)",
 ["inputs","configurations"],"all PO files with arbitrary Unicode text (quotes, backslashes, control characters, newlines, tabs, non-breaking spaces), any header values, wrap width -1 or 1..200",
 "Tests compare a few fixed outputs; escaping, wrapping and header quoting interact with arbitrary text.",
 ["catalog/po/encoder.go","catalog/po/parser.go","catalog/po/scanner.go","catalog/po/po_string.go","catalog/po/wrap.go"],
 [("encoder","catalog/po/encoder.go"),("parser","catalog/po/parser.go"),("escaping","catalog/po/po_string.go")],
 "po.Parse(po.Encoder output)")

p("C10","PO string literals encode and decode losslessly at any width",
 "For every text and every wrap width, decoding the encoded PO literal gives back the text; every produced line is a complete double-quoted literal on its own. A line is only broken after a newline of the text or at white space, and never inside an escape sequence. Escapes of the gettext format (quote, backslash, a, b, f, n, r, t, v) decode to the characters they denote.",
 ["inputs"],"all valid UTF-8 strings x all wrap widths",
 "Tests use a few ASCII sentences; loss needs particular mixes of white space, newlines, escapes and widths.",
 ["catalog/po/po_string.go"],
 [("encode","catalog/po/po_string.go EncodePoString"),("decode","catalog/po/po_string.go DecodePoString/unescapePoBytes")],
 "po.DecodePoString(po.EncodePoString(s,w))")

p("C11","PO parsing does not depend on layout",
 "The messages obtained from a PO file do not depend on how it is laid out: line endings, indentation and trailing white space, one or many blank lines (or none) between entries, splitting of strings over continuation lines, comments of any kind before entries, obsolete entries, the order of entries and of plural forms. Loading for translation (comments skipped) yields the same translations as full parsing. No entry and no fuzzy flag is ever lost or attached to another message because of layout; two entries with different translations for one message are rejected.",
 ["inputs","configurations"],"all files x all layouts of the same content",
 "Tests use a few hand-written layouts, nearly all as written by msgmerge.",
 ["catalog/po/scanner.go","catalog/po/parser.go","catalog/po_decoder.go"],
 [("line scanner","catalog/po/scanner.go"),("message assembly","catalog/po/parser.go parseMessage"),("comment skipping","catalog/po/parser.go SetIgnoreComments")],
 "po.Parse and catalog.NewPoDecoder results")

p("C12","MO files are read identically in every legal layout, and like the PO source",
 "A binary MO catalog gives the same catalog whatever its byte order, table placement, string placement, padding and hash table, and whichever way it is delivered (bytes, reader, reader returning short reads). Translations, contexts, plural forms and header-driven plural rule equal those obtained from the PO file with the same content.",
 ["inputs","configurations"],"all message sets x byte order x layout permutations x reader behaviours",
 "Tests read a few msgfmt-made little and big endian files; layouts other than msgfmt's and readers with short reads never occur there.",
 ["internal/mo/parser.go","catalog/po_decoder.go"],
 [("mo parser","internal/mo/parser.go"),("catalog build","catalog/po_decoder.go buildGettextCatalog")],
 "catalog.NewMoDecoder Decode/DecodeReader then Lookup")

p("C13","Malformed input is rejected cleanly: no panic, hang or memory blow-up",
 "Whatever bytes are given to the PO, MO and JSON decoders, the plural-forms parser or the CLDR rule parser, the call returns a usable result or an error; it never panics, never loops forever and uses memory in proportion to the size of the input, not to the counts and lengths claimed in it. Using an accepted result (lookups, plural evaluation with any value) does not panic either.",
 ["inputs"],"all byte strings up to some hundred KB, in particular mutated valid files and adversarial sizes, offsets, escapes and nesting",
 "Tests feed a few broken files; crashes live in rare byte combinations.",
 ["catalog/po/parser.go","catalog/po/scanner.go","catalog/po/po_string.go","internal/mo/parser.go","catalog/json.go","catalog/json_decoder.go","catalog/poplural/ast/parser.go","catalog/cldrplural/ast/parser.go","catalog/cldrplural/evaluation.go"],
 [("parsers","see files")],
 "return of Decode/Parse calls")

p("C14","Read failures and truncation never yield a partial catalog",
 "If reading a catalog file fails or ends early at any point (reader error at any byte, unreadable file, MO file cut anywhere before the end of its data), loading reports an error instead of delivering a catalog with missing or corrupted texts. A PO file is either read completely or rejected, however long its lines are. A failing load makes bundle creation fail rather than silently dropping the language.",
 ["fault_sequences","inputs"],"all files x failure at every byte position / truncation at every length x error kinds, line lengths up to megabytes",
 "Tests have no failing readers at all and no truncated files.",
 ["internal/mo/parser.go","catalog/po/scanner.go","catalog/po/parser.go","loader.go","catalog/po_decoder.go"],
 [("mo reads","internal/mo/parser.go read/binaryRead"),("po line reading","catalog/po/scanner.go read"),("file loading","loader.go loadFromFile")],
 "error of Decode/DecodeReader/NewBundle")

p("C15","JSON catalogs survive an encode/decode round trip",
 "Encoding a JSON catalog and decoding the result yields a catalog with the same messages (keys, contexts, comments, categories and texts) and the same lookups, and decoding the same document always gives the same catalog. The output is valid JSON for every text, deterministic, with sorted keys, and re-encoding the decoded catalog gives identical bytes. Encoding changes nothing in the messages given to it.",
 ["inputs"],"all sets of messages with arbitrary Unicode keys, contexts and texts, for all languages",
 "Tests round-trip a few ASCII messages.",
 ["catalog/json.go","catalog/json_encoder.go","catalog/json_decoder.go"],
 [("marshal","catalog/json.go MarshalJSON"),("unmarshal","catalog/json.go UnmarshalJSON")],
 "JSONEncoder.Encode / JSONDecoder.Decode")

p("C16","JSON catalogs serve the category of the language and normalise their forms",
 "In a JSON catalog a plural lookup serves the text of the CLDR category of n for the catalog's language, and a plain lookup the text under 'other'; a key with context is found under the key with the context suffix. A message with plural forms holds exactly the categories of the language (missing ones empty and never served, foreign ones dropped), a message with only 'other' stays as is. A message without 'other', without key or with a key not ending in its context is rejected.",
 ["inputs","configurations"],"all JSON documents of the format x all languages x all n",
 "Tests use a few messages in English/German/Arabic.",
 ["catalog/json.go"],
 [("lookup","catalog/json.go getTranslation"),("category normalisation","catalog/json.go applyCategoriesToJSONMessage"),("validation","catalog/json.go setMessage")],
 "Lookup/LookupPlural/Messages of decoded catalogs")

p("C17","Fuzzy and empty translations are never served from PO files",
 "An entry flagged fuzzy, alone or among other flags and wherever the flag comment stands among the comment lines directly before it, is treated as untranslated, and so is an empty translation or an absent plural form: the lookup reports a missing translation and the fallback text is used. All other entries are served; a flag never affects a neighbouring entry, and other flags do not hide a translation.",
 ["inputs"],"all PO files with any flag lists, positions and empty/partial plural forms",
 "Tests have one or two fuzzy entries with the flag alone.",
 ["catalog/po_decoder.go","catalog/po/parser.go","catalog/po.go"],
 [("fuzzy skip","catalog/po_decoder.go buildGettextCatalog"),("flag parsing","catalog/po/parser.go parseComment"),("empty check","catalog/po.go getMessage")],
 "Lookup results of the decoded catalog")

p("C18","Bundle creation loads exactly what was asked for and reports what is missing",
 "A bundle supports exactly the languages for which at least one domain catalog was found (plus the source language), and lists exactly the domains found in some language. An optional language without catalogs is skipped and reported to the missing callback; a required language or fallback language missing any catalog makes creation fail, as does any load error other than 'not found', an invalid language, a nil option, loader, printer, file system or matcher, and a duplicate domain. Creation never fails for other reasons and a bundle without options always works.",
 ["configurations","fault_sequences"],"all option lists x which (language, domain) catalogs exist, are missing or fail",
 "Tests try single options one by one; the outcome depends on combinations of languages, domains and failures.",
 ["bundle.go"],
 [("creation","bundle.go NewBundle/preloadLanguages/createLocale"),("options","bundle.go With*")],
 "NewBundle error, SupportedLanguages, Domains, CanLocalize, callback calls")

p("C19","The file loader picks the first existing file in its documented order",
 "For each decoder in order of registration (default po, mo, json) and each name of the language from most to least specific, the loader opens the first existing candidate in the order locale/category/domain, then (unless extended search is disabled) locale/LC_MESSAGES/domain, locale/domain, domain/locale, locale, category/locale, LC_MESSAGES/locale, each with the decoder's extension. That file and no other is decoded, with that decoder. If no candidate exists a 'not found' error is returned, and errors while opening, reading or decoding the found file are passed on.",
 ["configurations","inputs"],"all subsets of candidate files present x languages x domains (also empty) x categories x decoder orders",
 "Tests put one file in place at a time; precedence only shows when several candidates coexist.",
 ["loader.go","utils.go"],
 [("resolver","loader.go Resolve/searchFileForLanguageName"),("decoder order","loader.go Load")],
 "which file content is served; error type")

p("C20","Language name expansion is complete, ordered and unambiguous",
 "For every language tag the list of candidate names contains the tag itself, its base language (two- and three-letter form), and base with region and with script joined by both hyphen and underscore. The list has no duplicates, is ordered from longest to shortest with ties in alphabetical order, and depends only on the tag.",
 ["inputs"],"all language tags (base, script, region, variants, extensions, private use)",
 "Tests check a handful of tags.",
 ["utils.go"],[("expansion","utils.go ExpandLanguage")],"spreak.ExpandLanguage")

p("C21","Loaded data is isolated from callers",
 "Nothing a caller does with values obtained from the library or handed to it (returned message maps and clones, returned domain and language lists, message structs passed to JSON catalogs, byte buffers given to decoders, argument slices, category lists) changes any later result of a catalog, bundle or localizer. Copies returned for inspection contain exactly the served messages.",
 ["histories","inputs"],"all interleavings of inspecting, mutating and looking up",
 "Tests never mutate what they get back.",
 ["catalog/po.go","catalog/json.go","bundle.go","localizer.go"],
 [("deep copies","catalog/po.go Messages/Clone; catalog/json.go Messages/Clone"),("list copies","bundle.go Domains/SupportedLanguages")],
 "lookups before and after mutation")

p("C22","A bundle can be shared between goroutines",
 "A created bundle, its localizers, catalogs and humanizers can be used from any number of goroutines at once: there is no data race and every call returns what it would return alone. This includes creating localizers, plural evaluation, formatting and inspecting messages.",
 ["schedules","histories"],"all mixes of read operations on shared objects by several goroutines",
 "Tests are sequential and not run with the race detector over shared bundles.",
 ["bundle.go","localizer.go","locale.go","utils.go","catalog/po.go","catalog/json.go","humanize/humanizer.go"],
 [("immutability after creation","bundle.go"),("print functions","utils.go")],
 "results and race detector reports")

p("C23","PO output is deterministic",
 "Encoding a PO file gives the same bytes every time and independently of the order in which messages, references (AddReference), flags (AddFlag) and header fields were added or merged, unless a caller-supplied order says otherwise. With the default order messages are sorted by their references, then context and id, and every message is written exactly once. Encoding does not change the meaning of the file given to it.",
 ["inputs","histories"],"all files x insertion orders x repetitions x encoder options",
 "Tests encode one or two messages once; map iteration order effects need repetition and ties.",
 ["catalog/po/encoder.go","catalog/po/comment.go"],
 [("message order","catalog/po/encoder.go encode/DefaultSortFunction"),("header order","catalog/po/encoder.go encodeHeader")],
 "bytes written by po.Encoder")

p("C24","Merging and editing PO data follows set semantics",
 "Adding a message whose context and id already exist keeps the stored one and merges into it the other's flags, references and comment lines without duplicates and without losing any, and takes over its plural id if the stored one has none; merging the same message twice changes nothing more, and the merged set does not depend on the order of additions. Messages with an empty id are ignored, and retrieval by context and id finds exactly what was added. Header fields behave as a map with case-insensitive names in which the last value set wins.",
 ["histories","inputs"],"all sequences of additions, merges, flag/reference additions, header sets and gets",
 "Tests merge one pair of messages.",
 ["catalog/po/file.go","catalog/po/message.go","catalog/po/comment.go"],
 [("merge","catalog/po/comment.go Merge; catalog/po/message.go Merge"),("header","catalog/po/file.go Set/Get")],
 "po.File/Messages/Comment/Header methods")

p("C25","Humanised numbers are correct and total",
 "For every numeric input of any type and magnitude (including negatives, huge values, NaN and infinities) the number helpers return a text without panicking: numbers are taken as float64; thousands separators keep the value to six decimals, and ordinals, number words and file sizes drop the fraction; small numbers become words only for one to nine, ordinals carry the suffix required by the number (11-13 special), file sizes use the largest fitting binary unit with one decimal, and large-number words scale by the right power of ten. Non-numeric input gives an error-marked text naming the value. The sign of the input is kept.",
 ["inputs"],"all numeric values of all supported types and strings, non-numbers, in English (reference) and every other shipped language (no panic, no formatting error)",
 "Tests are tables of typical values.",
 ["humanize/numbers.go","humanize/helper.go"],
 [("helpers","humanize/numbers.go; humanize/helper.go FilesizeFormat")],
 "Humanizer.Intcomma/Intword/Apnumber/Ordinal/FilesizeFormat")

p("C26","Elapsed-time texts are the correct decomposition into units",
 "The elapsed-time helpers decompose the whole seconds between two instants, less the leap days between their calendar years in UTC (as Django does), into years (365 days), months (30 days), weeks, days, hours and minutes: starting at the largest unit that fits, each count is the integer quotient (all but 0.0005 of a further unit counts as that unit), units are adjacent unless the adjacency check is off, and at most the requested depth (default two) is shown; less than a minute or a wrong direction gives '0 minutes'. Time until is time since with the instants exchanged, and time zones do not matter.",
 ["inputs","configurations"],"all pairs of instants (years 1 to 9999, any zone, sub-second parts), depths and adjacency settings",
 "Tests are tables around round values; quotients just below a unit boundary are not covered.",
 ["humanize/date.go","internal/calendar/calendar.go"],
 [("timesince","humanize/date.go TimeSince"),("division","humanize/helper.go floorDivision")],
 "Humanizer.TimeSince/TimeSinceFrom/TimeUntil/TimeUntilFrom")

p("C27","Date format strings render as documented",
 "Formatting a time with a Django format string replaces every format letter by its documented value for that time (12/24-hour clock, day and month numbers and names, ISO week and year, zone name and offset, leap year, day of year, days in month, ordinal suffix, microseconds, epoch seconds; the letter L gives true or false and T the local zone name), writes a backslash-escaped character literally and copies everything else unchanged. The named formats use the format of the humanizer's language, or the documented defaults.",
 ["inputs","configurations"],"all times (years 1 to 9999, zones with and without daylight saving) x all format strings",
 "Tests format a few fixed dates.",
 ["humanize/dateformat.go","humanize/dates.go","humanize/humanizer.go","internal/calendar/calendar.go"],
 [("formatter","humanize/dateformat.go format")],
 "Humanizer.FormatTime")

p("C28","Natural day and natural time classify instants correctly",
 "An instant on the current, next or previous calendar day of its own time zone is rendered as today, tomorrow or yesterday and any other day with the date format, also across daylight-saving changes. The relative-time text gives 'now', or the number of whole seconds (below a minute), whole minutes (below an hour), whole hours (below a day) in the past or future (future instants rounded to the nearest second), and beyond that the elapsed-time text; a count of zero is never shown.",
 ["inputs","configurations"],"all offsets from now around every unit boundary, past and future, in all zones including ones whose clocks change around now",
 "Tests use a few offsets and fixed zones; boundaries and clock changes near 'now' are not reached.",
 ["humanize/date.go"],
 [("NaturalDay","humanize/date.go"),("NaturalTime","humanize/date.go")],
 "Humanizer.NaturalDay/NaturalTime")

p("C29","Humanised output is well-formed in every shipped language",
 "In every language shipped with the humanize package, every helper applied to any valid input gives a non-empty text that contains the number or names it is about and no formatting-error marker or unreplaced placeholder. Different months, week days, small number words and dates in a named format have different texts (abbreviations of one letter aside). Languages are found through the usual language negotiation, and the texts are those of that language's catalog with its plural form.",
 ["inputs","configurations"],"all shipped languages x all helpers x all inputs",
 "Tests exercise mainly German and English; a broken template or plural rule of one of 90 locales shows only for particular numbers.",
 ["humanize/humanizer.go","humanize/locale.go","humanize/locale","humanize/numbers.go","humanize/date.go","humanize/dateformat.go"],
 [("locale catalogs","humanize/locale/*"),("loader","humanize/locale.go")],
 "all Humanizer methods for all locales")

p("C30","Localising an error keeps the error",
 "Localising an error yields nil for nil, the same error if the localizer's own language has no translation, and otherwise an error whose text is the translation and which unwraps to the original, so that identity and type checks on the chain still succeed. Plain errors are looked up by their text in the configured error context of the default domain; localizable errors by their own message, plural, context and domain.",
 ["inputs","configurations"],"all error chains, messages, contexts, with and without translations",
 "Tests localise two fixed errors.",
 ["localizer.go","localize/error.go"],
 [("LocalizeError","localizer.go"),("wrapper","localize")],
 "LocalizeError result, errors.Is/As")

p("C31","Missing texts are reported exactly, with what is missing",
 "The missing-translation callback is invoked for every step of a lookup that fails and never for one that succeeds, nor for the source language; it receives an error whose type tells whether the domain, context, message or plural form is missing and whose fields name the language, domain, context and message id concerned. The error returned with a localizable message (looked up with a number, if plural) agrees with the first one reported.",
 ["inputs","configurations"],"all bundles and lookups with any part missing, all catalog formats",
 "Tests check that a callback happens, not its contents for every kind and format.",
 ["locale.go","catalog/catalog.go","catalog/po.go","catalog/json.go","catalog/po_decoder.go"],
 [("callbacks","locale.go"),("typed errors","catalog/catalog.go")],
 "callback arguments, LocalizeWithError error")

p("C32","Built-in gettext plural rules match their published formulas",
 "For every language with a built-in gettext plural rule, the form selected for every integer is the value of that language's published formula and is smaller than its number of forms. Variants resolve to their own rule if there is one and otherwise to the base language, unknown languages to the English rule. The same formula written in a catalog header gives the same forms.",
 ["inputs"],"all built-in languages and tags derived from them x all integers",
 "Generated tests compare the rules on small ranges only.",
 ["catalog/poplural/builtin_gen.go","catalog/poplural/builtin.go","catalog/poplural/rule.go"],
 [("rules","catalog/poplural/builtin_gen.go"),("resolution","catalog/poplural/builtin.go")],
 "poplural.ForLanguage(lang), poplural.Parse")

p("C33","PO/MO catalogs choose the plural rule by header and decoder as documented",
 "A PO or MO catalog uses the Plural-Forms formula of its header; if there is none, or the header asks for CLDR rules (value 'true' in any case) or the CLDR decoder is used, it uses the CLDR rules of the catalog's language, with form i denoting the i-th category of that language. For a language without CLDR rules the header's formula is used even then, and without a formula the English rules. An unparsable formula makes loading fail, unless CLDR rules are used, and header names are matched regardless of case and order.",
 ["inputs","configurations"],"all header combinations x four decoders x languages x n",
 "Tests cover each switch once, with one language.",
 ["catalog/po_decoder.go","catalog/po/file.go"],
 [("rule choice","catalog/po_decoder.go buildGettextCatalog"),("category to form","catalog/po_decoder.go getCLDRPluralFunction")],
 "LookupPlural of decoded catalogs")

p("C34","A failed write is reported and never leaves the encoder claiming success",
 "If the writer given to the PO or JSON encoder fails at any byte, Encode returns an error that wraps the writer's, and what was written up to then is a prefix of the document. Encode returns nil exactly if no write failed, and then the writer received the complete document. A failed write does not spoil the encoder: encoding again to a working writer gives the complete document.",
 ["inputs","fault_sequences"],"all PO files and JSON catalogs x all positions and kinds of write failures",
 "Tests encode to memory only; a swallowed write error silently truncates a translation file on a full disk.",
 ["catalog/po/encoder.go","catalog/json_encoder.go","catalog/json.go"],
 [("PO encoder","catalog/po/encoder.go Encode"),("JSON encoder","catalog/json_encoder.go Encode")],
 "Encode result and bytes received by the writer")

p("C35","A humanizer collection serves the given locales with their own texts and formats",
 "A humanizer collection supports exactly the locales given to it whose catalog exists, preferring them in the order given, and serves each with the texts, plural rule and formats of its own data; missing texts come from the fallback language, then English, and formats that are not set have the documented defaults. A catalog that cannot be read or parsed makes creation fail, and bundle options passed on are in effect. The data given is left unchanged, can be used for several collections at once, and changing it afterwards changes no humanizer.",
 ["inputs","configurations"],"all sets of locale data (with complete, partial, missing, broken catalogs and formats) x options x requests",
 "Tests create collections from a few shipped locales, with complete catalogs and formats.",
 ["humanize/humanizer.go","humanize/locale.go"],
 [("collection","humanize/humanizer.go New/CreateHumanizer"),("loader","humanize/locale.go Load")],
 "humanize.New, Humanizer methods")

p("C36","Results do not depend on what was done before",
 "Parsers, encoders, decoders, rules, catalogs, bundles, localizers and humanizers give the same result for the same input, whatever they or any other object of the package were used for before: after a failed parse or write, with other files, languages, options or numbers, and in any order of the calls. What they returned earlier stays as it was. Two processes that make the same calls in different orders get the same results.",
 ["histories","inputs"],"all sequences of uses of all objects, failing uses included, in all orders",
 "Tests create fresh objects for nearly every call; a leftover flag, reused buffer or cache with too small a key only shows for particular sequences.",
 ["catalog/po/parser.go","catalog/po/encoder.go","catalog/po_decoder.go","catalog/cldrplural/cldr.go","locale.go","humanize/humanizer.go"],
 [("parser state","catalog/po/parser.go reset"),("encoder state","catalog/po/encoder.go Encode"),("tables","catalog/cldrplural ForLanguage")],
 "results of every call in every order")

p("C37","Trees, canonical text and generated code of plural rules mean what they say",
 "Everything derived from the text of a plural rule has the meaning of the text. The tree that poplural/ast.Parse returns, evaluated node by node with C semantics, gives the value of the expression; CompileToString writes a header with the same number of forms and the same meaning, which does not depend on blanks. The tree of cldrplural/ast.Parse contains exactly the relations of the rule, its samples are the listed ones with ranges expanded (only the two ends of a range of more than 1000 values), and Walk and Inspect visit every node once, parents first, not descending where told. For a table of languages and rules, the generators of the built-in rules write Go code that compiles and gives every language the categories, number of forms and plural forms its rules say, the same code on every run.",
 ["inputs","configurations"],"all plural expressions and rules in all spellings, all tables of languages and rules of the published shape, all numbers",
 "Tests compare a few trees and texts; the generators are run by hand and have no tests, a wrong translation of a rule shape the current table does not contain goes unnoticed until the table is updated.",
 ["catalog/poplural/ast/compile.go","catalog/poplural/ast/parser.go","catalog/cldrplural/ast/parser.go","catalog/cldrplural/ast/walk.go","catalog/cldrplural/generator","catalog/poplural/generator"],
 [("canonical text","catalog/poplural/ast/compile.go"),("CLDR tree","catalog/cldrplural/ast/parser.go"),("generators","catalog/cldrplural/generator/compiler.go")],
 "exported trees, CompileToString, generated built-in tables")

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
