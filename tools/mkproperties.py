#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, pathlib

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    })


VAR = "variantlib/models/variant.py"
INFO = "variantlib/models/variant_info.py"
PROV = "variantlib/models/provider.py"
CONST = "variantlib/constants.py"
API = "variantlib/api.py"
VJ = "variantlib/variants_json.py"
VD = "variantlib/variant_dist_info.py"
PP = "variantlib/pyproject_toml.py"
FIL = "variantlib/resolver/filtering.py"
SOR = "variantlib/resolver/sorting.py"
LIB = "variantlib/resolver/lib.py"
LOAD = "variantlib/plugins/loader.py"
SUB = "variantlib/plugins/_subprocess.py"
CONF = "variantlib/configuration.py"
MCONF = "variantlib/models/configuration.py"
UTIL = "variantlib/utils.py"
VB = "variantlib/validators/base.py"
KT = "variantlib/validators/keytracking.py"
C = "variantlib/commands/"

prop("V01", "A variant's identity is a pure function of its set of properties",
     "The hash of a variant depends only on its set of properties, never on the order or form in which they were supplied: it is the first 8 hexadecimal digits of the SHA-256 of the sorted `namespace :: feature :: value` lines, each ended by a newline. It is the same in every process, whatever the interpreter's hash seed, and two variant descriptions compare equal exactly when their property sets are equal. The default label of a variant is that hash, or `null` for the variant without properties.",
     ["inputs", "configurations"], "Every set of properties, every order of supplying them, every construction route (objects, list form, dictionary form, command line), every hash seed.",
     "Tests compare a handful of fixed descriptions (and a few hypothesis ones) inside one process; they never vary hash seeds or processes, and adjacent-concatenation or ordering mistakes only show on particular sets.",
     [VAR, C + "get_variant_hash.py", API],
     [("sorted properties, newline-terminated lines, truncated sha256", VAR + ":VariantDescription"), ("default label", API + ":get_variant_label")],
     ["VariantDescription.hexdigest", "variantlib get-variant-hash", "get_variant_label()"])

prop("V02", "Text, list and dictionary forms of variants are read back losslessly",
     "Writing a variant feature, property or description in any of its text, list-of-mappings or nested-dictionary forms and reading that form back yields an equal object. Reading the text form accepts arbitrary surrounding whitespace and whitespace around the `::` separators, and rejects every string that is not exactly such a sequence of valid components with a validation error. The dictionary form groups values by namespace and feature and loses or invents none of them.",
     ["inputs"], "Every valid feature, property and description (including many values per feature, maximal and one-character names), and every string offered to the text reader.",
     "Tests read a few hand-written strings; the lossless and exactly-these-strings claims range over all objects and all strings.",
     [VAR, CONST],
     [("regular expressions and fullmatch", CONST), ("to_str/from_str, serialize/deserialize, to_dict/from_dict", VAR)],
     ["VariantFeature/VariantProperty/VariantDescription public methods"])

prop("V03", "Model objects can be built exactly from well-formed data",
     "A variant feature, property, description, feature configuration, provider configuration or user configuration can be constructed if and only if its components have exactly the documented types and grammar: namespaces and feature names match `[a-z0-9_]+`, values match `[a-z0-9_.]+`, properties within a description are unique, a feature configuration has one or more unique values, a provider configuration has one or more features with unique names, and a user configuration has well-formed namespaces. Anything else raises a validation error and yields no object. Objects that were built expose the data they were given (descriptions expose their properties sorted).",
     ["inputs"], "Every value, of any type, offered as any component of any of the model classes.",
     "Tests offer a dozen malformed values per class; the accept-iff-well-formed claim covers every type and every string (newlines, unicode digits and letters, empty strings, subclasses).",
     [VAR, PROV, MCONF, VB, "variantlib/validators/combining.py", "variantlib/models/base.py"],
     [("per-field validators run after construction", "variantlib/models/base.py"), ("validate_type / validate_matches_re / validate_list_*", VB)],
     ["constructors of the public model classes"])

prop("V04", "Metadata documents are accepted exactly when well-formed",
     "Reading variant metadata from an index document, a wheel's metadata document or a pyproject table succeeds exactly when the document satisfies the specification: only known keys within its sections, with the right types and grammar, namespace priorities naming exactly the declared providers, requirements present for install-time providers, static properties present for exactly the providers whose properties must be recorded ahead of time, feature priorities covering every feature of such a provider with several features, the `null` label used exactly for the variant without properties, and for a wheel's document exactly one variant carrying the expected label. Any other document is rejected with a validation error. An accepted document is read faithfully: every priority, provider setting, static property and variant in it appears in the result, absent settings take their documented defaults, and nothing else appears.",
     ["inputs"], "Every JSON/TOML-shaped document: all combinations of sections and settings, and every single- or multi-point corruption of a valid document.",
     "Tests corrupt one key at a time in two fixed documents; the interplay of sections (providers, priorities, static properties, labels) is combinatorial.",
     [INFO, VJ, VD, PP, KT],
     [("key-tracking validation of nested keys", KT), ("common sections and cross-section rules", INFO), ("variants and labels", VJ), ("single variant and expected label", VD)],
     ["VariantsJson(...)", "VariantDistInfo(...)", "VariantPyProjectToml(...)"])

prop("V05", "Metadata written out is read back unchanged, and conversions share no state",
     "Serialising variant metadata to its JSON form and reading it back yields equal metadata: every priority list, provider setting, static property and variant, in the same order where order matters. Serialising equal metadata yields identical text. Converting between the three kinds of metadata copies all common data, and later changes to either side never show in the other.",
     ["inputs", "histories"], "Every valid metadata object, every chain of conversions and subsequent modifications of any part of any of the copies.",
     "Tests round-trip two example files; a setting that is dropped only when it has a particular non-default combination, or a nested list shared between copies, needs the right object and a later modification.",
     [VJ, VD, PP, INFO],
     [("JSON writer", VJ + ":VariantsJson.to_str"), ("deep copy of common data", INFO + ":VariantInfo.copy_as_kwargs")],
     ["to_str()", "constructors taking other metadata objects"])

prop("V06", "Merging variant metadata is all-or-nothing and never hides a conflict",
     "Merging another wheel's metadata into an index either succeeds, after which the index holds exactly the union of the variants and the same shared settings as before, or raises a validation error, after which the index is exactly as it was. It fails whenever priorities, providers or static properties differ, or a label would come to mean two different sets of properties. Merging metadata already present changes nothing, the result does not depend on the order of merges, and the metadata merged in is never modified nor shares state with the index.",
     ["histories", "inputs"], "Every sequence of merges of consistent and conflicting metadata, in every order, with repetitions and failures in between.",
     "Tests merge two wheels once and check one conflict at a time; state after a failed merge, order independence and repeated merges are never examined.",
     [VJ], [("consistency checks and union of variants", VJ + ":VariantsJson.merge")],
     ["VariantsJson.merge()"],
     [("variants", "label to description mapping of the index", VJ)])

prop("V07", "Library calls never modify the caller's arguments",
     "No resolution, filtering, sorting, validation, labelling, metadata-building or priority-aggregation call modifies any list, dictionary or object passed to it, whether it returns or raises. What such a call returns can be modified by the caller without changing the inputs, the loaded configuration or the result of any later call.",
     ["inputs", "histories"], "Every public library call with any arguments, followed by any further calls and modifications of the results.",
     "Tests compare return values only; a mutated argument is invisible until the caller's next call.",
     [LIB, SOR, FIL, UTIL, API], [("copies before in-place work", LIB + ":sort_and_filter_supported_variants"), ("fresh result containers", UTIL)],
     ["arguments and results of the public functions before and after each call"])

prop("V08", "Variant filtering keeps exactly the supported, not-forbidden variants",
     "A variant survives filtering if and only if none of its namespaces and features is forbidden and, for every feature it mentions, at least one of its values is supported and not forbidden. Surviving variants appear once each in their original order, whatever the order or repetition of the supported properties and of the variants. The variant without properties always survives, and selection offers it even when it is not listed.",
     ["inputs"], "Every list of variants, supported properties and forbidden namespaces, features and properties, including unknown and duplicated ones.",
     "Tests use one fixed description list per filter; interactions (multi-value features partly supported and partly forbidden, equal names in different namespaces) are combinatorial.",
     [FIL, LIB], [("chain of filters", LIB + ":filter_variants"), ("one supported value per feature", FIL + ":filter_variants_by_property")],
     ["filter_variants()", "filter_variants_by_*()", "remove_duplicates()", "sort_and_filter_supported_variants()"])

prop("V09", "Variant ranking follows the priority order exactly",
     "Supported properties are ordered by namespace priority, then feature priority, then value priority, items without an explicit priority following those with one in the order the provider gave them, all values of a feature staying together. A variant precedes another exactly when, at the first feature in that order on which their best supported values differ, it has the better one (any value beats none), so the variant without properties comes last. Variants not so distinguished keep their listed order, the order of two variants never depends on the presence of others, and a supported namespace without a priority is an error.",
     ["inputs"], "Every set of variants, supported properties and (partial, redundant, unknown-naming) priority settings.",
     "Tests rank small hand-picked sets; lexicographic ranking over three partial priority levels with ties has too many shapes to sample by hand.",
     [SOR, LIB], [("three-level ordering of properties", SOR + ":sort_variant_properties"), ("rank tuples", SOR + ":sort_variants_descriptions")],
     ["sort_variant_properties()", "sort_variants_descriptions()", "sort_and_filter_supported_variants()"])

prop("V10", "User priorities override package priorities; aggregation loses nothing",
     "Aggregating (duplicate-free) priority settings yields every item of every given setting exactly once, items of an earlier setting before those only found in later ones and in their given order; absent settings change nothing. In variant selection the user's configuration takes precedence over the package's defaults, which take precedence over the provider's order, at the namespace, feature and value level independently. Items the user's configuration does not mention keep the order they would have had without it.",
     ["inputs", "configurations"], "Every combination of user configuration, package default priorities and provider order at all three levels.",
     "Tests aggregate a few literal lists and resolve with one configuration; precedence at each level under partial and disjoint settings is combinatorial.",
     [UTIL, API, CONF], [("order-preserving union", UTIL), ("user before package settings", API + ":get_variants_by_priority")],
     ["aggregate_*_priorities()", "get_variants_by_priority() under a configuration file"])

prop("V11", "Selection returns exactly the installable variants, best first",
     "Selecting variants for an index returns the labels of exactly those variants every feature of which has a value supported by its provider (as reported by the enabled plugin, or by the recorded static properties when no plugin is consulted), best first according to the aggregated priorities, and always ends with the `null` label. The same index, plugins, configuration and environment always give the same list, in any process and after any earlier calls, whether the index is passed parsed or unparsed, and in whatever order it lists variants as far as the priorities distinguish them. Adding to the index a variant with a new set of properties, or removing one, never changes the relative order of the others.",
     ["inputs", "configurations", "histories"], "Every index document, set of plugins (installed, disabled, optional, ahead-of-time), configuration, and history of earlier selections in the same process.",
     "Tests select from two example files with three mocked plugins; the end-to-end composition (plugins, static properties, configuration, filtering, ranking, label mapping) is never checked against an independent statement of the answer.",
     [API, LOAD, LIB], [("selection pipeline", API + ":get_variants_by_priority")],
     ["get_variants_by_priority()"])

prop("V12", "ABI dependencies reflect the installed packages and overrides",
     "For every package installed in the running environment, exactly the properties `abi_dependency :: <normalised name> :: <major>`, `<major>.<minor>` and `<major>.<minor>.<micro>` are considered supported, for the version that would be imported, after overriding or extending with the name==version items of the VARIANT_ABI_DEPENDENCY environment variable. Unless given explicit priorities, the namespace ranks after all others, its features by name, and coarser versions first. Malformed items of the variable and installed packages with unusable names or versions are ignored without affecting anything else, and resolution never fails because of them.",
     ["inputs", "configurations"], "Every set of installed distributions (including shadowed, broken and oddly named ones) and every value of the environment variable.",
     "Tests mock two well-formed distributions and one malformed item; a real environment contains anything.",
     [LIB], [("injection of abi_dependency properties", LIB + ":inject_abi_dependency")],
     ["inject_abi_dependency()", "get_variants_by_priority() with fake distributions on sys.path"])

prop("V13", "Checking one variant agrees with selecting from an index",
     "Checking whether a single variant is supported answers yes exactly when selection, under the same providers, options and environment, would return that variant. Passing the description explicitly or having it inferred from single-variant metadata gives the same answer, and metadata that does not describe exactly one variant is refused. The variant without properties is always supported.",
     ["inputs", "configurations"], "Every variant, provider set, optional-plugin selection and environment (including abi_dependency properties).",
     "Tests check three variants against one mocked plugin set and never compare the two entry points.",
     [API, LIB, LOAD], [("shared filtering", LIB + ":filter_variants"), ("supported check", API + ":check_variant_supported")],
     ["check_variant_supported()", "get_variants_by_priority()"])

prop("V14", "Labels and environment markers describe the variant truthfully",
     "A label is granted exactly as follows: without a custom label it is `null` for the variant without properties and otherwise the hash; a custom label is accepted unchanged if and only if it is 1 to 16 characters of `[0-9a-z._]` and is `null` exactly when the variant has no properties, and is refused with a validation error otherwise. The environment mapping for dependency markers contains exactly the namespaces, features and properties of the variant in canonical text form, plus the label if one was given. Markers evaluated against that mapping are true exactly for members of the variant.",
     ["inputs"], "Every variant description and every label string (any length, any characters).",
     "Tests try six labels and one description.",
     [API, CONST], [("label validation", API + ":get_variant_label"), ("environment mapping", API + ":get_variant_environment_dict")],
     ["get_variant_label()", "get_variant_environment_dict()"])

prop("V15", "Only enabled providers' plugin code ever runs",
     "During any library operation, the plugin of a provider is imported and run if and only if the provider is enabled for that operation: it is selected by the namespace restriction of the operation, is not an optional provider left disabled, its environment marker (if any) holds, and it is install-time or the operation queries ahead-of-time plugins and it has requirements. Disabled providers contribute no plugin-reported properties, and recorded static properties are used exactly for namespaces whose plugin is not consulted. Plugins are found by their explicit plugin-api reference or else by the name of their first requirement.",
     ["configurations", "inputs"], "Every combination of provider settings (optional, marker, install-time, requirements, plugin reference), operation, option and namespace restriction.",
     "Tests toggle one setting at a time and look at returned namespaces, not at which plugin code ran.",
     [LOAD, INFO, API], [("enabling policy", LOAD + ":PluginLoader._plugin_enabled"), ("object reference", INFO + ":ProviderInfo.object_reference")],
     ["event logs written by the plugins themselves", "PluginLoader.namespaces and configs", "validate_variant()", "get_variants_by_priority()", "make_variant_dist_info()"])

prop("V16", "Plugin code runs isolated and its failures are contained",
     "Plugin code is never imported or executed in the calling process; it runs in a separate process of the requested interpreter, which need not have this library installed, and the modules it imports are those of that interpreter's environment: files of the current directory never replace or add any. A plugin that fails, in whatever way (import error, exception, wrong types, abnormal exit, output on standard output, missing attributes), can at worst make the operation raise a plugin error (or a validation error if it returned ill-formed data), or is ignored where harmless, and never yields wrong data, corrupts the caller's state or prevents later operations with other plugins. Every query removes its temporary files and leaves no process behind, whether it succeeds or fails.",
     ["fault_sequences", "configurations"], "Every kind of plugin misbehaviour at every stage (import, attribute lookup, namespace, each query), every interpreter, and every sequence of failing and healthy operations.",
     "Tests exercise a few wrong return types; crashes, noise on standard output, residue on disk, and recovery afterwards are not exercised.",
     [LOAD, SUB, VB, "variantlib/protocols.py"], [("subprocess per query with standalone helper modules", LOAD + ":_run_call_subprocess"), ("plugin protocol checks", SUB)],
     ["audit events in the calling process", "plugin event logs (pid, interpreter)", "temporary directory before and after", "PluginError"])

prop("V17", "Plugin answers are relayed faithfully and invalid ones rejected",
     "The configurations reported for a provider are exactly what its plugin returned: the same features in the same order with the same values in the same order and the same multi-value flag, filed under the namespace the plugin declares. Answers violating the grammar or uniqueness rules, empty answers to the query for all configurations, two plugins declaring one namespace, and a plugin declaring a namespace other than the one its provider is listed under are refused with an error; an empty list of supported configurations just omits the provider. Loading fails if any of the listed plugin references is malformed or cannot be resolved.",
     ["inputs", "configurations"], "Every plugin implementation style (module, class, instance, static, class and instance methods) and every returned value.",
     "Tests relay three fixed plugins.",
     [LOAD, SUB, PROV], [("JSON relay and reconstruction", LOAD + ":_get_configs"), ("namespace map", LOAD + ":_load_all_plugins_from_tuple")],
     ["get_all_configs()", "get_supported_configs()", "namespaces", "plugin_api_values"])

prop("V18", "Remembered plugin answers are never served to a different question",
     "An answer obtained from plugins is reused only for the same question: the same interpreter, the same plugins in the same order, the same query and the same options. Whatever earlier queries were made in the process, each query returns what a fresh process would have returned for it, as long as plugins are deterministic. Failed queries are not remembered, and a caller modifying an answer does not affect later answers.",
     ["histories"], "Every sequence of queries over several interpreters, plugin lists, query kinds and options in one process.",
     "Tests clear the memory between test cases, and never interleave questions.",
     [LOAD], [("result memory", LOAD + ":VARIANT_PROVIDER_CACHE_TABLE"), ("key derivation", LOAD + ":BasePluginLoader._call_subprocess")],
     ["loader queries in interleaved order vs fresh processes"],
     [("VARIANT_PROVIDER_CACHE_TABLE", "answers remembered per question", LOAD)])

prop("V19", "Plugin loaders follow their life cycle under every sequence of calls",
     "A plugin loader answers queries exactly while it is entered: before entering, after leaving and after a failed entry every query raises the no-plugin error; entering twice and leaving without having entered raise an error. After leaving, or after a failed entry once the cause is gone, it can be entered again and behaves like a new one. Within one entry repeated queries give equal answers and the set of namespaces does not change.",
     ["histories", "fault_sequences"], "Every sequence of enter, leave and query calls, with entry failing at any point.",
     "Tests check a few two-step sequences, none after a failed entry.",
     [LOAD], [("namespace map as state", LOAD + ":BasePluginLoader.__enter__")],
     ["loader method calls and outcomes"],
     [("_namespace_map", "None outside the context, mapping inside", LOAD)])

prop("V20", "Variant validation verdicts are exact",
     "Validating a variant reports, for each of its properties, exactly one of: valid (the consulted provider lists the value for that feature), invalid (the provider is known but does not list it), or unknown (no consulted provider for that namespace). A feature for which the provider allows a single value is reported as a violation exactly when the variant gives it more than one. The overall verdict is negative exactly if there is an invalid property or a violation, or an unknown property when those are not tolerated.",
     ["inputs", "configurations"], "Every variant and every set of providers with plugin or static properties.",
     "Tests validate a few descriptions against one mocked plugin set.",
     [API, VAR], [("tri-state results", API + ":validate_variant"), ("verdict", VAR + ":VariantValidationResult.is_valid")],
     ["validate_variant()", "VariantValidationResult"])

prop("V21", "Wheel variant metadata is complete and self-consistent",
     "The metadata document built for a wheel describes exactly the given variant under its label together with all shared settings, and is accepted when read back. For ahead-of-time providers used by the variant it records the features and values their plugins currently support, and adds the priorities this requires without disturbing the existing ones; nothing else is changed. A property such a plugin does not support, a multi-value feature of such a plugin, or a plugin not declared ahead-of-time safe is refused with an error, never silently recorded.",
     ["inputs", "configurations"], "Every variant, set of shared settings, label, and set of plugins.",
     "Tests build documents for one variant; recorded properties under many provider settings, and readability of every produced document, are not examined.",
     [API, VD, VJ], [("document building", API + ":make_variant_dist_info")],
     ["make_variant_dist_info()", "VariantDistInfo()"])

prop("V22", "Making a variant wheel changes only what it must",
     "A variant wheel is named as the original plus its label, and contains exactly the original's files, byte for byte, in the same order and with the same member metadata, except that its variant metadata document is added (replacing any existing one) and its RECORD lists exactly the original entries plus a correct entry (hash and size) for that document. This holds for every legal wheel, whatever its file names, sizes, line endings or RECORD quoting. Properties which the providers reject, do not know, or allow only once are refused, unless validation was explicitly skipped, as are invalid labels and file names, and then no wheel is written.",
     ["inputs"], "Every wheel content (names with commas, quotes, unicode; missing final newline; existing metadata; stored/compressed members) and every set of properties and options.",
     "Tests convert one small wheel.",
     [C + "make_variant.py"], [("copy of members and RECORD rewrite", C + "make_variant.py:_make_variant")],
     ["make-variant command and the archive it writes"])

prop("V23", "Unmaking a variant wheel restores the original",
     "Unmaking a variant wheel yields a wheel with the original's name and exactly the original's contents: same files, bytes, order and RECORD entries, without the variant metadata document. Making a variant from a variant wheel replaces its description and label, keeping exactly one metadata document and one RECORD entry for it. Unmaking a wheel that is not a variant writes nothing.",
     ["inputs", "histories"], "Every wheel and every sequence of make, re-make and unmake steps.",
     "Tests unmake one wheel once.",
     [C + "unmake_variant.py", C + "make_variant.py"], [("removal of the document and its RECORD entry", C + "unmake_variant.py:_unmake_variant")],
     ["make-variant / unmake-variant commands and archives"])

prop("V24", "Interrupted or failing wheel conversion never leaves or harms a wheel",
     "Whatever happens during making or unmaking a variant wheel (an input/output error at any point, a plugin failure, a malformed input, the process being killed), the input wheel is unchanged and the output directory contains, under any wheel file name, only what was there before or the complete correct result. This includes output files that already exist and an output that would replace the input. A conversion that reports success has written a complete, valid wheel.",
     ["crash_points", "fault_sequences"], "Every point of failure or termination of a conversion, every combination of input, output directory and pre-existing files.",
     "No test injects any failure or inspects the directory afterwards.",
     [C + "make_variant.py", C + "unmake_variant.py"], [("output written aside and renamed when complete", C + "make_variant.py, " + C + "unmake_variant.py")],
     ["file system after each injected failure or kill"])

prop("V25", "Index generation is complete, correct and independent of file order",
     "Generating an index for a directory writes, per package name and version, one index document containing exactly the variants of the valid variant wheels of that release, each under its label with exactly its properties, together with their shared settings. Wheels that are not variants, have invalid names or metadata, or conflict with the already collected ones are left out and reported without affecting the others. The result is the same whatever the order in which the file system lists the files, and repeating the command changes nothing.",
     ["inputs", "histories"], "Every directory content (several releases, builds, conflicting or corrupt metadata) and every listing order.",
     "Tests index three wheels in whatever order the file system yields.",
     [C + "generate_index_json.py", VJ, VD], [("per-release merge", C + "generate_index_json.py")],
     ["generate-index-json command and the documents written"])

prop("V26", "Adding wheels one by one equals indexing them all; nothing is overwritten",
     "Adding the wheels of a release one after another to an index, in any order, produces the same index document as generating it from all of them at once. An existing output document is only replaced when overwriting was allowed, the input index and the wheels are never modified otherwise, and a wheel that conflicts with the index or has invalid or missing metadata makes the command fail and leaves every file as it was.",
     ["histories", "inputs"], "Every set of wheels, order of additions, presence of input and output documents, and overwrite setting.",
     "The command has no test in the suite.",
     [C + "add_wheel_to_index_json.py", VJ], [("merge and overwrite guard", C + "add_wheel_to_index_json.py")],
     ["add-wheel-to-index-json command and the documents written"])

prop("V27", "Wheel file names are split into their components unambiguously",
     "A file name is recognised as a wheel exactly when it has the form name-version[-build]-python-abi-platform[-label].whl with the build starting with a digit and the label being 1 to 16 characters of `[0-9a-z._]`, and its components are read back exactly as composed. A name with a build number is never mistaken for one with a label or the other way round. Appending a label to a plain wheel's name (its python tag not starting with a digit) and removing it gives the original name.",
     ["inputs"], "Every string, every combination of components.",
     "Tests match a dozen names.",
     [CONST, C + "make_variant.py", C + "unmake_variant.py"], [("wheel name expression", CONST + ":VALIDATION_WHEEL_NAME_REGEX")],
     ["the public wheel name pattern", "file names accepted and written by the commands"])

prop("V28", "The effective configuration is the first existing file, in full",
     "The configuration in effect is exactly the contents of the first existing file among the local, virtual environment, user and global locations, or the empty configuration if none exists; lower-precedence files have no influence. Malformed files, unknown settings, wrongly typed values and ill-formed namespaces raise an error rather than being ignored or partly applied. Showing the configuration prints a document that, read back as a configuration file, is equal to the one in effect, and listing paths prints exactly the four locations in order of precedence.",
     ["configurations", "inputs"], "Every combination of existing files at the four locations and every file content.",
     "Tests create one or two files with one or two settings.",
     [CONF, MCONF, C + "config/show.py", C + "config/list_paths.py"], [("precedence", CONF + ":get_config_file"), ("validation", MCONF)],
     ["VariantConfiguration", "config show", "config list-paths"])

prop("V29", "Updating pyproject.toml edits only the requested providers",
     "Updating a pyproject file leaves exactly the requested namespaces added or removed: a removed namespace no longer occurs among the providers, namespace priorities and static properties, an added one is listed once in the priorities and has its plugin reference and requirements filled in, existing requirements being kept. All other content of the file, including comments and unrelated tables, is preserved, and a file that was valid before is valid afterwards (unless a provider with recorded static properties is itself added). If any requested namespace is not provided by an installed plugin, or the file is missing, malformed or has its variant table laid out so that it cannot be edited faithfully, the file is left untouched; repeating an update changes nothing.",
     ["inputs", "histories"], "Every pyproject file and every sequence of add and remove requests.",
     "Tests update two fixed files.",
     [C + "update_pyproject_toml.py"], [("in-place edit of the TOML document", C + "update_pyproject_toml.py")],
     ["update-pyproject-toml command and the file"])

prop("V30", "Inspection commands report exactly the truth",
     "Analyzing a wheel prints exactly the label and properties recorded in it, listing plugins prints exactly the namespaces of the installed plugins, printing configurations or analyzing the platform prints exactly what the plugins report (restricted to the requested namespace and feature), and computing a hash prints exactly the hash of the given properties. No inspection command modifies any file. A labelled wheel without or with invalid variant metadata, or whose label its metadata does not carry, is reported as an error.",
     ["inputs", "configurations"], "Every wheel, installed plugin set, filter option and property list.",
     "Tests compare the output for one wheel and one mocked plugin set.",
     [C + "analyze_wheel.py", C + "get_variant_hash.py", C + "plugins/list_plugins.py", C + "plugins/get_configs.py", C + "analyze_platform.py"],
     [("printing of loaded data", C)],
     ["standard output of the commands"])

prop("V31", "Concurrent use gives the same answers as sequential use",
     "Calls made concurrently from several threads (selection, validation, checking, hashing, metadata building, index merging on separate objects, plugin queries) each return exactly what they would have returned when made alone. No interleaving raises an error, mixes up answers of different questions, or loses or corrupts remembered plugin answers.",
     ["schedules"], "Every interleaving of library calls made from several threads over overlapping and different plugin sets, interpreters and indexes.",
     "No test uses threads.",
     [LOAD, API, CONF], [("process-wide result memory", LOAD + ":VARIANT_PROVIDER_CACHE_TABLE"), ("cached configuration", CONF)],
     ["recorded call/return histories of concurrent calls"],
     [("VARIANT_PROVIDER_CACHE_TABLE", "shared between all loaders of the process", LOAD)])

prop("V32", "Interrupted or failing index and settings updates damage no file",
     "Whatever happens while an index is generated, a wheel is added to an index or a pyproject file is updated (an input/output error at any point, an interrupt, the process being killed), every index document and pyproject file is afterwards either exactly as it was before or the complete new version, and no other existing file is changed. A command that reports success has written the complete result, except that generating an index leaves out wheels it could not read.",
     ["crash_points", "fault_sequences"], "Every file operation of the commands as the point of failure, interruption or death.",
     "Tests only run the commands undisturbed.",
     [C + "generate_index_json.py", C + "add_wheel_to_index_json.py", C + "update_pyproject_toml.py", C + "utils.py"],
     [("writing of index documents", C + "generate_index_json.py"), ("rewriting of pyproject.toml", C + "update_pyproject_toml.py")],
     ["directories after commands disturbed at every file operation"])

prop("V33", "Isolated builds install and consult exactly the providers in use",
     "When a variant wheel is made with validation in an isolated environment (the default), that environment receives exactly the requirements of the providers whose namespaces the requested properties use, through the installer asked for: no requirement is dropped, changed or added, and unused providers are not installed. All plugin queries (validation and recording of ahead-of-time properties) are answered by the interpreter of that environment. The verdict and the wheel are those the plugins dictate; if installation fails, the installer's message is shown, no plugin runs and no wheel appears. The environment is gone afterwards in every case, and is not created when plugins are not needed. `get_provider_requires()` returns exactly the union of the requirements of the namespaces asked for (all by default, ahead-of-time providers left out on request).",
     ["inputs", "configurations", "fault_sequences"], "Every combination of providers, their packages and dependencies, requested properties, installers and installation failures.",
     "Tests replace the isolated environment by a mock or install nothing into it.",
     [C + "make_variant.py", API, "variantlib/models/variant_info.py", LOAD],
     [("setting up the environment", C + "make_variant.py:_make_variant"), ("choice of requirements", "variantlib/models/variant_info.py:get_provider_requires")],
     ["requirements given to installers, event logs of plugins inside the environments, temporary directory, wheels written"])

prop("V34", "Answers depend on documented inputs only, not on ambient settings",
     "The results of library calls and the printed output, exit status and written files of every command depend only on the documented inputs: arguments, the files named or configured, installed plugins and packages, and documented environment variables. They are the same whatever the hash seed, locale and text encodings, interpreter optimisation, safe-path, warning and tracing options, time zone, terminal size and type, umask (apart from file modes), signal dispositions, standard input, resource limits that suffice, temporary directory, and unrelated environment variables or files. In particular non-ASCII text in documents, settings, plugin answers and wheels is read and written alike under every locale. (Assertions against misuse of the programming interface do not count.)",
     ["configurations", "inputs"], "Every combination of ambient settings of the process.",
     "Tests run in a single ambient setting.",
     [C, API, LOAD, CONF], [("reading and writing of text files", C), ("start of plugin subprocesses", LOAD)],
     ["exit status, output and files of the same scenario run in differently set up processes"])

prop("V35", "Work grows moderately with the size of the input, whatever its shape",
     "Every operation finishes, and its work grows at most about cubically with the size of its input: the numbers of namespaces, features, values, variants, priorities, wheels or archive members, in any shape. No text of whatever form given as a name, value, property, label, requirement, marker, file name or metadata document makes its judgement take more than moderate time: a text of 20 kB is accepted or refused within seconds. Sizes in the thousands are handled, not refused.",
     ["inputs"], "Every shape and size of document, list, archive, directory and text.",
     "Tests use small inputs and no time limit.",
     [API, "variantlib/constants.py", "variantlib/resolver/sorting.py", "variantlib/resolver/filtering.py", "variantlib/models/variant_info.py"],
     [("patterns validating texts", "variantlib/constants.py"), ("ordering and filtering", "variantlib/resolver/sorting.py")],
     ["CPU time of calls"])

prop("V36", "A wheel built and indexed is found again exactly where it can be installed",
     "Making variant wheels of a package (`make-variant`), indexing them (`generate-index-json`, or `add-wheel-to-index-json` one after another) and selecting from the index fit together: all wheels of one package, built from the same settings and plugins, can be indexed together, each under the label in its file name with exactly the properties asked for; selection returns exactly the labels of those which the machine supports, best first according to the settings recorded and the user's configuration; checking the metadata of each wheel alone gives the same verdict; inspecting a wheel prints the properties asked for, and `unmake-variant` gives back the wheel it was made from. Taking wheels away and indexing again takes away exactly their labels.",
     ["inputs", "configurations", "histories"], "Every package, set of variants, providers (install-time, ahead-of-time, static), labels, order of indexing, user configuration and set of wheels removed.",
     "Tests exercise each command by itself on prepared files.",
     [C + "make_variant.py", C + "generate_index_json.py", C + "add_wheel_to_index_json.py", C + "unmake_variant.py", API],
     [("recording of metadata", API + ":make_variant_dist_info"), ("merging", VJ + ":merge"), ("selection", API + ":get_variants_by_priority")],
     ["files written by the commands, index documents, labels selected, verdicts on single wheels"])

prop("V37", "Features, properties, descriptions and configurations are immutable values",
     "Two features, two properties, two variant descriptions or two provider configurations are equal exactly when their components are (for descriptions: the sets of properties), however they were made; equal features and properties have equal hashes and find each other in sets and dictionaries; `feature_hash` and `property_hash` are equal exactly for the same feature and the same property; a property never equals a feature, although its `feature_object` and `feature_hash` are those of its feature. Features and properties are ordered by their components: namespace, then feature, then value. None of their attributes can be replaced or removed; a description keeps its properties, sorted, and its hash when the list it was made of, a copy of it or its text, list or dictionary form is changed. A provider configuration lists its properties in order of preference. A validation verdict answers from its results: valid unless a property is invalid (or unknown, when unknown ones are not allowed) or a feature has too many values.",
     ["inputs", "histories"], "Every pair of objects, every way of making them and every operation on them.",
     "Tests compare a few objects; confusions need particular neighbouring components.",
     [VAR, PROV, "variantlib/models/base.py"],
     [("equality, order and hashes", VAR + ":VariantFeature, VariantProperty, VariantDescription"), ("provider configurations", PROV + ":ProviderConfig")],
     ["comparison, hash, set membership, attribute assignment, to_list_of_properties, VariantValidationResult.is_valid"])

prop("V38", "Calls and commands leave the process as they found it",
     "No library call or command, whether it finishes, is refused, fails or is interrupted (Ctrl-C or another signal whose handler raises), leaves anything behind in the process: no open file descriptor, child process, thread, temporary file or directory, no file other than its documented outputs; the environment, working directory, import paths, arguments, umask, signal handlers, hooks, standard streams, locale, warning filters, random state, limits and other settings of the process are as before (commands run from their entry point may set up the library's own log output). Files are closed explicitly, not left to the garbage collector, unless interrupted. Repeating a call does not make living objects add up. Importing any module of the library changes nothing but the loaded modules, prints nothing, writes nothing and starts nothing.",
     ["inputs", "fault_sequences", "histories"], "Every call and command, every outcome, every point of interruption, every number of repetitions.",
     "Tests look at results, not at what is left behind, and interrupt nothing.",
     [LOAD, C, API, CONF, PP], [("plugin subprocess and its temporary directory", LOAD + ":_run_call_subprocess"), ("files of commands", C)],
     ["process state, descriptors, children, threads, files and living objects before and after each call"])

prop("V39", "The validators judge types, patterns, lists and nested keys exactly",
     "The validators every part of the library relies on decide exactly what they name. A value passes a type check if and only if it conforms to the whole type expression, at every depth and for every element of lists, sets and dictionaries (keys and values); a refusal says where; values are neither changed nor consumed. A text passes a pattern only if the pattern matches all of it. Lists are refused exactly if shorter than asked or holding an equal element twice or one not matching. 'and' runs every validator in turn and refuses if one does; 'or' tries them in turn and accepts with the first that does. A key-tracking walk over nested tables returns the values found or the defaults given, refuses missing, ill-typed and unknown keys naming the full key, and leaves the data unchanged. Requirement strings pass exactly if they are valid requirements.",
     ["inputs"], "Every type expression, value, pattern, list, nesting depth and place of the fault.",
     "Tests use one or two small values for each validator; a fault in the last element, at depth, or in keys is not among them.",
     [VB, "variantlib/validators/combining.py", KT, "variantlib/validators/packaging.py"],
     [("type validation", VB + ":validate_type"), ("key tracking", KT + ":KeyTrackingValidator")],
     ["acceptance or ValidationError of each validator call; values handed in, before and after"])

prop("V40", "Commands do what their arguments mean, and refuse wrong ones first",
     "What a command does depends on the meaning of its arguments only: short and long option names, attached or joined values, any order, lists split over repeated options where allowed, defaults given or left out, and other spellings of the same path give the same outcome, output and files. Wrong arguments (a required one missing, unknown options or commands, missing or excess values, exclusive options together, values outside the choices, ill-formed properties or labels) are refused with exit status 2 and a usage message on standard error before anything is printed, written or any plugin consulted. Help names every option and command; --version prints the version. Processes exit with 0 on success, 2 on wrong arguments and another non-zero status and a message on failure, with nothing printed or left half done.",
     ["inputs", "configurations"], "Every command, every combination, order and spelling of its arguments.",
     "Tests call each command with one or two fixed argument lists.",
     [C], [("command dispatch", C + "main.py"), ("argument parsers", C)],
     ["exit status, standard output and error, files in and around the working directory, plugin event logs"])

prop("V41", "Commands at work at the same time do not disturb one another",
     "Commands run at the same time by different processes, on the same inputs, directories and even output files, each end as they would alone: outcome, output and files written are those of running them one after another. Where several replace one file (a wheel of the same name, an index, a pyproject.toml), it ends up as one of the complete results (that of some of the commands, in some order; an update may be lost, nothing is torn or mixed). Whoever reads a wheel, index or settings file at any moment meanwhile finds a complete former or new one, never a part, a mixture or none where there was one; an index generated while wheels are being made lists only complete ones, and all that were there before. No other files turn up or stay behind.",
     ["schedules", "histories"], "Every set of commands, every interleaving of their processes.",
     "Tests run one command at a time.",
     [C], [("outputs moved into place", C + "utils.py:atomic_output"), ("commands writing files", C)],
     ["states of every wheel, index and settings file while commands work; outcomes, outputs and final files"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
