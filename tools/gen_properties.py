#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script so statements are edited in one place."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

prop("C01","A config finalizes as valid exactly when it satisfies its mold",
 "For every mold and every config built against it, finalizing the config reports success exactly when each keyval carries a value allowed by the mold at the config's version and every mold entry occurs within its allowed number of occurrences in every section instance and at top level; otherwise it reports an invalid context. The list of invalid contexts a finished config reports is empty exactly when the config is valid; it names every keyval and section that is itself at fault, and nothing other than these and the sections containing them.",
 ["inputs","programs"],"all molds with up to two nested levels from a small alphabet of keyvals, sections, restrictions and versions; all configs of bounded size built over them",
 "Tests check a fixed set of a dozen hand-written molds with one or two violations each; the verdict is a function of the whole mold x config product, including nested sections and versions.",
 ["lib/validate.c","lib/context_config.c","lib/context_section.c","lib/context_keyval.c","lib/restriction.c" if False else "lib/context_restriction.c","lib/element_storage.c"],
 [("validity walk over the tree","lib/validate.c"),("finalize of each context kind","lib/context.c")],
 ["dc_config_finalize","disir_config_valid","dc_context_valid"],
 [("context state","constructing / finalized / invalid","lib/include/context_private.h")])

prop("C02","A finalized config stays valid; refused changes leave no trace",
 "Starting from a valid finalized config, every mutation offered by the API (setting values, adding keyvals and sections, removing them while more than the minimum remain, path based setters) either succeeds and leaves a config that still satisfies its mold, or reports an error and leaves the config's contents exactly as they were. An operation that would keep the config valid is not refused.",
 ["histories"],"all sequences of mutations up to a bounded depth over small molds with value and occurrence restrictions",
 "Tests apply single operations to fresh configs; whether validity is an invariant depends on the history (counts reached, sections removed and re-added).",
 ["lib/context.c","lib/context_value.c","lib/context_config.c","lib/context_section.c","lib/context_keyval.c","lib/validate.c","lib/disir_config_query.c","lib/query.c"],
 [("restriction checks on finalized contexts","lib/context_value.c, lib/validate.c"),("occurrence checks on begin/destroy/finalize","lib/context.c")],
 ["dc_set_value_*","dc_begin/dc_finalize","dc_destroy","disir_config_set_keyval_*","disir_config_valid"])

prop("C03","Value restrictions accept exactly the values declared for the version",
 "For a keyval with any combination of enumeration, range and single-number restrictions, each with its own introduced and deprecated version, a value is accepted at a given config version exactly when no value restriction is in force at that version or at least one restriction in force admits it; an enumeration keyval accepts only values in force. Bounds on an integer keyval count with their whole part. The verdict is the same for setting a value on a finalized keyval, finalizing a keyval and finalizing the config.",
 ["inputs"],"all sets of up to three restrictions over a small bound grid (including infinities of the integer range and negative values) x introduced/deprecated versions x config version x value x value type",
 "Tests use a handful of restrictions, nearly all introduced at 1.0 and never deprecated.",
 ["lib/validate.c","lib/context_restriction.c","lib/context_value.c"],
 [("exclusive value restriction evaluation","lib/context_restriction.c, lib/validate.c")],
 ["dc_set_value_*","dc_finalize","dc_config_finalize"])

prop("C04","Occurrence limits are those in force at the config's version",
 "For any mold entry (keyval or section) with any combination of minimum and maximum occurrence restrictions introduced and deprecated at various versions, a config at a given version is accepted with n occurrences exactly when n lies between the minimum and maximum in force at that version: of each kind the one introduced last at or before that version, one when there is none, with zero as maximum meaning unlimited and a maximum below the minimum raised to it. An entry not yet introduced or already deprecated at that version must not occur.",
 ["inputs"],"all pairs/triples of occurrence restrictions with introduced and deprecated versions x config version x number of occurrences, for keyvals and sections at top level and inside sections",
 "The stable tests use at most two restrictions with one version change.",
 ["lib/context_restriction.c","lib/validate.c","lib/generate.c"],
 [("selection of the restriction in force","lib/context_restriction.c"),("occurrence validation","lib/validate.c")],
 ["dc_config_finalize","dc_finalize","disir_generate_config_from_mold","dc_begin"])

prop("C05","Generated configs are valid and hold exactly the required defaults",
 "Generating a config from any valid mold whose defaults satisfy its restrictions, at any version not newer than the mold yields a valid config at that version that contains every mold entry exactly its minimum number of times, in mold order, recursively, with every keyval holding the default in force at that version. A version newer than the mold is refused, and no version means the mold's own version.",
 ["inputs"],"all small molds (keyvals, nested sections, defaults and occurrence restrictions over three versions) x every target version",
 "Tests generate from the fixed built-in molds at one or two versions.",
 ["lib/generate.c","lib/context_default.c","lib/context_restriction.c"],
 [("recursive generation","lib/generate.c"),("default selection","lib/context_default.c")],
 ["disir_generate_config_from_mold","dc_generate_from_config_root"])

prop("C06","The default and documentation in force follow the version asked for",
 "Whatever order defaults (or documentation entries) were added in, asking a mold keyval for its default, its default contexts or an element for its documentation at a version yields the entry with the highest introduced version not above the one asked for (the earliest entry if all are newer, the newest if no version is given). A second default at an already used version is reported when finalized and makes the keyval and the mold invalid; a second documentation entry at a used version is refused and changes nothing. The mold's version is the highest version mentioned by any of its entries.",
 ["histories","inputs"],"all insertion orders of up to four defaults/documentations over five versions, all queries",
 "Tests add in ascending order and probe two versions.",
 ["lib/context_default.c","lib/context_documentation.c","lib/context_mold.c","lib/include/mqueue.h"],
 [("sorted default queue","lib/context_default.c"),("documentation queue","lib/context_documentation.c"),("mold version tracking","lib/context_mold.c")],
 ["dc_get_default","dc_get_default_contexts","dc_get_documentation","dc_mold_get_version","dc_keyval_set_default"])

prop("C07","Version text and ordering are exact over the whole range",
 "Formatting a version and parsing the text returns the same version for every pair of 32 bit numbers, text that does not start with two such numbers joined by a dot is refused (what follows them is not looked at), and formatting never writes outside the buffer it is given. Comparison is a total order: lexicographic on major then minor, antisymmetric and transitive.",
 ["inputs"],"all pairs over a boundary grid of 32 bit values; all texts up to a bounded length over a small alphabet; all buffer sizes",
 "Tests compare a few small versions; overflow needs values above 2^31.",
 ["lib/util.c"],[("compare/convert/format","lib/util.c")],
 ["dc_version_compare","dc_version_convert","dc_version_string"])

prop("C08","Updating a config keeps the user's values and flags real conflicts",
 "Updating a config from one version to a newer one yields a valid config at the target version in which, for every keyval that exists at both versions, an untouched value takes the new default, a value changed by the user survives when the default did not change, and a user change that collides with a changed default is reported as a conflict and takes the answer given; so is a changed value that the target version no longer allows. Entries that cannot exist at the target version are left out. This holds for keyvals at any depth, and afterwards the finished update hands out exactly one config.",
 ["inputs","histories"],"all small molds with nested keyvals and up to two default changes x all user edits x source/target versions x all conflict answers",
 "The update tests use one flat mold and one conflict.",
 ["lib/update.c","lib/generate.c","lib/compare.c"],
 [("update state machine","lib/update.c")],
 ["disir_update_config","disir_update_conflict","disir_update_resolve","disir_update_continue","disir_update_finished"],
 [("update progress","in progress / conflict / done","lib/update.c")])

prop("C09","Configs survive a JSON write and read unchanged",
 "Writing any valid config (finite floats, text without NUL characters) as JSON and reading it back against the same mold yields a valid config with the same version, the same entries in the same per-name order, and bit-identical values; serializing again yields the same text.",
 ["inputs"],"all configs over molds covering every value type, repetition, nesting and optional entries, with boundary values (integer extremes, negative, fractional and huge floats, empty, escaped, UTF-8 and long strings)",
 "Tests round-trip a few molds with default values only.",
 ["lib/fslib/json/json_serialize_config.cc","lib/fslib/json/json_unserialize_config.cc","lib/fslib/json/jsonIO.cc"],
 [("config marshalling","lib/fslib/json/json_serialize_config.cc"),("config unmarshalling","lib/fslib/json/json_unserialize_config.cc")],
 ["dio_json_serialize_config","dio_json_unserialize_config","dc_compare"])

prop("C10","Molds survive a JSON write and read unchanged",
 "Writing any valid mold as JSON and reading it back yields a mold that accepts, rejects, generates and documents exactly as the original: same entries, value types, defaults with their versions, restrictions with their versions and values, documentation, introduced and deprecated versions; serializing again yields the same text.",
 ["inputs"],"all molds over an alphabet of entry kinds, value types, default histories, restriction kinds, documentation and deprecation, nested up to two levels",
 "Tests round-trip the fixed built-in molds; most feature combinations never occur together.",
 ["lib/fslib/json/json_serialize_mold.cc","lib/fslib/json/json_unserialize_mold.cc","lib/fslib/json/json_serialize.cc","lib/fslib/json/json_unserialize.cc"],
 [("mold marshalling","lib/fslib/json/json_serialize_mold.cc"),("mold unmarshalling","lib/fslib/json/json_unserialize_mold.cc")],
 ["dio_json_serialize_mold","dio_json_unserialize_mold"])

prop("C11","Configs survive a TOML write and read unchanged",
 "Writing any valid config (finite floats, text without NUL characters) as TOML and reading it back against the same mold yields a valid config with the same version, the same entries in the same per-name order, and equal values.",
 ["inputs"],"as for JSON, through the TOML format",
 "Tests round-trip a few built-in molds with default values (one of them is a known failing test).",
 ["lib/fslib/toml/toml_serialize.cc","lib/fslib/toml/toml_unserialize.cc","3rdparty/tinytoml/toml.h"],
 [("TOML marshalling","lib/fslib/toml/toml_serialize.cc"),("TOML unmarshalling","lib/fslib/toml/toml_unserialize.cc")],
 ["dio_toml_serialize_config","dio_toml_unserialize_config"])

prop("C12","Malformed documents are refused cleanly and never accepted as valid",
 "Reading any byte-level damaged or structurally wrong JSON or TOML document as a config or mold terminates without memory errors, with either success and a valid object, or an error; an object is handed out on error only when the content was well formed but violated the mold, and then it is marked invalid. A document whose values have the wrong type, whose version is unreadable or whose structure disagrees with the mold is never reported as a valid object.",
 ["inputs"],"every truncation, every single token replacement/deletion/duplication of seed documents, and every small document over a token alphabet",
 "Tests read well-formed files plus a few broken ones.",
 ["lib/fslib/json/json_unserialize_config.cc","lib/fslib/json/json_unserialize_mold.cc","lib/fslib/toml/toml_unserialize.cc","lib/fslib/json/jsonIO.cc"],
 [("error propagation in readers","lib/fslib/json, lib/fslib/toml")],
 ["dio_json_unserialize_config","dio_json_unserialize_mold","dio_toml_unserialize_config"])

prop("C13","Path queries address exactly the named entry",
 "A path such as a@1.b.c@2 resolves to the entry with those names and per-name positions (position zero when omitted) or to nothing, and typed getters return that entry's value or a type error. A typed setter overwrites that entry, or creates it (with its missing ancestors filled with defaults) exactly when its position is the next free one and limits allow; whenever it fails the config is unchanged. Malformed paths and positions that do not fit are refused.",
 ["inputs","histories"],"all paths up to three components with positions and malformed variants x all config shapes x sequences of sets",
 "Tests probe a fixed mold with some dozens of paths.",
 ["lib/query.c","lib/disir_config_query.c"],
 [("path resolution","lib/query.c"),("ancestor creation","lib/disir_config_query.c")],
 ["dc_query_resolve_context","disir_config_get_keyval_*","disir_config_set_keyval_*","dc_config_get_keyval_*","dc_config_set_keyval_*"])

prop("C14","Element lists and collections mirror the tree at all times",
 "After any history of adding and removing entries, listing a parent's elements yields exactly its live entries in insertion order, listing or finding by name yields exactly the live entries of that name in insertion order, and positions out of range do not exist. A collection handed out earlier keeps delivering each still-living member exactly once in order and skips members destroyed meanwhile, with a size that counts only living ones.",
 ["histories"],"all sequences of add / destroy / list / find / iterate / reset up to a bounded depth over two names",
 "Tests list elements of static trees and never destroy members while a collection is being iterated.",
 ["lib/element_storage.c","lib/collection.c","3rdparty/void-multimap/multimap.c","3rdparty/void-list/list.c"],
 [("dual index storage","lib/element_storage.c"),("self-pruning collections","lib/collection.c")],
 ["dc_get_elements","dc_find_element","dc_find_elements","dc_collection_next","dc_collection_size","dc_collection_reset"])

prop("C15","Any sequence of API calls is memory safe and releases everything",
 "No sequence of context, config, mold, collection, comparison and entry calls that respects reference ownership reads or writes freed memory, and once every object handed out has been given back no memory remains allocated, also when calls along the way fail.",
 ["histories"],"all call sequences up to a bounded depth over the object kinds, including refused calls, destroyed parents and children outliving parents",
 "Unit tests run without checking leaks and mostly walk the success path.",
 ["lib/context.c","lib/context_config.c","lib/context_mold.c","lib/context_section.c","lib/context_keyval.c","lib/context_default.c","lib/context_restriction.c","lib/context_documentation.c","lib/collection.c","lib/compare.c"],
 [("context reference counts","lib/context.c")],
 ["dc_begin","dc_finalize","dc_destroy","dc_putcontext","dc_collection_finished","disir_config_finished","disir_mold_finished"],
 [("reference count","owners of a context","lib/include/context_private.h")])

prop("C16","Comparison reports a difference exactly when there is one",
 "Comparing two configs, molds or parts of them reports equality (with no report) exactly when they have the same kinds, names, values, per-name entry order, and, for molds, the same defaults, documentation, restrictions and their versions; otherwise it reports a conflict with at least one readable difference. The verdict does not depend on which side is left or right, and any object equals itself.",
 ["inputs"],"all ordered pairs of objects within one small edit of each other, for every kind of attribute, plus all pairs from a base set",
 "Tests compare a handful of pairs.",
 ["lib/compare.c","lib/include/value.h"],
 [("recursive comparison","lib/compare.c"),("value comparison","lib/context_value.c")],
 ["dc_compare"])

prop("C17","Mold overrides change defaults exactly as the rules say",
 "Reading a mold together with an override document gives the base mold where, for each override entry at a synchronized version, the default is added when that version is newer than every default of the keyval, replaced when equal to the newest and ignored when older; entries naming an unknown keyval, an unsynchronized or too new version, or a value of the wrong type make the mold unreadable or invalid instead of being applied silently.",
 ["inputs"],"all overrides over small sync tables, versions, keyvals (top level and nested) and value types, on base molds with one to three defaults",
 "Tests use a few files on disk.",
 ["lib/fslib/json/json_mold_namespace_override.cc","lib/fslib/json/json_unserialize_mold.cc"],
 [("override application","lib/fslib/json/json_mold_namespace_override.cc")],
 ["dio_json_unserialize_mold_filepath"])

prop("C18","Stored configs behave like a map from entry id to config",
 "For any sequence of write, read, remove, query and list calls on an instance backed by the filesystem, a read returns the config last written under that id and group, a removed or never written id does not exist, listing returns exactly the stored ids each once, and operations on one id never affect another. An invalid config that was stored is reported as invalid by every read of it. Overwriting a config keeps the permissions of its file and the symbolic link that leads to it.",
 ["histories"],"all sequences of write/read/remove/query/list up to a bounded depth over three ids (one in a sub-directory, one a prefix of another) and two stored contents, in JSON and TOML",
 "Tests write a few configs once each.",
 ["lib/disir_config.c","lib/fslib/write.c","lib/fslib/read.c","lib/fslib/query.cc","lib/fslib/filepath.c","lib/fslib/mkdir.c"],
 [("entry id to path mapping","lib/fslib/filepath.c"),("listing","lib/fslib/query.cc")],
 ["disir_config_write","disir_config_read","disir_config_remove","disir_config_query","disir_config_entries"])

prop("C19","A failing file operation is reported and never passes for success",
 "When any single file operation fails while a config or mold is written, read or removed, the call reports an error, and the instance stays usable. When the call reports success the stored document is complete, and a retry after the fault clears succeeds. A write that fails leaves the document that was there before, and no other file.",
 ["fault_sequences","crash_points"],"every system call made by a write, read, query, list or remove x every error it can return, and short transfers",
 "Tests never inject I/O faults.",
 ["lib/fslib/write.c","lib/fslib/read.c","lib/fslib/json/jsonIO.cc","lib/fslib/mkdir.c","lib/fslib/query.cc"],
 [("status propagation of file operations","lib/fslib/*.c")],
 ["disir_config_write","disir_mold_write","disir_config_read","disir_config_remove"])

prop("C20","Entry ids cannot reach outside the configured directories",
 "Whatever entry id is given to read, write, remove or query, for configs or molds, no file or directory outside the configured base directory is created, modified, removed or read; ids that are not well formed (anything but lower-case letters, digits, underscores and separators) are refused or do not exist, and well formed ones are not refused as ill formed.",
 ["inputs"],"all ids up to a bounded number of segments over an alphabet of names, dots, dot-dot, empty segments, upper case, spaces and absolute paths, for each operation",
 "Tests use well-formed ids only, plus a few upper-case ones.",
 ["lib/fslib/filepath.c","lib/fslib/query.cc","lib/fslib/write.c","lib/disir_config.c","lib/disir_mold.c"],
 [("entry id validation","lib/fslib/filepath.c, lib/fslib/query.cc")],
 ["disir_config_write","disir_config_read","disir_config_remove","disir_config_query","disir_mold_write","disir_mold_read","disir_mold_query"])

prop("C21","Mold lookup and listing agree and follow the namespace rules",
 "For any layout of mold, override and namespace mold files in a directory tree, the mold found for an entry id is its own mold file if present and otherwise the namespace mold of its directory, and reading, querying and listing agree about which entries exist and whether they come from a namespace or are overridden; every listed entry appears once.",
 ["configurations"],"every subset of a set of mold, override and namespace files over a two-level directory x every entry id",
 "Tests cover a handful of layouts.",
 ["lib/fslib/filepath.c","lib/fslib/query.cc","lib/fslib/namespace.cc","lib/fslib/json/jsonIO.cc"],
 [("namespace resolution","lib/fslib/filepath.c"),("mold listing","lib/fslib/query.cc")],
 ["disir_mold_read","disir_mold_query","disir_mold_entries"])

prop("C22","Requests reach the right plugin of the right group",
 "With any set of registered plugins, a read or query is answered by the first registered plugin of the requested group that has the entry, writes and removals go to the group's first plugin, an unknown group is refused without calling any plugin, and listing returns the union over the group's plugins with every id once. Missing optional plugin functions are refused, not called.",
 ["configurations","histories"],"all assignments of up to three plugins to two groups x which entries each has x which functions each implements x every operation",
 "Tests register one or two plugins with identical behaviour.",
 ["lib/disir_config.c","lib/disir_mold.c","lib/disir_plugin.c","lib/disir_entry.c"],
 [("group dispatch","lib/disir_config.c, lib/disir_mold.c")],
 ["disir_config_read","disir_config_write","disir_config_remove","disir_config_query","disir_config_entries","disir_mold_read","disir_mold_write","disir_mold_query","disir_mold_entries","disir_plugin_registered"])

prop("C23","Export followed by import restores the exported configs",
 "Exporting any selection of entries and groups to an archive and importing it into an instance with the same molds restores exactly the selected configs with identical content. Appending the same entry twice, extending an existing archive and archive names with or without the suffix give the same result.",
 ["histories"],"all sequences of append-entry/append-group up to a bounded depth over two groups and three entries, fresh and pre-existing archives, then import into an empty or differing system",
 "Tests export and import a fixed selection.",
 ["lib/disir_export.cc","lib/disir_archive.cc","lib/disir_archive_util.cc","lib/disir_import.c"],
 [("archive metadata and entries","lib/disir_archive_util.cc"),("export","lib/disir_export.cc")],
 ["disir_archive_export_begin","disir_archive_append_entry","disir_archive_append_group","disir_archive_finalize","disir_archive_import","disir_import_finalize"])

prop("C24","A failed export never destroys the existing archive or claims success",
 "When any single file operation fails during an export, either the call reports an error and a previously existing archive at the destination is still intact (or completely replaced, when what failed is removing the archive it was extended from), or it reports success and the complete new archive is at the destination; temporary files do not accumulate.",
 ["fault_sequences"],"every file system call during export begin, append and finalize x failure",
 "Tests never inject I/O faults.",
 ["lib/disir_archive.cc","lib/disir_archive_util.cc","lib/disir_export.cc"],
 [("finalize and backup","lib/disir_archive.cc")],
 ["disir_archive_finalize","disir_archive_export_begin","disir_archive_append_entry"])

prop("C25","Import verdicts and resolutions follow the decision table",
 "For each archived entry the reported import state is the one determined by mold availability, validity, archived version against mold version, and existence, version and content of the entry on the system; each resolution option is accepted exactly in the states that allow it. Finalizing an import writes exactly the entries resolved for writing, with the updated or forced content, leaves all others untouched, and discarding writes nothing.",
 ["inputs","histories"],"all combinations of archived version, mold version, system presence/content/version x all options x all finalize modes, for one and two entries",
 "Tests cover a few of the combinations.",
 ["lib/disir_import.c","lib/disir_archive.cc","lib/disir_archive_util.cc"],
 [("import status classification","lib/disir_archive_util.cc"),("option table","lib/disir_import.c")],
 ["disir_archive_import","disir_import_entry_status","disir_import_resolve_entry","disir_import_finalize"])

prop("C26","Error messages are delivered whole or visibly truncated, in bounds",
 "After any sequence of setting, clearing and copying error messages, copying the instance error into a buffer of any size writes only inside that buffer, delivers the most recent message completely when it fits together with its terminator, and otherwise its longest prefix ending in an ellipsis and an insufficient-resources status; after clearing there is no message.",
 ["histories","inputs"],"all sequences of set/clear over message lengths x every buffer size from zero to beyond the message",
 "Tests use one message and two buffer sizes.",
 ["lib/error.c","lib/log.c","lib/disir.c"],
 [("error storage","lib/error.c, lib/log.c")],
 ["disir_error_set","disir_error_clear","disir_error_copy","disir_error","dc_context_error","dc_fatal_error"])

prop("C27","Typed values read back exactly and type mismatches change nothing",
 "A finished keyval or a default of a given type accepts typed set and get calls of that type only (the two text types count as one on defaults), returning exactly the last accepted value, and refuses every other type leaving the value as it was; on a keyval still under construction a value of another type is reported and keeps it from becoming valid. Text that does not start with a value of the type, or starts with one out of range, is refused, and only as much of it as given is read. Rendering a value as text never writes outside the given buffer, reports the needed size and, when the buffer suffices, yields text that sets an equal value again (floats are rendered with six decimals).",
 ["histories","inputs"],"all sequences of typed sets and gets up to a bounded depth over all types and boundary values; all buffer sizes",
 "Tests set each type once.",
 ["lib/context_value.c"],
 [("tagged value storage","lib/context_value.c")],
 ["dc_set_value*","dc_get_value*","dc_set_value_type","dc_get_value_type"])

prop("C28","Only well-formed construction steps are accepted",
 "In every construction state, beginning a child, naming, typing, versioning, finalizing or destroying is accepted exactly when that step makes sense for the kinds involved; every other step is refused with an error, without changing what is being built and without harming later steps.",
 ["histories"],"every parent kind x child kind x state, and all sequences of construction steps up to a bounded depth for molds and configs",
 "Tests check a part of the matrix in one state each.",
 ["lib/context.c","lib/context_util.c","lib/context_mold.c","lib/context_config.c","lib/context_section.c","lib/context_keyval.c","lib/context_default.c","lib/context_restriction.c","lib/context_documentation.c"],
 [("capability and state checks","lib/context.c, lib/context_util.c")],
 ["dc_begin","dc_finalize","dc_set_name","dc_set_value_type","dc_add_introduced","dc_add_deprecated","dc_add_default","dc_add_documentation"])

prop("C29","A mold finalizes as valid exactly when it is coherent",
 "Finalizing a mold succeeds exactly when every keyval has a name, a type and at least one default, every section has a name, no two defaults of a keyval share a version, and every restriction has its type; otherwise finalizing the offending part or the mold reports an error or an invalid mold, and the list of invalid contexts is non-empty exactly for invalid molds.",
 ["inputs","programs"],"all molds of bounded size over complete and incomplete keyvals, sections, defaults and restrictions",
 "Tests check single omissions.",
 ["lib/validate.c","lib/context_mold.c","lib/context_keyval.c","lib/context_default.c"],
 [("mold validation","lib/validate.c")],
 ["dc_mold_finalize","disir_mold_valid","dc_finalize"])

prop("C30","An instance loads exactly the plugins its configuration names",
 "Creating an instance from a library configuration, given as object or as file, registers exactly the configured plugins, in order, under their groups, types and directories. A file that is missing, unreadable, malformed or not valid, and an object that is not valid, is refused; the first entry that is incomplete or cannot be loaded makes creation fail, and the plugins loaded before it are finished and unloaded. Without a configuration there are no plugins. Every registered plugin is used for its own group only, for every operation it offers, and an operation it leaves out is refused. Destroying the instance finishes and unloads its plugins in order and releases everything.",
 ["configurations"],"all configurations of zero to three plugin entries over loadable, missing and defective plugin libraries, as object and as file; all kinds of unusable files; plugins with every one and two operations left out",
 "Tests create an instance from one file.",
 ["lib/disir.c","lib/disir_plugin.c","lib/instance_mold.c"],
 [("instance creation","lib/disir.c"),("plugin loading","lib/disir_plugin.c")],
 ["disir_instance_create","disir_instance_destroy","disir_plugin_registered"])

prop("C31","Damaged and crafted archives are refused and reach nothing else",
 "Importing or extending an archive that is damaged, incomplete, inconsistent or crafted is refused as a whole with an error and no import or archive handed out, or presents only entries that are in the archive with exactly their archived content. Every part of the archive that metadata and index need must be there and of the right type; links, devices and climbing names are never followed. Whatever the archive holds, the call ends without memory error, nothing outside its own temporary folder is created, changed or taken into a config, the archive itself stays as it was, and no temporary file, open file or memory remains.",
 ["inputs"],"every structural edit of metadata and index, every subset and order of the items, every truncation, byte changes, hostile items, links and names; imported and extended",
 "Tests import a few well formed archives and one or two broken ones.",
 ["lib/disir_archive.cc","lib/disir_archive_util.cc","lib/disir_export.cc"],
 [("extraction and validation of archives","lib/disir_archive_util.cc")],
 ["disir_archive_import","disir_archive_export_begin","disir_import_finalize"])

prop("C32","The command line tool does exactly what it is asked, and says so",
 "Each command of disir (list, generate, verify, dump, export, import, remove) does what its arguments ask and nothing else. list and generate name exactly the entries there are, or that a mold covers and that have no config yet; generate writes exactly the default config, overwrites an existing one only with --force, and does nothing if an entry cannot be generated; dump prints every element with its complete value; verify says OK, INVALID (with each reason) or ERROR of every entry; remove removes that entry alone; export writes an archive with exactly the named entries, or none at all, and --append adds to an existing one. import resolves every entry as --force, --soft, --system or the interactive answers say, announces for each entry whether it will be imported or discarded, and changes the system only after consent (--accept or yes), never with --dry-run, --inspect, after abort, no or the end of the input. A command that fails exits non-zero with a message and changes nothing it announced as refused; one that succeeds exits zero. No arguments, input, names or values make it crash, hang or leave temporary files.",
 ["sequences","inputs"],"every command, option and entry list in sequences over every state of a small system with own, namespace, invalid and missing molds; every import mode and answer over every verdict; every sequence of interactive answers; argument errors; long names and values",
 "The command line tool has no tests.",
 ["cli/cli.cc","cli/command.cc","cli/command_list.cc","cli/command_generate.cc","cli/command_verify.cc","cli/command_dump.cc","cli/command_export.cc","cli/command_import.cc","cli/command_remove.cc"],
 [("the command line tool","cli/cli.cc")],
 ["disir list","disir generate","disir verify","disir dump","disir export","disir import","disir remove"])

prop("C33","An interrupted operation leaves every document as it was or as it was to be",
 "Whenever a process ends while it writes or removes a config or a mold, exports or extends an archive or imports one, every config, every mold and every archive is afterwards either complete with its previous content or complete with its new content (or absent where it was absent or was to be removed); nothing half written is read, listed or accepted, other documents are untouched, and doing the operation again succeeds with the same result as if nothing had happened.",
 ["crash_points"],"every history of up to three operations x every modifying system call x every prefix of the data being written",
 "Tests never end in the middle of an operation.",
 ["lib/fslib/write.c","lib/fslib/mkdir.c","lib/disir_archive.cc","lib/disir_archive_util.cc","lib/disir_export.cc","lib/disir_import.c"],
 [("replacing documents","lib/fslib/write.c"),("replacing archives","lib/disir_archive_util.cc")],
 ["disir_config_write","disir_config_remove","disir_mold_write","disir_archive_finalize","disir_import_finalize"])

prop("C34","Processes working side by side see and leave what some order of their operations gives",
 "When two processes read, write, remove, query or list configs and molds of the same directories, or export to and import from archives, at the same time, each reports what it would report, and what is stored afterwards is what would be stored, if the operations had run one after the other in one of the two orders: no reader sees half of a document, no write is lost or mixed with another, directories created by both are no error, two exports never share a file, and nothing is left over.",
 ["schedules"],"every pair of operations x every interleaving of their system calls with up to two preemptions",
 "Tests run one process.",
 ["lib/fslib/write.c","lib/fslib/read.c","lib/fslib/query.cc","lib/fslib/mkdir.c","lib/disir_archive.cc","lib/disir_archive_util.cc","lib/disir_export.cc"],
 [("documents in the file system","lib/fslib/write.c, lib/fslib/read.c"),("temporary archives","lib/disir_archive_util.cc")],
 ["disir_config_read","disir_config_write","disir_config_remove","disir_config_query","disir_config_entries","disir_mold_write","disir_mold_read","disir_archive_finalize","disir_archive_import"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
except ImportError: pass
print(len(P))
