"""Writes /verif/properties.jsonl (kept as a script so the statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = state
    P.append(d)

p("C01", "Dumping a config and loading it back yields an equal object",
  "For every config object whose fields hold values of their declared types (nested dataclasses, lists, dicts with string or int keys, tuples, optionals, literals, enums, unions of dataclasses, strings, bools, 64-bit ints, finite floats), dumping it and loading the text with the same class yields an equal object. This holds for versioned classes too, and whether the text goes through a string or a file. (Strings and floats are limited to ones that the RON library itself writes and reads back unchanged.)",
  ["inputs", "programs"], "every config class built from the supported field types and every value of it",
  "The tests round-trip a handful of fixed classes; the claim is over all type shapes and all values, including enums whose names differ from their values, literals that are not identifiers, and deep nesting.",
  ["hyperstate/serde.py", "hyperstate/schema/versioned.py", "hyperstate/hyperstate.py"],
  [("asdict", "hyperstate/serde.py:asdict"), ("from_dict", "hyperstate/serde.py:from_dict"), ("VersionedSerializer", "hyperstate/schema/versioned.py")],
  ["hyperstate.dumps / hyperstate.loads", "hyperstate.dump / hyperstate.load"])
p("C02", "Leaving defaults out of a dump loses no information",
  "Dumping a config with defaults elided and loading the text back yields an object equal to the original, for every value. A field is left out only when its value equals the declared default, and fields without a declared default are never left out.",
  ["inputs", "programs"], "every config class and every value of it",
  "No test dumps with defaults elided; the claim is over all values, in particular ones that equal a default at one nesting level and not at another.",
  ["hyperstate/hyperstate.py", "hyperstate/serde.py"],
  [("ElideDefaults.modify_dataclass_attrs", "hyperstate/hyperstate.py:ElideDefaults"), ("_try_create_defaults", "hyperstate/serde.py:_try_create_defaults")],
  ["hyperstate.dumps(elide_defaults=True)", "upgrade-config output"])
p("C03", "A loaded config holds only values of the declared types",
  "Loading a document either raises or returns an object in which every field, list element, tuple item and dict value, at every depth, is a value of its declared type. The only conversions made are between equal numbers (int to float, integral float to int) and from numeric strings or schedule strings to numbers. A tuple of the wrong length, a value outside a literal's options, an unknown enum value or a null for a non-optional field is rejected.",
  ["inputs", "programs"], "every config class built from the supported field types and every document, well formed for it or not",
  "The tests load only well-formed documents; the claim is over all documents, in particular ill-typed ones at any depth.",
  ["hyperstate/serde.py"], [("from_dict", "hyperstate/serde.py:from_dict"), ("is_optional", "hyperstate/serde.py:is_optional")],
  ["hyperstate.loads", "hyperstate.load"])
p("C04", "Every document field is used; absent fields get exactly their defaults",
  "A value given in a document is never silently dropped or replaced: each field in it shows up in the loaded object, and each field not in it gets its declared default (for a nested config with no default of its own, built from its fields' defaults). A missing field without any default is an error, and an unknown field is an error at every depth. When the caller asks for extra fields to be ignored, unknown fields at every depth are ignored and everything else is unchanged.",
  ["inputs", "programs", "configurations"], "every config class, every subset of fields present in the document at each depth, with extra fields ignored or not",
  "The tests cover one document with an extra top-level field and a few partial documents; the claim is over all subsets at all depths.",
  ["hyperstate/serde.py", "hyperstate/hyperstate.py"],
  [("from_dict, dataclass case", "hyperstate/serde.py:from_dict"), ("_try_create_defaults", "hyperstate/serde.py:_try_create_defaults")],
  ["hyperstate.loads", "StateManager(ignore_extra_fields=True)"])
p("C05", "Overrides set exactly the named fields, win over the file, and never misfire",
  "Loading with a list of overrides gives the same config as without them except that each named field, at any depth, has the overriding value; a later override of the same field wins, and overrides win over the file even when the file is of an older version and is upgraded on load. Text for a string field is taken verbatim, including any '='. An override that names no field, has no '=', or leaves its field with an invalid value is an error and never changes any field.",
  ["inputs", "programs"], "every config class, document (of any version) and list of overrides",
  "One test applies five fixed overrides to an empty document; the claim is over all lists, field depths, defaults and document versions.",
  ["hyperstate/hyperstate.py", "hyperstate/schema/types.py"],
  [("OverridesDeserializer.deserialize", "hyperstate/hyperstate.py:OverridesDeserializer"), ("Struct.find_field", "hyperstate/schema/types.py:Struct.find_field"), ("deserializer order", "hyperstate/hyperstate.py:_typed_load")],
  ["hyperstate.load(overrides=...)", "hyperstate.loads(overrides=...)"])
p("C06", "Old documents are upgraded by every rule from their version on, once, in order",
  "Loading a document recorded at version v applies the rules registered for v, v+1, ..., up to the version before the class's current one, each exactly once, in ascending version order and in list order within a version, and no others. A document at the current version is loaded unchanged, and everything dumped records the current version. A document of a versioned class without a recorded version is rejected rather than guessed at.",
  ["inputs", "programs", "histories"], "every versioned class, set of upgrade rules, recorded version and document",
  "The tests upgrade across a single version step; the claim is over all version gaps, sparse rule tables and rule orders.",
  ["hyperstate/schema/versioned.py", "hyperstate/hyperstate.py"],
  [("Versioned._apply_upgrades", "hyperstate/schema/versioned.py:Versioned._apply_upgrades"), ("VersionedDeserializer", "hyperstate/schema/versioned.py:VersionedDeserializer"), ("VersionedSerializer", "hyperstate/schema/versioned.py:VersionedSerializer")],
  ["hyperstate.loads of a versioned class", "StateManager.config"])
p("C07", "A rewrite rule changes only the field it names, and loses no value",
  "Applied to any document, a rename moves the value unchanged to the new path, a delete removes it, a map replaces it by the mapped value, and adding or changing a default fills in the (old) default only where the document gives none; check and reject rules leave accepted documents exactly as they are and raise on others. Every field not on the named path keeps its value, a rule whose field is absent (or lies under a null or a non-struct value) changes nothing, and no rule crashes on any document. A default filled in by a rule is the value the upgraded config is loaded with, even if the document omits the whole enclosing struct.",
  ["inputs"], "every document tree, rule and path of any depth",
  "The tests apply rules to a few small documents; the claim is over all documents, path depths and absent or null intermediates, and the frame (nothing else changed) is not asserted at all.",
  ["hyperstate/schema/rewrite_rule.py", "hyperstate/serde.py"],
  [("_remove", "hyperstate/schema/rewrite_rule.py:_remove"), ("_get", "hyperstate/schema/rewrite_rule.py:_get"), ("_insert", "hyperstate/schema/rewrite_rule.py:_insert"), ("*.apply", "hyperstate/schema/rewrite_rule.py"), ("weak refs", "hyperstate/serde.py:_try_create_defaults")],
  ["RewriteRule.apply(document)", "hyperstate.loads of an older document"])
p("C08", "A schema change reported as compatible never breaks an old config",
  "If the schema checker reports a change of config class as compatible (severity INFO), then every config document valid for the old class loads under the new class without error. In particular the subtype test used for type changes and renames never accepts a type whose values the new type cannot load.",
  ["inputs", "programs"], "every pair of schemas and every document valid for the old one",
  "The tests check seven fixed schema pairs; the claim is over all pairs of schemas, nested arbitrarily, and all their documents.",
  ["hyperstate/schema/types.py", "hyperstate/schema/schema_checker.py", "hyperstate/schema/schema_change.py"],
  [("is_subtype", "hyperstate/schema/types.py"), ("SchemaChecker._find_changes", "hyperstate/schema/schema_checker.py:SchemaChecker._find_changes"), ("SchemaChange.severity", "hyperstate/schema/schema_change.py"), ("rename detection", "hyperstate/schema/schema_checker.py:SchemaChecker._find_renames")],
  ["SchemaChecker.severity()", "check-schema", "upgrade-schema"])
p("C09", "The schema checker reports every difference once and nothing else",
  "Checking a class against its own dumped schema, for every supported field type and default, reports no change. Every leaf field added or removed, and every changed type, default, enum variant or literal option, is reported as a change that names that field; rename detection only pairs an added with a removed item of the same kind, uses each at most once and drops none. The overall severity is the maximum over the reported changes.",
  ["inputs", "programs"], "every pair of schemas",
  "The tests compare fixed schema pairs; the claim is over all pairs, including unchanged ones with tuples, dicts and struct-valued defaults, which no test covers.",
  ["hyperstate/schema/schema_checker.py", "hyperstate/schema/types.py"],
  [("_find_changes", "hyperstate/schema/schema_checker.py:SchemaChecker._find_changes"), ("_find_renames", "hyperstate/schema/schema_checker.py:SchemaChecker._find_renames"), ("schema_from_namedtuple", "hyperstate/schema/types.py:schema_from_namedtuple"), ("materialize_type", "hyperstate/schema/types.py:materialize_type")],
  ["SchemaChecker.changes", "dump-schema followed by check-schema"])
p("C10", "A schedule's value is exact at its points and stays between neighbours",
  "For a schedule given by points with increasing positions, the value at each point's position is that point's value, the value before the first and after the last point is the first and last value, and between two points it follows the interpolation named between them (linear, half-cosine, or hold until the next point) and stays between their two values.",
  ["inputs"], "every schedule text with two or more points and every position",
  "One test reads one schedule at one position (0); the claim is over all schedules, interpolations and positions, including boundaries and beyond.",
  ["hyperstate/schedule.py"],
  [("PiecewiseFunction.get_value", "hyperstate/schedule.py:PiecewiseFunction.get_value"), ("_parse_schedule", "hyperstate/schedule.py:_parse_schedule"), ("INTERPOLATORS", "hyperstate/schedule.py:INTERPOLATORS")],
  ["config values after step()"])
p("C11", "Every scheduled field follows its schedule and stays scheduled when saved",
  "After a state is loaded and after every step, each int or float config field given as a schedule, however deeply nested in config structs, holds the schedule's value at the current value of the state variable it names (truncated for int fields); no other field is changed. Checkpoints and upgraded config files record the schedule itself, not its momentary value, so a restored run continues the same schedule.",
  ["inputs", "histories", "programs"], "every config class, placement of schedules in it, and sequence of steps, checkpoints and restores",
  "One test has a single schedule one level deep and never steps past it or restores and steps again; the claim is over all placements and histories.",
  ["hyperstate/hyperstate.py"],
  [("ScheduleDeserializer", "hyperstate/hyperstate.py:ScheduleDeserializer"), ("ScheduleSerializer", "hyperstate/hyperstate.py:ScheduleSerializer"), ("_apply_schedules", "hyperstate/hyperstate.py:_apply_schedules")],
  ["StateManager.config after StateManager.step()", "config.ron in a checkpoint"])
p("C12", "At every crash point a complete checkpoint of the latest saved step remains",
  "Once a step has completed with checkpointing on, then whatever the process does next and wherever it is killed, the checkpoint directory holds a complete checkpoint of that step or a later one, and a partially written checkpoint never appears under a checkpoint name. This includes stepping repeatedly without advancing the checkpoint key, restarting, and the checkpoint directory being on another filesystem than the temporary directory. After a completed step exactly that step's checkpoint remains (apart from what earlier crashes may have left behind), and nothing else in the directory is touched.",
  ["crash_points", "histories", "configurations"], "every sequence of steps and restarts with keys that never decrease, and a crash at any file-system operation",
  "The one checkpoint test takes a single step and never crashes or steps twice; crash points, cross-device moves and repeated keys are out of its reach.",
  ["hyperstate/hyperstate.py"],
  [("StateManager.step", "hyperstate/hyperstate.py:StateManager.step"), ("StateManager.checkpoint", "hyperstate/hyperstate.py:StateManager.checkpoint"), ("atomic_move", "hyperstate/hyperstate.py:atomic_move")],
  ["contents of the checkpoint directory"], [dict(name="checkpoint directory", meaning="set of complete latest-<key><n> directories", where="StateManager.checkpoint_dir")])
p("C13", "Restarting resumes from the newest checkpoint, config and state together",
  "A manager opened on a checkpoint directory loads both config and state from the checkpoint with the highest key among the automatic checkpoints in it, whatever other files and directories are there; without one it uses the given initial path, and without that the defaults and the initial state. Overrides are applied on top in every case.",
  ["histories", "configurations", "inputs"], "every content of the checkpoint directory and combination of initial path and overrides",
  "The test restores from a directory holding exactly one checkpoint; the claim is over all directory contents (leftovers, foreign directories, several checkpoints, temporary copies).",
  ["hyperstate/hyperstate.py"],
  [("find_latest_checkpoint", "hyperstate/hyperstate.py:find_latest_checkpoint"), ("checkpoint_dir setter", "hyperstate/hyperstate.py:StateManager.checkpoint_dir"), ("_load_config/_load_state", "hyperstate/hyperstate.py:StateManager")],
  ["StateManager.config", "StateManager.state"])
p("C14", "Array and blob payloads are restored bit for bit",
  "Encoding any numpy array of a plain (non-object, non-record) dtype and decoding it gives an array of the same dtype, shape and contents, and encoding leaves every other object as it is. A custom-serialized field of a lazily loaded state is written to its own file and, when loaded back, its deserializer receives exactly the data its serializer returned (tuples as lists).",
  ["inputs"], "every array shape, dtype, memory layout and nesting of payload data, and every field name",
  "The test round-trips one 64-element float array; the claim is over all dtypes, shapes (0-d, empty, non-contiguous) and nestings.",
  ["hyperstate/msgpack_torch.py", "hyperstate/lazy.py", "hyperstate/hyperstate.py"],
  [("encode/decode", "hyperstate/msgpack_torch.py"), ("LazySerializer/LazyDeserializer", "hyperstate/lazy.py"), ("_typed_dump", "hyperstate/hyperstate.py:_typed_dump")],
  ["hyperstate.dump / load of a lazy state"])
p("C15", "Lazy fields are read on first access, once, and never by unsafe means",
  "Loading a lazy state reads no blob; the first access to a field reads and deserializes exactly that field's blob, with the config, state and context supplied, and later accesses return the same object without reading again. A missing or corrupt blob raises only when its own field is accessed and leaves the field retryable and other fields usable. Legacy pickled blobs are never unpickled unless the environment explicitly opts in.",
  ["histories", "inputs", "fault_sequences"], "every sequence of field accesses and assignments, with any subset of blobs missing or corrupt",
  "The test accesses one lazy field once; order, repetition, failure and retry are not exercised.",
  ["hyperstate/lazy.py", "hyperstate/hyperstate.py"],
  [("Lazy.__getattribute__", "hyperstate/lazy.py:Lazy.__getattribute__"), ("LazyDeserializer", "hyperstate/lazy.py:LazyDeserializer")],
  ["attribute access on a loaded lazy state"])
p("C16", "The upgrade commands rewrite a file only to an equivalent, current one",
  "Upgrading a schema file overwrites it, with the class's current schema, only if the change is compatible, and leaves it untouched otherwise; checking a schema never writes. Upgrading a config file replaces it by text that loads to the same config at the current version with its schedules intact, is idempotent, and writes nothing in dry-run mode or when loading fails.",
  ["inputs", "fault_sequences"], "every schema and config file, compatible or not, loadable or not",
  "No test calls these commands.",
  ["hyperstate/schema/schema_checker.py"],
  [("_upgrade_schema", "hyperstate/schema/schema_checker.py:_upgrade_schema"), ("_upgrade_config", "hyperstate/schema/schema_checker.py:_upgrade_config"), ("check_schema", "hyperstate/schema/schema_checker.py:check_schema")],
  ["file contents after upgrade-schema / upgrade-config / check-schema"])
p("C17", "Name similarity is a symmetric, bounded measure that is top for equal names",
  "The similarity used for rename proposals and for help suggestions is symmetric in the two names, never exceeds its value for equal names, is at least 0, and depends only on the names; the edit distance below it is 0 only for equal names, symmetric and at most the longer length. It is defined for every pair of non-empty names.",
  ["inputs"], "every pair of names",
  "No test compares names directly; the claim is over all pairs of strings.",
  ["hyperstate/schema/schema_checker.py"],
  [("name_similarity", "hyperstate/schema/schema_checker.py:name_similarity"), ("levenshtein", "hyperstate/schema/schema_checker.py:levenshtein")],
  ["rename proposals", "help suggestions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
