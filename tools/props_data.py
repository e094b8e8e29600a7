TRUST = 'Trusts rustc (type checking and MIR construction), the callee resolution of the driver, and the rule text; it decides the structural clause named in `technique`, not run-time values.'
prop('C01', 'Every owned Python reference is visible to the garbage collector',
     'Every Python object that a validator, serializer, exception or helper object of this library keeps alive is reported to the cyclic garbage collector, and each owned reference is reported once. A reference cycle through any such object is therefore collected as soon as nothing outside the cycle refers to it.',
     ['programs', 'inputs', 'configurations'], 'every schema kind and every option that makes a validator or serializer hold a Python object, and every object graph built around it',
     'a leak shows only for the one field that is forgotten and only when a cycle runs through it; tests/test_garbage_collection.py builds a handful of cycles',
     ['src/py_gc.rs', 'src/definitions.rs', 'src/validators', 'src/serializers', 'src/errors'],
     [('PyGcTraverse implementations', 'src/py_gc.rs and every impl_py_gc_traverse!'), ('__traverse__ slots', '#[pymethods] of the pyclasses')],
     'ownership analysis over ADT fields + must-pass-through on the MIR of every traverse body',
     'For every local type reachable by the collector, every owning field flows to the visitor on every successful path and once. ' + TRUST)
prop('C02', 'Self-referential data is answered with an error, never by exhausting the stack',
     'Validating or serializing data or schemas that refer back to themselves, or that nest without end, is always answered with a recursion error (or the circular-reference error) and never by overflowing the stack or looping. The bookkeeping that detects recursion is undone on every way out, so repeating the same object side by side, or repeating it after a failed attempt, is never reported as recursion.',
     ['inputs', 'programs', 'histories'], 'every recursive schema, every cyclic or shared object graph and every outcome (success, error, depth limit) of the nested step',
     'needs a cycle through one particular re-entry point, or a failure at one particular depth followed by more work with the same state',
     ['src/recursion_guard.rs', 'src/validators/definitions.rs', 'src/validators/generator.rs', 'src/serializers/infer.rs', 'src/serializers/type_serializers/definitions.rs', 'src/serializers/extra.rs'],
     [('RecursionGuard::new/drop', 'src/recursion_guard.rs'), ('definition references', 'src/validators/definitions.rs, src/serializers/type_serializers/definitions.rs'), ('type inference', 'src/serializers/infer.rs')],
     'typestate of the recursion bookkeeping on the MIR + dominance of every re-entry by a guard + dataflow of the shared recursion state',
     'Every re-entrant call is dominated by a live guard of the object being processed, and guard creation/drop are balanced on every path. ' + TRUST)
prop('C06', 'Declared constraints are enforced on every path that accepts a value',
     'Whenever a schema (or the config it falls back to) declares a limit on a value - le, lt, ge, gt, multiple_of, min_length, max_length, max_digits, decimal_places, pattern, allowed_schemes, uuid version, date/datetime past or future, timezone, finiteness - no input form (Python, JSON, strings, strict or lax) yields an accepted value that violates it. A value that satisfies the limit is not rejected for it, the error names the violated limit with its declared value, and string limits apply to the text after whitespace is stripped.',
     ['inputs', 'configurations'], 'every combination of constraints and every value on either side of every limit, in every input form',
     'an operator that is off by one, a limit skipped on one of the branches (a fast path, an alternative input form, a later item of a loop) or applied to the wrong text is visible only for the one value and form a test happens not to use',
     ['src/validators/int.rs', 'src/validators/float.rs', 'src/validators/decimal.rs', 'src/validators/string.rs', 'src/validators/bytes.rs', 'src/validators/date.rs', 'src/validators/datetime.rs', 'src/validators/time.rs', 'src/validators/timedelta.rs', 'src/validators/list.rs', 'src/validators/set.rs', 'src/validators/frozenset.rs', 'src/validators/tuple.rs', 'src/validators/dict.rs', 'src/validators/generator.rs', 'src/validators/url.rs', 'src/validators/uuid.rs', 'src/validators/mod.rs', 'src/input/return_enums.rs', 'src/input/datetime.rs'],
     [('constraint checks of each validator', 'validate() of every validator with a constraint field'), ('constraint fields filled at build', 'BuildValidator::build of those validators'), ('iteration of collections', 'ValidatedList/Tuple/Set/Dict::iterate')],
     'conditional constant propagation on the MIR of each constrained validator (outcome of value-vs-limit comparisons assumed, reachability of acceptance and of the error decided) + dataflow from schema keys to constraint fields',
     'For every constraint field: with it set and violated no accepting exit is reachable; with it satisfied its error is unreachable; schema key and error context carry the declared limit. ' + TRUST)
prop('C07', 'Errors agree with the error catalogue in every form they are reported in',
     'Every error type has one name, which is the one published in core_schema.ErrorType; its message shows the value of each placeholder under the same-named context key, its context holds exactly its own fields plus the context given by the user, and building it by name reads each field from the context value of that name. errors(), json(), str() and a pickled copy of a ValidationError report the same type, location, message (for the form of the input), input, context and documentation url, each exactly when asked for, and conversions between exceptions and line errors lose none of them.',
     ['inputs', 'configurations', 'programs'], 'every error type (about 100) with every context, every include_* flag and every output form',
     'a template, a placeholder, a context key or one of the sibling output forms that is out of step shows only for that one error type in that one form',
     ['src/errors/types.rs', 'src/errors/validation_exception.rs', 'src/errors/value_exception.rs', 'src/errors/line_error.rs', 'python/pydantic_core/core_schema.py'],
     [('the catalogue', 'error_types! in src/errors/types.rs'), ('templates and rendering', 'ErrorType::message_template_*, render_message'), ('output forms', 'PyLineError::as_dict / pretty, PyLineErrorSerializer, ValidationError::__reduce__'), ('published names', 'ErrorType in python/pydantic_core/core_schema.py')],
     'per-variant conditional propagation over the MIR of the catalogue functions, cross-checked with the Python literal; field provenance through conversions and output forms',
     'For every variant: name, templates, rendered placeholders, context keys and by-name construction agree; each output form reports each field from its own source under its own flag. ' + TRUST)
prop('C08', 'Schemas mean what their grammar says: every key takes effect under its own name',
     'The published schema grammar (core_schema.py), the schema builder functions and the Rust builders agree. Every schema type of the grammar can be built for validation and for serialization, every declared key takes effect as the option of that name, a value given in the schema wins over the config key it falls back to, and that one over the documented default; every documented alternative of an option selects the behaviour of that name, and a nested schema is used for the role of its key and built with the config in force.',
     ['programs', 'configurations'], 'about 50 schema types with more than 300 keys, each present or absent in the schema, in its config, in the enclosing config, and with every alternative value',
     'tests pass each option alone and with its usual value; a key read from the wrong place, an inverted precedence or a wrong default shows only for that key in that combination',
     ['python/pydantic_core/core_schema.py', 'src/validators', 'src/serializers', 'src/build_tools.rs', 'src/tools.rs', 'src/serializers/config.rs'],
     [('grammar', 'TypedDict classes and *_schema functions of core_schema.py'), ('builders', 'every BuildValidator::build and BuildSerializer::build'), ('precedence', 'build_tools::schema_or_config, is_strict, ExtraBehavior::from_schema_or_config'), ('dispatch', 'build_validator, CombinedSerializer::find_serializer')],
     'cross-artefact consistency: AST of the Python grammar against conditional constant propagation (one symbolic token per schema/config key) over the MIR of every builder',
     'For every key and every assumed presence in schema/config/enclosing config: the value stored under the option name is the value of that key by the documented precedence. ' + TRUST)
prop('C09', 'Serialization options reach every nested value and mean what they say',
     'Every option of a serialization call (mode, include, exclude, by_alias, exclude_unset, exclude_defaults, exclude_none, round_trip, warnings, fallback, serialize_as_any, context) reaches every nested value, callback, iterator and info object unchanged, in Python and JSON mode alike. An item of a container is left out, or kept with its own next include and exclude, exactly as the documented precedence of exclude, include and the schema\'s own filter says; exclude_none, exclude_defaults, exclude_unset and round_trip drop exactly the fields they name, and a field is written under its alias exactly when by_alias, else the config, asks for it',
     ['inputs', 'configurations'], 'every combination of options, every nesting of serializers and every form of include/exclude (absent, None, dict, set, any container; whole, nested, __all__)',
     'a lost or swapped option shows only below one kind of serializer, in one of the two modes, for one combination of options',
     ['src/serializers/extra.rs', 'src/serializers/filter.rs', 'src/serializers/fields.rs', 'src/serializers/computed_fields.rs', 'src/serializers/infer.rs', 'src/serializers/mod.rs', 'src/serializers/type_serializers'],
     [('Extra / ExtraOwned / SerializationInfo', 'src/serializers/extra.rs, src/serializers/type_serializers/function.rs'), ('FilterLogic::filter', 'src/serializers/filter.rs'), ('field loops', 'src/serializers/fields.rs, src/serializers/computed_fields.rs')],
     'interprocedural value-flow (provenance) of options and filters into every nested serialization + exhaustive conditional constant propagation of the filter decision table and the field loops',
     'Each nested call, carrier and copied option set is decided by the provenance of its operands; the filter decision and the field flags are decided for all combinations of their abstract inputs. ' + TRUST)
prop('C04', 'Validation options reach every nested validation and mean what they say',
     'Every option of a validation call (strict, from_attributes, context, by_alias, by_name, self_instance, and the string cache of the config) reaches every nested validator, wrap handler, lazy generator and info object unchanged, whichever of validate_python, validate_json, validate_strings, isinstance_python or validate_assignment was called. strict, from_attributes, by_alias and by_name given in the call win over the schema, which wins over the default, and nothing else decides which conversions a validator uses, whether attributes are read, and whether a field is looked up under its alias, its name or both',
     ['inputs', 'configurations'], 'every combination of call options with schema options, at every depth, below every kind of validator and in every input form',
     'an option that is dropped or swapped shows only below one kind of validator or handler, for one combination of call and schema values',
     ['src/validators/mod.rs', 'src/validators/validation_state.rs', 'src/validators/generator.rs', 'src/validators/function.rs', 'src/validators/json.rs', 'src/lookup_key.rs', 'src/validators'],
     [('entry points', 'SchemaValidator in src/validators/mod.rs'), ('options in force', 'Extra, ValidationState in src/validators/mod.rs and validation_state.rs'), ('handlers', 'InternalValidator in src/validators/generator.rs, ValidationInfo in src/validators/function.rs'), ('lookup', 'LookupKeyCollection in src/lookup_key.rs')],
     'provenance of every copied or rebound option + non-interference by conditional constant propagation: for all combinations of call and schema values the calls and arguments a validator reaches depend on the effective value only',
     'Each option copied or rebound comes from itself; for each validator all call/schema combinations with the same effective value reach the same conversions with the same arguments. ' + TRUST)
prop('C14', 'A union takes the best match and failed choices leave no trace',
     'A smart union returns at once only an exact match for which fields set do not count, and otherwise the match with the most fields set, on a tie the most exact, on a further tie the first, and passes the exactness and the fields set of that match on to an enclosing union; every conversion a validator accepts lowers the exactness of the match to that of the conversion. An alternative that was tried and failed (a union choice, the strict attempt of a lax-or-strict schema, a branch of a nullable or a default) has no influence on the exactness, the fields set or the partial mode seen by the next alternative and by the enclosing validation',
     ['inputs', 'configurations'], 'every number, order and nesting of choices, every outcome of each of them and every input',
     'the choice depends on what earlier, failed choices left in the validation state, which shows only for particular nestings and orders of choices',
     ['src/validators/union.rs', 'src/validators/validation_state.rs', 'src/validators'],
     [('smart and left-to-right unions', 'src/validators/union.rs'), ('exactness', 'ValidationState::floor_exactness in src/validators/validation_state.rs, ValidationMatch in src/input/return_enums.rs')],
     'typestate of the validation state along all paths between two validations of the same input; decision table of the comparison of matches by conditional constant propagation over all outcomes; provenance of what is kept; all conversions pass their exactness on',
     'exactness, fields_set_count and allow_partial put back on every path between two validations of one input and on every way out; the comparison decided for all 3x3x3 outcomes; each accepted conversion dominated by unpack/floor_exactness. ' + TRUST)

prop('C05', 'Strict mode accepts only the declared type and matches say how exact they are',
     'In strict mode a value from Python is accepted only when it is an instance of the declared type (a bool is no int or float, a datetime no date, a mapping no dict; an int is a float) and a value from JSON only in the JSON form of the type; a value accepted in strict mode is accepted in lax mode too, and the validators, including enums, UUIDs, URLs and dataclasses, do not fall back to another conversion. A match is exact for a value of exactly the type, strict for an instance of a subclass or the JSON or text form of the type, and lax for everything that was converted',
     ['inputs', 'configurations'], 'every kind of input value, in each input form, for every conversion and every validator, in both modes',
     'each conversion has a ladder of type tests whose strict and lax outcomes are fixed by a table far larger than what tests sample, and a wrong exactness only shows through the choice of a union',
     ['src/input/input_python.rs', 'src/input/input_json.rs', 'src/input/input_string.rs', 'src/input/input_abstract.rs', 'src/validators'],
     [('conversions', 'impl Input for Bound<PyAny>, JsonValue, str, StringMapping'), ('validators', 'Validator::validate in src/validators'), ('table', 'rules/c05.py')],
     'conditional constant propagation through each conversion under the outcome of the type tests of the input (or the kind of JSON value) and the mode, compared with the conversion table: reachable outcomes and exactness; the strict argument of each conversion a validator asks for; unreachability of acceptance in strict mode when all tests of the type fail',
     'Outcomes {exact, strict, lax, rejected} reachable for each conversion x kind of value x mode equal the table; every validator asks for strict conversions exactly in strict mode and rejects when they do. ' + TRUST)

prop('C10', 'Errors which are not validation errors are never swallowed or turned into others',
     'An exception other than ValueError, AssertionError, PydanticOmit and PydanticUseDefault which user code raises during a validation ends that validation and leaves it as that same exception: no default, custom error, union or lax alternative, container or field takes its place and nothing more is validated, and isinstance checks raise it too. A ValueError or AssertionError raised by a validator function or a post-init hook becomes a validation error of the matching type, PydanticCustomError, PydanticKnownError and ValidationError keep their own errors, PydanticOmit leaves out the item of the enclosing container or the field and PydanticUseDefault makes the enclosing default schema use its default (not across a wrap handler, which reports them as misuse)',
     ['inputs', 'configurations'], 'every exception, raised at every place of every schema',
     'each composite validator has its own place where inner errors are sorted, and the exceptions that matter are those no test raises there',
     ['src/validators', 'src/errors/validation_exception.rs', 'src/errors/line_error.rs', 'src/input'],
     [('errors', 'ValError in src/errors/line_error.rs, ValidationError::from_val_error'), ('classification', 'convert_err in src/validators/function.rs'), ('composite validators', 'Validator::validate in src/validators')],
     'for every place where an inner validation can fail, conditional constant propagation of that failure (three kinds) along all paths to every exit of the function; decision table of the classification of exceptions; every call of user code followed to its exits',
     'each inner failure of each kind followed to the exits on the compiled intermediate representation, helpers, closures and try-loops spliced in; that a union of many validators calls them at all is not part of it. ' + TRUST)

prop('C12', 'Assignments are validated before anything changes and frozen stays frozen',
     'validate_assignment changes a model or dataclass instance only after the new value passed validation: when the value or the assignment is rejected, its fields, extras and fields set are as they were (an after function around the whole model runs once the assignment is done). Frozen instances and frozen fields reject every assignment, names which are not fields are accepted only where extras are allowed; on success exactly the named field holds the validated value (an extra without a schema the value as given), all other attributes keep their values and only that name joins the fields set',
     ['inputs', 'histories'], 'every schema of a model or dataclass, every sequence of assignments, names and values, valid or not',
     'a partial change shows only when a later step of the same assignment fails, and a lost attribute only in a later read of another name',
     ['src/validators/model.rs', 'src/validators/model_fields.rs', 'src/validators/dataclass.rs', 'src/validators/function.rs', 'src/validators/definitions.rs'],
     [('assignment', 'Validator::validate_assignment in src/validators/{model,model_fields,dataclass,function,definitions}.rs'), ('instances', 'force_setattr, dataclass_to_dict')],
     'effect and alias analysis of every change of a Python object reachable from the argument, ordered against nested validations on all paths; decision table over frozen, known name and extra behaviour; provenance of keys and values stored',
     'aliases by provenance (a copy() or a new dict ends aliasing), order by reachability under the assumption that a nested validation fails; user code run by validators can change the instance itself and is not followed. ' + TRUST)

prop('C20', 'Composite values: every part is accounted for, as value, default or error',
     'With partial validation off, a composite validator (list, tuple, set, dict, typed dict, model fields, dataclass arguments, call arguments) succeeds only if each of its parts is valid, and then each part is in the output: every line error of an invalid part of the input is reported with those of the other parts, what is in the input is validated, and what is missing takes its default or, where there is none, is reported. Keys which are no field of a model or typed dict are kept, reported or dropped exactly as its extra behaviour says, and the fields set of a model are the fields which were given, not those which took their default.',
     ['inputs', 'configurations'], 'every composite schema, every input, with any number of parts missing, failing and in excess, in any combination and order',
     'which part is lost depends on the combination of failures, missing parts and options, and a container which drops an error still succeeds on all valid inputs',
     ['src/validators/model_fields.rs', 'src/validators/typed_dict.rs', 'src/validators/dataclass.rs', 'src/validators/arguments.rs', 'src/validators/arguments_v3.rs', 'src/validators/dict.rs', 'src/validators/tuple.rs', 'src/input/return_enums.rs'],
     [('fields', 'ModelFieldsValidator::validate, TypedDictValidator::validate, DataclassArgsValidator::validate and their ValidateToModelExtra / ValidateToTypedDict visitors'), ('arguments', 'ArgumentsValidator::validate, ArgumentsV3Validator'), ('items', 'validate_iter_to_vec, validate_iter_to_set in src/input/return_enums.rs, TupleValidator, ValidateToDict in src/validators/dict.rs')],
     'conditional constant propagation per part of a composite (each nested validate, default_value and lookup) under each of its outcomes along all paths to every exit: errors collected, value stored, default asked for; outcome of each composite while errors are collected; decision table of extra keys',
     'each nested validation, default and lookup of each composite followed under each outcome on the compiled intermediate representation, loops included; the part stored under the wrong name is not decided. ' + TRUST)

prop('C13', 'Defaults are fresh, validated when asked and stand in for missing values',
     'A default schema without a value (missing, PydanticUndefined, PydanticUseDefault, or an error with on_error="default") gives its default: the object itself if it is hashable and otherwise a new deep copy for every use, or the result of a new call of the factory, with the data validated so far (or an empty dict) if it takes data. The default is validated by the inner schema exactly when validate_default is on, validating it always ends, a reference to a definition has the default of the definition, and exclude_defaults compares with that same default. Default factories and functions see as data the very dict the fields validated so far were put into.',
     ['inputs', 'histories', 'configurations'], 'every default, factory and inner schema, used any number of times, by every kind of field',
     'a shared mutable default or a cached factory result shows only in a later use; invalid defaults, missing defaults and references are rare combinations',
     ['src/validators/with_default.rs', 'src/serializers/type_serializers/with_default.rs', 'src/validators/definitions.rs', 'src/serializers/type_serializers/definitions.rs', 'src/validators/model_fields.rs', 'src/validators/typed_dict.rs', 'src/validators/dataclass.rs'],
     [('default', 'DefaultType::default_value, WithDefaultValidator::{build,validate,default_value}'), ('exclude_defaults', 'TypeSerializer::get_default'), ('data', 'rebind_extra in the fields validators')],
     'conditional constant propagation over kind of default x copy x validate x outcomes of hash and validation, provenance of the result over the feasible part of the graph; termination by the call graph on the same validator; alias analysis of the data dict',
     'decision tables of DefaultType::default_value, WithDefaultValidator and get_default; result provenance; no cycle through the same validator; one dict for data and fields in the three kinds of fields. Where defaults are asked for is C20. ' + TRUST)

prop('C03', 'Partial validation ignores errors of the last element only',
     'With allow_partial, errors are dropped only for the value of the last item of a list, set, dict or typed dict, where that item is itself the last of everything around it; all other items, keys, required fields, defaults and the parts of tuples, models, dataclasses, arguments and definitions are validated as without allow_partial. Without allow_partial no error is dropped, and validators never leave a partial mode to others which was not in force before them.',
     ['inputs', 'configurations'], 'every input and schema, every position and depth of an invalid part, with and without partial mode',
     'whether an error is dropped depends on the mode the parts before it left in the validation state, and on the position of every enclosing container',
     ['src/validators/validation_state.rs', 'src/input/return_enums.rs', 'src/validators/dict.rs', 'src/validators/typed_dict.rs', 'src/validators/tuple.rs', 'src/validators/model_fields.rs', 'src/validators/dataclass.rs', 'src/validators/arguments.rs', 'src/validators/arguments_v3.rs'],
     [('mode', 'ValidationState::allow_partial'), ('last item', 'EnumerateLastPartial in src/validators/validation_state.rs, last_key of typed dicts'), ('containers', 'validate_iter_to_vec, validate_iter_to_set, ValidateToDict, TypedDictValidator')],
     'typestate of the partial mode: conditional constant propagation of every write of the mode and reachability between writes, nested validations and collected errors, for the last part and for any other',
     'every nested validation of a composite: mode in force when the part is last and when not; errors dropped only where the mode is in force; decision table of the last-item iterator. Entry points are in C04, restoring between alternatives in C14. ' + TRUST)

prop('C90', 'JSON produced by to_json parses back to the same value',
     'For values of types whose JSON form is lossless, validate_json(to_json(x)) equals x in the default configuration.',
     ['inputs'], 'every value of every schema', 'values are unbounded',
     ['src/serializers/infer.rs', 'src/input/input_json.rs'], [('json', 'infer_serialize, jiter')],
     na='relates the concrete text written by serde_json/ryu to the values read back by jiter for all values: an equation over runtime numbers and texts with no static argument in reach; the parts that are code structure (dispatch per type, filters, error forms) are C05, C07, C09')
prop('C91', 'Texts of dates, times, durations, URLs, UUIDs and decimals are read correctly',
     'A text accepted for a date, time, duration, URL, UUID, decimal or integer denotes, by the standard of its format, the value that validation returns, and each valid text is accepted.',
     ['inputs'], 'every text', 'texts are unbounded',
     ['src/input/datetime.rs', 'src/validators/url.rs', 'src/validators/uuid.rs', 'src/validators/decimal.rs', 'src/input/shared.rs'], [('parsing', 'speedate, url, uuid, decimal.Decimal')],
     na='parsing is done by third-party crates over concrete characters; that a grammar over unbounded texts is implemented correctly is not decidable from dataflow or the syntax tree')
prop('C92', 'Arithmetic of constraints is exact',
     'multiple_of, max_digits and decimal_places, and the split of a timedelta, are exact for every number.',
     ['inputs'], 'every number', 'numbers are unbounded',
     ['src/validators/float.rs', 'src/validators/int.rs', 'src/validators/decimal.rs', 'src/input/datetime.rs'], [('arithmetic', 'Int::rem, decimal digits, EitherTimedelta')],
     na='numeric facts over unbounded or floating-point values (rounding, overflow): needs a solver or execution, i.e. another family; which comparison is made and what it reports is C06')
prop('C93', 'Validation and serialization take time linear in the size of input',
     'Time and memory of validate and serialize are bounded by the size of the input times a constant of the schema.',
     ['inputs', 'histories'], 'every input size', 'tests sample small sizes',
     ['src/validators', 'src/serializers'], [('loops', 'all')],
     na='a cost bound over runtime sizes and third-party parsers; no sound static cost analysis for this Rust/PyO3 code is available offline, and smart unions are exponential in nesting by design')
