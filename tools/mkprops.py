#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and diffable)."""
import json, pathlib
CV="databind/src/databind/json/converters.py"; CO="databind/src/databind/core/converter.py"; CX="databind/src/databind/core/context.py"
MP="databind/src/databind/core/mapper.py"; SC="databind/src/databind/core/schema.py"; ST="databind/src/databind/core/settings.py"
UN="databind/src/databind/core/union.py"; DC="databind/src/databind/core/dataclasses.py"; JM="databind/src/databind/json/module.py"
JS="databind/src/databind/json/settings.py"; JI="databind/src/databind/json/__init__.py"; UT="databind/src/databind/core/utils.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":list(obs) or ["the value returned or the exception raised by load()/dump() (ObjectMapper.deserialize()/serialize())"],"hook_needed":None}})
p("C01","A loaded value is an inhabitant of the declared type",
  "Whenever loading a payload as a type succeeds, the result is a value of that type, recursively: a plain type yields exactly that Python type (an int for int, never a bool or float), collections, tuples and mappings yield the declared kind with well-typed items, keys and values (an abstract collection or mapping type, or one that cannot be made from its items such as defaultdict, yields a list or dict), a dataclass, named tuple or typed dict yields an instance with all of its fields well typed, a union yields a value of one of its members, and enums and literals yield one of their members. This holds for every payload, also for payloads that are nothing like the type, with and without strict conversion.",
  ["inputs","programs"],"all types composable from the supported constructors and all payloads, in strict and non-strict mode",
  "The tests load a few well-formed payloads per type; soundness is about every payload, mostly malformed or confusable ones (bool vs int, str vs list of str, near-miss objects), at any nesting depth.",
  [CV,SC],[("adapter tables by exact source and target type",CV+": PlainDatatypeConverter"),("item, key and value conversion",CV+": CollectionConverter, MappingConverter"),("constructor call with converted fields",CV+": SchemaConverter.deserialize_from_schema")])
p("C02","Which scalar conversions are accepted, and their results",
  "Loading int, float, bool, str, bytes and Decimal accepts exactly the documented source types: by default the same type, plus int for float (the nearest float), integral floats for int, base64 text (what base64.b64decode reads) for bytes, and numeral text for Decimal; with strict conversion disabled also text that spells an int, float or boolean keyword (yes/true/on/enabled, no/false/off/disabled in any case), the textual form of int, float and bool for str, and numbers for Decimal. Everything else is refused, a float that is not integral is never taken for an int, the result equals the value denoted by the source, a Decimal is rounded to the Precision in effect, and dumping is always strict.",
  ["inputs","configurations"],"all scalar values (including huge, non-finite, negative-zero and malformed ones), all scalar target types, strictness and precision set globally, by annotation or not at all",
  "The tests sample about two values per type pair, none of the numeric edge cases, and no precision; the accept/refuse table and the values have to hold for every scalar.",
  [CV,ST],[("_strict_adapters/_nonstrict_adapters",CV+": PlainDatatypeConverter"),("_int_lossless, _bool_from_str",CV),("DecimalConverter",CV),("Precision.to_decimal_context",ST)])
p("C03","Dumping checks the value and yields pure JSON data",
  "Dumping a value as a type succeeds only if the value conforms to the type (recursively: a nested value of the wrong type, an instance of an unrelated class, or a tuple of the wrong length is refused, while any mapping is acceptable for a mapping type); the result then consists only of dict, list, str, int, float, bool and None, with the exception of what was typed as Any/object and of the members of a Literal that are bytes or enum members. In particular the result shares no mutable container with the dumped value.",
  ["inputs","programs"],"all types without Any whose mapping keys are scalars, all values conforming and non-conforming at any position",
  "Tests dump conforming values and compare; refusing every non-conforming value, at any depth, is universally quantified over values.",
  [CV],[("isinstance checks",CV+": CollectionConverter, EnumConverter, SchemaConverter.serialize_from_schema, StringifyConverter"),("exact type adapter lookup",CV+": PlainDatatypeConverter")])
p("C04","Load inverts dump",
  "For a value of a type whose parts are unambiguous (no best-match unions with overlapping members, no abstract collection types, no lossy date formats, no names shared by two enum members, no typed dict that lacks an Optional key), dumping it and loading the result with the same type and settings gives back an equal value of the same type, also after passing the dumped data through JSON text if its mapping keys are text, and dumping that again gives the same data. This includes dataclasses with aliases, defaults, flattened and remainder fields, discriminated unions, enums, optionals, generics and custom class-method converters, in any combination.",
  ["inputs","programs","configurations"],"all unambiguous types, all their values, with default serialization on or off",
  "Tests check individual round trips of hand-picked classes; the guarantee is about every combination of features, where the bugs are in the interaction of two features.",
  [CV,SC,ST],[("serialize/deserialize pairs",CV),("Alias, Flattened, Remainder",CV+": SchemaConverter")])
p("C05","Every refusal is a ConversionError",
  "If a payload or value cannot be converted as the requested (well-formed) type, the conversion raises ConversionError or its subclass NoMatchingConverter and never any other exception; it terminates and yields no partial result. Only exceptions of user code (constructors, __post_init__, class methods, factories, custom converters) pass through, unchanged, and the message of a ConversionError can always be produced.",
  ["inputs","programs"],"all well-formed types and all payloads and values, including non-JSON Python objects, unhashable and non-string keys, unknown union members, extreme numbers",
  "Tests trigger about a dozen specific errors; the claim is that no input at all triggers an assertion, KeyError, TypeError, AttributeError or the like.",
  [CO,CV,CX],[("except ValueError -> ConversionError",CV),("Module.convert error collection",CO),("exception_safe_str",UT)])
p("C06","An error points at the offending element",
  "The context of a raised ConversionError leads from the root to the place that was refused: its chain of keys consists of the field names, item indices and mapping keys passed on the way (None for a step that stays at the same place, such as an Optional or union member), the first one being the root; its value is the value found there, its datatype the one expected there, and its direction the one of the call. The filename passed to the call is available in every context of the chain, a line and column only in the root (or where a converter gives them to the context that it spawns, with a file of its own or none), and the formatted trace of the error, which is part of its message, lists one line per element of the chain with its key ($ for the root, .name, [index], ^ for None), its datatype and, if known, its line and column, and names a file where it changes.",
  ["inputs","programs"],"all types and payloads with a single offending element at any depth, both directions, with or without a file name",
  "Only one existing test looks at an error location; the property quantifies over every position in every structure.",
  [CX,CO,CV],[("Context.spawn",CX),("format_context_trace",CX),("single error is re-raised",CO+": Module.convert")],obs=["ConversionError.context (key, value, datatype, direction, location, parent)","str(error)","format_context_trace(error.context)"])
p("C07","Missing keys: defaults, Optional, required",
  "When a key is absent from the payload, a field with a default or default factory takes that default (a factory is called anew for every load, so that no two loaded objects share it), an Optional field without a default becomes None (a key that a typed dict does not require and that is not Optional stays absent), and any other field makes the load fail. A Required annotation makes the key mandatory whatever the default and Required(False) makes it optional with None as the fallback; a key that is present is always used, whether or not its value is null or equal to the default.",
  ["inputs","programs"],"all dataclasses, named tuples and typed dicts with any combination of default, factory, Optional, Required and totality, and every subset of present keys",
  "The tests drop one key of a few classes; the rule is a table over every combination of default, factory, optionality and Required, for every subset of keys, at any nesting.",
  [SC,CV],[("convert_dataclass_to_schema, _is_required",SC),("Field.get_default",SC),("missing key branch",CV+": SchemaConverter.deserialize_from_schema")])
p("C08","Alias lookup and naming",
  "If a field has an Alias in effect, loading takes its value from the first of the aliases, in the order given, that is present in the payload and ignores the field's own name unless it is one of the aliases, and dumping writes it under the first alias; without an Alias the field's name is used for both. This holds at every nesting level, for flattened and inherited fields, and also when the alias comes from a global or conditional setting instead of an annotation.",
  ["inputs","programs","configurations"],"all alias lists, all payloads with any subset of the aliases and the own name present, in any key order",
  "Tests use single aliases, or one payload for a pair of aliases; precedence must hold for every subset and order of keys and wherever the alias comes from.",
  [CV,ST],[("_get_alias_setting",CV+": SchemaConverter"),("Alias",ST)])
p("C09","Extra keys are refused, allowed or reported exactly",
  "Loading an object that has keys which none of its fields uses fails unless a Remainder field takes them or an ExtraKeys setting in effect for that object allows them; when allowed, the result is the same as without these keys, and the recorder, if any, is called exactly once for that object, with exactly the set of unused keys and the context of that object. An ExtraKeys setting on a class or annotation governs that object only, not the objects nested in it; a global one governs all.",
  ["inputs","programs","configurations"],"all nestings of objects, all sets of extra keys at each level, ExtraKeys given globally, on a class, on an annotation, or not at all, with all priorities",
  "The tests cover one object with one extra key for each setting; the claim covers every subset of keys over nested objects, aliased and flattened fields.",
  [CV,ST],[("used_keys/unused_keys",CV+": SchemaConverter.deserialize_from_schema"),("ExtraKeys.inform",ST)],obs=["result of load()","calls of the recorder: context key path and key set"])
p("C10","Flattened and Remainder fields neither lose nor duplicate keys",
  "The keys of an object with flattened fields are those of its own fields and of the fields of its flattened fields (to any depth), on the same level; a Remainder field receives exactly the keys that no other field uses (none: an empty mapping). Loading hands every key to exactly one of them, dumping writes each of them exactly once, and a clash between remainder or flattened keys and other fields while dumping is an error instead of a silent overwrite, as is a remainder key that loading would hand to another field.",
  ["inputs","programs"],"all class nestings with flattened fields (also nested, aliased, optional sub-fields, sub-classes with a Remainder), all payloads over their keys",
  "Tests cover one level of flattening with all keys present; conservation is a statement about every payload and nesting.",
  [CV,SC],[("get_fields_expanded",SC),("_extract_fields, remainder handling",CV+": SchemaConverter")])
p("C11","Which setting is in effect",
  "Of all settings of a kind that apply to a value, the one with the highest priority is in effect; among equal priorities the order is: annotation of the type, class decorator, settings passed with the call, then the mapper's local (per type), conditional/provider and global settings, each in the order in which they were added. A class setting applies to exactly the class it decorates (not to subclasses or base classes), a local setting to exactly the type it was added for, and a conditional setting only where its predicate holds.",
  ["inputs","configurations","histories"],"all multisets of settings over the sources with all priorities and all orders of registration, at every position of a nested type",
  "Tests check one or two pairs of sources; precedence is a total order over every combination of source, priority and order of addition.",
  [ST,MP],[("Settings.get_setting",ST),("get_highest_setting, get_class_settings",ST),("ClassDecoratorSetting.__call__",ST),("per-call settings",MP+": ObjectMapper.convert")],
  [("global_settings, local_settings, providers","settings of a mapper",ST+": Settings")],obs=["settings observed by a converter through Context.get_setting()","effect on load()/dump()"])
p("C12","Discriminated unions: shape and member selection",
  "A union in nested, flat or keyed style dumps a value as its member type (the first type ID registered for exactly the type of the value) in the shape of the style: the discriminator key with the type ID next to the data under the nesting key (by default the type ID), merged into the data, or the type ID as the only key. Loading accepts exactly that shape and yields the member denoted by the type ID, never another one; an unknown or missing type ID, a missing nesting key or more than one key in the keyed style is refused.",
  ["inputs","programs","configurations"],"all member tables, styles, discriminator and nesting keys, all payloads and values (member, non-member, subclass of a member)",
  "The tests use one or two unions per style with valid payloads; shape and selection must hold for every table, key and malformed payload, and inside other structures.",
  [CV,UN,ST],[("UnionConverter",CV),("StaticUnionMembers",UN),("Union",ST)])
p("C13","Plain unions and Optional take the first member that fits",
  "A plain union of members with distinct class names, or a union in best-match style, loads and dumps with the first member, in the order declared, whose own conversion succeeds, and the result is exactly what that member produces; it fails if and only if every member fails. Optional maps None to None in both directions and otherwise behaves exactly like the type without None.",
  ["inputs","programs"],"all unions of distinct concrete member types in any order, nested in any structure, all payloads and values",
  "Tests try a union of two members with two payloads; first-match has to hold for every order and every overlapping pair of members.",
  [CV],[("Union.BEST_MATCH branch of UnionConverter.convert",CV),("OptionalConverter",CV)])
p("C14","Converters are consulted in registration order",
  "A mapper consults its converters one by one in the order of registration (first=True puts one in front; a module stands for its converters, at its position), for every nested value anew; the first that returns a value decides the result and no later one is consulted, NotImplementedError passes on to the next, a ConversionError is remembered and passes on as well, and any other exception ends the conversion at once. If none returns a value, a single remembered error is raised as it is, otherwise NoMatchingConverter with the remembered errors in order, and with none if no converter applies.",
  ["histories","programs","inputs"],"all registration histories (append, prepend, nested modules) and all outcomes of each converter, including converters that recurse",
  "The tests never register more than a few well-behaved converters; the dispatch rules quantify over every sequence of registrations and outcomes.",
  [CO,MP],[("Module.register, get_converters, convert",CO)],[("Module.converters","ordered converters",CO)],obs=["sequence of converter invocations","value or exception of the conversion"])
p("C15","Custom converters for a type",
  "A JsonConverter attached to a class or annotation (or given as a local, conditional or global setting) is consulted before all built-in converters for the values it applies to, in both directions and inside any structure, for the class itself but not for its subclasses; if it declines, the built-in conversion is used. With class methods, dumping refuses values that are not instances of the type and otherwise returns what the method returns, loading refuses values not of the declared serialized type, and a direction without a method falls back to the built-in conversion.",
  ["inputs","programs","configurations"],"all combinations of methods and serialized types, all placements of the setting, all payloads and values",
  "Tests use one class per variant at the root; the override has to win in every position and configuration.",
  [JM,JS,CO],[("JsonConverterSupport.get_converters",JM),("JsonConverter",JS),("DelegateToClassmethodConverter",CO)])
p("C16","The schema of a type is that of its constructor",
  "The fields of a dataclass, with their types, defaults and optionality, are those the class really has: inherited fields come from the base that Python's own dataclass uses, redeclared fields override them, type parameters are substituted along the whole chain of generic bases, forward references are resolved in the module that contains the declaring class, and fields that are not constructor arguments are left out. Typed dicts take the totality of the class that declares the key; loading a payload written in terms of these fields always yields a correctly typed instance.",
  ["programs"],"all class hierarchies: depth, diamonds, overriding, generic bases with renamed, swapped, nested or fixed parameters, forward references, equal class names in different modules, typed dict inheritance",
  "Each test checks one hand-written hierarchy; the algorithm has to be right for every program.",
  [SC],[("convert_dataclass_to_schema",SC),("convert_typed_dict_to_schema",SC)],obs=["fields of convert_to_schema(type)","load()/dump() of instances"])
p("C17","Date and time formats",
  "Loading date, time and datetime accepts text if and only if one of the formats in effect that is applicable to the type parses it, the result being that of the first such format; dumping uses the first format that can represent the value. The format is taken from the DateFormat in effect (annotation, local, global) and is ISO 8601 otherwise, values written with it load back equal, including time zone and microseconds as far as the format has them, and date, time and datetime are never mistaken for one another.",
  ["inputs","configurations"],"all lists of formats (strings, built-in sets, format objects) for the three types, all values and texts",
  "Tests parse one text per type with one format; order of formats and applicability are statements about every list of formats and every text.",
  [ST,CV],[("DateFormat.parse, DateFormat.format",ST),("DatetimeConverter",CV)])
p("C18","The dataclass wrapper is a drop-in with free field order",
  "A class decorated with databind's dataclass behaves like one decorated with the standard decorator with the same options (arguments, defaults, factories, equality, order, frozen, slots, keyword-only, init=False, InitVar, ClassVar, inheritance, __post_init__), except that fields without a default may follow fields with one. Omitting an argument without a default raises TypeError before __post_init__ runs, no field is ever left holding a placeholder, and loading such a class treats these fields as required.",
  ["programs","inputs"],"all sequences of fields and decorator options, all inheritance chains mixing both decorators, all argument subsets",
  "There is no existing test that constructs such classes systematically; the claim is equivalence to the standard decorator over all class bodies.",
  [DC],[("_process_class",DC),("__post_init__ wrapper",DC)],obs=["construction, repr, equality, fields() of instances","load()/dump()"])
p("C19","Union member registries are consistent maps",
  "At any point of any history of registrations, looking up a type ID returns the type most recently registered for it, looking up a type returns the first ID (in order of first registration) that currently denotes it, and the list of IDs contains exactly the registered ones in that order; an unknown ID or type raises ValueError. A deferred member (a function) denotes what the function returns and is evaluated at most once per registration, and not before it is needed; a chain of registries answers with the first delegate that knows the answer, and importable members map a global class to its qualified name and back. Lookups that run at the same time in different threads each answer as they would alone.",
  ["histories"],"all histories of registrations, re-registrations, removals and lookups over static, deferred, import and chained members",
  "Tests make one registration and one lookup per kind; consistency is a property of histories.",
  [UN,ST],[("StaticUnionMembers, ImportUnionMembers, ChainUnionMembers",UN),("Union.register",ST)],[("members","registered member types",UN+": StaticUnionMembers")],obs=["get_type_by_id, get_type_id, get_type_ids of the members object","calls of deferred members"])
p("C20","Annotations that do not concern a value change nothing",
  "Wrapping a type anywhere in a structure in Annotated with metadata that the conversion of that type does not use (unrelated settings, strings, other objects), or nesting and splitting such annotations, does not change the outcome of loading or dumping, including success or failure. The annotation settings of an Optional type take effect on its value exactly as if they were placed on the type inside.",
  ["programs","inputs"],"all types and positions, all unrelated metadata, all payloads and values",
  "Tests use annotations where they are meant to be used; transparency has to hold for every type constructor and position.",
  [CV,CO],[("_unwrap_annotated",CV),("OptionalConverter",CV),("DelegateToClassmethodConverter",CO)])
p("C21","Mappers and settings are isolated from their copies",
  "After copying a mapper or a settings object, neither sees any change made to the other afterwards (converters registered; global, local, conditional settings and providers added), while both behave identically before such a change. Settings passed with a call affect that call only, nothing one mapper does affects another mapper or the module-level load and dump functions, and settings with a parent see later changes of the parent.",
  ["histories"],"all histories of copying, adding settings, registering converters and converting over several mappers",
  "Tests make no copies after changes; isolation is a property of histories of interleaved changes and conversions.",
  [MP,ST,JI],[("ObjectMapper.copy, ObjectMapper.convert",MP),("Settings.copy",ST),("get_object_mapper",JI)],[("module.converters, settings","state of a mapper",MP)])
p("C22","Conversions are pure: repeatable, re-entrant and concurrent",
  "The outcome of a conversion depends only on its arguments and the configuration of the mapper: it does not modify the payload or value it is given, does not depend on earlier conversions (successful or failed) with the same or other types, is the same when repeated, and conversions that run concurrently in several threads or inside one another, interleaved in any way, each have the outcome they would have alone.",
  ["histories","schedules"],"all sequences and all interleavings, at the granularity of calls into user code, of conversions with shared mappers, types and payloads",
  "The tests run each conversion once, in one thread, on a fresh payload.",
  [MP,CO,CX,CV],[("Context per conversion",CX),("no state in converters",CV),("fresh mapper",JI)],obs=["results of all conversions","projection of the arguments before and after","events of converters, constructors and recorders"])
p("C23","Omission of defaults",
  "By default every field is dumped. With SerializeDefaults(False) in effect for an object, a field is omitted if and only if it has a default or default factory and its value equals that default (unless loading demands the field or it is the Remainder field), whatever its alias, and this applies to exactly the objects for which the setting is in effect: a global one to all, one on an annotation to that object only; loading the shortened data gives back an equal object.",
  ["inputs","programs","configurations"],"all classes with any mix of defaults and factories, all values equal or unequal to the defaults (also equal but of another type), all nestings and placements of the setting",
  "One test covers one class with one default; the rule is over all value/default combinations and nestings.",
  [CV,ST],[("serialize_defaults",CV+": SchemaConverter.serialize_from_schema"),("Field.get_default",SC)])
p("C24","Enums and literals",
  "An enum member dumps as its first alias if it has one, else its name, and an IntEnum member as its number; loading accepts exactly the names and aliases of members (aliases first) or, for IntEnum, the numbers, and refuses members and names of other enums. A Literal accepts exactly the listed values, comparing both type and value, and returns them unchanged in both directions.",
  ["inputs","programs"],"all enum definitions (aliases that equal other names, duplicate values, mixed numbering), all literal sets, all payloads and values",
  "Tests use one enum with one alias and one literal; the tables quantify over definitions and payloads.",
  [CV],[("EnumConverter",CV),("LiteralConverter",CV)])
p("C25","Element types of collections and mappings",
  "Every item of a collection, every key and every value of a mapping is converted with the element type that the declared type has, whether given directly or through user-defined (generic) subclasses of collections and mappings; order and multiplicity are preserved as far as the collection kind does. A fixed-length tuple requires exactly its number of items, each converted with its own type; text, bytes and mappings are not accepted when loading collections, nor anything but mappings for mappings, and a collection type without an element type is refused.",
  ["inputs","programs"],"all collection and mapping types and user-defined subclasses of them, all element types, all payloads",
  "Tests use list, set and dict of int; inference through class hierarchies and refusal of look-alikes is over all types and payloads.",
  [CV],[("recurse_bases, length check",CV+": CollectionConverter"),("key/value types",CV+": MappingConverter")])
p("C26","The text interface",
  "loads(text, T) has exactly the outcome of load(json.loads(text), T) and dumps(value, T) is JSON text that denotes exactly what dump(value, T) returns, keys in the same order: same value, or the same conversion error at the same place with the given filename, under the given settings (a list or a settings object). indent and sort_keys decide the layout and the order of keys in the text and nothing else.",
  ["inputs","programs","configurations"],"all types, all JSON texts, all values, all settings, filenames and layouts",
  "Tests call loads once or twice on a plain case; agreement is a statement over all inputs and arguments.",
  ["databind/src/databind/json/__init__.py"],[("load, loads, dump, dumps","databind/src/databind/json/__init__.py"),("ObjectMapper.convert","databind/src/databind/core/mapper.py")])
p("C27","Mappers assembled from configured converters",
  "The converters of databind.json work in any mapper: registered singly, in any order, in nested modules, with their options, a value is converted by the first one in order that supports its type, and by none if none was registered (a NoMatchingConverter). Options change only what they name: json_collection_type and json_mapping_type the classes of dumped containers and objects, strict_by_default=False and serialize_defaults=False the default of the Strict and SerializeDefaults settings (which still override it), convert_to_schema which classes are objects (also in flattened fields); a StringifyConverter dumps instances of its class and subclasses as text with its formatter, and loads text with its parser or the class itself, refusing results that are not instances of the declared type.",
  ["inputs","programs","configurations"],"all selections, orders and nestings of converters, all options, all types and payloads",
  "Tests only ever use the default JSON mapper; the options and orders are not exercised at all.",
  [CV,"databind/src/databind/json/module.py",SC],[("options of the converters",CV+": __init__ of each converter"),("get_fields_expanded",SC),("JsonModule, JsonConverterSupport","databind/src/databind/json/module.py"),("Module","databind/src/databind/core/converter.py"),("ObjectMapper","databind/src/databind/core/mapper.py")])
p("C28","Schemas describe what is loaded and dumped",
  "convert_to_schema() (and convert_dataclass_to_schema(), convert_typed_dict_to_schema()) of a dataclass or typed dict, plain, parametrized or annotated, lists exactly the fields that loading and dumping go by: those that the constructor takes, own and inherited (a redeclared one once, as the sub-class declares it), each with its type (forward references resolved where they were written, type parameters replaced by the arguments given on the way), whether it is required, its default or default factory (a redeclared field without a default keeps the inherited one), whether it is flattened, and its aliases; a field that is called required is one without which a payload is refused, and no other. The schema's type and constructor are the class, its annotations the metadata of the type given. get_fields_expanded() maps each flattened field to exactly the fields that are on the level of the object because of it, to any depth, and raises a RuntimeError if one of them has the name of another field. For any other type convert_to_schema() raises a ValueError. Asking again gives an equal schema and changes nothing.",
  ["programs"],"all class hierarchies of dataclasses and typed dicts (generic, forward references, several modules, diamonds, redeclared and flattened fields), all parametrizations and annotations",
  "Tests compare about ten schemas of hand-written classes; the description has to be right for every hierarchy, and agree with what conversions do.",
  [SC],[("convert_to_schema, convert_dataclass_to_schema, convert_typed_dict_to_schema",SC),("get_fields_expanded",SC),("_is_required, _is_flat",SC),("Field.aliases, Field.get_default",SC)],obs=["the Schema returned, its fields, type, constructor and annotations","the result of get_fields_expanded()"])
p("C29","DeserializeAs: the schema of another class",
  "Where a type is annotated with DeserializeAs(B), payloads load exactly as they would for B (a dataclass or typed dict, also a parametrized one): same outcome, same result, an instance of B, with the other settings on the annotation still in effect; dumping writes instances of B with all fields of B and loading that gives back an equal object; a B that has no schema is refused. This holds for every field, item, value or member so annotated, and for nothing else: other places of the same type and the sub-fields of B are converted as if the setting were not there. Of several, the one of the highest priority counts.",
  ["inputs","programs","configurations"],"all class hierarchies and targets, all placements of the setting (root, fields, items, values, optionals, unions), all payloads and values",
  "No test uses the setting; the equivalence with loading the other class is a statement over all types, placements and payloads.",
  [CV,ST],[("SchemaConverter._get_schema",CV),("DeserializeAs",ST)])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["id"]
print(len(P))
