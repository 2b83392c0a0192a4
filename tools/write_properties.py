"""Writes properties.jsonl (one place to keep the texts; run by hand)."""
import json
import os

SER = 'pydantic_xml/serializers/'
FAC = SER + 'factories/'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                     hook_needed=None),
    ))


TREE = ['Model.from_xml_tree(root) result or exception', 'tree returned by model.to_xml_tree()']

prop('C01', 'Writing a model and reading it back gives an equal model',
     "For every model whose fields are text, attributes, elements, sub-models, collections, tuples, mappings, "
     "unions or wrapped entities and every instance whose values XML can represent, reading the tree the instance is "
     "written to gives an equal instance, with either XML backend. Values XML can not tell apart (None, an absent "
     "entity, empty element text; an empty collection) are outside.",
     ['inputs', 'configurations'],
     "all field values (strings over the characters XML allows), collection sizes, models of every supported field kind",
     "the tests compare one sample document per feature; interaction of neighbouring fields, special strings and sizes "
     "is not reached",
     [FAC + 'model.py', FAC + 'primitive.py', FAC + 'mapping.py', FAC + 'homogeneous.py', FAC + 'heterogeneous.py',
      FAC + 'wrapper.py', FAC + 'union.py', FAC + 'tagged_union.py', 'pydantic_xml/element/element.py'],
     [('field by field write in declaration order', FAC + 'model.py ModelSerializer.serialize'),
      ('field by field read in declaration order', FAC + 'model.py ModelSerializer.deserialize')], TREE)

prop('C02', 'The search mode alone decides which sub-elements fields bind to',
     "In strict mode a field binds to the next unread sub-element only if the names are equal; in ordered mode to the "
     "first later one with its name, skipping others; in unordered mode to some not yet bound one with its name, "
     "wherever it is. A field without such an element gets its default or is reported missing, and reading never goes "
     "back, so no other element is bound.",
     ['inputs', 'configurations'],
     "all sequences of sub-elements (names and texts arbitrary) and all three search modes",
     "tests use one element order per mode; the rule quantifies over all orders, repetitions and foreign names",
     ['pydantic_xml/element/element.py', FAC + 'primitive.py', FAC + 'homogeneous.py'],
     [('strict_search / ordered_search / unordered_search', 'pydantic_xml/element/element.py'),
      ('read cursor of an element', 'pydantic_xml/element/element.py XmlElement.State')], TREE)

prop('C03', "extra='forbid' rejects exactly the documents with unread data",
     "A model that forbids extra inputs rejects a document if and only if some attribute or non-blank text of it is "
     "bound to no field. The error lists each such attribute or text exactly once, with the path of "
     "element names leading to it and its value; what a field consumed is never listed.",
     ['inputs', 'configurations'],
     "all documents within bounds: unknown attributes, texts, tails, sub-elements at any nesting level, in every search mode",
     "tests show a handful of extra entities; 'exactly the unread data' quantifies over every document",
     ['pydantic_xml/element/element.py', FAC + 'model.py'],
     [('get_unbound', 'pydantic_xml/element/element.py'), ('_check_extra', FAC + 'model.py'),
      ('pop_text / pop_tail / pop_attrib / pop_attributes', 'pydantic_xml/element/element.py')], TREE)

prop('C04', 'Names are qualified by the documented namespace rules, both ways',
     "An element name is qualified with the field's namespace alias, else the one of the sub-model, else the one of the "
     "enclosing model or wrapper, else the default namespace in scope; an attribute only with its own alias or, when the "
     "model namespaces attributes, the model's. The alias stands for the nearest declaration of it in the namespace maps "
     "in scope. Reading binds an entity only if namespace and local name both are equal, and writing emits the same name.",
     ['inputs', 'configurations'],
     "all namespace URIs and aliases, presence or absence of ns/nsmap at field, wrapper, sub-model and model level",
     "tests use fixed URIs in a few of the combinations of levels",
     ['pydantic_xml/utils.py', SER + 'serializer.py', FAC + 'primitive.py', FAC + 'model.py', FAC + 'mapping.py',
      FAC + 'wrapper.py', FAC + 'raw.py'],
     [('QName.from_alias / QName.uri', 'pydantic_xml/utils.py'), ('select_ns, merge_nsmaps', 'pydantic_xml/utils.py'),
      ('Context.parent_ns / parent_nsmap', SER + 'serializer.py')], TREE)

prop('C05', 'An undeclared namespace alias is refused when the model is defined',
     "When a model, field or wrapper names a namespace alias and namespace maps are in scope for it, defining the model "
     "succeeds if and only if one of these maps declares the alias; otherwise it fails with the library's model error, "
     "and a name is never silently left unqualified. The default namespace is an alias like any other for elements; "
     "attributes can not be put into it.",
     ['inputs', 'configurations'],
     "all alias strings, all namespace maps with up to two entries, at every place an alias can be given",
     "no test enumerates aliases against maps; the check happens at class creation in five places",
     ['pydantic_xml/utils.py', FAC + 'primitive.py', FAC + 'model.py', FAC + 'mapping.py', FAC + 'wrapper.py'],
     [('QName.from_alias', 'pydantic_xml/utils.py'), ('AttributeSerializer.from_core_schema', FAC + 'primitive.py')],
     ['exception raised by the class statement', 'names in the written tree'])

prop('C06', 'Entity names follow the documented precedence',
     "An element is named by the tag given for the field, else by the tag of the sub-model's class, else by the field's "
     "alias, else by the field's name; an attribute by its given name, else the alias, else the field's name; a root "
     "element by the class tag, else the class name. Reading and writing use the same name.",
     ['inputs', 'configurations'],
     "all name strings and every subset of the ways to give a name, for attributes, elements, sub-models, mappings, "
     "collections and raw elements",
     "tests fix one name source per case",
     [FAC + 'primitive.py', FAC + 'model.py', FAC + 'mapping.py', FAC + 'raw.py', 'pydantic_xml/fields.py',
      'pydantic_xml/model.py'],
     [('name selection in from_core_schema', FAC + '*.py'), ('prepare_field_kwargs', 'pydantic_xml/fields.py')], TREE)

prop('C07', 'xsi:nil stands for None exactly where it is declared',
     "Writing None to a nillable element (a primitive or a sub-model, not wrapped) gives an element with xsi:nil='true' and "
     "no text unless None is excluded, and a value that is not None never gives xsi:nil. Reading a nillable element, or a "
     "sub-model, that carries xsi:nil='true' gives no value whatever else the element contains: None or the default, and "
     "a required field is reported as missing. Any other value of that attribute leaves the element's value as it is.",
     ['inputs', 'configurations'],
     "all values of the nil attribute and of the text, nillable and not nillable fields, primitives and sub-models, both directions",
     "tests use the value 'true' only",
     ['pydantic_xml/element/utils.py', FAC + 'primitive.py', FAC + 'model.py'],
     [('is_element_nill / make_element_nill', 'pydantic_xml/element/utils.py')], TREE)

prop('C08', 'skip_empty omits exactly the empty entities',
     "With skip_empty, an element is omitted if and only if it would have no text, no attribute and no sub-element, None "
     "attributes are omitted, and every other entity is written exactly as without it. A setting on a model class overrides "
     "the argument for that model's fields.",
     ['inputs', 'configurations'],
     "all values (empty and non-empty strings, None, empty collections, empty sub-models), both settings at every level",
     "tests check one document per feature",
     [FAC + 'primitive.py', FAC + 'model.py', FAC + 'mapping.py', FAC + 'homogeneous.py', FAC + 'wrapper.py'],
     [('is_empty', 'pydantic_xml/element/element.py'), ('skip_empty branches of serialize', FAC + '*.py')], TREE)

prop('C09', 'exclude_none and exclude_unset omit exactly None and unset fields',
     "With exclude_none no entity is written for a value None and everything else is written as without it; with "
     "exclude_unset exactly the fields that were not set explicitly are left out, at every nesting level. Fields declared "
     "as excluded are never written and never change what the others write.",
     ['inputs', 'configurations'],
     "all subsets of fields set, None or valued, nested models, collections and tuples",
     "tests use single samples of each flag",
     [FAC + 'model.py', FAC + 'primitive.py', FAC + 'tagged_union.py', FAC + 'union.py'],
     [('ModelSerializer.serialize', FAC + 'model.py'), ('exclude_none branches', FAC + '*.py')], TREE)

prop('C10', 'A union takes the first member that fits and others leave no trace',
     "A union of models binds the next fitting element to the first member, in declared order, that validates; members "
     "tried before it consume nothing. If elements fit by name but no member validates, the error reports every member "
     "that was tried, and the rest of the document is read as if one element had been consumed.",
     ['inputs', 'configurations'],
     "all contents of the candidate elements, members with equal or different tags, unions inside collections, all search modes",
     "tests use documents where the failing members fail before consuming anything else",
     [FAC + 'union.py', 'pydantic_xml/element/element.py'],
     [('ModelSerializer.deserialize', FAC + 'union.py'), ('create_snapshot / apply_snapshot', 'pydantic_xml/element/element.py')],
     TREE)

prop('C11', 'A discriminated union is decided by the discriminating attribute alone',
     "A discriminated union binds an element to the member whose discriminator value equals the element's attribute, even "
     "if another member would accept the content, and binds nothing if no member matches. Writing gives the element of the "
     "instance's own member.",
     ['inputs', 'configurations'],
     "all attribute values, contents valid or invalid for each member, members with equal or different tags",
     "tests use the declared values only",
     [FAC + 'tagged_union.py'],
     [('ModelSerializer.deserialize', FAC + 'tagged_union.py')], TREE)

prop('C12', 'Collections keep every item, in document order',
     "In strict and ordered search mode a list, tuple, set or frozenset of elements, sub-models or tuples reads every "
     "consecutive matching element exactly once and in document order, in unordered mode every matching one exactly once; "
     "it is written as one element per item in order. An invalid item is reported under its "
     "index, all invalid items are reported, and the items around it are unaffected.",
     ['inputs', 'configurations'],
     "all numbers of items up to the bound, all item contents, valid or not, neighbouring fields",
     "tests use two or three fixed items",
     [FAC + 'homogeneous.py'],
     [('ElementSerializer.deserialize', FAC + 'homogeneous.py')], TREE)

prop('C13', 'Fixed-length and named tuples bind their items by position',
     "The items of a fixed-length or named tuple are read from and written to consecutive elements, each by its own "
     "position's type; a tuple none of whose items is present counts as absent. Repeating tuples in a collection take "
     "consecutive groups of elements, and an invalid item is reported under its position.",
     ['inputs', 'configurations'],
     "all item contents and presences, tuples of primitives and of sub-models, alone and in lists",
     "tests use one sample per shape",
     [FAC + 'heterogeneous.py', FAC + 'named_tuple.py', FAC + 'tuple.py', FAC + 'call.py'],
     [('ElementSerializer', FAC + 'heterogeneous.py')], TREE)

prop('C14', 'A wrapped field is bound at its path and nowhere else',
     "A wrapped field is read only from the entity at the end of the full path of wrapper elements, and is absent if any "
     "part of the path is. On writing, neighbouring fields with a common path prefix share the wrapper elements, the path "
     "is created once, and what is under a wrapper never leaks to another level.",
     ['inputs', 'configurations'],
     "all documents within bounds (wrappers present, missing, repeated, partially present), paths up to length three, "
     "all search modes",
     "tests use complete documents",
     [FAC + 'wrapper.py', 'pydantic_xml/element/element.py', 'pydantic_xml/fields.py'],
     [('find_sub_element / find_element_or_create / _look_behind', 'pydantic_xml/element/element.py'),
      ('ElementPathSerializer', FAC + 'wrapper.py')], TREE)

prop('C15', 'Mappings carry exactly the attributes of their element',
     "A mapping field reads every attribute of its element that no field declared before it consumed, name and value "
     "unchanged (local names when attributes are namespaced), and writing puts every pair on the element without "
     "disturbing attributes other fields write there. Values are encoded like any other primitive value; keys that are "
     "names of other fields' attributes, and None values when None is excluded, are outside.",
     ['inputs', 'configurations'],
     "all attribute names and values up to the bound, mapping on the model, on an element, in lists, typed mappings, "
     "next to attribute fields",
     "tests use fixed names and values",
     [FAC + 'mapping.py', FAC + 'typed_mapping.py', 'pydantic_xml/element/element.py', 'pydantic_xml/utils.py'],
     [('AttributesSerializer / ElementSerializer', FAC + 'mapping.py'), ('pop_attributes / set_attributes',
                                                                         'pydantic_xml/element/element.py')], TREE)

prop('C16', 'Raw elements pass through unchanged',
     "A raw element field holds the whole matched element: tag, attributes, text and all descendants with their texts and "
     "tails, equal to the document's; writing it puts the same subtree back. Nothing of it counts as unread, and "
     "nothing outside it is captured.",
     ['inputs', 'configurations'],
     "all subtrees within bounds, single and repeated raw fields, next to other fields",
     "tests use one fixed subtree",
     [FAC + 'raw.py', FAC + 'is_instance.py', 'pydantic_xml/element/native/std.py', 'pydantic_xml/element/native/lxml.py'],
     [('ElementSerializer', FAC + 'raw.py'), ('from_native / to_native', 'pydantic_xml/element/native/')], TREE)

prop('C17', 'Every validation error names the place of the offending value',
     "When reading fails, each reported error carries the path of field names (aliases where given), indices and union "
     "members from the root model to the offending value and the original error type, and every invalid nested value is reported exactly once. "
     "A valid value is never reported, and if no value is invalid or missing reading succeeds.",
     ['inputs', 'configurations'],
     "all subsets of invalid and missing values in nested models, collections, tuples, unions, wrapped fields and root models",
     "tests make one or two values invalid",
     ['pydantic_xml/utils.py', FAC + 'model.py', FAC + 'homogeneous.py', FAC + 'heterogeneous.py', FAC + 'union.py'],
     [('into_validation_error', 'pydantic_xml/utils.py'), ('field_errors', FAC + 'model.py')],
     ['ValidationError.errors()'])

prop('C18', 'Errors point at the source line of the element concerned',
     "With the backend that knows source lines, the line given in an error is that of the element the offending value was "
     "read from, and for a missing value that of the element it was expected in. With the other backend the line is -1.",
     ['inputs', 'configurations'],
     "all assignments of source lines to elements, all places an invalid or missing value can be at",
     "tests fix the layout of the document; equal names at different levels are not combined",
     ['pydantic_xml/utils.py', FAC + 'model.py', FAC + 'primitive.py', FAC + 'wrapper.py',
      'pydantic_xml/element/native/lxml.py'],
     [('set_validation_error_sourceline', 'pydantic_xml/utils.py'), ('sourcemap', FAC + '*.py')],
     ['ValidationError.errors()[i]["ctx"]["sourceline"]'])

prop('C19', 'Primitive values have one textual form',
     "In text, attributes, elements, mappings and computed fields alike None is written as empty, True and False as 'true' "
     "and 'false', and every other value as the string pydantic encodes it to, never altered. Reading hands "
     "the text or attribute value to validation unchanged; an empty element gives None, or the empty string if "
     "empty_as_string is set.",
     ['inputs', 'configurations'],
     "all strings XML can carry, booleans, None and integers at every place a primitive can be",
     "tests use fixed sample values",
     [SER + 'serializer.py', FAC + 'primitive.py', FAC + 'mapping.py'],
     [('encode_primitive', SER + 'serializer.py'), ('TextSerializer.deserialize', FAC + 'primitive.py')], TREE)

prop('C20', 'A document with another root element is refused',
     "Reading a document whose root element's qualified name differs from the model's fails with the library's parsing "
     "error whatever the content, and one with the model's qualified name never fails that way. No validator runs before "
     "that decision.",
     ['inputs', 'configurations'],
     "all root names and namespaces, models with and without tag and namespace",
     "tests use one wrong name",
     ['pydantic_xml/model.py'],
     [('from_xml_tree', 'pydantic_xml/model.py')], ['exception of Model.from_xml_tree'])

prop('C21', 'Both XML backends give the same result',
     "For the same document the two supported XML backends give equal models or the same errors (source lines aside), and "
     "for the same instance equal trees. Comments and processing instructions in a document change nothing.",
     ['inputs', 'configurations'],
     "all documents within bounds including comments and processing instructions anywhere between texts and elements",
     "each test run uses one backend and compares with fixed expectations",
     ['pydantic_xml/element/native/std.py', 'pydantic_xml/element/native/lxml.py'],
     [('from_native / to_native', 'pydantic_xml/element/native/')], TREE)

prop('C22', 'Computed fields are written and never read',
     "A computed attribute, element or text is written after the fields with the value of the property at the time of "
     "writing, under its own name and namespace. Reading neither consumes nor requires an entity for it, so it never "
     "affects other fields.",
     ['inputs', 'configurations'],
     "all values, all kinds of computed entities, documents with and without entities of that name",
     "tests read documents without looking at what neighbouring fields bind",
     ['pydantic_xml/fields.py', FAC + 'model.py', FAC + 'primitive.py'],
     [('computed_entity', 'pydantic_xml/fields.py'), ('field_computed', SER + 'serializer.py')], TREE)

prop('C23', 'Custom XML validators and serializers replace the default for their field',
     "A custom XML validator or serializer, given as decorator or annotation and also when inherited, is used for its "
     "fields and only for them; an overriding one replaces an inherited one. Fields annotated as not being XML take no "
     "part in reading or writing.",
     ['inputs', 'configurations'],
     "all documents and values within bounds, decorator and annotation forms, inheritance with and without overriding",
     "tests use one class each without neighbours that could be affected",
     ['pydantic_xml/model.py', 'pydantic_xml/fields.py', FAC + 'model.py'],
     [('_collect_xml_field_serializers_validators', 'pydantic_xml/model.py'),
      ('xml_field_validator / xml_field_serializer', 'pydantic_xml/fields.py')], TREE)

prop('C24', 'Reading and writing change neither the document nor the model',
     "Reading leaves the document tree as it was and writing leaves the model as it was; both give the same result when "
     "repeated, in any order and whatever was read or written before with the same model classes, including reads that "
     "failed. The result shares no mutable state with the document or an earlier result.",
     ['inputs', 'histories'],
     "all documents and instances within bounds, sequences of up to three reads and writes",
     "tests read each document once",
     ['pydantic_xml/element/element.py', 'pydantic_xml/element/native/std.py', 'pydantic_xml/element/native/lxml.py',
      FAC + 'model.py'],
     [('XmlElement.__init__ copies', 'pydantic_xml/element/element.py'), ('create_snapshot', 'pydantic_xml/element/element.py')],
     TREE)

prop('C25', 'Class settings are inherited and overridden per setting',
     "A subclass takes every XML setting it does not give (tag, namespace, search mode, attribute namespacing, skipping of "
     "empty elements) from its base class, its namespace map extends and overrides the base's, and the base and sibling "
     "classes are not affected. Parametrised generic models and models created dynamically behave as the same class "
     "written out.",
     ['inputs', 'configurations'],
     "every subset of settings given at base and subclass, with arbitrary names, namespaces and settings",
     "tests override one setting at a time",
     ['pydantic_xml/model.py'],
     [('__init_subclass__', 'pydantic_xml/model.py'), ('create_model', 'pydantic_xml/model.py')], TREE)

prop('C26', 'The validation context and options reach every nested level',
     "The validation context given to reading is the one every validator sees, at every nesting level and for every kind of "
     "field, and the empty-as-string option and the writing options apply equally at every nesting level.",
     ['inputs', 'configurations'],
     "all kinds of nesting (sub-model, collection, tuple, union, wrapped, root model) with arbitrary values",
     "tests pass the context one level deep",
     [FAC + 'model.py', FAC + 'homogeneous.py', FAC + 'heterogeneous.py', FAC + 'union.py', FAC + 'tagged_union.py',
      FAC + 'wrapper.py'],
     [('context / empty_as_string parameters', FAC + '*.py')], ['context seen by validators', 'read and written values'])

prop('C27', 'hide_input_in_errors keeps input values out of error texts',
     "If the model that is read hides inputs, by its own or an inherited setting, the text of the error never contains an "
     "input value, at whatever depth and through whatever kind of field the value was read (the tag of a discriminated "
     "union aside, which the validator's message quotes). Without the setting the inputs are shown; the texts are the same "
     "but for the inputs.",
     ['inputs', 'configurations'],
     "all invalid values, all kinds of nesting, extra data errors included",
     "tests check one nesting with one value",
     ['pydantic_xml/utils.py', FAC + 'model.py', FAC + 'homogeneous.py', FAC + 'heterogeneous.py', FAC + 'union.py'],
     [('hide_input parameters', 'pydantic_xml/utils.py')], ['str(ValidationError)'])

prop('C28', 'Namespace maps of models are registered and emitted faithfully',
     "Every prefix of a namespace map declared for a model, field, wrapper or computed field is registered for output with "
     "its own URI exactly when it is neither the default prefix nor one of the form the XML library reserves "
     "(registration is on by default). With the backend that keeps declarations, every written element has exactly the prefix "
     "declarations of the maps in scope for it, a nearer declaration of a prefix winning over a farther one.",
     ['inputs', 'configurations'],
     "all prefixes and URIs up to the bound",
     "tests use fixed prefixes and none near the reserved form",
     ['pydantic_xml/utils.py', 'pydantic_xml/fields.py', 'pydantic_xml/model.py', 'pydantic_xml/element/native/lxml.py'],
     [('register_nsmap', 'pydantic_xml/utils.py'), ('merge_nsmaps', 'pydantic_xml/utils.py')],
     ['calls to register_namespace', 'nsmap of written lxml elements'])

prop('C29', 'Type checker plugin gives fields the parameters the runtime has',
     "For every declaration of a field the type checker plugin decides as the runtime does whether the constructor "
     "argument is required, under which alias it is given, and whether the field is strict or frozen; entities given "
     "inside wrapped() count like the ones given directly. Declarations that are no XML field specifier are left to "
     "pydantic's plugin.",
     ['programs', 'inputs'],
     "all declarations attr/element/wrapped (nested up to the bound)/Field/computed_entity with every combination of the "
     "arguments default, default_factory, alias, validation_alias, strict, frozen and every kind of argument expression",
     "no test runs the plugin",
     ['pydantic_xml/mypy.py'],
     [('PydanticXmlModelTransformer, XmlPydanticPlugin', 'pydantic_xml/mypy.py')],
     ['results of the plugin hooks for syntax trees of the type checker'])

prop('C30', 'The string form of a model is its tree form, both ways',
     "Writing a model to a string gives what the XML library serialises its tree form to, written with the same options, "
     "and the string parses back to that very tree (every qualified name kept, whatever default namespaces and prefixes "
     "are declared around it). Reading a string gives the same model or error as reading the tree the XML library "
     "parses it to, with the same context and options; parser and serialiser arguments are passed on as given.",
     ['inputs', 'configurations'],
     "all instances and documents within bounds, every combination of the options, any namespace maps at model, sub-model, "
     "field and wrapper",
     "tests compare fixed documents with one set of options, and namespaces declared at one level",
     ['pydantic_xml/model.py', 'pydantic_xml/element/native/lxml.py', 'pydantic_xml/element/native/std.py'],
     [('from_xml / to_xml', 'pydantic_xml/model.py'), ('to_native', 'pydantic_xml/element/native/lxml.py')],
     ['Model.from_xml, model.to_xml'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
