#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property list kept as readable source)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
S='structured/serializers/'; H='structured/hint_types/'; ST='structured/structured.py'
prop('C01','Packing and unpacking follow the documented wire layout',
 "For every class built from the documented hint types, packing writes exactly the documented layout and unpacking reads exactly that layout: attributes in declaration order, consecutive basic attributes as one struct format (native alignment gaps only between them and only under the native byte orders, pads zeroed), and every other attribute back to back in its documented encoding.",
 ['inputs','programs'], 'every class shape x every representable value, in both directions',
 'Tests pin a few hand-written classes with one value each; combinations of alignment, grouping, nesting and zero-length or boundary-length pieces are unbounded.',
 [S+'structs.py',S+'api.py',S+'arrays.py',S+'strings.py',S+'tuples.py',S+'structured.py',H+'basic_types.py'],
 [('struct folding of consecutive basic fields',S+'structs.py fold_overlaps / StructSerializer.__add__'),('chaining with running offsets',S+'api.py CompoundSerializer'),('array and string encodings',S+'arrays.py, '+S+'strings.py')],
 observe=['Structured.pack','Structured.create_unpack'])
prop('C02','Unpacking packed bytes gives the object back',
 "For every object whose attribute values its hints can represent, unpacking the bytes it packs to yields an equal object whose values have the documented Python types (int, bool, float, bytes, str, list, tuple, nested class, custom class), and packing that object again yields the same bytes. Only the documented losses are allowed: static and pascal strings pad or cut to their length, a terminator ends a terminated string, unicode drops trailing NULs.",
 ['inputs','programs'],'every class shape x every representable value',
 'The test suite round-trips a fixed list of values for each type; lossless-ness is a statement about all values and compositions.',
 [ST,S+'structs.py',S+'arrays.py',S+'strings.py',S+'unions.py',S+'tuples.py',S+'conditional.py'],
 [('pack/unpack pairs of every serializer',S+'*.py'),('attribute assignment order',ST+' unpack / _Proxy')],
 observe=['Structured.pack','Structured.create_unpack','Structured.__eq__'])
prop('C03','All pack and unpack entry points agree',
 "Packing to bytes, into a buffer at any offset and to a file produce the same bytes for the same object; unpacking from bytes, from any buffer type at any offset and from a file, in place or creating a new object, produce the same values from the same data. When one entry point rejects the object or data, all of them do.",
 ['inputs','programs'],'every class shape x value/data x offset x buffer kind (bytes, bytearray, memoryview) x file position',
 'Each serializer implements six methods separately; tests exercise all six only for a few types, at one offset and with bytes/bytearray of exact length.',
 [ST,S+'api.py',S+'structs.py',S+'arrays.py',S+'strings.py',S+'unions.py',S+'tuples.py',S+'conditional.py',S+'structured.py'],
 [('three packers and three unpackers per serializer',S+'*.py'),('in-place and creating variants',ST)],
 observe=['pack','pack_into','pack_write','unpack*','create_unpack*'])
prop('C04','Operations touch and consume exactly their own bytes',
 "Packing into a buffer changes only the bytes of the record at its offset; packing to a file appends exactly the record and leaves the position right after it; unpacking from a file starts at the current position and leaves it right after the record, whatever reading ahead was needed. Data before or after the record never influences the result (unless the record is defined to take the rest of the data), so records can be written and read back to back.",
 ['inputs','programs','histories'],'every class shape x value x surrounding data x sequence of back-to-back records',
 'Tests use buffers and files holding exactly one record; neighbours, offsets and positions after an operation are not asserted.',
 [S+'api.py',S+'strings.py',S+'unions.py',S+'arrays.py',ST],
 [('offset arithmetic in compound serializers',S+'api.py _iter_packers/_iter_unpackers'),('rewinding after reading ahead',S+'unions.py LookaheadDecider.unpack_read'),('chunked reads of terminated strings',S+'strings.py TerminatedCharSerializer.unpack_read')],
 observe=['buffer contents','file position','file contents'])
prop('C05','The reported size is the number of bytes just packed or unpacked',
 "Immediately after any successful pack or unpack operation, the size reported by the serializer of the object's class (or of the object, if it was given its own byte order) equals the number of bytes that operation wrote or consumed, for every class shape including nested, recursive and conditional ones.",
 ['inputs','programs','histories'],'every class shape x value x entry point x preceding operations',
 'Sizes are mutable state of serializers shared between classes and by recursion; tests check it for a handful of operations on fresh classes.',
 [S+'api.py',S+'arrays.py',S+'strings.py',S+'conditional.py',S+'unions.py',S+'tuples.py',S+'structured.py'],
 [('size assigned at the end of each operation',S+'*.py')],
 state=[('serializer.size','bytes used by the last operation',S+'api.py Serializer.size')],observe=['Class.serializer.size'])
prop('C06','The byte order applies to every multi-byte value of a record',
 "A class's byte order governs every number, length prefix, array header, text length and union alternative of its own records, at any depth of arrays, tuples, unions and conditions, while nested classes keep their own byte order. An object given another byte order packs and unpacks with that order, exactly like a class declared with it, and the original object and its class are unaffected.",
 ['inputs','programs','configurations'],'every class shape x the six byte orders x value',
 'Tests use one or two byte orders on simple fields; each container type forwards the byte order by hand.',
 [ST,'structured/base_types.py',S+'structs.py',S+'arrays.py',S+'strings.py',S+'unions.py',S+'tuples.py',S+'conditional.py'],
 [('with_byte_order of every serializer',S+'*.py'),('class keyword',ST+' __init_subclass__')],
 observe=['pack','unpack','with_byte_order'])
prop('C07','Truncated or malformed data is rejected by every entry point',
 "Unpacking data that ends before the record does, lacks a required terminator, contradicts a declared array data size, selects an undeclared union alternative or is not valid text for its encoding raises an error from every unpack entry point, and never yields an object. In particular every proper prefix of a packed record is rejected, unless the record ends in an attribute that takes the rest of the data.",
 ['inputs','programs','fault_sequences'],'every class shape x every truncation point and corruption of a packed record x entry point',
 'Tests contain a few error cases; all cut points of all shapes through all entry points cannot be listed.',
 [S+'structs.py',S+'arrays.py',S+'strings.py',S+'unions.py',ST],
 [('length checks left to struct',S+'structs.py'),('data size check',S+'arrays.py _check_data_size'),('terminator search',S+'strings.py')],
 observe=['exceptions of unpack*/create_unpack*'])
prop('C08','Values that cannot be represented are rejected when packing',
 "Packing raises an error from every pack entry point, rather than writing wrong data, when a number is out of range or of the wrong type, a fixed-length array has a different length, a tuple has another length, a length does not fit its prefix or header, text cannot be encoded, a union has no alternative for the decision, or the target buffer is too small.",
 ['inputs','programs'],'every class shape x every position of one unrepresentable value x entry point',
 'Tests check a couple of wrong lengths; the boundary of every type at every nesting depth and entry point is not reached.',
 [S+'structs.py',S+'arrays.py',S+'strings.py',S+'unions.py',S+'tuples.py',S+'api.py'],
 [('range checks left to struct',S+'structs.py'),('static length checks',S+'arrays.py'),('.NET length limit',S+'strings.py NETCharSerializer')],
 observe=['exceptions of pack*'])
prop('C09','Unions are serialized as the alternative the decider selects',
 "A union attribute is packed and unpacked as the alternative mapped to the decider's result (or the default), and an unmapped result without default is an error. A look-back decider is asked about the object that holds the attribute, with every earlier attribute already at its new value, even inside arrays, tuples, nested and recursive records; a look-ahead union decides by reading the declared type at the union's own position and then reads the alternative from that same position.",
 ['inputs','programs'],'every decider, map, default and alternative x position in the class (array item, tuple item, recursion) x data',
 'Tests use two flat classes; what a decider sees depends on nesting, recursion and on which entry point is running.',
 [S+'unions.py',S+'arrays.py',S+'tuples.py',S+'api.py',ST],
 [('decide on the partial object',S+'unions.py'),('proxy with values so far',ST+' _Proxy'),('rewind after reading ahead',S+'unions.py LookaheadDecider')],
 observe=['attributes visible to the decider','pack','unpack'])
prop('C10','Conditional attributes appear exactly when their condition holds',
 "An attribute with a condition is serialized exactly as without it when the condition is truthy for the object, and otherwise contributes no bytes when packing, and takes its default without consuming data when unpacking. The condition is evaluated just before the attribute is processed, on an object having all earlier attributes at their new values, and this holds for every hint type, every number of conditions, and every entry point.",
 ['inputs','programs'],'every conditional hint x condition outcome x neighbouring attributes x entry point',
 'Tests use one class with conditions on plain integers; conditions around arrays, unions, pads, tuples and recursion are not sampled.',
 [S+'conditional.py',H+'condition.py',S+'api.py'],
 [('choice between serializer and skip',S+'conditional.py ConditionalSerializer')],
 observe=['pack','unpack','object seen by the condition'])
prop('C11','Subclassing keeps, overrides, removes and appends attributes in order',
 "The serialized attributes of a class are its base's attributes in their order (a redefined hint keeps its place, a hint of None or any non-serializable hint removes it) followed by its own new ones, class variables never being serialized and every pad counting. Defining a subclass never changes its base; a byte order different from the base's is refused unless overriding is requested, and so is having several such bases.",
 ['programs'],'every chain of class definitions x hints (serializable, None, pads, class variables) x byte orders and modes',
 'Tests define a few subclasses; the combinations over chains of definitions are unbounded.',
 [ST,'structured/type_checking.py','structured/base_types.py'],
 [('hint collection and filtering',ST+' __init_subclass__, filter_typehints'),('unique pad names',ST+' MetaDict'),('byte order conflict check',ST)],
 state=[('attrs','names of the serialized attributes in order',ST)],observe=['Class.attrs','Class.byte_order','pack','class definition errors'])
prop('C12','Specializing a generic class equals writing the class by hand',
 "A class deriving from a specialized generic class, or holding a specialized generic class as an attribute, behaves in definition, packing and unpacking exactly like the class written by hand with the type variables replaced, for variables used anywhere in a hint (attribute, array item, array header, string length, tuple, nested generic) and for specialization in one or several steps. A generic class that is not specialized serializes only the attributes without type variables, and specializing never changes it or its other specializations.",
 ['programs','inputs'],'every generic class x arguments x way and number of specialization steps x values',
 'Tests specialize three classes; substitution must hold for every hint position, order of definition and chain of partial specializations.',
 [ST,'structured/utils.py','structured/type_checking.py',H+'arrays.py',H+'strings.py',H+'tuples.py',S+'structured.py'],
 [('type variable resolution',ST+' _get_specialization_hints'),('deferred hints','structured/utils.py StructuredAlias'),('implicit specialization',S+'structured.py _transform')],
 observe=['Class.attrs','pack','unpack'])
prop('C13','An attribute that takes the rest of the data can only come last',
 "A class is refused at definition when a string taking all remaining data, or anything containing one (text, tuple, nested class, union alternative or default, conditional), is followed by another serialized attribute or is an array's item, and is accepted when it comes last. An accepted one takes precisely all remaining data.",
 ['programs','inputs'],'every way of nesting a rest-of-data attribute x position in the class or a subclass',
 'Tests try two placements; the rule must survive each wrapper and inheritance.',
 [S+'api.py',S+'strings.py',S+'unions.py',S+'tuples.py',S+'conditional.py',S+'structured.py',H+'arrays.py'],
 [('get_final of every serializer',S+'*.py'),('check when chaining',S+'api.py Serializer.__add__')],
 observe=['class definition errors','unpack'])
prop('C14','Results do not depend on other objects, classes or earlier operations',
 "The outcome of an operation depends only on its own object or class and data: not on which classes share its hints, on operations run before on any object, on operations that failed half-way, or on operations nested in it through recursion. Objects produced by unpacking share no mutable state with each other or with the data they came from, and packed bytes none with the object.",
 ['histories','programs'],'every history of operations, including failing ones, over objects of classes sharing hints',
 'Serializers are shared, cached and stateful; tests run each operation on fresh classes and never interleave or continue after a failure.',
 [S+'api.py',S+'arrays.py',S+'unions.py',S+'tuples.py',S+'structured.py',H+'strings.py',H+'arrays.py',ST],
 [('per-operation state on shared serializers',S+'arrays.py, '+S+'unions.py, '+S+'tuples.py _partial_object'),('hint caches',H+'*.py')],
 state=[('partial object','object an operation is working on',S+'arrays.py, unions.py, tuples.py')],
 observe=['results of every operation after every history','later mutation of buffers'])
prop('C15','Recursive classes pack and unpack at any depth',
 "A class with attributes of its own type (directly under a condition, in arrays, tuples or unions) packs and unpacks every finite tree of objects: bytes are those of the tree written out in order, nested objects are instances of the class being unpacked (the subclass when inherited), and deciders and conditions see the node they belong to.",
 ['inputs','programs'],'every tree shape and depth x every way of recursion x entry point',
 'Tests use one linked class and small depth; re-entrancy of shared serializers only shows with particular tree shapes.',
 [S+'self.py',S+'structured.py',S+'arrays.py',S+'tuples.py',S+'unions.py',ST],
 [('class of the object being processed',S+'self.py'),('size and partial object kept until the end',S+'arrays.py, '+S+'api.py')],
 observe=['pack','unpack','type of nested objects','.serializer.size'])
prop('C16','Construction, equality and text form follow the serialized attributes',
 "Calling a class with one value per serialized attribute, in order or by name, sets exactly those attributes and then runs the post-init hook, which also runs for unpacked objects; a missing or extra value is an error. Two objects are equal iff they have the same class and equal serialized attributes, and the text forms list the class name and the attributes with their values in order.",
 ['inputs','programs'],'every class shape x values, including attribute names that collide with common identifiers',
 'Tests compare a few instances; generated initializers depend on names and hints of the class.',
 [ST],[('generated initializer',ST+' gen_init'),('comparison and text',ST+' __eq__, __str__, __repr__')],
 observe=['__init__','==','!=','str()','repr()'])
prop('C17','Custom types are converted on unpacking and packed through their basic type',
 "An attribute hinted with a custom class serialized as a basic type is laid out exactly as that basic type, and every entry point unpacks it by calling the class (or the given factory) once with the unpacked value of that very attribute, wherever it stands: next to other basic attributes, in arrays, tuples, unions, conditions, under any byte order and in subclasses.",
 ['inputs','programs'],'every basic type x custom class or factory x position and neighbours x byte order',
 'Conversions are merged when basic attributes are combined; tests combine only two attributes in one order.',
 [S+'structs.py',H+'serialize_as.py'],[('merging of conversions',S+'structs.py StructActionSerializer'),('hint',H+'serialize_as.py')],
 observe=['unpacked types and values','arguments seen by the factory'])
prop('C18','Serializers compose: a chain acts as its parts one after another',
 "Adding serializers gives one that packs and unpacks the parts' values in order, with as many values as the parts together, whatever the grouping of the additions, and multiplying a basic serializer repeats it; changing the byte order applies to every part and leaves the original unchanged. User-written serializers following the documented protocol work anywhere a built-in one does, and basic serializers with different byte orders cannot be joined.",
 ['programs','inputs'],'every sequence and grouping of serializers, built-in and user-written x values x entry point',
 'Tests add a few pairs; associativity and composition are statements over all sequences.',
 [S+'api.py',S+'structs.py'],[('addition and folding',S+'api.py, '+S+'structs.py'),('multiplication',S+'structs.py _mul_impl')],
 observe=['Serializer pack/unpack API','num_values','size'])
prop('C19','Strings keep their content and length rules for every kind and encoding',
 "Every kind of string (fixed, pascal, length-prefixed, terminated, .NET, rest-of-data) and its text variant in every supported encoding writes precisely its length marker or terminator and content, and reads back its content for every length from empty to the largest its marker can hold, beyond which packing is an error. A terminator is added only when missing and never returned; text is encoded and decoded by the declared codec or custom encoder, lengths counting encoded bytes.",
 ['inputs'],'every string kind x length (all boundaries) x content x encoding x entry point',
 'Tests use short ASCII samples; boundaries (empty, 127/128, 255/256, 32767, chunk-sized) and multi-byte text are not sampled.',
 [S+'strings.py',H+'strings.py',S+'structs.py'],[('string serializers',S+'strings.py'),('hint dispatch and caching',H+'strings.py')],
 observe=['pack','unpack','errors'])
prop('C20','Arrays keep their item count, order and declared data size',
 "An array packs as its declared header followed by its items back to back: no header when the length is fixed, else the item count, plus the number of item bytes when declared. Unpacking yields a list of exactly that many items in order for every item type, a data size that differs from the bytes the items took is an error, and so is a list of another length than a fixed one.",
 ['inputs','programs'],'every header kind x item type x item count (0, 1, many, largest) x header corruption x entry point',
 'Three array implementations are chosen by hint; tests use one or two items of a few types.',
 [S+'arrays.py',H+'arrays.py'],[('general, static and dynamic array serializers',S+'arrays.py'),('choice of implementation',H+'arrays.py')],
 observe=['pack','unpack','errors'])
prop('C21','A misdeclared attribute is refused when its class is defined',
 "Defining a class is refused with an error when a hint of it cannot mean what it says, wherever the hint stands (an attribute, an item of an array, tuple or union, a condition, a custom type, a subclass, an argument of a generic class) and whatever has been declared before: counts and terminators that are none, formats that are not unsigned integers where a length is written, items that are not serializable or not of one value, modifiers on what is not serialized, wrong numbers of arguments or defaults. It is never silently left out of the record, a refusal leaves earlier classes as they were, and well-formed hints are accepted in any spelling.",
 ['programs'],'every hint, well-formed or not x position in a class, subclass or specialization x earlier declarations',
 'Hints are checked piecemeal by each hint type; tests try a few wrong ones at the top level of a class.',
 [H+'strings.py',H+'arrays.py',H+'condition.py',H+'serialize_as.py',H+'tuples.py',H+'basic_types.py',S+'unions.py',S+'conditional.py','structured/base_types.py'],
 [('argument checks of each hint type',H+'*.py'),('alternatives of a union',S+'unions.py validate_serializer'),('hints used without arguments','structured/base_types.py requires_indexing'),('hint caches',H+'*.py')],
 observe=['class definition errors','Class.attrs'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
