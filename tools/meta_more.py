# Continues tools/meta.py (exec'd there).
VAL = 'flatland/validation/'
VBASE, VSC, VCO = VAL + 'base.py', VAL + 'scalars.py', VAL + 'containers.py'
VNET, VNUM, VSTR = VAL + 'network.py', VAL + 'number.py', VAL + 'string.py'
CARD = 'flatland/ext/creditcard.py'
UTIL = 'flatland/util/base.py'
PROPS = 'flatland/schema/properties.py'
FORMS = 'flatland/schema/forms.py'

prop('C15', 'Names and links of a tree agree: every element is found by name',
     'Whatever the schema and whatever changes were made to the tree, every '
     'element: is found from anywhere by el() of its fq_name(), and from the '
     'root by its key list; has a flattened_name() that joins the names along '
     'its path; has parents, path and root consistent with its parent\'s '
     'children; and all_children is the breadth-first walk of the children. '
     'el() of any other text finds exactly what it spells or raises KeyError.',
     ['inputs', 'histories'],
     'trees of every container type, after sequences of structural changes, '
     'all names, separators and lookup texts within bounds',
     'tests look up a few names in fixed trees; agreement between five ways '
     'of naming an element over changing trees is not sampled',
     [BASE, CONT], [('fq_name, el, flattened_name', BASE),
                    ('parents, path, root, all_children', BASE),
                    ('_index of the containers', CONT)],
     ['fq_name()', 'el()', 'flattened_name()', 'path', 'root',
      'all_children'])

prop('C16', 'validate() visits every element down and up and misses nothing',
     'validate() runs descent validators breadth-first and ascent validators '
     'in exactly the reverse order, passes on the state, skips precisely the '
     'descendants of an element that returned SkipAll or SkipAllFalse (whose '
     'valid stays untouched), sets valid of every visited element to the '
     'conjunction of its outcomes and returns whether all of them succeeded; '
     'an invalid element never stops the walk. recurse=False touches one '
     'element. Elements without validators are valid unless empty and '
     'required.',
     ['inputs', 'histories'],
     'all outcome assignments to the validators of several tree shapes, '
     'repeated validation, all emptiness combinations',
     'the number of outcome combinations over a tree is exponential; tests '
     'fix one or two',
     [BASE, CONT], [('Element.validate', BASE), ('_validate', CONT)],
     ['validate()', 'valid', 'order of validator calls'])

prop('C17', 'A validator chain stops exactly where its outcomes say',
     'The validators of an element run in order until one returns a false '
     'value, None, Skip or SkipAll, and the outcome is that result (None is '
     'False, Skip is True), or True when all pass. None runs for an optional '
     'empty element. Without validators the outcome is whether the element '
     'is not empty. Every connected receiver is told every step, its '
     'element, state and result. is_empty means that nothing was entered.',
     ['inputs'],
     'every element type and content, chains of validators with every '
     'outcome, optional or not, with and without receivers',
     'chains multiply outcomes; tests use one or two per case',
     [BASE], [('validate_element', BASE), ('is_empty', SCAL)],
     ['validate_element()', 'validator_validated signal'])

prop('C18', 'Scalar validators accept exactly what their condition names',
     'Present, Converted, IsTrue, IsFalse, ValueIn, the length validators and '
     'the comparison validators succeed exactly when their documented '
     'condition holds for the element; a rejection records precisely one '
     'error, the configured message with label, limits and value filled in, '
     'however often it is repeated; an acceptance records none. The element '
     'is not changed. Constructor arguments override only that instance.',
     ['inputs'],
     'all texts, numbers, dates, limits, options and labels within bounds',
     'boundaries (equal to a limit, crossed limits, empty text) are many; '
     'most of these validators have one or two tests or none',
     [VSC, VBASE], [('validate of each class', VSC),
                    ('Validator.__init__, note_error', VBASE)],
     ['return value', 'errors'])

prop('C19', 'Sibling, count and field equality validators judge correctly',
     'NotDuplicated marks exactly the second and later occurrences among '
     'siblings (by the comparator), with their position. HasAtLeast, '
     'HasAtMost and HasBetween compare the number of members of any sequence '
     'type with their limits. ValuesEqual, UnisEqual and MapEqual succeed '
     'exactly when all named fields agree. A rejection records one message.',
     ['inputs'],
     'all member contents, counts, limits, field paths and comparators '
     'within bounds over every sequence type',
     'tests use List with two values and limits 0..2',
     [VCO, VSC], [('NotDuplicated, HasAtLeast, HasAtMost, HasBetween', VCO),
                  ('MapEqual', VSC)],
     ['valid', 'errors'])

prop('C20', 'Messages are expanded, pluralized, translated and kept once',
     'A placeholder takes its text from the note_error arguments, else the '
     'state, else the validator, else the element; the singular form is used '
     'exactly when the count is 1; the message and substituted texts go '
     'through the nearest translator (state, element, ancestors, builtins); '
     'substituted text is never expanded again. The message is recorded once '
     'as an error or warning, in order, and any kind of state is allowed.',
     ['inputs'],
     'all combinations of sources, states, counts, translators and texts '
     'within bounds',
     'lookup priority is a product of independent sources; tests fix one '
     'source at a time',
     [VBASE, 'flatland/schema/util.py', BASE],
     [('expand_message, find_transformer, as_format_mapping', VBASE),
      ('search_ancestry', 'flatland/schema/util.py'),
      ('add_error, add_warning', BASE)],
     ['errors', 'warnings'])

prop('C21', 'Checksums, card numbers and phone numbers are judged correctly',
     'luhn10 is the textbook checksum, for any number, and catches every '
     'wrong digit and every swap of neighbours but 09/90. A card number is '
     'accepted exactly when it passes the checksum and is of an accepted '
     'type; its text groups the same digits and reads back. Phone numbers '
     'are accepted exactly when they have ten digits (or extensions are '
     'allowed), and their canonical text is a fixpoint. Nothing raises.',
     ['inputs'],
     'all numbers and texts within bounds, all card lengths and prefixes, '
     'accepted sets, separators',
     'there are three test values for the checksum, two for cards and none '
     'for phones',
     [UTIL, CARD, VSTR, VNUM],
     [('luhn10', UTIL), ('CreditCardNumber', CARD), ('NANPphone', VSTR),
      ('Luhn10, NANPnxx, NANPnpa_nxx', VNUM)],
     ['value', 'u', 'validate()', 'errors'])

prop('C22', 'Email addresses and URLs are judged by their parts',
     'IsEmail accepts exactly the texts with one @, a non-blank local part '
     '(matching local_part_pattern) and a domain of LDH labels of 1 to 63 '
     'characters, at most 253 in all, with a dot unless non_local is off. '
     'URLValidator accepts exactly the URLs whose scheme and present parts '
     'are allowed; HTTPURLValidator exactly the http and https URLs with all '
     'required and no forbidden parts; URLCanonicalizer removes exactly the '
     'discarded parts. The failing check names the right message; arbitrary '
     'text never raises; the text entered is kept.',
     ['inputs'],
     'all texts within bounds and all combinations of URL parts and settings',
     'parts, schemes and settings multiply; tests use a list of samples',
     [VNET], [('IsEmail, URLValidator, HTTPURLValidator, URLCanonicalizer',
               VNET)],
     ['valid', 'errors', 'value'])

MARK, GEN, OUTU = ('flatland/out/markup.py', 'flatland/out/generic.py',
                   'flatland/out/util.py')

prop('C23', 'Deriving a schema class never changes any other class',
     'named, using, validated_by, including_validators, their descent '
     'variants, with_properties, valued and of return a new direct subclass '
     'that differs in exactly what was asked: validators replaced or spliced '
     'in at the position, names made text, label following the name unless '
     'assigned. Every class it came from and every sibling keeps all its '
     'attributes, also when the lists passed in are changed later, and '
     'elements never change their class. Unknown attributes, types as '
     'validators and repeated field names raise TypeError.',
     ['inputs', 'histories'],
     'all families of classes grown by the cloning methods, with all '
     'arguments within bounds',
     'tests clone once or twice; interference between relatives needs '
     'histories over several classes',
     [BASE, CONT, SCAL, UTIL],
     [('class_cloner', UTIL), ('named, using, validated_by, '
                               'including_validators', BASE),
      ('of, descent_validated_by', CONT), ('valued', SCAL)],
     ['class attributes', 'element attributes', 'TypeError'])

prop('C24', 'Properties overlay: changes show below and nowhere else',
     'The properties of a class or element behave exactly like a dictionary '
     'that overlays the ones of the classes above it: every operation gives '
     'the result it gives on a plain dictionary of what is visible, changes '
     'what is visible from there and from below where not overridden, and '
     'changes nothing above or beside. Deleting hides an inherited key. A '
     'class with its own Properties and an element with an assigned '
     'dictionary are detached.',
     ['inputs', 'histories'],
     'all histories of dictionary operations on all levels of four class '
     'hierarchies, within bounds',
     'the interplay of deleted, inherited and local keys over levels; tests '
     'walk one history',
     [PROPS, BASE], [('_TypeLookup, _InstanceLookup, Properties', PROPS),
                     ('with_properties', BASE)],
     ['properties of classes and elements'])

prop('C25', 'Generated markup reads back: no text can break out of it',
     'Whatever the element and attributes contain, a generated tag is '
     'well-formed: reading it back gives the tag, each attribute once with '
     'exactly its text, in the documented order, and the element text of a '
     'textarea. It is closed, left open or empty as the markup asks; '
     'tag(name) is the same as the named method; opening half, contents and '
     'closing half make up the whole. Only markup values pass unescaped, and '
     'the result is marked as markup.',
     ['inputs'],
     'all texts within bounds in every position, all tags and kinds of '
     'markup',
     'injection needs the one odd character in the one place; tests escape '
     'one sample',
     [MARK, GEN], [('Generator, Tag', MARK), ('_attribute_escape', MARK),
                   ('_markup_escape, _unpack, Markup', GEN)],
     ['generated markup'])

prop('C26', 'Generated attributes appear exactly when the options say',
     'name, value, id, for and tabindex are generated exactly when the '
     'option is on at the tag, or is on in scope or by default with the '
     'attribute absent and a tag of its kind; off wins and anything else is '
     'automatic. Their text is the flattened name, the element text, the '
     'formatted name with the cleaned value of boxes, and the next tab index. '
     'Without a name or binding nothing is generated; options never reach '
     'the output; other attributes are untouched; filters run in order for '
     'their tags.',
     ['inputs'],
     'the whole table of option, scope, default, presence, tag and binding',
     'the table has thousands of rows; tests check a dozen per attribute',
     [GEN, OUTU], [('transform_name, transform_value, transform_domid, '
                    'transform_for, transform_tabindex, transform_filters',
                    GEN), ('parse_trool', OUTU)],
     ['generated attributes', 'generated contents'])

prop('C27', 'Boxes and options are marked exactly when the element holds them',
     'A radio button or check box is checked, and an option selected, exactly '
     'when its value (for options, else its stripped contents) equals the '
     'element text or, for arrays, the text of a member; stale marks are '
     'removed. Without a value no box is touched, except that a Boolean '
     'supplies its true value. Other fields get the text, password, file and '
     'image only when forced. Submitting the marked boxes gives back what '
     'the array held.',
     ['inputs'],
     'all texts and values within bounds for ten kinds of element',
     'near misses (blank, padded, differently spelled values) are not in '
     'the tests',
     [GEN], [('transform_value', GEN)], ['checked', 'selected', 'value'])

prop('C28', 'Generator settings are scoped: a block ends where it began',
     'begin() puts settings into effect on top of all others and end() '
     'restores exactly what was in effect, at any depth; set() changes the '
     'current scope only. An unknown setting is rejected and changes '
     'nothing, end() without begin() is an error, and generators, and the '
     'defaults, are independent. Tab indexes count up within a scope. An '
     'open tag is the current one of its kind until it is closed.',
     ['histories'],
     'all histories of block, setting, tag and erroneous operations within '
     'bounds',
     'nesting histories are unbounded; tests use one block',
     [MARK, GEN], [('begin, end, set', MARK), ('Context', GEN)],
     ['settings in effect', 'exceptions'])

GENSHI = 'flatland/out/genshi.py'

prop('C29', 'Compound elements are exactly their parts',
     'A compound element and its parts always agree: a date of three fields '
     'has the value and text of the date its parts make, and none when they '
     'make none, after any assignment to the whole or to a part; nothing of '
     'an earlier date survives. Its generated parts have the names and the '
     'optionality of their own class, whichever related classes were used '
     'before; a compound class is prepared once, before its first element. A '
     'joined string has the split, pruned, converted members of what it was '
     'given, and their joined text.',
     ['inputs', 'histories'],
     'all dates, part values, texts and class histories within bounds',
     'tests set a few dates; stale parts and class preparation depend on '
     'history',
     [COMP], [('DateYYYYMMDD', COMP), ('JoinedString', COMP),
              ('_MetaCompound', COMP)], ['value, u, set()', 'parts'])

prop('C30', 'Defaults reach every element, completely and unshared',
     'from_defaults() and set_default() give each scalar its own default as '
     'if set() (the factory, called once with the element, before the plain '
     'default), each list the number of members asked for with their own '
     'defaults or the members listed, each mapping its own default or else '
     'its fields theirs, sparse mappings only their required fields, and '
     'compounds their whole or else their parts; what was held before is '
     'replaced, doing it twice changes nothing, and elements share no state '
     'with each other or with the schema. Without a default sequences are '
     'left alone.',
     ['inputs', 'histories'],
     'all defaults and combinations of defaults over nested schemas',
     'which level supplies a default is a product over the tree; tests '
     'check one level',
     [SCAL, CONT, COMP, BASE],
     [('set_default', CONT), ('set_default', SCAL), ('default_value', BASE)],
     ['from_defaults()', 'set_default()', 'value'])

prop('C31', 'A reference always shows its target, and writes only as told',
     'The value, text, emptiness, truth and comparison of a Ref are those of '
     'the element its path denotes at that moment, whatever was assigned, '
     'loaded, replaced or moved since, for every spelling of the path. '
     'Assigning to it changes the target when writable, changes nothing by '
     'default, and raises TypeError when declared not writable. Defaults of '
     'the target stand; a reference is never flattened.',
     ['inputs', 'histories'],
     'all histories of operations on target, reference and tree within '
     'bounds',
     'tests assign once; staleness needs a history',
     [SCAL, BASE], [('Ref', SCAL), ('el', BASE)], ['value, u', 'set()'])

prop('C32', 'Declared fields become the form, inherited as Python attributes',
     'A form has exactly the fields its class attributes and field_schema '
     'declare, each under its declared name, the attribute before the list, '
     'and those of its bases, resolved by name as Python resolves '
     'attributes, for any hierarchy of forms and mappings. Declarations do '
     'not stay attributes; the declared schemas, the bases and Form itself '
     'do not change.',
     ['inputs'],
     'all hierarchies within bounds',
     'tests have four fixed hierarchies and no shared base',
     ['flatland/schema/forms.py'],
     [('_MetaForm, _ElementCollection', 'flatland/schema/forms.py')],
     ['field_schema', 'elements of the form'])

prop('C33', 'Genshi templates produce what the tag generator produces',
     'A tag bound in a Genshi template has the attributes and contents the '
     'tag generator produces for the same element, settings and controls, '
     'with foreign attributes and nested contents kept; unbound tags are '
     'changed by controls only. Options in a bound select, at any depth, are '
     'marked for its element unless bound for themselves. Settings of a '
     'block end with it; those of form:set last until the end of their '
     'block, whatever template scopes lie between.',
     ['inputs', 'histories'],
     'all tags, attributes, texts, nestings and settings within bounds',
     'the Genshi tests cannot even run on this platform, and cover single '
     'templates',
     [GENSHI, GEN], [('_rewrite_stream, _bind_unbound_tags, '
                      '_simplify_stream', GENSHI), ('With, Set', GENSHI)],
     ['rendered events'])

prop('C34', 'An element shows itself truthfully: text, equality, validity',
     'x and xa are the text escaped so that it reads back and cannot break '
     'out of XML. The text of a list or mapping spells exactly the texts of '
     'its members. Elements are equal exactly when their values and texts '
     'are, whatever order fields were set in, and never equal to plain '
     'values; they cannot be hashed. all_valid is the conjunction over the '
     'element and everything below it, and assigning it marks exactly '
     'those. A label follows the name unless assigned. Messages are kept '
     'once, in order. Constructor arguments override that element only; '
     'unknown ones raise TypeError.',
     ['inputs'],
     'all texts, trees and validities within bounds',
     'tests compare a handful of elements and escape nothing',
     [BASE, CONT], [('x, xa, all_valid, label, __eq__, __init__', BASE),
                    ('Sequence.u, Mapping.u', CONT)],
     ['attributes', 'comparison results'])

prop('C35', 'The utility building blocks do what they document',
     'to_pairs yields the pairs of anything dict-like. keyslice_pairs keeps '
     'exactly the included, not omitted or renamed pairs, in order, by the '
     'extracted key. An escaped pattern matches exactly its text. Lazy '
     'properties are computed once per object; assignable properties and '
     'class cloners can be assigned and deleted per object and leave others '
     'and the class alone. Maybe is three-valued logic. Symbols are '
     'singletons by name. as_mapping and the format views show exactly the '
     'attributes and items of their targets, the first target first.',
     ['inputs', 'histories'],
     'all inputs within bounds',
     'tests use single examples of each helper',
     [UTIL], [('to_pairs, keyslice_pairs, re_uescape, lazy_property, '
               'assignable_property, class_cloner, Maybe, symbol', UTIL)],
     ['results', 'attributes'])

prop('C36', 'A form rendered and submitted unchanged loads as the same form',
     'When every leaf of a form is rendered with the generator (text, hidden '
     'and password inputs, text areas, buttons, check boxes, radio buttons, '
     'selections, repeated inputs of arrays) and the successful controls, as '
     'a browser collects them from the produced markup, are loaded with '
     'from_flat(), the same form results: the same texts, also those that '
     'are not valid, choices, checked boxes, members in their order and '
     'fields present, for any texts and names, whatever settings are on.',
     ['inputs'],
     'all texts, choices, names and tree shapes within bounds',
     'escaping, naming, checking and loading are tested one at a time, never '
     'against each other',
     [MARK, GEN, CONT, BASE],
     [('transform_name, transform_value', GEN), ('Tag', MARK),
      ('flattened_name', BASE), ('_set_flat', CONT)],
     ['markup', 'loaded element'])

prop('C37', 'Elements are independent, and reading one changes nothing',
     'No operation on an element or any part of it (assigning, loading, '
     'validating, messages, properties, labels, attributes, member and field '
     'operations) shows in another element of the same class or made from '
     'the same input or defaults, in another member of its list, in its '
     'class, or in elements made later. No read (value, text, lookups, '
     'flattening, comparison, search, markup of it) and no refused operation '
     'changes an element, and changing what a read handed out does not '
     'either.',
     ['histories', 'inputs'],
     'all pairs of elements, nodes, operations and reads within bounds',
     'aliasing shows only between two elements and two operations; tests use '
     'one element each',
     [BASE, CONT, 'flatland/schema/properties.py'],
     [('Element', BASE), ('Sequence, List, Mapping, Dict', CONT),
      ('Properties', 'flatland/schema/properties.py')],
     ['elements', 'classes'])

prop('C38', 'The native value of a tree and the tree determine each other',
     'Setting a tree of any shape gives each leaf what that leaf makes of '
     'its own input, succeeds exactly when all leaves do, and leaves nothing '
     'of what was there before; its value has the shape of the tree, in '
     'fresh plain dicts and lists. Setting that value, in the constructor, '
     'on a new, the same or a used element, gives the same value again. '
     'Neither side shares anything with the value handed over.',
     ['inputs', 'histories'],
     'all tree shapes, inputs and earlier contents within bounds',
     'tests set a few trees once',
     [CONT, SCAL], [('set, value', CONT), ('Scalar.set', SCAL)],
     ['value', 'u', 'set()'])
