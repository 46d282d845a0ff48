"""Single source of properties.jsonl and MANIFEST.json.

    python3-vt tools/meta.py          write both files
"""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         note=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))
    P[-1]['_note'] = note


BASE = 'flatland/schema/base.py'
SCAL = 'flatland/schema/scalars.py'
CONT = 'flatland/schema/containers.py'
COMP = 'flatland/schema/compound.py'
PATHS = 'flatland/schema/paths.py'

prop('C01', 'Scalar assignment never raises and leaves a consistent element',
     'Assigning any input to a scalar element returns True or False and never '
     'raises. On success the native value is the adapted input and the text '
     'is its serialization (empty text for an empty value); on failure the '
     'native value is None, the text is the text of the input, and in both '
     'cases the raw input is kept. Nothing of an earlier assignment survives.',
     ['inputs', 'histories'],
     'every input (text, numbers, None, booleans, lists, objects, dates) to '
     'every scalar type, after any earlier assignment',
     'tests assign a handful of literals per type; failing inputs, mixed '
     'types and re-assignment are a product no list of examples covers',
     [SCAL], [('Scalar.set', SCAL), ('adapt/serialize of each type', SCAL)],
     ['return value of set()', 'value', 'u', 'raw', 'bool()'])

prop('C02', 'Canonical text is a fixpoint: text of a value reads back as it',
     'For every scalar type, the text an accepted value is shown as is '
     'accepted again by the same element, gives an equal value and the same '
     'text. Equal values of one type always show the same text.',
     ['inputs'],
     'every accepted input of String, Integer, Long, Boolean, Date, Time, '
     'DateTime, Enum and Constrained elements',
     'round trips are tested on a few literals; formats (padding, sign, '
     'stripping, word lists) break on particular values only',
     [SCAL], [('serialize/adapt pairs', SCAL)], ['value', 'u'])

prop('C03', 'Date, time and datetime text is accepted exactly when it is one',
     'A date, time or datetime element accepts text exactly when it spells an '
     'existing calendar date and/or clock time in the ISO form, optionally '
     'surrounded by blanks when stripping is on, and then holds precisely '
     'that moment. Every value is written zero-padded in that form.',
     ['inputs'],
     'every text, every calendar day of years 1..9999 and every second of a '
     'day',
     'the tests try about ten strings; leap years, end-of-range values, '
     'non-ASCII digits and trailing characters are not sampled',
     [SCAL], [('Temporal.adapt / regex', SCAL), ('Temporal.serialize', SCAL)],
     ['return value of set()', 'value', 'u'])

prop('C04', 'Each scalar type accepts exactly its documented inputs',
     'Strings strip blanks exactly when asked to; integers accept exactly '
     'the decimal numerals (and, when unsigned, only non-negative ones); '
     'booleans accept exactly their true and false words case as given; '
     'enumerations and constrained elements accept exactly the adapted '
     'members of their valid values. None and blank text give an '
     'empty value.',
     ['inputs', 'configurations'],
     'every input text and value over the configuration switches (strip, '
     'signed, word lists, valid values, child type)',
     'acceptance is a predicate over all texts; tests pin a few members and '
     'non-members',
     [SCAL], [('adapt of each scalar type', SCAL)],
     ['return value of set()', 'value'])

prop('C05', 'Flattening a tree and loading the pairs back restores the tree',
     'Flattening any element tree and loading the pairs into a blank tree of '
     'the same schema, with the same separator, in any pair order that keeps '
     'repeated keys in order, gives a tree with the same values and text '
     'that flattens to the same pairs.',
     ['inputs', 'configurations'],
     'all tree shapes, leaf contents, non-empty field names and separators '
     'where no two leaves share a flat name',
     'round trips are tested on two or three fixed forms with plain names '
     'and the default separator',
     [BASE, CONT, COMP], [('flatten', BASE), ('set_flat', CONT),
                          ('flattened_name', BASE)],
     ['flatten()', 'set_flat()', 'from_flat()'])

prop('C06', 'Arbitrary flat input cannot escape the schema or raise',
     'Loading any flat key/value pairs into an element never raises, creates '
     'only members the schema declares, correctly typed and linked to their '
     'parents, and never changes a leaf to anything but a value some pair '
     'addressed to it. Pairs addressed to no leaf have no effect.',
     ['inputs', 'configurations'],
     'all lists of pairs with arbitrary keys and values, for all container '
     'nestings',
     'form posts are attacker-controlled; the tests load friendly keys',
     [CONT, COMP, BASE], [('_set_flat of every container', CONT)],
     ['set_flat()', 'element tree'])

prop('C07', 'List loading keeps index order, prunes or keeps gaps, is capped',
     'Loading indexed flat pairs into a list gives its members in index '
     'order, drops missing and (when pruning) blank members, keeps gaps '
     'filled with blank members when pruning is off, and never yields more '
     'members than the configured maximum however large the indexes are. '
     'Non-numeric or oversized indexes are ignored.',
     ['inputs', 'configurations'],
     'every combination of indexes, index spellings, blank values, pruning '
     'switch, cap and separator',
     'tests use 0..2 digit indexes and one cap value',
     [CONT], [('List._set_flat', CONT)], ['set_flat()', 'len()', 'members'])

prop('C08', 'Arrays gather repeated pairs completely, in order, only theirs',
     'Loading flat pairs into an array or multi-value collects the value of '
     'every pair whose key is the flat name of its members, in the order '
     'given, and no other pair; blanks are dropped exactly when pruning. A '
     'multi-value also behaves as a scalar over its first member.',
     ['inputs', 'configurations'],
     'all pair lists, names (plain or anonymous), separators, pruning '
     'settings',
     'tests use one name and separator at a time and never foreign keys that '
     'are near misses',
     [CONT], [('Array._set_flat', CONT), ('MultiValue', CONT)],
     ['set_flat()', 'members', 'value', 'u'])

prop('C09', 'Lists, arrays and multi-values behave as Python lists of members',
     'After any sequence of list operations a sequence element has the '
     'values, lengths, results and exceptions a plain Python list of the '
     'same values would, accepts both plain values and elements, and every '
     'member stays an element of the declared type linked to this parent; '
     'list members stay numbered by position.',
     ['histories', 'inputs'],
     'all operation sequences with all indexes, slices and values',
     'each operation is tested once from one state; the interactions of '
     'hidden numbering with deletion, slicing, sorting are not',
     [CONT], [('Sequence / List / Array list methods', CONT)],
     ['list interface', 'value', 'parents', 'names of slots'])

prop('C10', 'Mappings keep exactly their declared keys under any operation',
     'Under any sequence of dictionary operations a mapping holds all its '
     'declared fields and nothing else, a sparse mapping a subset of them '
     'that includes required fields when so configured; refused operations '
     'raise and change nothing. Field elements keep their declared type, '
     'name and parent.',
     ['histories', 'inputs'],
     'all operation sequences with arbitrary keys and values, on full and '
     'sparse mappings, with and without required fields',
     'tests call each method once with one key',
     [CONT], [('Mapping / Dict / SparseDict dict methods', CONT)],
     ['dict interface', 'element tree'])

prop('C11', 'Mapping assignment enforces its key policy, whatever the shape',
     'Assigning a dict-like input to a mapping applies the strict, subset or '
     'duck key policy exactly: undeclared keys or missing keys raise a key '
     'or type error exactly when the policy forbids them, a value is stored '
     'for each declared key given and other declared keys are reset. The '
     'result is True exactly when every stored value was accepted.',
     ['inputs', 'configurations'],
     'all key sets and values, given as dict, pairs, iterator or keyed '
     'object, under all policies set on schema or call',
     'tests enumerate a few key sets for the default policy',
     [CONT, 'flatland/util/base.py'],
     [('Dict.set', CONT), ('to_pairs', 'flatland/util/base.py')],
     ['set()', 'element values', 'exceptions'])

prop('C12', 'Object transfer copies exactly the selected fields',
     'Setting a mapping from an object, and updating or creating an object '
     'or dictionary from a mapping, moves exactly the fields selected by the '
     'include, omit and rename arguments under their new names, leaves every '
     'other field and attribute untouched, and reports conflicting '
     'arguments.',
     ['inputs', 'configurations'],
     'all include/omit/rename combinations over all attribute subsets and '
     'values; full and sparse mappings',
     'the tests exercise each argument alone',
     [CONT, 'flatland/util/base.py'],
     [('set_by_object / update_object / slice', CONT),
      ('keyslice_pairs', 'flatland/util/base.py')],
     ['set_by_object()', 'update_object()', 'slice()'])

prop('C13', 'Path lookup returns exactly the elements a path denotes',
     'Looking up a path returns exactly the elements its segments denote, in '
     'tree order: child names, list indexes, Python-like slices, wildcards '
     'over members, current, parent and root steps. Malformed paths raise a '
     'value error and unmatched strict paths a lookup error, and results '
     'never depend on which paths were looked up earlier.',
     ['inputs', 'histories'],
     'all paths within bounds from all start elements, all slices over all '
     'sequence lengths, strict and lenient, single or not',
     'the tests list two dozen paths over one tree',
     [PATHS, BASE], [('pathexpr / PathExpression', PATHS),
                     ('Element.find', BASE)],
     ['find()'])

prop('C14', 'Any field name can be reached through an escaped path',
     'Every non-empty field name, with the path syntax characters escaped, '
     'looks up precisely that field, alone or inside longer paths. Escaping '
     'a character that needs no escape is harmless where the syntax allows '
     'it.',
     ['inputs'],
     'all names of arbitrary characters and all ways of escaping them',
     'the tests escape two fixed names',
     [PATHS], [('tokenizer', PATHS)], ['find()'])

exec(open(os.path.join(ROOT, 'tools', 'meta_more.py')).read()) \
    if os.path.exists(os.path.join(ROOT, 'tools', 'meta_more.py')) else None

TECH = ('symbolic execution of the real Python sources, branch feasibility '
        'and assertions decided by z3 for all inputs within bounds; '
        'counterexamples replayed on the real code under Jython')
NOTE = ('All paths within the stated bounds are explored (evidence says so '
        'under exhaustive; paths cut by an unsupported operation or budget '
        'are counted as undecided). Trusted: z3, the execution engine and '
        'its models of Python 2 built-ins, text, regular expressions and '
        'dates (cross-checked on every run by replaying sampled path '
        'witnesses under Jython and comparing observations). ')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
        for p in P:
            fp.write(json.dumps(dict((k, v) for k, v in p.items()
                                     if k[0] != '_')) + '\n')
    na = dict(NA)
    man = {
        'version': 1,
        'setup_cmd': 'python3-vt -c "import z3" && test -x ./check',
        'checks': [dict(property=p['id'], quick_cmd='./check %s' % p['id'],
                        thorough_cmd='./check %s --tier thorough' % p['id'],
                        evidence_file='evidence/%s.json' % p['id'],
                        technique=TECH, level='model_checking',
                        level_note=NOTE + (p['_note'] or ''))
                   for p in P if p['id'] not in na],
        'not_applicable': [dict(property=k, reason=v) for k, v in NA],
        'notes': 'No hooks in /repo are needed. See DESIGN.md.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
