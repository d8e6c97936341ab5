#!/usr/bin/env python3
"""Writes properties.jsonl (the property list in one readable place)."""
import json, os
S = 'src/fauxdoc/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), (n, m, S + w))) for n, m, w in state],
            'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None}})

p('C01', 'Calling an emitter gives one value, and calling it with n gives exactly n',
  'Calling any emitter without a number returns one bare value, and calling it with a number n >= 0 returns a new list of exactly n values, whatever the emitter kind, its settings and the calls made before. The only exception is a request for more unique values than the emitter has left, which raises a ValueError. The list that is returned belongs to the caller: changing it does not change what the emitter does later.',
  ['inputs', 'histories', 'configurations'], 'every emitter kind and nesting, every n >= 0, every earlier call sequence',
  'Tests call each emitter once or twice with a few fixed n; zero counts, zero-length parts, exhausted streams, long nestings and mutated results are not combined.',
  ['emitter.py', 'emitters/choice.py', 'emitters/fixed.py', 'emitters/text.py', 'emitters/wrappers.py', 'emitters/fromfields.py'],
  [('Emitter.__call__ dispatch on number', 'emitter.py'), ('emit / emit_many of each emitter', 'emitters/')],
  observe=['return value of a call', 'exception raised'])

p('C02', 'How requests are batched does not change a deterministic emitter\'s stream',
  'For emitters whose output is a stream (static, iterative and sequential emitters, choices without replacement, and words, texts and wrappers built only from such emitters, each in one place only), splitting a request into any sequence of single and multiple calls gives the same values in the same order as one large request. No value of a source stream is skipped, repeated or taken in advance because of how calls are batched.',
  ['histories', 'configurations'], 'every split of every request over every nesting of stream emitters',
  'Tests compare one batched and one single-call run for a few emitters; splits across cycle boundaries, zero-length items and nested emitters are not sampled.',
  ['emitters/fixed.py', 'emitters/choice.py', 'emitters/text.py', 'emitters/wrappers.py'],
  [('emit and emit_many implemented separately for speed', 'emitters/'), ('Word.emit_many partitions one character draw', 'emitters/text.py'), ('Text.emit_many shares one word and separator draw', 'emitters/text.py')],
  observe=['concatenated return values'])

p('C03', 'Without replacement, each item is emitted at most once until a restart',
  'A choice emitter without replacement emits, over any sequence of calls, each of its items at most once (equal items count separately) and all of them before it is exhausted, until it is restarted: by a reset, by seeding, by setting weights or by switching replacement off again. A request for more than what remains raises a ValueError and uses up nothing.',
  ['histories', 'configurations'], 'every sequence of calls of any size, with resets, seeds and setting changes in between, over items with duplicates and any weights',
  'Tests exhaust a few fixed emitters in one or two calls; partially used state combined with failed requests, weight changes and mode switches is not explored.',
  ['emitters/choice.py', 'mathtools.py'],
  [('pre-shuffled items plus an index', 'emitters/choice.py'), ('weighted_shuffle', 'mathtools.py')],
  [('remaining items', 'what has not been emitted since the last restart', 'emitters/choice.py')],
  ['return value of a call', 'exception raised', 'num_unique_items'])

p('C04', 'With replacement only after each call, one call never repeats an item',
  'A choice emitter that replaces items only after each call returns, for any request of n values, n different items (equal items count separately), and every call draws again from all of the items regardless of the calls before it. A request for more values than there are items raises a ValueError and changes nothing.',
  ['histories', 'inputs', 'configurations'], 'every n up to and past the number of items, every number of items and weights (small and large samples use different algorithms), every call history',
  'Tests sample a few (items, n) pairs; the two sampling algorithms switch on a size threshold and on weights, and no test covers every n on both sides.',
  ['emitters/choice.py', 'mathtools.py'],
  [('rng.sample or weighted_shuffle per call', 'emitters/choice.py'), ('weighted_shuffle low-k/high-k switch', 'mathtools.py')],
  observe=['return value of a call', 'exception raised'])

p('C05', 'Choice settings stay mutually consistent through any reconfiguration',
  'After any sequence of setting changes on a choice emitter, its settings agree: turning replacement off turns off replace-only-after-call, turning on replace-only-after-call turns on replacement, and weights and cumulative weights always describe the same weighting (or are both absent), as unchangeable copies of what was given. The current settings, not earlier ones, decide how the next values are chosen.',
  ['histories', 'configurations'], 'every sequence of changes to replacement, replace-only-after-call, weights and cumulative weights, interleaved with calls',
  'Tests check single setter calls from one starting point; sequences of several changes are not covered.',
  ['emitters/choice.py'],
  [('property setters that update each other', 'emitters/choice.py')],
  [('settings', 'replace, replace_only_after_call, weights, cum_weights', 'emitters/choice.py')],
  ['replace', 'replace_only_after_call', 'weights', 'cum_weights', 'return value of a call'])

p('C06', 'Reported numbers of unique values are exact at every moment',
  'For a choice emitter the reported number of unique items, number of unique values and whether it emits only unique values are always exact: without replacement they describe precisely what remains, otherwise the whole set of items. For static and sequential emitters the number is that of their different values; for word and text emitters built on finite emitters it is the number of combinations of their different lengths, characters, words and separators; and it is unknown (None) wherever it cannot be known.',
  ['histories', 'configurations'], 'every configuration (duplicates, unhashable values, zero lengths) at every point of every call history',
  'Tests read the numbers for a few configurations, mostly right after creation.',
  ['emitter.py', 'mixins.py', 'emitters/choice.py', 'emitters/fixed.py', 'emitters/text.py'],
  [('num_unique_values / num_unique_items / emits_unique_values', 'emitters/choice.py'), ('ItemsMixin.num_unique_values', 'mixins.py'), ('_update_num_unique_vals', 'emitters/text.py')],
  observe=['num_unique_items', 'num_unique_values', 'emits_unique_values'])

p('C07', 'Weights decide how often items are chosen',
  'A choice emitter chooses among its own items in proportion to their weights (equally without weights), in every mode: with replacement for each value, and without replacement (or within one call) for each next value among what is left. An item with weight 0 is never chosen while an item with weight remains, every item with weight can be chosen, and a chance emitter gives True with the given probability, never at 0 or below and always at 1 or above.',
  ['inputs', 'configurations', 'histories'], 'every list of weights or cumulative weights, every mode and every sample size',
  'Tests pin the output for single seeds; they cannot tell a wrong distribution from a right one, and do not combine zero weights with every mode.',
  ['emitters/choice.py', 'mathtools.py'],
  [('rng.choices with cumulative weights', 'emitters/choice.py'), ('weighted_shuffle', 'mathtools.py'), ('chance', 'emitters/choice.py')],
  observe=['frequencies of returned values over many seeds', 'order of returned values'])

p('C08', 'Seeding makes all random output reproducible and isolated',
  'The values a random emitter gives depend only on its configuration, its seed and the calls since it was created, seeded or reset: equal seeds give equal output in another instance or another process, seeding with s is the same as creating with seed s, and a reset replays the output from the start. Seeds that start a generator differently give different output, and without a seed every start gives output of its own, in every process. Other emitters, the global random generator and the state of the process neither influence it nor are influenced by it.',
  ['histories', 'schedules', 'configurations'], 'every random emitter kind and nesting, every seed (including 0, empty and negative values), every interleaving of calls on several instances',
  'Tests pin some outputs for some seeds in one process; interleavings, falsy seeds, replays after partial use and other hash seeds are not covered.',
  ['mixins.py', 'emitters/choice.py', 'emitters/text.py', 'emitters/wrappers.py', 'emitters/fromfields.py', 'mathtools.py', 'profile.py'],
  [('own random.Random per object, re-created from rng_seed on reset', 'mixins.py'), ('seed/reset reshuffle', 'emitters/choice.py')],
  [('rng, rng_seed', 'generator and the seed that reset restores', 'mixins.py')],
  ['return values of calls on instances with equal configuration and seed'])

p('C09', 'Iterative and sequential emitters cycle through their source in order',
  'An iterative or sequential emitter gives the values of its source in order, starts over from the first value after the last one, and keeps its place between calls; after a reset (or after each call, if so configured at that moment) it starts again from the first value. Each time around it takes a new iterator from its factory. Infinite iterators work: a value is taken from the source only when it is given. The iterator and its factory can be read back, a newly set source starts from its beginning, and a static emitter always gives its current value.',
  ['histories', 'inputs', 'configurations'], 'every source (any length, falsy and repeated values), every sequence of calls of any size, resets and changes of source or mode',
  'Tests use a few fixed sequences and call patterns; long mixed histories with mode changes and cycle boundaries are not covered.',
  ['emitters/fixed.py', 'mixins.py'],
  [('make_infinite_iter', 'emitters/fixed.py'), ('reset_after_call', 'emitters/fixed.py')],
  [('iterator position', 'how far into the source the emitter is', 'emitters/fixed.py')],
  ['return value of a call', 'items', 'value'])

p('C10', 'Every word has the drawn length and consists of the drawn characters',
  'Each word is the concatenation of as many successive values of its alphabet emitter as the next value of its length emitter says, with nothing lost, added or reordered between words; making words never starts these emitters over. An alphabet made from code point ranges contains exactly the characters of these ranges, both ends included, in the given order.',
  ['inputs', 'histories', 'configurations'], 'every length and alphabet stream (zero lengths included), every call pattern and every list of ranges',
  'Tests use static or seeded children with a few lengths.',
  ['emitters/text.py'],
  [('Word.emit / emit_many', 'emitters/text.py'), ('make_alphabet', 'emitters/text.py')],
  observe=['return value of a call', 'make_alphabet()'])

p('C11', 'Every text has the drawn words joined by the drawn separators',
  'Each text consists of as many successive values of its word emitter as the next value of its number emitter says, with the successive values of its separator emitter (a space by default) between adjacent words only; no words gives an empty text. If the word emitter replaces words only after each call, no word occurs twice among the words of one request until all of its words have been used. Making texts starts none of these emitters over, except such a word emitter whose words run out.',
  ['inputs', 'histories', 'configurations'], 'every stream of word counts (0 and 1 included), words and separators, every request size, vocabularies smaller and larger than a request',
  'Tests use fixed word counts and one vocabulary; counts of 0, mixed counts and multi-value requests that cross the vocabulary size are sampled once or not at all.',
  ['emitters/text.py'],
  [('Text.emit_many', 'emitters/text.py'), ('Text._get_words_iterator', 'emitters/text.py')],
  observe=['return value of a call'])

p('C12', 'A wrapper function is applied exactly once per output to the source values',
  'Each value of a wrapper emitter is the result of one call of the wrapper function on the next value of the source emitter (or, by name, the next value of each source), in order, with one function call and one value from each source per output. A function that takes a random generator always gets the one that belongs to the emitter it is bound to at that time. Setting a function that can be called this way succeeds and starts the sources over; any other function is rejected with a TypeError.',
  ['inputs', 'histories', 'configurations'], 'every source stream and function signature, every call pattern, changes of function, seed and reset in between',
  'Tests use a few functions and pin seeded results; call counts, bindings after reset and reseeding, and rebinding across emitters are not tracked over histories.',
  ['emitters/wrappers.py', 'mixins.py'],
  [('BoundWrapper', 'emitters/wrappers.py'), ('WrapOne / WrapMany emit and emit_many', 'emitters/wrappers.py')],
  observe=['return value of a call', 'calls seen by the wrapper function', 'exception raised'])

p('C13', 'A field gives nothing, one value or a list as its gate and repeat emitters say',
  'Each call of a field takes one value from its gate: if it is false, the field gives None and takes nothing from its repeat and data emitters; otherwise it gives one value of its data emitter if its repeat emitter says None, or a list of k successive values if it says k. The last result of a field is always available as its previous value, and is None before the first call and after a reset. A field reports being multi-valued unless its repeat emitter can only give None.',
  ['histories', 'configurations'], 'every stream of gate, repeat and data values, every sequence of calls, resets and replaced emitters',
  'Tests use constant gates and repeats or pinned seeds.',
  ['profile.py'],
  [('Field.__call__', 'profile.py'), ('Field.multi_valued', 'profile.py')],
  [('previous value', 'the last result', 'profile.py')],
  ['return value of a call', 'previous', 'multi_valued'])

p('C14', 'A schema document has every public field, in order, each called once',
  'Each call of a schema calls every one of its fields exactly once, in the order in which they were added, and returns a new dictionary that has exactly the public fields, by name and in that order, with the values just generated. Hidden fields are generated but left out, empty fields are kept with None, and adding, replacing, removing or hiding fields takes effect with the next document. All fields, the public ones and the hidden ones are each given as an object map, which applies a change or a method to all of them.',
  ['histories', 'configurations'], 'every set of fields and every sequence of documents, additions, replacements, removals and changes of visibility',
  'Tests build a few static schemas and generate a document or two from each.',
  ['profile.py', 'group.py'],
  [('Schema.__call__', 'profile.py'), ('Schema.add_fields / set_fields / hidden_fields / public_fields', 'profile.py')],
  [('fields', 'ordered map from name to field', 'profile.py')],
  ['document returned by a call', 'hidden_fields', 'public_fields', 'fields'])

p('C15', 'Fields based on other fields use exactly the current values of their sources',
  'An emitter that copies one single-valued field gives its last value unchanged; with several or multi-valued source fields it gives all of their last values in order as one list without empty fields (None if there are none), or joined with the separator as one string. An emitter based on fields gives the result of its action on the last value of its one source field, or on the last values of all of its source fields by name. Neither calls, resets or otherwise changes its source fields when emitting, or when set up with an action whose parameters fit.',
  ['inputs', 'histories', 'configurations'], 'every combination of single- and multi-valued, empty, falsy and hidden source fields, separators and actions, over every document history',
  'Tests use truthy constants for sources and a document or two.',
  ['emitters/fromfields.py', 'profile.py'],
  [('CopyFields.emit', 'emitters/fromfields.py'), ('BasedOnFields.emit / action', 'emitters/fromfields.py'), ('SourceFieldGroup.single_valued', 'emitters/fromfields.py')],
  observe=['return value of a call', 'values in a document', 'previous of the source fields'])

p('C16', 'Seeds and resets reach every part of a composite emitter, field or schema',
  'Seeding a composite emitter, field or schema seeds every random part in it, at any depth, with that seed, and resetting it puts every part back to its start, with random parts using the seed of the whole. Setting the seed attribute alone has no effect until the next reset, parts without randomness are left alone by seeding, and after the same seeding or reset a schema gives the same documents again. The parts and items of a whole can be read back, and the mixins do all this in classes of a user\'s own too, whose base class has its own resetting and seeding.',
  ['histories', 'configurations'], 'every nesting of composite emitters in fields and schemas, every sequence of seed, reset, seed attribute changes and calls on any part',
  'Tests check one level of nesting per class with one seed.',
  ['mixins.py', 'group.py', 'profile.py', 'emitters/text.py', 'emitters/wrappers.py', 'emitters/fromfields.py'],
  [('RandomWithChildrenMixin.reset / seed', 'mixins.py'), ('do_method / setattr on groups', 'group.py'), ('Schema.reset_fields / seed_fields', 'profile.py')],
  [('rng_seed of every part', 'what a reset restores', 'mixins.py')],
  ['next value of every part after an operation', 'documents'])

p('C17', 'A date/time range is a sequence like a range, under any indexing and slicing',
  'A range of dates, times or datetimes behaves as the sequence of its values: its length, iteration in either direction and every index (negative too, with an IndexError outside) agree, and any slice with any start, stop and step, of a range or of another slice, gives a range with exactly the values that slicing the list of values gives. Times wrap around at midnight, values keep their type and timezone, and the stop value is the one that would come next.',
  ['inputs', 'histories'], 'every start, length and step (positive and negative), every index and every chain of slices',
  'Tests use a table of ranges and slices; chains of slices, extreme indexes, negative steps on wrapped or timezone-aware times are not combined.',
  ['dtrange.py'],
  [('DateOrTimeRange.__getitem__', 'dtrange.py'), ('_index_to_value', 'dtrange.py')],
  observe=['len', 'iteration', 'item and slice access', 'stop'])

p('C18', 'Membership, position, count and equality of ranges match their values',
  'A value is in a date/time range, has a count and has an index (also within given index limits, with a ValueError if it is not there) exactly as it would in the list of the values of the range; anything that is not such a value, of any type, is simply not in it. Two ranges are equal exactly when they have the same values in the same order, and equal ranges have equal hashes.',
  ['inputs', 'histories'], 'every range and slice of a range, every value on or between the values of the range and outside of it, values of other types, every pair of ranges',
  'Tests use a table of ranges and values; off-grid values, wrapped times, negative steps and foreign types are sampled only.',
  ['dtrange.py'],
  [('_value_to_index', 'dtrange.py'), ('index / __contains__ / count / __eq__ / __hash__', 'dtrange.py')],
  observe=['in', 'index', 'count', '==', 'hash'])

p('C19', 'The range factory gives start, start + step, ... up to but excluding stop',
  'A range made from a start, stop, step and unit (objects or ISO strings, by default days for dates and seconds otherwise) has exactly the values start, start + step, ... that come before stop in the direction of the step, so it is empty if stop is not in that direction. Times run past midnight if needed, and for times an equal start and stop means the full 24 hours in either direction.',
  ['inputs'], 'every start, stop, step (positive, negative, fractional) and unit for dates, times and datetimes',
  'Tests use a table of arguments, mostly with a positive step and a stop after start.',
  ['dtrange.py'],
  [('dtrange', 'dtrange.py'), ('_parse_user_date', 'dtrange.py')],
  observe=['values of the range returned'])

p('C20', 'Group operations act on every member that supports them, and only on those',
  'Setting an attribute on a group sets it on exactly those members that already have it, and running a method on a group runs it exactly once, with the given arguments and in order, on each member that has it; members that are None or lack it are skipped without an error, and other errors are not hidden. A group otherwise behaves like the list or ordered dictionary of its members, whatever was added, replaced or removed before.',
  ['inputs', 'histories', 'configurations'], 'every mix of members with and without the attribute or method and None, every sequence of changes to the group',
  'Tests use a few fixed groups of two or three members.',
  ['group.py'],
  [('GroupMixin.setattr / do_method', 'group.py'), ('ObjectGroup / ObjectMap', 'group.py')],
  observe=['attributes and calls seen by members', 'contents of the group'])

p('C21', 'Invalid settings are rejected at once and leave everything as it was',
  'Settings that cannot work are rejected when they are given, at creation or later, with a ValueError, TypeError or AttributeError: empty items or sources, weights that do not match the items or are given twice, functions with unsuitable parameters, and date/time ranges with unusable types, steps or units or an attempt to change one. A rejected change leaves the object with its previous settings, and without replacement with the same items left, and it goes on working.',
  ['inputs', 'histories', 'configurations'], 'every kind of invalid setting, at creation and at any point of any history',
  'Tests check that the error is raised, not the state of the object afterwards.',
  ['emitters/choice.py', 'emitters/fixed.py', 'emitters/wrappers.py', 'emitters/fromfields.py', 'dtrange.py'],
  [('checks in constructors and property setters', 'emitters/'), ('set-once properties', 'dtrange.py')],
  observe=['exception raised', 'settings and output after a rejected change'])

p('C22', 'Deprecated names and setters keep working, with a warning each time',
  'Every deprecated public name can still be imported or read, is listed among the names of its module and gives its replacement or original object, with a DeprecationWarning that names it each time it is accessed, and other unknown names raise an AttributeError. Setting the iterator factory of a sequential emitter warns, makes the emitter give the values of the new source, and is what is read back. The deprecated wrapper class still works like the ones that replace it, and passes its seed on to its sources; nothing that is not deprecated causes such a warning.',
  ['histories', 'inputs'], 'every public and unknown name of every module, and every sequence of accesses and uses',
  'Tests access each deprecated name once.',
  ['warn.py', 'typing.py', 'emitters/__init__.py', 'emitters/wrappers.py', 'emitters/fixed.py'],
  [('get_deprecated_attr in module __getattr__', 'warn.py'), ('Sequential.iterator_factory setter', 'emitters/fixed.py')],
  observe=['attribute access', 'dir()', 'warnings'])

p('C23', 'Poisson and Gaussian choices are weighted by the distribution they name',
  'The weights of a Poisson or Gaussian choice emitter are the values of the Poisson probability or Gaussian density with the given parameters at 1, 2, 3, ... for the first, second, third item and so on, for any number of items, except that a weight below the given floor is raised to the floor. All other options have the same effect as for a choice emitter created with these weights.',
  ['inputs', 'configurations'], 'every number of items, mean, deviation and floor, and every combination of the other options',
  'Tests compare a few computed values and pin outputs for single seeds.',
  ['emitters/choice.py', 'mathtools.py'],
  [('poisson_choice / gaussian_choice', 'emitters/choice.py'), ('poisson / gaussian / clamp', 'mathtools.py')],
  observe=['weights', 'settings and output of the emitter returned'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
