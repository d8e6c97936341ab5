"""Writes known_findings.jsonl (by hand, when a defect is found or fixed)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    {'property': 'C17', 'status': 'known',
     'what': 'slicing a range of times that spans more than 24 hours raises '
             'a ValueError if the step of the slice is 24 hours or more',
     'line': 2, 'clause': 'slices work, unless the step is zero',
     'script': {'driver': 'RangesDriver', 'label': 'known finding',
                'cfg': {'tt': 3600 * 10 ** 6, 'day': 24, 'td': 10 ** 6,
                        'base': '2016-01-01T00:00:00', 'tbase': '00:00:00'},
                'ops': [{'op': 'ctor', 'kind': 'time', 'tz': '', 'a': 0,
                         'd': 1, 'n': 48},
                        {'op': 'slice', 'i': 1, 'sa': [], 'sb': [],
                         'sc': [24]}]}},
    {'property': 'C15', 'status': 'known',
     'what': 'setting up a BasedOnFields emitter with a built-in whose '
             'signature is unknown (such as str) calls its source fields',
     'line': 2,
     'clause': 'source fields stay as they were when an action that fits '
               'is set',
     'script': {'driver': 'ProfileDriver', 'label': 'known finding',
                'cfg': {},
                'ops': [{'op': 'new_field', 'name': 'a',
                         'data': {'k': 'seq', 'items': ['a', 'b', 'c']}},
                        {'op': 'new_em', 'kind': 'based', 'of': [1],
                         'list': False,
                         'fn': {'id': 'str', 'via': 'builtin'}}]}},
]
FIXED = [
    ('6ca7903', 'C11', 'a Text of zero words failed'),
    ('63008a8', 'C06', 'Word and Text counted a possible length twice if its '
                       'emitter has it twice'),
    ('e7b3884', 'C07', 'weighted choices without replacement failed or never '
                       'ended with weights of 0'),
    ('43c7bdc', 'C23', 'poisson_choice failed for more than 170 items'),
    ('fc63a43', 'C21', 'a rejected wrapper function was kept (also C12)'),
    ('f6ce0b1', 'C21', 'a rejected action was kept'),
    ('fa2df21', 'C15', 'setting a valid action used up values of the source '
                       'fields'),
    ('a37d480', 'C13', 'multi_valued was True for repeat emitters with only '
                       'None, if there were several'),
    ('3b4acf7', 'C06', 'num_unique_values failed for unhashable items'),
    ('fc95c17', 'C19', 'dtrange failed if stop comes before start'),
    ('6ecb755', 'C19', 'a 24-hour dtrange with a negative step was empty'),
    ('f192ad3', 'C17', 'values of time ranges lost their timezone'),
    ('a14b019', 'C18', 'looking for incomparable values raised a TypeError'),
    ('244ab47', 'C17', 'slices of ranges with under two values failed'),
    ('e99fde1', 'C18', 'equal ranges with different steps or stops were not '
                       'equal, and unequal ones were'),
    ('d0b4102', 'C18', 'times past the first 24 hours of a time range were '
                       'not found'),
    ('05d84bb', 'C20', 'do_method hid AttributeErrors raised inside methods'),
    ('0418b8d', 'C20', 'slices, sums, multiples and copies of an ObjectGroup '
                       'were nested in another group'),
    ('5b7e665', 'C20', 'copying an ObjectMap failed'),
    ('b2d2b21', 'C21', 'a range with a step of zero was accepted'),
    ('08ca27e', 'C21', 'lengths castable to an int were not accepted as '
                       'documented (also C19)'),
    ('45b4e23', 'C23', 'weights of poisson_choice were 0 for mu above 745'),
    ('f633bcb', 'C17', 'values of time ranges of many years overflowed the '
                       'calendar'),
    ('a200bdb', 'C21', 'steps of a date range of more than 547 years were '
                       'accepted with a part of a day'),
    ('c45f627', 'C18', 'values of other time zones were looked for, and stops '
                       'in other zones counted (C19), by elapsed time although '
                       'values are steps of local time; times on the other '
                       'side of midnight in their zone were found though they '
                       'are not equal to a value'),
    ('3f6439a', 'C18', 'ranges in different time zones were equal if their '
                       'first two values were, even if offsets change later'),
    ('395132b', 'C18', 'a range and an equal range of a subclass had '
                       'different hashes'),
]


def main():
    with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
        for k in KNOWN:
            f.write(json.dumps(k) + '\n')
        for c, p, what in FIXED:
            full = subprocess.run(['git', '-C', '/repo', 'rev-parse', c],
                                  text=True, capture_output=True,
                                  check=True).stdout.strip()
            f.write(json.dumps({
                'property': p, 'status': 'fixed', 'commit': full,
                'what': f'fixed: property={p} {full} {what}'}) + '\n')


if __name__ == '__main__':
    main()
