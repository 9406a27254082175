#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, quant, tests, files, mech, claim=True,
         note='', tech='', reason=''):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  over=over, quant=' '.join(quant.split()),
                  tests=' '.join(tests.split()), files=files, mech=mech,
                  claim=claim, note=' '.join(note.split()), tech=tech,
                  reason=reason))


S = 'citrine/storage/'
D = 'citrine/database/'
N = 'citrine/connection/'

TLA = ('TLA+ model checked with TLC; behaviours of the model and random '
       'schedules executed on the real code, recorded traces judged by TLC')

prop('C01', 'A container is a map from ids to the objects last written',
     '''Reading an id from a container returns the object most recently written
     under it, whatever that object is (including None, 0, empty text and other
     falsy values), and the given default if it was never written or was
     deleted. When several groups of the container hold an id, the copy in the
     primary group is read, else the one in the first listed group that has it;
     has counts the groups that hold the id, `in` tells whether any does,
     iterating gives each id once with the object read for it, and deleting
     removes and returns all copies. An operation on one id never affects another id,
     and a write refused for capacity leaves everything as it was.''',
     ['histories', 'inputs', 'configurations'],
     '''every sequence of writes, reads, presence tests, deletes and strictness
     changes, on containers of any number of groups in any order with any of
     them as primary, in memory or stored''',
     '''Unit tests run a handful of fixed scripts on truthy strings with the
     primary first; they never combine operations, group order and values.''',
     [S + 'container.py', S + 'group.py'],
     [('read, write, has, delete', S + 'container.py'),
      ('primary and secondary groups', S + 'container.py')])

prop('C02', 'A group of collections behaves as one dictionary',
     '''A storage group (and a single collection) behaves as one dictionary
     under insert, update, get, pop, popitem, setdefault, clear, membership and
     its key, value and item views, for all ids and all values including falsy
     ones. Insert never replaces an existing object and reports 1 or 0, update
     replaces, popitem takes the lowest id, and popping a missing id without a
     default fails. Every id is kept in exactly one collection, the one given
     by its UTF-8 bytes read as a big-endian number modulo the number of
     collections, also after the group was stored and loaded again.''',
     ['histories', 'inputs', 'configurations'],
     '''every sequence of operations, ids (empty, multi-byte, long, sharing
     prefixes), values and collection layouts''',
     '''Tests use a few ASCII ids on one layout and check each method alone;
     placement and interaction of operations cannot be sampled exhaustively.''',
     [S + 'group.py', S + 'collection.py'],
     [('id to collection', 'get_group_index in ' + S + 'group.py'),
      ('dispatch to collections', 'groupfn in ' + S + 'group.py')])

prop('C03', 'Ordered iteration and ranges are complete, sorted and exact',
     '''Iterating a group over its keys, values or items yields every entry
     whose id lies between the optional inclusive bounds exactly once, in
     ascending order of id (values in the order of their ids), however the ids
     are spread over collections. The lowest and highest id, with an optional
     bound, are those of the whole group, or an error if nothing is in range;
     by-value iteration yields all pairs from the given value on, in descending
     order of value, then id.''',
     ['histories', 'inputs', 'configurations'],
     '''every content of a group (falsy ids and values included), every layout
     with empty and full collections, and every pair of bounds''',
     '''Tests iterate one fixed group; merging several sorted streams goes wrong
     only for particular spreads, bounds and falsy entries.''',
     [S + 'group.py', S + 'collection.py'],
     [('merging the collections', 'iterkeys, iteritems in ' + S + 'group.py'),
      ('extremes', 'minKey, maxKey in ' + S + 'group.py')])

prop('C04', 'Strict groups and collections never exceed their capacity',
     '''While strict mode is on, no operation (insert, update, setdefault) adds
     an id that would take a collection above its maximum size; the operation
     fails with a capacity error and changes nothing at all, also when only
     part of an update would not fit. Anything that fits is accepted, changing
     an id that is already stored is accepted even in a full collection, and
     with strict mode off no size limit applies. Strict mode can be switched at
     any time for all collections of the group.''',
     ['histories', 'inputs', 'configurations'],
     '''every sequence of additions, replacements and removals around the limit,
     every layout of maximum sizes, and every moment of switching strictness''',
     '''Tests fill one collection and try one insert; atomicity of a rejected
     update and every path to the limit are not reached.''',
     [S + 'collection.py', S + 'group.py'],
     [('limit of a collection', 'insert, update, setdefault in ' + S + 'collection.py'),
      ('limit of a group', 'insert, update in ' + S + 'group.py')])

prop('C05', 'Sizes, usage and health always describe the actual contents',
     '''After any history, the reported size, maximum size, usage, per-collection
     usage with its extremes, and status of collections, groups and containers
     are exactly those of what is stored: sizes are counts of entries, usage is
     size over maximum size, and the status is the highest of the levels 0, 60,
     70, 80 and 90 that the usage in percent, rounded up, reaches, for a group
     that of its fullest collection. A container counts all copies in all groups
     for its size and maximum size, and describes its primary group by capacity,
     used, usage, status and strictness.''',
     ['histories', 'configurations'],
     '''every history of operations including removals, rejected additions,
     reloading, resizing and condensing''',
     '''Tests compare figures after a few inserts; staleness or drift needs
     histories with deletions, reloads and merges.''',
     [S + 'collection.py', S + 'group.py', S + 'container.py'],
     [('collection figures', 'CollectionMeta in ' + S + 'collection.py'),
      ('group figures', 'GroupMeta in ' + S + 'group.py'),
      ('container figures', 'ContainerMeta in ' + S + 'container.py')])

prop('C06', 'New groups and containers have the size that was asked for',
     '''A new container has the smallest prime number of collections (counting 1
     as prime) that can hold the requested capacity at the requested maximum
     collection size, all of equal maximum size not above it, and together
     holding at least the capacity. The recommendation for the next size is the
     smallest such prime for one and a half times the current size. A group
     defined collection by collection gets exactly these sizes at these places,
     with gaps and extra places of the default size, invalid sizes being
     refused, and the strictness asked for applying to every collection.''',
     ['inputs', 'configurations'],
     'every capacity, maximum collection size, custom definition and strictness',
     '''Tests try a few numbers; off-by-one errors show only at particular
     divisions and primes.''',
     [S + 'utils.py', S + 'container.py', S + 'group.py'],
     [('number of collections', S + 'utils.py'),
      ('new container', 'Container.new in ' + S + 'container.py'),
      ('new group', 'Group.new in ' + S + 'group.py')])

prop('C07', 'Resizing and condensing preserve every object and its priority',
     '''Resizing or condensing a container changes nothing that can be read:
     every id keeps the object it had, the copy with the highest priority
     (primary, then listed order) winning, and nothing appears or disappears.
     When it succeeds, the new or existing primary holds the merged objects; with
     transfer the merged groups are emptied, taken out of the container and
     returned in order, without transfer they stay unchanged and nothing is
     returned, and groups that were not to be merged stay in place untouched.
     After a resize the new primary has the requested size, is listed first with
     the old primary next, and keeps the strictness of the old one.''',
     ['histories', 'configurations', 'inputs'],
     '''every container (any number of groups, any primary, overlapping ids,
     falsy objects), every combination of options, repeated in any order between
     writes and deletes''',
     '''Tests resize a few hand-made containers once; overlaps, group order and
     repeated resizes multiply beyond what they sample.''',
     [S + 'container.py'],
     [('resize', 'Container.resize in ' + S + 'container.py'),
      ('condense', 'Container.condense in ' + S + 'container.py')])

prop('C08', 'A crash during a resize or condense loses nothing',
     '''If the process stops after any of the transactions that a resize or
     condense with a transaction manager commits, or one of these commits fails,
     the database as stored then holds a container in which every object can
     still be read with its value and nothing else appears. Condensing that
     container afterwards ends with exactly these objects in its primary group.
     After a failed commit the container in memory agrees with what is stored.''',
     ['crash_points', 'fault_sequences', 'histories'],
     '''every commit of every resize and condense, from every kind of container
     with every combination of options, as a crash point or as the commit that
     fails''',
     '''The existing tests count commits on a mock; none looks at the database
     between two of them.''',
     [S + 'container.py', S + 'transaction.py'],
     [('one transaction per moved object', 'resize and condense in ' + S + 'container.py'),
      ('order of insert and removal', 'condense in ' + S + 'container.py')])

prop('C09', 'A refused or failing resize or condense loses nothing',
     '''A resize to a capacity below the number of stored objects is refused and
     changes nothing. A resize or condense that the strict limit of the primary
     group stops fails with a capacity error exactly when the merged objects do
     not all fit, and leaves every object readable with the value it had, none
     lost, replaced or taken out of the container.''',
     ['histories', 'configurations', 'fault_sequences'],
     '''every strict container and target size, wherever in the merge the limit
     or a failing commit strikes''',
     '''Tests cover no failure in the middle of a merge; which object is in
     flight when the limit strikes depends on ids, order and layout.''',
     [S + 'container.py'],
     [('size check', 'Container.resize in ' + S + 'container.py'),
      ('insert before removal', 'Container.condense in ' + S + 'container.py')])

exec(open(os.path.join(HERE, 'properties_more.py')).read()
     if os.path.exists(os.path.join(HERE, 'properties_more.py')) else '')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as w:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            w.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b}
                                          for a, b in p['mech']],
                            'hook_needed': None}}) + '\n')
    m = {'version': 1,
         'setup_cmd': 'bash harness/setup.sh',
         'checks': [], 'not_applicable': [],
         'notes': 'No hooks: the drivers use the public interface of /repo.'}
    for p in P:
        if not p['claim']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
            continue
        c = f"python3 harness/check.py {p['id']}"
        m['checks'].append({
            'property': p['id'], 'quick_cmd': c,
            'thorough_cmd': c + ' --tier thorough',
            'technique': p['tech'] or TLA,
            'level': 'model_checking',
            'level_note': p['note'] or
            '''The design model is explored exhaustively within its bounds; the
            code is bound to it by replaying the model's transitions and random
            schedules and by TLC judging every recorded response and state.
            Trusts TLC, ZODB and BTrees, and that ids are
            strings.'''.replace('\n            ', ' ')})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as w:
        json.dump(m, w, indent=1)
        w.write('\n')


if __name__ == '__main__':
    main()
