#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {'c03-interrupted-clock': 'C03 (missed first: the time was only looked at from callbacks and between loops)',
         'c17-long-name': 'C17 (missed first: short names)',
         'c23-long-key': 'C23 (missed first: keys of up to 190 characters)',
         'c18-overflow-rest': 'C18 (missed first: after an overflow nothing changed while the queue was drained)',
         'c18-long-path': 'C18 (missed first: paths of up to 400 characters)',
         'c27-shared-read': 'C27 (missed first: the threads did not use files)',
         'c13-late-flush': 'C13 (missed first: a late answer was not required to be sent before the next request is handled)',
         'c18-rewatch-label': 'C18 (missed first: the names given with an event were not looked at again after the callback had acted)',
         'c13-abortive-close': 'C13 (missed first: after a close by the application only the end of the connection was awaited, not the answers before it)',
         'c07-read-forced': 'C07 (missed first: TLS streams were always opened for reading)',
         'c02-level-ignored': 'C02 (missed first: switches of the trigger mode alone were rare, and an edge-triggered handler reported over and over was not a violation)',
         'c03-stale-clock': 'C03 (missed first: the harness never asked for the time before the first iteration of a second cycle)',
         'c06-burst-limit': 'C06 (missed first: no burst above 1 MiB waited at one wake-up; scenario stream/burst added)',
         'c03-second-signal': 'C03 (missed first: one signal per life)',
         'c05-same-setting': 'C05 (missed first: a timer hardly ever got the setting it had)',
         'c08-early-request': 'C08 (missed first: streams were used only once open)',
         'c12-long-pipeline': 'C12 (missed first: at most a few requests at once, many of them deferred)',
         'c18-removed-file': 'C18 (missed first: no removed file was used on)',
         'c19-protocol': 'C19 (missed first: the usual protocols only)',
         'c23-truncated-key': 'C23 (missed first: random 64-bit keys; adversarial key profiles added)',
         'c03-many-descriptors': 'C03 (missed first: at most 31 descriptors; crowds of up to 10000 added)',
         'c13-many-holds': 'C13 (missed first: at most 5 holds at a time)',
         'c15-loop-clock': 'C15 (missed first: no handler looked at the clock of the loop)',
         'c18-many-watches': 'C18 (missed first: at most 41 watches in one life)',
         'c09-long-target': 'C09 (missed first: names and values up to 1500 bytes)'}
p = V + '/DESIGN.md'
head = open(p).read().split('<!-- seeds -->')[0].split('SEEDTABLE')[0].rstrip()
rows = ['| change | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), FIRST.get(d, m['property'])))
open(p, 'w').write(head + '\n\n<!-- seeds -->\n' + '\n'.join(rows) + '\n')
