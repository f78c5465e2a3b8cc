"""C36: a row group has one chunk per column, under its descriptor, all with the same rows."""
from .. import frame
from . import rowgroup


def check(c):
    c.rule('In the row-group writers, for any list of columns, by induction over the loop: the k-th chunk is written under the k-th descriptor from the k-th item of the iterator; a successful end has written as many chunks as there are '
           'descriptors and has seen the iterator end; and for an arbitrary chunk j the recorded number of rows equals the rows of chunk j.')
    ri = [it for it in rowgroup.items(c.P) if it[0] == 'group']
    n = 0
    for it, obs in zip(ri, frame.pmap(rowgroup.task, ri, fresh=True)):
        c.analysed[it[1]] = 1
        for prop, good, key, what, where in obs:
            if prop == 'C36':
                n += 1
                c.ob(good, '%s %s' % (key, it[1]), what, where, '%s: %s' % (it[1], key))
    c.ob(len(ri) >= 2, 'missing-anchor', 'the sync and the async writer of row groups were not found')
    c.floor('obligations', n, 10)
