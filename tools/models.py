"""Exhaustive checks of the protocol models, and of wrong variants of them that
their properties must notice."""
import re
from concurrent.futures import ThreadPoolExecutor
from vlib import CheckError

HEAD = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK TRUE\n'
TRAVERSE = dict(Cells=3, Ranks=3, Works='{1, 3}', Sweeps=2, Both='TRUE', Protos='{"tycho", "capsaicin"}', Modes='{"eager", "rdv"}',
                Variants='{""}', Edges='{1, 2, 3}')
SCHEDULED = dict(Cells=3, Ranks=3, Groups=2, Works='{1, 3}', Sweeps=2, Protos='{1, 2}', Modes='{"eager", "rdv"}', Variants='{""}', Edges='{1, 2, 3}')
SWEEP = dict(N=3, Ranks=3, Sweeps=3, Couplings='{"full", "lag"}', Variants='{""}', Edges='{0, 1, 2, 3}')
EXCHANGE = dict(Faces=2, Ranks=3, Times=3, Modes='{"rdv"}', Barriers='{TRUE, FALSE}', Variants='{""}')
INVS = {'ExchangeMC': 'Good InStep', 'SweepMC': 'Good Confluent Once Complete', 'TraverseMC': 'Good Order Carried LockStep NotDark', 'ScheduledMC': 'Good Agreed'}
BASE = {'ExchangeMC': EXCHANGE, 'SweepMC': SWEEP, 'TraverseMC': TRAVERSE, 'ScheduledMC': SCHEDULED}


def check(ctx, jobs, procs=4, workers=2):
    """jobs: (module, constants, expected distinct states) or, for a wrong
    variant, (module, constants, what must be violated: text of the report)."""
    ctx.classes()

    def one(a):
        n, (mod, const, want) = a
        cfg = ctx.path('%s-%d' % (mod, n))
        with open(cfg + '.cfg', 'w') as f:
            f.write('CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in dict(BASE[mod], **const).items()) + HEAD + 'INVARIANTS %s\n' % INVS[mod])
        wrong = isinstance(want, str)
        r = ctx.tlc(mod, cfg=cfg, workers=workers, expect=None if wrong else want, timeout=3000)
        if wrong and (r['ok'] or not re.search(want, (r['violated'] or '') + r['out'])):
            raise CheckError('%s %s: the wrong protocol is not noticed as "%s" but: %s' % (mod, const, want, r['violated']))
        if not wrong and not r['ok']:
            raise CheckError('%s %s: %s\n%s' % (mod, const, r['violated'], r['out'][-3000:]))
        return r
    with ThreadPoolExecutor(procs) as ex: return list(ex.map(one, enumerate(jobs)))


def wrong(mod, variant, want, **const):
    return (mod, dict(const, Variants='{"%s"}' % variant), want)


RDV = dict(Modes='{"rdv"}')
NO_DEADLOCK = [('TraverseMC', dict(RDV, Works='{1}'), 168386),
               ('ScheduledMC', dict(RDV, Ranks=2), 115524),
               ('ExchangeMC', {}, 75228),
               wrong('ExchangeMC', 'blocking', 'Deadlock reached'),
               wrong('ExchangeMC', 'nometa', 'Deadlock reached'),
               wrong('TraverseMC', 'blocking', 'Deadlock reached', Protos='{"tycho"}', **RDV),
               wrong('TraverseMC', 'nowaitrecv', 'Deadlock reached', Protos='{"capsaicin"}', **RDV),
               wrong('ScheduledMC', 'blocking', 'Deadlock reached', **RDV)]
MESSAGES = [wrong('ExchangeMC', 'nowait', 'a send is open after its buffer is gone'),
            wrong('ExchangeMC', 'anysource', 'a message of another exchange'),
            ('TraverseMC', dict(RDV, Works='{1}', Ranks=2), 35720),
            wrong('TraverseMC', 'killnowait', 'a send is open after its buffer is gone', Protos='{"tycho"}', Sweeps=1, Works='{3}', **RDV),
            wrong('TraverseMC', 'stale', 'a dependency is received twice', Works='{1}', **RDV),
            wrong('TraverseMC', 'dark', 'Deadlock reached|is violated', Protos='{"tycho"}', Works='{3}', **RDV)]
DEEP_DEADLOCK = [('TraverseMC', {}, 669614), ('ScheduledMC', {}, 2688744),
                 wrong('TraverseMC', 'nokill', 'Deadlock reached', Protos='{"tycho"}', Works='{3}', **RDV),
                 wrong('ScheduledMC', 'noturn', 'two threads are in the barrier', Protos='{2}', **RDV),
                 wrong('ScheduledMC', 'short', 'a task is not solved', Protos='{1}', **RDV),
                 wrong('ScheduledMC', 'early', 'a task is solved before one it depends on', **RDV)]
LAGGED = [('ExchangeMC', dict(Modes='{"eager"}', Times=2), 57270),
          wrong('ExchangeMC', 'fewer', 'with the values of another sweep'),
          wrong('ExchangeMC', 'unlabelled', 'a value on another face'),
          wrong('ExchangeMC', 'outgoing', 'with the values of another sweep')]
DEEP_LAGGED = [('ExchangeMC', dict(Modes='{"eager", "rdv"}', Faces=3), 1000583)]
DEEP_MESSAGES = [wrong('TraverseMC', 'nobarrier', 'data of another traversal', Protos='{"capsaicin"}', Works='{3}'),
                 ('TraverseMC', dict(Modes='{"any"}', Works='{1}', Sweeps=1), 277054)]
# the sweep as such: any order gives the values of one recurrence
ORDERS = [('SweepMC', {}, 15392),
          wrong('SweepMC', 'early', 'a solve out of order', Sweeps=2),
          wrong('SweepMC', 'again', 'a solve out of order', Sweeps=2),
          wrong('SweepMC', 'short', 'a sweep ends before', Sweeps=2),
          wrong('SweepMC', 'cycle', 'Deadlock reached', Sweeps=2, Edges='{2, 3}')]
VALUES = [('SweepMC', dict(Sweeps=2), 6899),
          wrong('SweepMC', 'fresh', 'an inflow that is not the upwind value', Sweeps=2, Couplings='{"lag"}'),
          wrong('SweepMC', 'skip', 'Confluent is violated', Couplings='{"lag"}')]
CONFLUENCE = [('SweepMC', dict(Sweeps=2, N=4, Ranks=2, Edges='{2, 3}'), 35520)]
DEEP_CONFLUENCE = [('SweepMC', dict(Sweeps=2, N=4, Ranks=4, Edges='{0, 1, 2, 3, 4, 5, 6}'), 423426)]
