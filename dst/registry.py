"""What each check explores, for the runner and the evidence (no code under test is imported here)."""
REAL_ALL = ['sampo (schedulers, timelines, genetic, backends, schemas) from /repo, unmodified', 'numpy', 'pandas', 'deap', 'dill']
STUBS = ['operating-system clock (virtual clock)', 'operating-system entropy (seeded)',
         'process pool (forked workers in lockstep under the seeded scheduler)', 'storage device (scratch directory with injected faults)']
ASSUME = ['a run is one fork of a warmed process; what happens before the fork (imports) is part of every run',
          'problems are generated: up to 22 chains of works, 4 kinds of specialists, 3 contractors']
META = {}


def _m(pid, rule, states='distinct abstract states hashed by the scenario', quick_s=60, thorough_s=900, level='exploration',
       max_runs=10 ** 9, real=REAL_ALL, stub=STUBS, assumptions=ASSUME, pair=False):
    META[pid] = dict(rule=rule, states=states, quick_s=quick_s, thorough_s=thorough_s, level=level, max_runs=max_runs,
                     real=real, stub=stub, assumptions=assumptions, pair=pair)


_SESSION = ('one run = one seeded service session: a generated planning problem, 1-3 requests to schedulers drawn with all '
            'their parameters, disturbed by clock jumps, aborted requests, other clients, dropped graphs and lost pool '
            'workers; non-trivial = at least one schedule of a problem with more than one work was judged; distinct = '
            'distinct event traces')
for _p in ('P01', 'P02', 'P03', 'P04', 'P05'):
    _m(_p, _SESSION, states='(scheduler kind, scheme, number of works, execution time) of judged schedules')

_m('P06', 'one run = one session of 1-4 requests (a third of them aborted by a failing estimator at a seeded call); all '
          'inputs and all earlier results are compared field by field after every call; non-trivial = more than one work',
   states='(scheduler kind, scheme, outcome, number of works)')
_m('P07', 'one run = a set of requests answered first by a fresh forked service each, then by one long-lived service '
          'after seeded histories (other clients, aborted calls, dropped graphs, reused schedulers); answers compared in '
          'full; non-trivial = more than one work', states='(kind, order of requests so far, outcome)')
_m('P08', 'one run = 2-4 caller threads preempted by the seeded scheduler at executed lines of the library; every answer '
          'compared with the one a forked service gives to that caller alone; non-trivial = at least one preemption',
   states='(function, line) at which a caller was preempted', real=REAL_ALL)

_m('P09', 'one run = one randomised request executed in a forked reference service and again under another clock, other '
          'entropy, other distribution of pool tasks, and once more in a process with another hash seed; answers compared '
          'in full; non-trivial = a schedule of more than one work', states='(kind, scheme, pool, outcome)', pair=True)
_m('P10', 'one run = one evolutionary search observed through its evaluation backend; non-trivial = more than one '
          'evaluated candidate of more than one work', states='(objective, scheme, best value, number of evaluations)')
_m('P11', 'one run = one evolutionary search with drawn budgets under a virtual clock that ticks, stalls and jumps; '
          'non-trivial = at least one generation after the first', states='(generations, plateau, border, staged, evaluations)')
_m('P12', 'one run = one search with a deadline near the reachable time; non-trivial = some evaluated plan met the '
          'deadline', states='(objective, met, deadline, returned times)')
_m('P13', 'one run = the same candidates evaluated serially and in a pool of 1-4 lockstep workers over 1-4 rounds with '
          'failures in workers and lost workers; non-trivial = more than one work', states='(scheme, workers, objective, values)')
_m('P14', 'one run = one initial population, twice under different task distributions when a pool makes it; every '
          'candidate decoded and judged; non-trivial = more than one work', states='(workers, scheme, times)')

_m('P15', 'one run = 2-5 projects planned on one shared timeline by schedulers of one family, some aborted in the middle; '
          'non-trivial = at least two projects booked', states='(family, scheduler, project, finish)')
_m('P16', 'one run = a history of 3-17 bookings (quick; up to 29 thorough) with questions and failed questions in between, '
          'each compared with a brute-force occupancy model; non-trivial = more than two bookings',
   states='(timeline, bookings, start, duration)')

_m('P17', 'one run = 2-7 saves, copies and loads of a generated graph, its contractors, schedules and works, through files on a '
          'faulty device, strings, plain representations, pickles and deep copies; non-trivial = more than one of them',
   states='(kind of object, way, content)')

_m('P18', 'one run = one pipeline built, run, aborted by a failing estimator and retried, finished twice, and its projects judged as the '
          'client reads them (stages united, dependencies in units of work done, critical path); non-trivial = more than one work',
   states='(mode, scheduler, order optimisation, nodes planned, finish)')

_m('P19', 'one run = a plan of a drawn scheduler, 1-4 times damaged in 0-2 ways (works dropped, moved, stretched, exchanged; teams and '
          'contractors altered; people lost) and given to the validator; non-trivial = more than one work',
   states='(damages, verdict, findings of the oracle)')

_m('P20', 'one run = a history of 2-9 edits of work graphs (deletions, insertions, grafts, renumbering, copies, obstructions), tables, '
          'plans and impossible requests; old graphs are dropped and collected in between; every living graph is compared with its '
          'plain description after every step; non-trivial = at least one new graph', states='(edit, works, edges, living graphs)')

_m('P21', 'one run = a project written as tables (frames or files on a faulty device; ids, names, links, lags, requirements, history and '
          'contractors in drawn forms), read, written and read again, planned; non-trivial = more than one work',
   states='(works, edges, history mode, where the names are)', pair=True)

_m('P22', 'one run = a session of 1-3 requests on a site with 1-3 zones (or 2-3 projects of one site on one shared timeline), disturbed as '
          'in P01; statuses are replayed from the changes the plans tell; non-trivial = a judged plan of more than one work',
   states='(scheduler kind, scheme, execution time, changes of status)')

_m('P23', 'one run = a session of 1-2 requests on a site with 1-3 platforms, 1-3 depots with fleets and roads between them, disturbed as in '
          'P01; the stocks, fleets and roads are replayed from the deliveries the plans tell; non-trivial = a judged plan with a delivery',
   states='(scheduler kind, scheme, execution time, deliveries)')

_m('P24', 'one run = one hybrid search of 0-3 steps per cycle (evolutionary and client-supplied, some losing the best individual) after a '
          'seeded history, some attempts failing in the middle; populations handed between the steps are judged by the harness; '
          'non-trivial = more than one cycle over more than one work', states='(objective, scheme, steps, best values of the cycles)')

_m('P25', 'one run = 1-3 clients with seeded generators making projects, contractors, materials and sites in turns, while others reseed or use '
          'the global randomness; each client is repeated alone on another machine; or a site generated for a drawn project and planned; '
          'non-trivial = something was made', states='(kind of step, mode, part of the digest of what was made)', pair=True)

_m('P26', 'one run = one graph of 1-6 drawn blocks auctioned among 1-4 agents by a plain, stochastic or neural manager, at once or auction by '
          'auction with agents failing in the middle and offers nobody takes; non-trivial = more than one block scheduled',
   states='(manager, winners and times of all blocks)')

_m('P27', 'one run = a project planned with randomly productive workers (alone, after a history, or several on one timeline), a project with works '
          'that turn out to be necessary, or the estimator itself; non-trivial = more than one work planned or found',
   states='(part, scheduler, scheme, finish or works found)')

_m('P28', 'one run = a plan of a drawn project (with lags, zones, materials or none) made by the pipeline and 3-7 readings of it, of its copies or '
          'its graph: tables, sums, charts, figures saved to a faulty device; readers spoil the tables they got, other plans are made in '
          'between; every reading is compared with the plan as it was made; non-trivial = more than one work',
   states='(kind, planned works, works of the client, execution time)', pair=True)

_m('P29', 'one run = 1-3 requests to any planner for a project with up to three groups of urgency (numbers from -100 to 9000), disturbed by '
          'clock jumps, aborted requests and other clients; the order returned and the order of every candidate evaluated are judged, plans of '
          'heuristics compared with those made when less urgent works need something else; non-trivial = more than one group',
   states='(scheduler, scheme, order)')
