"""Writes properties.jsonl and MANIFEST.json from one table (run by hand: python3 tools/manifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=('returned schedules',), hook=None, note=''):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook), note=note))


ANY = 'every project, contractors, requirements, scheduler, parameter set and history of earlier (also aborted) requests'

prop('P01', 'Schedules respect precedence, lags and inseparable chains',
     'In every schedule that any scheduler returns, a work starts only after each of its predecessors has finished, plus the '
     'lag of the dependency where it has one; the project start comes before and the project finish after every work. '
     'Works joined by an inseparable dependency are executed by the same team of the same contractor.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], ANY,
     'Tests schedule a handful of fixed graphs; precedence must hold for every graph, lag, chain and scheduler '
     'parameterisation, also after aborted calls and lost pool workers.',
     ['sampo/scheduler/generic.py', 'sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/timeline/base.py',
      'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
      'sampo/schemas/graph.py', 'sampo/scheduler/heft/prioritization.py'],
     [('earliest start from the parents', 'GraphNode.min_start_time, Timeline.find_min_start_time'),
      ('chains are planned as one unit', 'GraphNode.get_inseparable_chain_with_self, Timeline.schedule'),
      ('topological orders', 'prioritization_nodes, converter.order checks')],
     [('node2swork', 'works planned so far', 'sampo/scheduler/generic.py')])
prop('P02', 'No schedule overbooks a contractor or breaks team bounds',
     'At every instant of a returned schedule the specialists of each kind that a contractor has at work do not exceed what it '
     'has. Every work is done by one contractor, with specialists of the requested kinds only and a number of them within the '
     'bounds of the requirement.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], ANY,
     'Overbooking needs a particular overlap of works; the test projects exercise few of them and the library\'s own '
     'validator is only called on some paths.',
     ['sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
      'sampo/scheduler/resource/average_req.py', 'sampo/scheduler/resource/coordinate_descent.py',
      'sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/converter.py'],
     [('slot search and booking', 'MomentumTimeline._find_min_start_time, JustInTimeTimeline.update_timeline'),
      ('choice of the team', 'AverageReqResourceOptimizer.optimize_resources, mutate_resources'),
      ('choice of the contractor', 'Scheduler.run_contractor_search')],
     [('timeline', 'occupancy of the contractors', 'sampo/scheduler/timeline')])
prop('P03', 'Schedules are complete and consistent in duration, cost and table',
     'A returned schedule contains every work of the project exactly once, none of it before the requested start of the '
     'project, each with the duration that its team and the productivity of its specialists need (or the time fixed for it). '
     'The cost of every work is the price of its team times its duration; the table rows equal the works, are ordered by start '
     'time and topologically, and the execution time is the latest finish.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], ANY,
     'Tests check the execution time of a few projects; the arithmetic must agree for every team, price, productivity and '
     'requested start.',
     ['sampo/schemas/schedule.py', 'sampo/schemas/scheduled_work.py', 'sampo/schemas/time_estimator.py',
      'sampo/utilities/schedule.py', 'sampo/scheduler/timeline/base.py'],
     [('duration of a work', 'DefaultWorkEstimator.estimate_time'), ('cost', 'ScheduledWork.__init__'),
      ('table', 'Schedule.from_scheduled_works, Schedule.execution_time')])
prop('P04', 'The user\'s specification is obeyed by every scheduler',
     'A work whose specification names contractors is given to one of them; head counts the specification fixes are used '
     'exactly; a fixed execution time is the time the work takes (shared by the works of an inseparable chain); and a work '
     'marked independent overlaps with no other work that uses the same specialists of that contractor.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], ANY + '; every combination of specified fields, also partial',
     'Tests specify whole teams for a single scheduler; the specification must survive every scheduler, every genetic '
     'operator and every worker process.',
     ['sampo/schemas/schedule_spec.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/genetic/operators.py',
      'sampo/scheduler/genetic/converter.py', 'sampo/scheduler/genetic/schedule_builder.py'],
     [('filter of contractors and teams', 'Scheduler.optimize_resources_using_spec, get_finish_time'),
      ('genetic borders', 'converter.get_node2worker_reqs, convert_schedule_to_chromosome, mutate_resources')])
prop('P05', 'Feasible projects are planned, infeasible ones refused cleanly',
     'If for every work (with its inseparable chain) some contractor the specification admits can supply an admissible team on '
     'its own, every scheduler returns a schedule; if not, it reports the dedicated lack-of-contractor error. No other '
     'error reaches the caller of a well-formed request.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], ANY + '; contractors with missing kinds or too few people',
     'Tests cover one infeasible project; heterogeneous contractors and partial specifications reach other paths of every '
     'scheduler.',
     ['sampo/scheduler/generic.py', 'sampo/scheduler/utils/multi_contractor.py',
      'sampo/schemas/exceptions.py', 'sampo/scheduler/genetic/converter.py'],
     [('choice of the contractor', 'run_contractor_search, get_worker_borders'),
      ('dedicated error', 'NoSufficientContractorError')], observe=('returned schedules', 'raised errors'))
prop('P06', 'Planning changes neither the inputs nor earlier results',
     'A request leaves the work graph, the contractors, the specification and the estimator settings it was given, and every '
     'schedule returned before, exactly as they were, whether it succeeds or fails in the middle.',
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     'every sequence of requests on shared inputs, aborted at any estimator call',
     'Tests make one call per fixture; damage to inputs shows only in later calls or after an abort.',
     ['sampo/schemas/contractor.py', 'sampo/schemas/resources.py', 'sampo/scheduler/utils/__init__.py',
      'sampo/scheduler/genetic/converter.py', 'sampo/scheduler/timeline/base.py'],
     [('workers are copied', 'Worker.copy, get_worker_contractor_pool'), ('schedules are values', 'ScheduledWork')],
     observe=('inputs and earlier schedules compared field by field after every request',))
prop('P07', 'An answer does not depend on what was asked before',
     'The answer to a request is the one a freshly started service gives to it, whatever the service did before: other '
     'clients, aborted requests, dropped graphs, the same scheduler object used again.',
     ['histories', 'fault_sequences', 'configurations'], 'every history of requests before the compared one',
     'Hidden state (caches by id, reused timelines, global backend, class-level state) needs a particular sequence of '
     'requests; tests run each request on its own.',
     ['sampo/base.py', 'sampo/schemas/graph.py', 'sampo/scheduler/genetic/base.py', 'sampo/scheduler/generic.py',
      'sampo/schemas/schedule_spec.py'],
     [('state kept per call', 'Scheduler.schedule_with_cache, backend.cache_scheduler_info'),
      ('cached node orders', 'GraphNode cached properties')],
     observe=('complete answers compared with those of a fresh process',))
prop('P08', 'Concurrent callers get the answers they would get alone',
     'When several threads of one process plan at the same time, on the same or on different projects, each receives the '
     'answer it would have received alone (at most one of them running an evolutionary search).',
     ['schedules', 'inputs', 'configurations'], 'every interleaving of the threads at executed lines of the library',
     'Tests are single-threaded; a race needs a preemption between two particular lines.',
     ['sampo/schemas/graph.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/timeline', 'sampo/schemas/time_estimator.py'],
     [('no shared mutable state between calls', 'all schedulers')],
     observe=('answers of every thread',))
prop('P09', 'Equal seeds give equal results on every machine',
     'A request to a randomised scheduler, the evolutionary search included, gives the same result for the same seed whatever '
     'the time of day, the speed of the machine, the entropy of the operating system, the hash seed of the process or '
     'which worker process evaluates what. Generated projects and contractors are a function of their seed as well.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every seed, request, clock behaviour, hash seed and distribution of pool tasks',
     'A test run sees one machine and one hash seed per process and compares nothing across them.',
     ['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/schedule_builder.py', 'sampo/backend/multiproc.py',
      'sampo/generator', 'sampo/scheduler/topological/base.py', 'sampo/scheduler/lft/base.py'],
     [('one seeded generator', 'GeneticScheduler(rand), Toolbox rand'), ('seeded synthesis', 'SimpleSynthetic(rand)')],
     observe=('complete answers across processes',))
prop('P10', 'The evolutionary search returns the best it evaluated',
     'The schedule an evolutionary search returns is worth exactly what the search computed for it, and nothing it evaluated on '
     'the way is better in the chosen objective; with a deadline, nothing that the search for the objective (its second '
     'stage) evaluated. With several objectives it returns the whole front of non-dominated candidates.',
     ['inputs', 'configurations', 'fault_sequences'], 'every project, objective, budget, scheme, number of worker processes',
     'Tests only check that some schedule comes back.',
     ['sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/converter.py'],
     [('hall of fame', 'build_schedules_with_cache'), ('fitness functions', 'TimeFitness, SumOfResourcesPeaksFitness, ...'),
      ('decoding', 'convert_chromosome_to_schedule')], observe=('evaluations seen by the backend', 'returned schedules'))
prop('P11', 'The evolutionary search ends within its budget',
     'The search runs at most the given number of generations with at most the given population, starts no generation after '
     'its time limit and goes on for no longer than the allowed number of fruitless generations; it does not stop before one '
     'of these (or the deadline it was given) is reached, and it always returns a schedule.',
     ['inputs', 'configurations', 'fault_sequences'], 'every combination of budgets, with evaluations that take, stall or jump any amount of time',
     'Tests use tiny budgets and a real clock.',
     ['sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/base.py'],
     [('main loop', 'build_schedules_with_cache'), ('parameters', 'GeneticScheduler.set_*, get_params')],
     observe=('evaluations and times seen by the backend',))
prop('P12', 'A deadline that the search can meet is met by what it returns',
     'If a search with a deadline (the evolutionary search, or the search for the fewest resources) reaches a plan that meets '
     'the deadline, everything it returns meets it; otherwise the evolutionary search returns the fastest plan it evaluated.',
     ['inputs', 'configurations', 'fault_sequences'], 'every project, deadline, objective and start time',
     'Tests take one project with a generous deadline.',
     ['sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/resources_in_time/average_binary_search.py',
      'sampo/scheduler/genetic/operators.py'],
     [('two stages', 'build_schedules_with_cache'), ('bisection', 'AverageBinarySearchResourceOptimizingScheduler.schedule_with_cache')])
prop('P13', 'Worker processes change nothing but the speed of evaluation',
     'A candidate evaluated in a pool of worker processes is worth what it is worth evaluated in the calling process, in the '
     'right order, for any number of workers and any loss of workers. A failure in a worker reaches the caller as that '
     'failure, and the next evaluation is correct again.',
     ['schedules', 'inputs', 'fault_sequences', 'configurations'], 'every distribution of tasks to 1-4 workers, every lost or failing worker',
     'Tests run the pool once with all workers healthy.',
     ['sampo/backend/multiproc.py', 'sampo/backend/default.py', 'sampo/schemas/time_estimator.py'],
     [('state given to the workers', 'scheduler_info_initializer, genetic_info_initializer'),
      ('map', 'MultiprocessingComputationalBackend.compute_chromosomes')], observe=('values returned by the backends',))
prop('P14', 'Every initial candidate and every offspring of the search is a valid plan',
     'The first population has exactly the requested size and each candidate decodes to a complete plan that respects '
     'precedence, resources and the specification; when worker processes make it, it does not depend on which worker made '
     'what. Crossover and mutation leave the parents as they were, keep the order a permutation of the works, and make '
     'offspring that decode to a valid plan or are refused; where works may change places, the mutation of the order does something.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every project, specification, population size, scheme and number of workers',
     'Tests look at the returned schedule only; an invalid initial candidate hides behind better ones.',
     ['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/base.py', 'sampo/backend/multiproc.py'],
     [('first population', 'generate_chromosomes, generate_chromosome, randomized_init'), ('validity', 'is_chromosome_correct')],
     observe=('decoded initial candidates',))
prop('P15', 'Projects planned on one shared timeline never overbook it',
     'Projects planned one after another on the same timeline share the contractors: each plan is valid by itself and all of '
     'them together use at no instant more specialists than a contractor has, also when some requests failed in the middle.',
     ['histories', 'inputs', 'configurations', 'fault_sequences'], 'every sequence of projects, schedulers of one timeline family, start times and aborts',
     'Tests plan one project per timeline.',
     ['sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
      'sampo/scheduler/generic.py', 'sampo/scheduler/genetic/converter.py'],
     [('given timeline is used', 'schedule_with_cache(timeline)'), ('bookings', 'Timeline.schedule, update_timeline')],
     observe=('schedules of all projects together',))
prop('P16', 'The slot search agrees with a brute-force occupancy model',
     'A timeline asked for the earliest start of a work offers a slot in which the contractor has the whole team free for the '
     'whole time and books exactly the slot it is told to; asking changes nothing, even if the question fails in the middle. '
     'The gap-filling timeline offers the earliest slot there is.',
     ['histories', 'inputs', 'fault_sequences'], 'every history of bookings, questions and failed questions',
     'Tests insert a few intervals; gaps, equal time stamps and zero-length works combine in histories.',
     ['sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
      'sampo/utilities/collections_util.py', 'sampo/schemas/sorted_list.py', 'sampo/schemas/types.py'],
     [('search', 'MomentumTimeline._find_earliest_time_slot, JustInTimeTimeline.find_min_start_time_with_additional'),
      ('booking', 'update_timeline')],
     [('event lists', 'occupancy over time', 'MomentumTimeline._timeline'), ('free queues', 'when specialists become free', 'JustInTimeTimeline._timeline')],
     observe=('offered and booked slots',))

NOT_APPLICABLE = []


def extra():
    import importlib.util
    path = os.path.join(HERE, 'tools', 'manifest_more.py')
    if os.path.exists(path):
        s = importlib.util.spec_from_file_location('manifest_more', path)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        m.fill(prop, NOT_APPLICABLE)


def main():
    extra()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
    na = {x['property'] for x in NOT_APPLICABLE}
    m = dict(version=1, setup_cmd='true',
             hooks=dict(guard='DST_HOOKS', enable='no hooks were needed: every seam is an existing interface or is replaced '
                                                  'from outside the process under test', source_commits=[]),
             checks=[dict(property=p['id'], quick_cmd=f'./run.sh {p["id"]}', thorough_cmd=f'./run.sh {p["id"]} --tier thorough',
                          technique='deterministic simulation with fault injection: seeded search over histories, schedules '
                                    'and faults, independent oracle',
                          level='exploration',
                          level_note=p['note'] or 'Explores seeded runs of the real code under simulated time, entropy, processes and failures; '
                                                  'no claim beyond the executions explored. Trusts the oracle in dst/ and the generators\' domain.')
                     for p in P if p['id'] not in na],
             not_applicable=NOT_APPLICABLE,
             notes='See DESIGN.md. Every violation is minimised and replayed with ./run.sh <id> --replay <file>.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
