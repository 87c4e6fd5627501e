"""Properties P17 and up."""


def fill(prop, na):
    prop('P17', 'What is saved, copied or sent comes back the same',
         'A work, work graph, contractor, schedule or project that is written to a file, a string or a plain representation and read '
         'back, or that is pickled or deep-copied, means exactly the same: every attribute that is saved, every dependency with kind '
         'and lag, every requirement, time, team and price; planning on the copy gives the same answer. Loading does not consume the '
         'representation. A save that fails or is interrupted is reported or noticed on loading: no file is loaded as an object that was '
         'never saved there.',
         ['inputs', 'histories', 'crash_points', 'fault_sequences'],
         'every object, way of saving, and short read, short write, disk error, full disk, crash and torn write during it',
         'Tests save three fixed objects on a healthy disk.',
         ['sampo/schemas/serializable.py', 'sampo/schemas/graph.py', 'sampo/schemas/schedule.py', 'sampo/schemas/works.py',
          'sampo/schemas/project.py', 'sampo/utilities/serializers.py', 'sampo/schemas/contractor.py'],
         [('generic (de)serialisation', 'AutoJSONSerializable, custom_serializer, JSONSerializable.dump/load'),
          ('graphs', 'WorkGraph._serialize/_deserialize/__getstate__/__setstate__'), ('tables', 'Schedule serializers')],
         [('stored file', 'the JSON text on disk', 'sampo/schemas/serializable.py')],
         observe=('loaded objects', 'raised errors', 'file contents'))
    prop('P18', 'The pipeline delivers a valid plan of the client\'s project',
         'A project that comes out of the scheduling pipeline is a valid plan of the work graph that went in, in every lag optimisation '
         'mode: stages that works are split into add up to the work (volume, labour, requirements), are executed by one team in order and '
         'are united again with the right time, team, volume, name and cost; finish-start, start-start, finish-finish and lag '
         'dependencies hold (in units of work done when lags are optimised), as do the user\'s terms. AUTO is no worse than both variants, without '
         'lag optimisation the plan is the one the scheduler gives itself, finishing is repeatable, inputs are kept (contradicting '
         'priorities are corrected, downwards), generated contractors suffice, order optimisation keeps plans valid, and the '
         'critical path is a longest path of the project.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every project, mode, scheduler, area of order optimisation, method of contractor generation, and aborted and retried calls',
         'Tests run the pipeline on three projects and print the number of works.',
         ['sampo/pipeline/default.py', 'sampo/pipeline/delegating.py', 'sampo/structurator/base.py', 'sampo/utilities/schedule.py',
          'sampo/schemas/project.py', 'sampo/scheduler/utils/critical_path.py', 'sampo/scheduler/utils/local_optimization.py',
          'sampo/utilities/priority.py', 'sampo/generator/environment/contractor_by_wg.py'],
         [('restructuring', 'graph_restructuring, split_node_into_stages, fill_parents_to_new_nodes'),
          ('uniting stages', 'Schedule.unite_stages, fix_split_tasks, merge_split_stages'),
          ('choice of the variant', 'DefaultInputPipeline.schedule'), ('order optimisation', 'SwapOrderLocalOptimizer.optimize'),
          ('critical path', 'critical_path_schedule_lag_optimized, ford_bellman')],
         observe=('ScheduledProject.schedule', 'ScheduledProject.raw_schedule', 'ScheduledProject.critical_path()'))
    prop('P19', 'The validator accepts good plans and refuses broken ones',
         'The library\'s validator accepts every valid plan, and refuses every plan in which a work is missing, runs backwards or starts '
         'before a predecessor has finished, a service work takes time, a team is outside the bounds of the requirement, lacks or adds '
         'a kind, a contractor is overbooked, or the contractor is not among those the user allows. It changes nothing.',
         ['inputs', 'fault_sequences'],
         'every plan and every damage to it (also when the contractors lost people since)',
         'Tests damage one plan in a few fixed ways.',
         ['sampo/utilities/validation.py', 'sampo/scheduler/generic.py'],
         [('checks', 'validate_schedule and its parts')], observe=('verdict of validate_schedule',))
    prop('P20', 'Editing a work graph changes what was asked and nothing else',
         'Deleting a work (with its whole chain), inserting a work, grafting one graph into another, renumbering and copying give a new graph '
         'with exactly the works, contents, ids, dependencies, kinds and lags that the edit implies; works ordered before, also through the '
         'deleted one, stay ordered. The graphs that went in, and all other graphs, stay as they were, also when others are dropped and '
         'collected. Obstructions put the inserted works between two neighbours. The node list, lookup, parents and children of a graph always '
         'agree with its edges and are topological; its table says what it says; impossible requests are refused and change nothing; a plan '
         'of an edited graph keeps its dependencies.',
         ['inputs', 'histories', 'fault_sequences'],
         'every graph, history of edits in every order, choice of works, ids kept or changed, collection of other graphs in between',
         'Tests insert and delete one work in one graph.',
         ['sampo/structurator/delete_graph_node.py', 'sampo/structurator/insert_wu.py', 'sampo/structurator/graph_insertion.py',
          'sampo/structurator/light_modifications.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/schemas/graph.py',
          'sampo/scheduler/utils/obstruction.py'],
         [('copies', 'prepare_work_graph_copy, copy_graph_node, restore_parents'), ('deletion', 'delete_graph_node, _node_deletion'),
          ('insertion', 'insert_work_unit, graph_in_graph_insertion, OneInsertObstruction.apply'),
          ('numbers', 'work_graph_ids_simplification'), ('table', 'WorkGraph.to_frame'), ('two-sided edges', 'GraphNode.add_parents')],
         [('edges', 'both ends of every dependency, with cached parents and children', 'sampo/schemas/graph.py')],
         observe=('WorkGraph.nodes, edges_to, edges_from, dict_nodes', 'WorkGraph.to_frame()'))
    prop('P21', 'A project read from tables is the project the tables describe',
         'A project given as a table (frame or file) is read as the work graph it describes: every row is a work with its id, names, measure, '
         'volume, priority, group, description, zone statuses and requirements (from the table or the estimator), every link to a work of the '
         'table is there with kind and lag. Loops are broken only by links that lie on one. History only adds or re-types links between works '
         'that met on a site; works that always followed each other there are linked in that order. Contractors are the ones in the table, or '
         'generated so that they can do every work. The table of a graph reads back as that graph. The frame of the client is not changed; '
         'the same table gives the same graph and plan in every process; a read that fails is reported and can be repeated; a plan of the '
         'table contains its works and respects its links.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every project, form of the table, form of the ids, history, and missing file, disk error and short read on the way',
         'Tests read one table of two works.',
         ['sampo/userinput/parser/csv_parser.py', 'sampo/userinput/parser/general_build.py', 'sampo/userinput/parser/history.py',
          'sampo/pipeline/preparation.py', 'sampo/pipeline/default.py', 'sampo/generator/environment/contractor_by_wg.py'],
         [('columns', 'preprocess_graph_df, add_graph_info, build_work_graph'), ('loops', 'break_loops_in_input_graph'),
          ('history', 'set_connections_info, get_all_seq_statistic'), ('contractors', 'CSVParser.work_graph_and_contractors')],
         observe=('PreparationPipeline.build_wg()', 'ScheduledProject of a table', 'raised errors'))
    prop('P22', 'Works run only while the zones they need have the status they need',
         'On a site with zones every scheduler gives a plan in which the changes of status it tells form one history per zone: they begin with '
         'the status the zone has, take the time the configuration gives, do not overlap each other or a running work that needs the zone; '
         'each work runs from start to finish in the status it needs (works of an inseparable chain need the same statuses); the zones end in '
         'the statuses asked for, no later than the project. The plan is also feasible in every other respect, and none is refused or crashes '
         'because of zones. Works without requirement do not care. This also holds for all projects planned on one timeline.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every project, zone configuration, scheduler and its parameters, start time, number of projects on a timeline, and faults as in P01',
         'Tests schedule one project with one zone and check that it finishes.',
         ['sampo/scheduler/timeline/zone_timeline.py', 'sampo/scheduler/timeline/momentum_timeline.py',
          'sampo/scheduler/timeline/just_in_time_timeline.py', 'sampo/scheduler/genetic/schedule_builder.py', 'sampo/schemas/zones.py'],
         [('search for a moment', 'ZoneTimeline.find_min_start_time'), ('changes', 'ZoneTimeline.update_timeline, finish_statuses'),
          ('callers', 'MomentumTimeline, JustInTimeTimeline, SGS, GenericScheduler')],
         [('zone states', 'events of every zone: changes and works', 'ZoneTimeline._timeline')],
         observe=('ScheduledWork.zones_pre, zones_post', 'start and finish of works'))
    prop('P23', 'Works start with their materials on the platform, carried there as possible',
         'On a site with platforms, depots, fleets and roads every scheduler gives a plan whose deliveries arrive by the start of their work, '
         'leave early enough for the shortest way, and carry only what the depot has. The stock of each platform, replayed from the deliveries '
         'and the needs of the works, never drops below zero or rises over its capacity; vehicles on the way never outnumber the fleet of '
         'their depot, nor, where the way is the only one and nobody waits, the width of a road. The plan is feasible in every other respect, '
         'and none is refused or crashes while stocks, fleets and roads suffice.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every project, site, needs of materials (chains included), scheduler and its parameters, start time, and faults as in P01',
         'Tests check that a project with materials can be scheduled.',
         ['sampo/scheduler/timeline/platform_timeline.py', 'sampo/scheduler/timeline/hybrid_supply_timeline.py',
          'sampo/scheduler/timeline/to_start_supply_timeline.py', 'sampo/scheduler/timeline/momentum_timeline.py',
          'sampo/scheduler/timeline/just_in_time_timeline.py', 'sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py'],
         [('platform', 'PlatformTimeline'), ('deliveries', '_supply_resources, _get_route_with_additional, _find_earliest_start_time'),
          ('ways', 'LandscapeConfiguration.construct_route'), ('chains', 'deliver_resources, _wait_for_materials')],
         [('stocks', 'events of platforms, depots, fleets and roads', 'the supply timelines')],
         observe=('ScheduledWork.materials', 'start of works'))
    prop('P24', 'The hybrid search ends and returns the best it has met',
         'A hybrid search over a cycle of population schedulers ends: after the given number of cycles in a row that bring no better individual '
         'no further cycle is started. The plan returned is the plan of the best individual among the populations that the heuristics and the cycles '
         'delivered, by the objective given, even when later steps lose it; it is valid, keeps the start time and the terms, is the same whatever was '
         'planned before and whichever backend evaluates it, and no feasible project makes it crash.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every project, cycle of population schedulers (also of the client), objective, plateau, start time, backend and failing steps',
         'No test runs the hybrid search.',
         ['sampo/hybrid/cycle.py', 'sampo/hybrid/population.py', 'sampo/scheduler/genetic/schedule_builder.py',
          'sampo/scheduler/genetic/converter.py'],
         [('cycle', 'CycleHybridScheduler.run, _get_population_fitness'), ('first population', 'HeuristicPopulationScheduler.schedule'),
          ('evolutionary step', 'GeneticPopulationScheduler.schedule'), ('plan', 'CycleHybridScheduler.schedule')],
         [('plateau', 'fruitless cycles in a row', 'sampo/hybrid/cycle.py')],
         observe=('returned schedules', 'populations handed between the steps'))
    prop('P25', 'Synthetic projects are sound, of the asked size, functions of their seed',
         'Generated work graphs have one start and one finish, every work between them, unique ids, no cycles and satisfiable requirements. A small '
         'graph has 30 to 50 works; a graph has as many clusters as asked for, at least the bottom or, if only a top is given and a cluster fits, at most the top border of '
         'works; later clusters wait for the first, the previous or a road of an earlier one, by the mode. Extending names or kinds makes at most as many '
         'as asked for, and changes nothing else, nor the input. Works get as many kinds of materials, contractors as many workers as asked for; '
         'a contractor made for a project can do it. A site holds every work and chain on a platform that takes its materials, has depots that can '
         'supply it and ways to them. Everything made of a seed is the same whatever was made before.',
         ['inputs', 'configurations', 'histories'],
         'every seed, mode, border, number and interleaving of generators, draws of the global randomness, and hash seed',
         'Tests use the generator with one seed and do not look at what it makes.',
         ['sampo/generator/base.py', 'sampo/generator/pipeline/project.py', 'sampo/generator/pipeline/cluster.py',
          'sampo/generator/pipeline/extension.py', 'sampo/generator/environment/contractor.py',
          'sampo/generator/environment/contractor_by_wg.py', 'sampo/generator/environment/landscape.py', 'sampo/schemas/interval.py',
          'sampo/utilities/sampler/requirements.py', 'sampo/utilities/sampler/works.py'],
         [('graphs', 'get_graph, get_small_graph, get_cluster_works'), ('names and kinds', '_extend_str_fields'),
          ('contractors', 'get_contractor, get_contractor_by_wg'), ('sites', 'get_landscape_by_wg'), ('draws', 'IntervalUniform, IntervalGaussian, Sampler')],
         observe=('work graphs', 'contractors', 'landscapes'))
    prop('P26', 'Blocks of works are auctioned soundly among agents',
         'A graph of blocks is toposorted; every block is given to exactly one agent, whose plan of it is feasible for its own contractors together '
         'with everything it has won before, and starts when the blocks before it have ended; only blocks nobody can perform are refused, and a failed '
         'or declined offer leaves the agents as they were. The winner is one of the earliest to end; the neural manager follows its predictions; '
         'the stochastic one leaves the productivity of estimators as it was. End times and downtimes of agents are those of what they have won. '
         'Copying and merging a graph of blocks keeps blocks and edges and disposes nothing. Generated graphs of blocks have the asked shape.',
         ['inputs', 'configurations', 'schedules', 'histories', 'fault_sequences'],
         'every graph of blocks, agents with their schedulers and contractors, manager, order of nodes, and agents or estimators failing in the middle',
         'The package of multi-agent modelling has no test.',
         ['sampo/scheduler/multi_agency/multi_agency.py', 'sampo/scheduler/multi_agency/block_graph.py',
          'sampo/scheduler/multi_agency/block_generator.py', 'sampo/scheduler/multi_agency/block_validation.py',
          'sampo/scheduler/generic.py', 'sampo/schemas/interval.py'],
         [('auction', 'Manager.manage_blocks, run_auction; StochasticManager, NeuralManager'), ('agents', 'Agent.offer, confirm, downtime, end_time'),
          ('blocks', 'BlockGraph.toposort, to_work_graph, __copy__'), ('generator', 'generate_blocks')],
         observe=('ScheduledBlocks', 'timelines, downtimes and end times of agents', 'merged work graphs'))
    prop('P27', 'Plans under uncertainty are feasible and functions of the seed',
         'A plan of workers with random productivity is feasible in every respect, its durations are possible within the borders of the '
         'productivities, and it is the same for the same request and seed whatever was planned before; projects planned one after another on a '
         'shared timeline never overbook anyone. A project with works that turn out necessary has every given work and dependency, new works '
         'only as their probabilities allow, each between its work and the finish, of its priority, with volumes within the borders; it can be planned, the given graph '
         'is left alone. Static estimates use no randomness; estimators are recreated equal; all draws are from the seeds given.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every project, productivity, probability, seed, planner, start time, and other clients using the global randomness',
         'No test uses random productivity or generates defects.',
         ['sampo/schemas/time_estimator.py', 'sampo/schemas/structure_estimator.py', 'sampo/schemas/interval.py',
          'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py', 'sampo/schemas/works.py'],
         [('draws', 'DefaultWorkEstimator._get_productivity, find_work_resources'), ('defects', 'DefaultStructureEstimator.restruct'),
          ('times', 'MomentumTimeline.schedule, JustInTimeTimeline.schedule')],
         observe=('returned schedules', 'restructured work graphs', 'estimates'))
    prop('P28', 'Tables, sums and charts of a plan say what the plan says',
         'Every view of a plan agrees with the plan as it was made: the full and the pure table, the dictionary of works, tables with dates for any '
         'offset, in which the stages of a work are one row (first start, last finish, summed volume and cost, its team), united plans; usage, peaks, '
         'sums and costs of the resources, all or the named ones, whatever collection names them; charts of employment by days (from the day of the '
         'start to the day of the finish, inclusive), by works and by intervals; gantt charts with every work, delivery and zone at its '
         'time in the colour asked for; charts of the work graph with every work down to the depth asked for once, after its parents, with '
         'every edge that is not to be hidden. Reading changes neither the plan, the graph nor the given table, also when readers spoil the tables '
         'they got; a copied or reloaded plan shows the same; views do not depend on the hash seed; a figure is saved complete or the failure is reported.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every plan (stages, zones, deliveries), order of reads and of what readers do to the tables, filter, offset, option of a chart and disk fault',
         'Tests compute two of the sums for two plans and draw nothing.',
         ['sampo/schemas/schedule.py', 'sampo/utilities/schedule.py', 'sampo/utilities/resource_usage.py', 'sampo/utilities/datetime_util.py',
          'sampo/utilities/visualization/schedule.py', 'sampo/utilities/visualization/resources.py',
          'sampo/utilities/visualization/work_graph.py', 'sampo/utilities/visualization/__init__.py'],
         [('tables', 'Schedule.*_df, offset_schedule, fix_split_tasks, merge_split_stages'), ('sums', 'get_total_resources_usage and what uses it'),
          ('charts', 'resource_employment_fig, schedule_gant_chart_fig, work_graph_fig, Visualization')],
         observe=('tables', 'numbers', 'figures', 'saved files'))
    prop('P29', 'Works are planned in the order of their dependencies and priorities',
         'Every planner returns with a plan the order in which it handled the works: each work (a chain by its first one) once, the start of the '
         'project first and its finish last, no work before one it waits for, and - for planners that place works one after another - no work before '
         'a more urgent one (a lower number, whatever integers are used). Every candidate the evolutionary search evaluates keeps this order. '
         'With the heuristics (HEFT, HEFT between, topological) the plan of the urgent works does not depend on what less urgent ones need.',
         ['inputs', 'configurations', 'histories', 'fault_sequences'],
         'every project whose priorities agree with its dependencies, planner, parameter set, scheme, number of worker processes and history of requests',
         'Tests use one set of priorities (1 to 3) and look at the plan only.',
         ['sampo/scheduler/heft/prioritization.py', 'sampo/scheduler/lft/prioritization.py', 'sampo/scheduler/topological/base.py',
          'sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/converter.py', 'sampo/utilities/priority.py', 'sampo/schemas/graph.py'],
         [('groups', 'extract_priority_groups_from_nodes'), ('orders', 'prioritization, _topological_sort, lft_prioritization_core'),
          ('variation', 'mate_scheduling_order, mutate_scheduling_order'), ('ends', 'WorkGraph.from_nodes, get_finish_stage')],
         observe=('returned orders', 'orders of evaluated candidates', 'returned schedules'))
