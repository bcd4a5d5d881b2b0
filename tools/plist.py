"""The properties: the single source of properties.jsonl and MANIFEST.json (see gen_manifest.py)."""

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note))


SCHED = ['sampo/scheduler/heft/base.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/genetic/schedule_builder.py',
         'sampo/scheduler/genetic/operators.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
         'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/topological/base.py',
         'sampo/scheduler/lft/base.py']
TRUST = ('Assurance over the executions of this run only; the oracle is an independent re-computation from the generated '
         'project, and trusts the public accessors of the returned objects.')
WL = ('every public scheduler (HEFT, HEFT-between, topological, LFT, their randomised variants, the genetic algorithm '
      'with both generation schemes), every project graph, contractor set, specification and start time')

P('P01', 'A schedule contains every work exactly once',
  'For a project that can be performed, every scheduler returns at least one schedule, and each returned schedule contains '
  'every work of the project exactly once and no foreign work. No work finishes before it starts and every interval is finite.',
  ['inputs', 'configurations'], WL,
  'The tests schedule a few fixed projects; a lost or doubled work shows only for particular graph shapes, service works, '
  'chains or specifications.',
  SCHED, [('scheduling loop over ordered nodes', 'sampo/scheduler/generic.py'),
          ('chromosome decoding', 'sampo/scheduler/genetic/schedule_builder.py')],
  'runtime monitor (trace oracle) over randomised scheduling runs', TRUST)
P('P02', 'Dependencies, lags and the project start are respected',
  'In every returned schedule no work starts before the project start, and for every dependency each successor starts '
  'no earlier than the finish of its predecessor plus the lag of the link (only the order matters for links without lag). '
  'This holds for works inside inseparable chains too.',
  ['inputs', 'configurations'], WL,
  'Existing tests run the repository validator over sampled graphs without most lag kinds; it does not look at lags.',
  SCHED + ['sampo/schemas/graph.py'], [('earliest start by predecessors', 'sampo/schemas/graph.py GraphNode.min_start_time'),
                                      ('find_min_start_time of timelines', 'sampo/scheduler/timeline')],
  'runtime monitor (trace oracle) over randomised scheduling runs', TRUST)
P('P03', 'Contractors are never over-allocated',
  'At every moment of every returned schedule the workers of each kind in use from a contractor never exceed the number of '
  'workers of that kind this contractor has.',
  ['inputs', 'configurations'], WL + '; every moment of the schedule',
  'Over-allocation appears only when particular intervals overlap under scarcity; tests use contractors with slack.',
  SCHED, [('release time lists', 'sampo/scheduler/timeline/just_in_time_timeline.py'),
          ('event lists per worker kind', 'sampo/scheduler/timeline/momentum_timeline.py')],
  'runtime monitor: sweep of worker usage over recorded schedules', TRUST)
P('P04', 'Every team meets the requirements and belongs to one contractor',
  'Each work is performed by the workers of a single contractor of the project, the team contains exactly the kinds the work '
  'requires, and each count lies between the required minimum and the maximum (never more than the contractor has). '
  'Service works take no workers. A count given explicitly in the specification overrides these bounds.',
  ['inputs', 'configurations'], WL,
  'Tests compare totals of a handful of schedules, not the bounds of each team under scarce or specialised contractors.',
  SCHED, [('team building', 'sampo/scheduler/resource'), ('contractor search', 'sampo/scheduler/utils/multi_contractor.py'),
          ('resource borders of chromosomes', 'sampo/scheduler/genetic/converter.py')],
  'runtime monitor (trace oracle) over randomised scheduling runs', TRUST)
P('P05', 'Durations equal the estimate of the assigned team',
  'The duration of every scheduled work equals what the given work estimator answers for that work with the team that '
  'performs it, unless the specification fixes its time: then the work lasts exactly that time, shared by the stages of a chain in proportion to their volumes.',
  ['inputs', 'configurations'], WL + ' and work estimator',
  'Tests never compare durations with the estimator, nor run with a user-made estimator.',
  SCHED, [('execution time calculation', 'sampo/scheduler/utils/time_computaion.py'),
          ('chain durations', 'sampo/scheduler/timeline')],
  'runtime monitor (trace oracle) over randomised scheduling runs', TRUST)
P('P06', 'Inseparable chains are performed by one team in order',
  'All stages of an inseparable chain are performed by the same team of the same contractor, in the order of the chain, each '
  'stage starting no earlier than the previous one finishes plus the lag of their link. The team is held for the chain from '
  'the start of its first stage to the finish of its last one: no other work gets these workers in between.',
  ['inputs', 'configurations'], WL + '; chains of any length with any lags',
  'Chains appear in few fixed graphs of the tests and are not checked stage by stage.',
  SCHED, [('scheduling a chain as a unit', 'sampo/scheduler/timeline'),
          ('inseparable chain extraction', 'sampo/schemas/graph.py')],
  'runtime monitor (trace oracle) over randomised scheduling runs', TRUST)
P('P07', 'The user specification is obeyed',
  'Whatever the schedule specification fixes for a work holds in every returned schedule: the contractor is one of those '
  'allowed, the fixed worker counts are used exactly, the fixed time is its duration, and a work marked independent overlaps '
  'with no other work.',
  ['inputs', 'configurations'], WL + '; every combination of fixed contractors, teams (full or partial), times and independence',
  'The tests fix one or two attributes of single works with one scheduler.',
  SCHED + ['sampo/schemas/schedule_spec.py', 'sampo/scheduler/utils/__init__.py'],
  [('specification handling', 'sampo/schemas/schedule_spec.py'), ('get_worker_borders / applying a spec', 'sampo/scheduler')],
  'runtime monitor (trace oracle) over randomised scheduling runs', TRUST)
P('P08', 'A later start only shifts the plan; one timeline serves several projects',
  'A deterministic scheduler given a later project start returns the same plan shifted by the difference. Projects scheduled '
  'one after another onto one shared timeline, each with its own start, respect the capacities of the contractors and the '
  'other guarantees jointly, as if they were one plan.',
  ['inputs', 'histories'], 'every deterministic scheduler and start; every sequence of projects put onto one timeline',
  'Tests start at zero and use a fresh timeline for each schedule.',
  SCHED, [('assigned_parent_time', 'sampo/scheduler/generic.py'), ('timeline argument of schedule_with_cache', 'sampo/scheduler')],
  'runtime monitor: metamorphic comparison of runs, capacity sweep over the joint trace', TRUST)
P('P09', 'A project is refused exactly when some work has no able contractor',
  'Every scheduler raises NoSufficientContractorError exactly when some work has no contractor that has the required workers and '
  'is allowed by the specification; otherwise it returns a schedule in which every work is given to an able, allowed '
  'contractor. The pipeline refuses a project on the same condition.',
  ['inputs', 'configurations'], 'every project, set of contractors (lacking kinds or people), specification and scheduler',
  'Tests cover one infeasible project; contractors that lack a kind of workers altogether are not tried.',
  SCHED + ['sampo/pipeline/default.py', 'sampo/scheduler/genetic/utils.py'],
  [('contractors_can_perform_work_graph', 'sampo/pipeline/default.py'), ('run_contractor_search', 'sampo/scheduler/utils/multi_contractor.py')],
  'runtime monitor: outcome oracle over randomised scheduling runs', TRUST)
P('P12', 'The momentum timeline answers with the earliest feasible time',
  'For every history of placements, the time found by the momentum timeline for a team is the earliest one, not before the parents '
  'allow, from which the whole team is free for the whole work or chain, and a placement makes exactly these workers busy '
  'for exactly this interval.',
  ['histories', 'inputs'], 'every sequence of queries and placements of works, chains, lags and independent works',
  'Tests query a timeline with few placements; the earliest gap depends on the whole history.',
  ['sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/base.py'],
  [('find_min_start_time_with_additional', 'sampo/scheduler/timeline/momentum_timeline.py')],
  'online monitor: reference model run in lock step with the timeline', TRUST)
P('P13', 'The just-in-time timeline answers with the earliest time after the queue',
  'For every history of placements, the time found by the just-in-time timeline is the earliest one, not before the parents '
  'allow, from which the team is released for good by the works placed before. A placement keeps the workers busy until the work or '
  'chain ends.',
  ['histories', 'inputs'], 'every sequence of queries and placements of works, chains, lags and independent works',
  'Tests query a timeline with few placements; release lists go wrong only after particular histories.',
  ['sampo/scheduler/timeline/just_in_time_timeline.py', 'sampo/scheduler/timeline/base.py'],
  [('find_min_start_time_with_additional', 'sampo/scheduler/timeline/just_in_time_timeline.py'),
   ('can_schedule_at_the_moment', 'sampo/scheduler/timeline/just_in_time_timeline.py')],
  'online monitor: reference model run in lock step with the timeline', TRUST)
P('P14', 'Materials are conserved and delivered before they are used',
  'In every schedule on a landscape each work takes its materials from its platform only when they are there: stock plus deliveries '
  'minus the use by other works never becomes negative. Deliveries bring what is missing from depots with enough '
  'stock and never use more vehicles of a depot or wider roads than exist at a moment.',
  ['inputs', 'histories'], 'every landscape (depots, vehicles, roads, stocks), project with materials and scheduler',
  'The material tests are unstable in the baseline and check single deliveries without competition.',
  ['sampo/scheduler/timeline/hybrid_supply_timeline.py', 'sampo/scheduler/timeline/platform_timeline.py', 'sampo/schemas/landscape.py'],
  [('deliver materials', 'sampo/scheduler/timeline/hybrid_supply_timeline.py'),
   ('platform stock', 'sampo/scheduler/timeline/platform_timeline.py')],
  'runtime monitor: conservation oracle over recorded schedules and deliveries', TRUST)
P('P15', 'Zones have the required statuses while works use them',
  'During every work each zone it requires has the required status, no status changes while works use the zone, each change takes '
  'the time given by the zone configuration, and at the end of the project the zones get the end statuses.',
  ['inputs', 'histories'], 'every zone configuration (statuses, transition times, start and end statuses), project and scheduler',
  'Zone tests are excluded from the stable baseline and use one kind of status change.',
  ['sampo/scheduler/timeline/zone_timeline.py', 'sampo/schemas/zones.py', 'sampo/scheduler/generic.py'],
  [('zone events', 'sampo/scheduler/timeline/zone_timeline.py'), ('finish statuses', 'sampo/scheduler/timeline/zone_timeline.py')],
  'runtime monitor: replay of zone statuses over recorded schedules', TRUST)
P('P16', 'Routes over the landscape are real and shortest',
  'Distances between all nodes of a landscape are those of the shortest ways over its roads, the routes returned consist of '
  'joining roads from depot to platform with exactly this length, and depots are ordered by distance. When roads are occupied, routes '
  'use only the available ones.',
  ['inputs'], 'every road network, connected or not, with parallel and equal roads',
  'Tests route over one fixed network.',
  ['sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py'],
  [('build_landscape', 'sampo/schemas/landscape.py'), ('construct_route', 'sampo/schemas/landscape.py')],
  'runtime monitor: differential oracle (independent shortest paths)', TRUST)
P('P26', 'Times, resources, intervals and containers obey their contracts',
  'Times saturate at infinity and otherwise compute like integers; random intervals stay within their borders; resource copies '
  'keep all attributes; linked lists, sorted lists, queues and checkpoint timelines answer like plain sequences '
  'for every sequence of operations.',
  ['inputs', 'histories'], 'every value and every sequence of operations on these types',
  'Tests try one or two operations on each container, most of the value types have none.',
  ['sampo/schemas/time.py', 'sampo/schemas/interval.py', 'sampo/schemas/resources.py', 'sampo/schemas/contractor.py',
   'sampo/schemas/sorted_list.py', 'sampo/utilities/linked_list.py', 'sampo/utilities/priority_queue.py',
   'sampo/scheduler/timeline/general_timeline.py'],
  [('saturating arithmetic', 'sampo/schemas/time.py'), ('removal while iterating', 'sampo/utilities/linked_list.py')],
  'runtime monitor: plain models run in lock step over random operation sequences', TRUST)
P('P30', 'A work graph says exactly what was put into it',
  'For every graph, also after edits and with other projects under the same ids alive, nodes, parents, children, chains, '
  'topological order and earliest starts are those of the links given. Corrected priorities are the least change that lets no work '
  'wait for a less urgent one, and the orders of the schedulers respect dependencies and priorities.',
  ['inputs', 'histories'], 'every work graph, edit of it and list scheduler',
  'Caches and shared tables give wrong answers only after particular edits or for several projects in one process.',
  ['sampo/schemas/graph.py', 'sampo/utilities/priority.py', 'sampo/scheduler/utils/__init__.py', 'sampo/scheduler/lft/base.py',
   'sampo/scheduler/topological/base.py'],
  [('cached parents and children', 'sampo/schemas/graph.py GraphNode'), ('check_and_correct_priorities', 'sampo/utilities/priority.py')],
  'runtime monitor: accessors compared with an independent description of the graph', TRUST)
P('P21', 'Restructuring splits works without losing anything',
  'After restructuring, the stages of every split work form one inseparable chain, sum up to the volumes and requirements of the work '
  'and keep its team bounds, priority and group. Links with lags and start-start and finish-finish links become links between exactly the stages '
  'that the lags point to, all other links are kept, and the given graph is not changed.',
  ['inputs', 'configurations'], 'every work graph with any mix of link types and lags, with and without dropping of short stages',
  'Tests restructure fixed graphs and compare counts; wrong stage boundaries show only for particular lags and volumes.',
  ['sampo/structurator/base.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/schemas/works.py'],
  [('graph_restructuring', 'sampo/structurator/base.py'), ('split_node_into_stages', 'sampo/structurator/base.py')],
  'runtime monitor: stage oracle computed from the generated project', TRUST)
P('P22', 'Graph edits do exactly what they say',
  'Copying a graph, inserting a graph into another one, inserting and deleting a work, changing links and simplifying ids give exactly the '
  'graph described: nothing else is changed, no attribute of any work is lost, inseparable chains are deleted as a whole, '
  'and neighbours of a deleted work stay ordered. Source graphs stay as they were.',
  ['inputs', 'histories'], 'every work graph and every sequence of edits',
  'Tests check the node count after single edits of simple graphs.',
  ['sampo/structurator/graph_insertion.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/structurator/light_modifications.py',
   'sampo/structurator/delete_graph_node.py', 'sampo/structurator/insert_wu.py'],
  [('graph_in_graph_insertion', 'sampo/structurator/graph_insertion.py'), ('prepare_work_graph_copy', 'sampo/structurator/prepare_wg_copy.py'),
   ('delete_graph_node', 'sampo/structurator/delete_graph_node.py'), ('insert_work_unit', 'sampo/structurator/insert_wu.py')],
  'runtime monitor: graph snapshots compared with a reference model of the edits', TRUST)
P('P24', 'Schedule tables and united stages agree with the scheduled works',
  'Tables and derived values of a schedule (rows, dates, durations, costs, workers, execution time) say the same as its scheduled works. '
  'Uniting stages gives one work per original, from the first start to the last finish of its stages, with their team, volume and cost, '
  'and offsets to calendar dates keep all distances.',
  ['inputs', 'configurations'], 'every schedule made from a restructured or plain graph, at every calendar offset',
  'Tests look at whether the tables can be made, not at what they contain.',
  ['sampo/schemas/schedule.py', 'sampo/schemas/scheduled_work.py', 'sampo/utilities/schedule.py'],
  [('unite_stages', 'sampo/schemas/schedule.py'), ('offset_schedule', 'sampo/utilities/schedule.py')],
  'runtime monitor: derived values recomputed from the recorded works', TRUST)
P('P25', 'The validator accepts exactly the valid schedules',
  'Schedule validation accepts every schedule that respects dependencies, lags, team requirements and contractor capacities, and raises for every '
  'schedule that breaks one of them, whatever the place and the size of the breach.',
  ['inputs'], 'every schedule and every single corruption of it',
  'Tests of the validator corrupt one fixed schedule; the rest of the suite uses it as its oracle.',
  ['sampo/utilities/validation.py'],
  [('validate_schedule', 'sampo/utilities/validation.py'), ('check_all_workers_correspond_to_worker_reqs', 'sampo/utilities/validation.py')],
  'runtime monitor: fault injection into recorded schedules, verdict compared with an independent oracle', TRUST)
P('P31', 'Resource metrics and fitness values measure the schedule',
  'Peaks, sums and costs of resources and the values of all fitness functions equal those recomputed from the scheduled works, for all '
  'kinds of workers or those selected, also with deadlines. Invalid solutions get the worst value.',
  ['inputs', 'configurations'], 'every schedule, selection of resources, deadline and fitness function',
  'Tests compare fitness values of few schedules with fixed numbers.',
  ['sampo/utilities/resource_usage.py', 'sampo/scheduler/genetic/operators.py'],
  [('resources_peaks_sum and others', 'sampo/utilities/resource_usage.py'), ('FitnessFunction.evaluate', 'sampo/scheduler/genetic/operators.py')],
  'runtime monitor: metrics recomputed by sweeping the recorded works', TRUST)
P('P36', 'Estimated times follow the team, its productivity and the requirements',
  'The default estimate of a work is the longest time any required kind needs for its volume with the given crew, productivity of its contractor and crew losses, '
  'rounded up; it is infinite exactly when the team given lacks required workers and zero without team or requirements. '
  'It does not shrink with volume or grow with the crew, and random productivity is reproducible by seed and stays inside its borders.',
  ['inputs', 'configurations'], 'every work, team, table of productivities and mode',
  'Tests estimate a few works with fixed teams.',
  ['sampo/schemas/time_estimator.py', 'sampo/schemas/interval.py'],
  [('DefaultWorkEstimator.estimate_time', 'sampo/schemas/time_estimator.py'), ('communication coefficient', 'sampo/schemas/time_estimator.py')],
  'runtime monitor: estimates recomputed in exact arithmetic and compared across related queries', TRUST)
P('P33', 'The pipeline passes every option on and reports the project as planned',
  'The pipeline gives the plan that the scheduler makes of the graph restructured as asked (AUTO: the shorter one), with the given contractors, specification, start, '
  'estimator and landscape. Links of all types and the specification hold for the works as given, also when these are split into stages. '
  'Reported works, intervals and the critical path (the longest one) agree with this plan, and the given graph is kept.',
  ['inputs', 'configurations'], 'every project, combination of pipeline options and scheduler',
  'Tests run the pipeline to see that it does not fail; options that are silently ignored pass them.',
  ['sampo/pipeline/default.py', 'sampo/schemas/project.py', 'sampo/scheduler/utils/critical_path.py', 'sampo/pipeline/delegating.py'],
  [('DefaultInputPipeline.schedule', 'sampo/pipeline/default.py'), ('critical_path', 'sampo/scheduler/utils/critical_path.py')],
  'runtime monitor: differential run of the scheduler, trace oracle on the reported project', TRUST)
P('P34', 'Local optimization keeps orders and plans valid',
  'Swapping works in an order never loses works, touches nothing outside of the given area and keeps every dependency. A plan reworked by local '
  'optimization of the order or of the schedule keeps all guarantees of a plan: completeness, dependencies, lags, capacities, '
  'teams, durations, chains, start and specification.',
  ['inputs', 'configurations'], 'every order, area, project, scheduler and sequence of local optimizations',
  'Tests run local optimization once and print the number of works.',
  ['sampo/scheduler/utils/local_optimization.py', 'sampo/pipeline/default.py', 'sampo/schemas/apply_queue.py'],
  [('get_swap_candidates', 'sampo/scheduler/utils/local_optimization.py'), ('recalc_schedule', 'sampo/scheduler/utils/local_optimization.py')],
  'runtime monitor (trace oracle) over randomised pipeline runs', TRUST)
P('P17', 'Genetic operators keep chromosomes valid, exchange genes and do act',
  'Populations, crossovers and mutations give only valid chromosomes: orders of all works in line with dependencies and priorities, counts within requirements, '
  'allowed contractors, borders between used and owned workers. They change neither parents nor siblings; crossovers only exchange genes; '
  'what is free to change is reached by mutations; invalid chromosomes are rejected.',
  ['inputs', 'histories'], 'every project, specification, seed and sequence of operators',
  'Tests apply operators to one project and check the validity with the algorithm\'s own validation.',
  ['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/utils.py'],
  [('mate_scheduling_order', 'sampo/scheduler/genetic/operators.py'), ('mutate_resources', 'sampo/scheduler/genetic/operators.py'),
   ('prepare_optimized_data_structures', 'sampo/scheduler/genetic/utils.py')],
  'runtime monitor: state invariants watched along random walks of operators', TRUST)
P('P18', 'Decoding gives the chromosome\'s plan, valid and without idle waiting',
  'Any valid chromosome is decoded by both schemes into a valid plan with the chromosome\'s teams, contractors and specification, within its borders, the same each '
  'time. The serial scheme places each work at its earliest moment in the given order; the parallel one leaves no startable work waiting. '
  'Encoding the plan gives the resources and the order back.',
  ['inputs', 'configurations'], 'every valid chromosome of every project, both schemes of generation',
  'Tests decode chromosomes of the heuristics only.',
  ['sampo/scheduler/genetic/converter.py', 'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py'],
  [('serial_schedule_generation_scheme', 'sampo/scheduler/genetic/converter.py'),
   ('parallel_schedule_generation_scheme', 'sampo/scheduler/genetic/converter.py')],
  'runtime monitor: trace oracle and reference scheme over decoded random chromosomes', TRUST)
P('P19', 'The genetic algorithm answers with the best it evaluated',
  'The answer has the best value of all evaluated chromosomes, or is the whole front of non-dominated ones. With a deadline, it is the best that meets the deadline if '
  'any met it, otherwise the fastest. Limits on generations, time and steps without improvement are obeyed, and improving a given population never loses its best.',
  ['inputs', 'histories', 'configurations'], 'every project, fitness function, limit, deadline and seed',
  'Tests only look at the finish time being finite.',
  ['sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/base.py', 'sampo/backend/default.py'],
  [('build_schedules_with_cache', 'sampo/scheduler/genetic/schedule_builder.py'), ('upgrade_pop', 'sampo/scheduler/genetic/base.py')],
  'runtime monitor: log of all evaluations compared with the answer', TRUST)
P('P20', 'Computing in several processes changes nothing but the time',
  'With the multiprocessing backend every chromosome gets the same value as with the default one, the first population is valid and of the requested size, '
  'and the answer depends neither on the number of processes nor on projects served before, and keeps all guarantees of a plan.',
  ['inputs', 'schedules', 'configurations'], 'every project, number of processes, estimator and options of the algorithm',
  'The only test of the backend is not collected.',
  ['sampo/backend/multiproc.py', 'sampo/backend/default.py', 'sampo/schemas/time_estimator.py'],
  [('generate_first_population', 'sampo/backend/multiproc.py'), ('get_recreate_info', 'sampo/schemas/time_estimator.py')],
  'runtime monitor: every evaluation of worker processes repeated by the default backend', TRUST)
P('P23', 'What is saved, pickled or copied comes back equal and serves as well',
  'Graphs, contractors, schedules, projects and their parts come back from strings, files, dictionaries, pickles and copies equal to what was saved except for fields '
  'documented as not saved. They are objects of their own that share nothing with the source, outlive it, and lead to the same plans; '
  'the table of a graph tells its works, links and requirements.',
  ['inputs', 'histories'], 'every object, way of saving and sequence of saving and loading',
  'Tests save single hand-made objects, and the file with most of them is not among the reliable ones.',
  ['sampo/schemas/serializable.py', 'sampo/schemas/graph.py', 'sampo/schemas/schedule.py', 'sampo/schemas/scheduled_work.py', 'sampo/schemas/contractor.py'],
  [('AutoJSONSerializable', 'sampo/schemas/serializable.py'), ('WorkGraph._deserialize', 'sampo/schemas/graph.py'),
   ('Schedule._deserialize', 'sampo/schemas/schedule.py')],
  'runtime monitor: deep comparison of what came back, and of what is computed from it', TRUST)
P('P29', 'A project is read from files and frames just as they describe it',
  'Works, names, volumes, requirements, priorities and links are read as written in any documented layout; links to unknown works are dropped, and cycles are '
  'broken by removing only links on them. History adds only links that it shows, and with them keeps the given ones. Contractors are read as written, or '
  'generated able to do all works; exported graphs come back, and inputs are kept.',
  ['inputs', 'configurations'], 'every project, layout of frame or file, history, name mapper and contractor table',
  'Tests read one small project of fixed layout.',
  ['sampo/userinput/parser/csv_parser.py', 'sampo/userinput/parser/general_build.py', 'sampo/userinput/parser/history.py', 'sampo/pipeline/preparation.py'],
  [('CSVParser', 'sampo/userinput/parser/csv_parser.py'), ('break_loops_in_input_graph', 'sampo/userinput/parser/general_build.py'),
   ('set_connections_info', 'sampo/userinput/parser/history.py')],
  'runtime monitor: what was read is compared with the description the files were written from', TRUST)
P('P28', 'Generated graphs, contractors and landscapes keep the borders asked for',
  'Synthetic graphs are valid, within the borders on works and clusters and arranged as the mode says; extended names and resources change nothing else. '
  'Contractors have counts within their packs, and those made for a graph can do it; materials and landscapes are as asked, connected and sufficient. '
  'The same seed gives the same, in any process.',
  ['inputs', 'configurations'], 'every seed, border, mode, proportion and process',
  'Tests only use the generator to get inputs, with a few sizes.',
  ['sampo/generator/base.py', 'sampo/generator/pipeline/project.py', 'sampo/generator/environment/contractor.py', 'sampo/generator/environment/landscape.py'],
  [('SimpleSynthetic', 'sampo/generator/base.py'), ('get_graph', 'sampo/generator/pipeline/project.py'),
   ('get_contractor_by_wg', 'sampo/generator/environment/contractor_by_wg.py')],
  'runtime monitor: structure and borders of what was made, and digests under equal seeds across processes', TRUST)
P('P10', 'Inputs are left as given, and no call leaves anything behind for the next',
  'Scheduling, searching, optimizing and inspecting change neither the graph, contractors, specification, landscape, population nor plan handed to them, nor '
  'anything that all callers share. Planning the same project again, after others or with another scheduler object, gives the same plan, and earlier answers stay '
  'as they were; an answer shares no teams with the contractors.',
  ['inputs', 'histories'], 'every project, scheduler, public tool and sequence of calls',
  'Tests make one call on fresh inputs and look at the answer only.',
  ['sampo/scheduler/generic.py', 'sampo/scheduler/genetic/base.py', 'sampo/pipeline/default.py', 'sampo/schemas/schedule.py', 'sampo/scheduler/timeline/just_in_time_timeline.py'],
  [('Scheduler.schedule', 'sampo/scheduler/base.py'), ('GeneticScheduler.upgrade_pop', 'sampo/scheduler/genetic/base.py'),
   ('DefaultSchedulePipeline', 'sampo/pipeline/default.py')],
  'runtime monitor: pictures of all inputs and shared state before and after every call', TRUST)
P('P11', 'The same project and seed give the same plans, in any process',
  'Given equal projects, options and seeds, every scheduler, the pipeline with its optimizers, the deadline search and the evolution of populations answer the same '
  'however often they are asked, whatever others draw from the common random generators, and in every process. '
  'The order that hashing happens to give to sets there decides nothing.',
  ['inputs', 'environments', 'histories'], 'every project, seed, scheduler and process (value of PYTHONHASHSEED)',
  'Tests run in one process with one hashing of strings and compare nothing across runs.',
  ['sampo/scheduler/topological/base.py', 'sampo/scheduler/lft/prioritization.py', 'sampo/scheduler/genetic/converter.py', 'sampo/schemas/schedule.py',
   'sampo/scheduler/genetic/schedule_builder.py'],
  [('TopologicalScheduler._shuffle', 'sampo/scheduler/topological/base.py'), ('lft_randomized_prioritization_core', 'sampo/scheduler/lft/prioritization.py'),
   ('order_nodes_by_start_time', 'sampo/schemas/schedule.py')],
  'runtime monitor: answers recorded under equal seeds are compared between runs and between processes that hash differently', TRUST)
P('P32', 'Teams are searched within their borders and works go to the earliest contractor',
  'Every optimizer of teams keeps to the borders and the counts already given in all it asks and answers, takes the promised part of the range, and finds the best of '
  'searches along a line. Of the allowed and able contractors, each work goes to the one that finishes it first, to the smaller of equal ones, '
  'with the team its optimizer gives; the search is refused only if there is none.',
  ['inputs', 'configurations'], 'every project, border, mask, function of time and set of contractors',
  'Tests look at the final length of a few plans only.',
  ['sampo/scheduler/resource', 'sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/generic.py', 'sampo/utilities/base_opt.py'],
  [('ResourceOptimizer.optimize_resources', 'sampo/scheduler/resource/base.py'), ('run_contractor_search', 'sampo/scheduler/utils/multi_contractor.py'),
   ('get_default_res_opt_function', 'sampo/scheduler/generic.py')],
  'runtime monitor: all questions of the optimizers are recorded; plans are replayed decision by decision against every other contractor', TRUST)
P('P35', 'The deadline search keeps deadlines, specifications and finds few resources',
  'The search for a deadline answers with a valid plan it has tried, under the specification it returns, which adds nothing to the user\'s but independence. '
  'The plan keeps the deadline if any tried one did, and otherwise is the fastest of them; with time to spare, works are made independent one by one while it lasts. '
  'A project nobody can do gets no plan.',
  ['inputs', 'configurations'], 'every project, specification, deadline and base scheduler',
  'The only tests of it are not among the reliable ones.',
  ['sampo/scheduler/resources_in_time/average_binary_search.py', 'sampo/scheduler/resource/average_req.py'],
  [('AverageBinarySearchResourceOptimizingScheduler', 'sampo/scheduler/resources_in_time/average_binary_search.py')],
  'runtime monitor: every tried plan is recorded; the answer is judged against the record, the deadline and the specification', TRUST)
P('P37', 'Hybrid schedulers pass populations on and plan the best individual found',
  'Populations made of heuristic plans hold one valid individual of each, with its order and teams. A cycle starts from plans, from nothing or from a ready population, '
  'passes populations and all parameters on, never loses the best and stops after the given rounds without progress. Its plan is valid and is that of the best individual.',
  ['inputs', 'configurations', 'histories'], 'every project, start, cycle, fitness, scheme of decoding and plateau',
  'No test touches them.',
  ['sampo/hybrid/cycle.py', 'sampo/hybrid/population.py', 'sampo/scheduler/genetic/base.py', 'sampo/scheduler/genetic/operators.py'],
  [('CycleHybridScheduler', 'sampo/hybrid/cycle.py'), ('HeuristicPopulationScheduler', 'sampo/hybrid/population.py'),
   ('GeneticScheduler.upgrade_pop', 'sampo/scheduler/genetic/base.py')],
  'runtime monitor: all populations passed on and all values computed are recorded and judged', TRUST)
P('P38', 'Sub works appear as the generator says and change nothing else',
  'A structure estimator adds to each real work the sub works its generator names: never those of probability 0, always those of probability 1, the others as often as told '
  'and independently. Each comes after its work and before the end, with the volume, requirements and zones due to it, and the rest of the graph is as before, as is the given one. '
  'A prepared project uses the estimator, its contractors included, and can be planned.',
  ['inputs', 'configurations'], 'every graph, generator, table of probabilities and seed',
  'No test touches structure estimators.',
  ['sampo/schemas/structure_estimator.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/pipeline/preparation.py', 'sampo/userinput/parser/csv_parser.py'],
  [('DefaultStructureEstimator.restruct', 'sampo/schemas/structure_estimator.py'), ('DefaultStructureGenerationEstimator', 'sampo/schemas/structure_estimator.py'),
   ('PreparationPipeline.build_wg_and_contractors', 'sampo/pipeline/preparation.py')],
  'runtime monitor: graphs are compared node by node with what the generator answered; rates over many tries', TRUST)
P('P39', 'Agents share a graph of blocks out by auction and plan it soundly',
  'Every block is planned once, after all blocks before it, by the agent who offered the earliest end (or whom the network means), exactly as offered. '
  'Each plan of a block is complete, and all blocks of an agent together never use more of its workers than it has; offers nobody took leave no trace. '
  'Graphs of blocks are sorted, copied, generated, obstructed and joined into one work graph without losing or inventing works, links or order.',
  ['inputs', 'configurations', 'histories'], 'every graph of blocks, set of agents and schedulers, manager, generator setting and obstruction',
  'The only test of it is not among the reliable ones.',
  ['sampo/scheduler/multi_agency/multi_agency.py', 'sampo/scheduler/multi_agency/block_graph.py', 'sampo/scheduler/multi_agency/block_generator.py',
   'sampo/scheduler/multi_agency/block_validation.py', 'sampo/scheduler/utils/obstruction.py'],
  [('Manager.run_auction', 'sampo/scheduler/multi_agency/multi_agency.py'), ('BlockGraph.to_work_graph', 'sampo/scheduler/multi_agency/block_graph.py'),
   ('OneInsertObstruction.apply', 'sampo/scheduler/utils/obstruction.py')],
  'runtime monitor: all offers and confirmations are recorded; plans of agents are added up over blocks; joined graphs are compared link by link', TRUST)
P('P40', 'Measures of a work graph say what they name, whatever the works are called',
  'The longest path, the number of works, the average volume and team, the most children and parents and the degree of parallelism follow their definitions. '
  'They, and the code of the graph made of them, depend neither on the names of the works nor on their order.',
  ['inputs'], 'every work graph and naming of its works',
  'No test touches them.',
  ['sampo/scheduler/selection/metrics.py'],
  [('encode_graph', 'sampo/scheduler/selection/metrics.py'), ('metric_graph_parallelism_degree', 'sampo/scheduler/selection/metrics.py')],
  'runtime monitor: measures against definitions computed apart, and against those of renamed and reordered copies', TRUST)
P('P41', 'Charts show what the plan and the graph of works hold',
  'The gantt chart holds one bar per work with its dates, cost, volume and colour, one per delivery and one per change of a zone. '
  'The charts of employment add up to the workers employed by day, by work and by moment. '
  'The chart of the graph holds every work once, parents left of children, and an arrow per link that is asked for.',
  ['inputs'], 'every plan and work graph, with deliveries, zones, late starts, depth limits and hidden links',
  'No test draws a chart.',
  ['sampo/utilities/visualization/schedule.py', 'sampo/utilities/visualization/resources.py', 'sampo/utilities/visualization/work_graph.py'],
  [('schedule_gant_chart_fig', 'sampo/utilities/visualization/schedule.py'), ('get_workers_intervals', 'sampo/utilities/visualization/resources.py'),
   ('setup_jobs', 'sampo/utilities/visualization/work_graph.py')],
  'runtime monitor: figures are read back bar by bar and compared with the plan', TRUST)
P('P42', 'Supply timelines deliver what they promise and give no more than there is',
  'Asked for a work, both material timelines name the earliest moment its materials can be on the platform, accept it, and deliver exactly then. '
  'Asking changes nothing. Whatever the order of works, no platform, depot, set of vehicles or road is used beyond what it has.',
  ['inputs', 'histories'], 'every network, stock and order of works and moments',
  'The one test of it delivers to works in turn and only looks at times.',
  ['sampo/scheduler/timeline/hybrid_supply_timeline.py', 'sampo/scheduler/timeline/to_start_supply_timeline.py', 'sampo/scheduler/timeline/platform_timeline.py'],
  [('HybridSupplyTimeline._supply_resources', 'sampo/scheduler/timeline/hybrid_supply_timeline.py'),
   ('ToStartSupplyTimeline._supply_resources', 'sampo/scheduler/timeline/to_start_supply_timeline.py'),
   ('PlatformTimeline.get_material_for_delivery', 'sampo/scheduler/timeline/platform_timeline.py')],
  'runtime monitor: each answer is recorded, checked against the next ones, and added up over stocks, vehicles and roads', TRUST)
