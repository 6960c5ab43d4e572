p('P01', 'Acceptance of the empty behaviour is decided exactly',
  'An interaction is reported as able to terminate without any further action exactly when its semantics contains the empty execution: the empty interaction and any repetition can, an emission cannot, a reception can only when it has no recipient, a composition can when both operands can, a choice when one branch can.',
  ['inputs', 'programs'], 'every interaction term, of any shape and depth',
  'The function is recursive over unbounded terms; the existing unit tests never evaluate it on most constructors.',
  [SYN + 'interaction.rs'], [('emptiness predicate', SYN + 'interaction.rs')])
p('P02', 'Lifeline involvement and avoidance of an interaction are exact',
  'The lifelines an interaction involves are exactly those of its actions; asking whether it involves any of a set is the same as intersecting; and it avoids a set exactly when it has an execution with no action on that set (a repetition always has, a choice needs one branch, a composition needs both).',
  ['inputs', 'programs'], 'every interaction term and every set of lifelines',
  'Unbounded terms and sets; no existing test compares these functions with a definition.',
  [SYN + 'interaction.rs', 'src/core/language/avoid/implem.rs', 'src/core/language/involve/interaction.rs', 'src/core/language/involve/action.rs'], [('involvement', 'src/core/language/involve/interaction.rs'), ('avoidance', 'src/core/language/avoid/implem.rs')])
p('P03', 'Pruning keeps exactly the behaviours avoiding the pruned lifelines',
  'Pruning an interaction with respect to lifelines it can avoid yields an interaction whose behaviours are exactly the original ones that have no action on these lifelines, with the same repetition kinds and concurrent regions. The variant that also reports affected lifelines yields the same interaction, and reports exactly the lifelines of the parts it touched.',
  ['inputs', 'programs'], 'every interaction term and every avoidable set of lifelines',
  'Recursion over unbounded terms; two sibling implementations must agree on all of them.',
  ['src/core/language/prune/interaction.rs'], [('prune, with and without affected lifelines', 'src/core/language/prune/interaction.rs')])
p('P04', 'Removing lifelines from a model is an exact projection',
  'Eliminating a set of lifelines from an interaction removes exactly the actions on these lifelines and keeps every other action, its message, its synchronicity and the operators around it; an emission whose emitter is removed becomes the reception of its remaining recipients.',
  ['inputs', 'programs'], 'every interaction term and every set of lifelines',
  'Unbounded terms; no unit test covers elimination.',
  ['src/core/language/eliminate_lf/interaction.rs', 'src/core/language/eliminate_lf/action.rs'], [('lifeline elimination', 'src/core/language/eliminate_lf/interaction.rs')])
p('P05', 'The frontier contains exactly the immediately executable actions',
  'The actions proposed as next steps of an interaction are exactly those that its operational semantics can execute immediately: for every operator, an action of the second operand is proposed exactly when the first operand can terminate (strict) or can avoid the lifelines of that action outside the concurrent region (weak), synchronised actions only together, and merged choices only when both branches offer the same actions.',
  ['inputs', 'programs'], 'every interaction term, and both ways of treating choices',
  'Frontiers are sets computed by recursion over unbounded terms; the existing tests touch none of it.',
  [SEM + 'frontier.rs'], [('frontier computation', SEM + 'frontier.rs')])
p('P06', 'Executing an action yields exactly its continuation',
  'Executing a frontier action at its position yields the interaction that specifies exactly the continuations of that action: sibling branches of a choice are dropped, weakly sequential predecessors are pruned of the lifelines that acted (outside concurrent regions), repetitions unfold according to their kind. The result does not depend on whether affected lifelines are tracked, and the reported affected lifelines are exactly those whose local behaviour may have changed.',
  ['inputs', 'programs'], 'every interaction term and every frontier position in it, tracked or not',
  'Recursion over unbounded terms and positions; the tracking variant is only used with local analyses and is not tested.',
  [SEM + 'execute.rs'], [('execution function', SEM + 'execute.rs')])
p('P07', 'Model statistics are exact',
  'The counts reported about a model are exact: number of repetitions, nesting depth of repetitions, number of atomic actions (with or without those inside repetitions), and the table of metrics (one count per kind of symbol, depth of the term, depth of nested repetitions, lifelines).',
  ['inputs', 'programs'], 'every interaction term',
  'Recursion over unbounded terms; statistics drive the exploration bounds and are not tested.',
  [SYN + 'metrics.rs', 'src/core/execution/trace/from_model/interaction.rs'], [('metrics', SYN + 'metrics.rs'), ('action counts', 'src/core/execution/trace/from_model/interaction.rs')])
p('P08', 'The alphabet of a model is exact',
  'The set of atomic actions of a model is exactly one emission per emitting action and one reception per receiving lifeline, with the declared message; the alphabet outside repetitions leaves out exactly the actions inside repetitions.',
  ['inputs', 'programs'], 'every interaction term',
  'Recursion over unbounded terms, used by the translation to automata and by the simulation criteria; no test compares it with a definition.',
  ['src/core/execution/trace/from_model/interaction.rs', 'src/core/execution/trace/from_model/primitive.rs'], [('alphabets', 'src/core/execution/trace/from_model/interaction.rs')])
p('P09', 'The order on interactions is a total order consistent with equality',
  'Comparing two interactions yields equal exactly for equal interactions, swapping the operands swaps the answer, and the order is transitive, so that sorted alternatives and parallel operands have one canonical form.',
  ['inputs', 'programs'], 'every pair and triple of interaction terms and of actions',
  'Total-order laws quantify over all pairs and triples of unbounded terms.',
  ['src/core/language/ord/interaction.rs', 'src/core/language/ord/action.rs'], [('comparison functions', 'src/core/language/ord/interaction.rs')])
TF = 'src/core/transformation/'
p('P10', 'Every rewrite of an interaction preserves its behaviours',
  'Each rewriting rule (simplification, flattening, sorting, deduplication, factorization, distribution, loop simplification, strict or parallel to weak sequencing, unfolding of actions) only returns interactions that have exactly the behaviours of the interaction it was given, synchronous actions included. Decomposing an interaction along an associative operator and recomposing the parts loses, adds and reorders nothing.',
  ['inputs', 'programs'], 'every interaction term and every rewriting rule',
  'Language equality over unbounded terms; the existing tests check a few canonical forms syntactically.',
  [TF + 'transfofunc', 'src/core/language/syntax/util', SYN + 'interaction.rs'], [('rewriting functions', TF + 'transfofunc'), ('fragments', 'src/core/language/syntax/util/get_recursive_frag.rs'), ('reversal', SYN + 'interaction.rs')],
  technique='abstract interpretation of MIR; each returned term and the argument are brought to a trace-semantic normal form (unit, associativity, commutativity, distribution, reassembly) and compared in every partition')
p('P11', 'Rewrites apply at every position of a term and nowhere else',
  'Listing all rewrites of an interaction yields, for every kind of the phase and every position of the term, the interaction in which exactly the sub-term at that position is replaced by its rewriting, with that kind and that position; asking for one rewrite yields the first applicable kind at the outermost leftmost position, and nothing only when no kind applies anywhere.',
  ['inputs', 'programs'], 'every interaction term and every list of rewrite kinds',
  'Recursion over unbounded terms with one hand-written case per operator.',
  [TF + 'get_transfos/get_all_transfos.rs', TF + 'get_transfos/get_one_transfo.rs'], [('all rewrites', TF + 'get_transfos/get_all_transfos.rs'), ('one rewrite', TF + 'get_transfos/get_one_transfo.rs')])
p('P12', 'Canonization runs its phases to their fixpoints and keeps every result',
  'Each rewrite kind runs its own rule; the process leaves a phase only when no rewrite of that phase applies, passes the interaction unchanged to the next phase, never filters, and reports exactly the interactions reached at the end of the last phase; two nodes are merged only when they have the same interaction and phase. The default processes consist of the documented phases.',
  ['inputs', 'programs', 'histories'], 'every interaction, every sequence of phases, every rewrite history',
  'The process explores unbounded histories; each step function is decided for all nodes.',
  [TF + 'transfokind.rs', TF + 'transfophase.rs', 'src/process/canon'], [('dispatch', TF + 'transfokind.rs'), ('process', 'src/process/canon/handling/handler.rs')])

PA = 'src/process/ana/'
PX = 'src/process/explo/'
p('P13', 'The global verdict of an analysis is the best of the verdicts found',
  'The verdict of an analysis is the strongest of the verdicts of the paths it explored (Fail, WeakFail, Inconc, WeakPass, Pass), starting from Fail; the goal counts as reached exactly when the verdict is at least the goal; and a failure obtained after some nodes were filtered out is reported as inconclusive, never as a failure.',
  ['histories', 'configurations'], 'every sequence of local verdicts, every goal, filtered or not',
  'Verdicts arrive in any order and number; no test evaluates their combination.',
  [PA + 'verdict/global.rs', PA + 'verdict/local.rs'], [('join of verdicts', PA + 'verdict/global.rs')])
p('P14', 'The verdict of a terminal analysis node follows from what is left of its traces',
  'On a node with no successor the local verdict is covered, too short, multi-prefix, slice, inconclusive or out exactly according to the kind of analysis, whether every trace is consumed, whether the interaction can terminate, which traces were hidden and what was simulated. A failing local analysis yields a failing verdict, and only failing verdicts stop a branch.',
  ['inputs', 'configurations'], 'every node, every kind of analysis, every number of traces',
  'Case analysis over unbounded multi-traces and all analysis kinds.',
  [PA + 'handling/handler.rs', PA + 'node/flags.rs', PA + 'verdict/local.rs'], [('local verdicts', PA + 'handling/handler.rs'), ('state of the traces', PA + 'node/flags.rs')])
p('P15', 'Each analysis step updates the interaction and the traces consistently',
  'A step executes its action at its position and advances exactly the traces it consumes, records what it simulated, which traces became dirty and the remaining simulation budgets; removing observation removes exactly the lifelines of the finished traces, once each. The steps proposed depend on the kind of analysis, and none is proposed once every trace is consumed.',
  ['inputs', 'histories', 'configurations'], 'every node, every step and every number of traces',
  'Bookkeeping over unbounded multi-traces and histories; arithmetic at the limits of the budgets is never exercised.',
  [PA + 'handling/handler.rs', PA + 'node/flags.rs'], [('steps', PA + 'handling/handler.rs'), ('bookkeeping', PA + 'node/flags.rs')])
p('P16', 'Memoization only skips nodes that a kept node subsumes',
  'A node is skipped only if a memorized node has the same interaction, stands at the same place of every trace with the same traces hidden, has simulated at most as much, has at least its remaining budgets and is at most as deep in repetitions. In an exploration it is skipped exactly when the interaction was met at most as deep in repetitions.',
  ['inputs', 'histories'], 'every pair of nodes',
  'Whether a skipped node could have changed the verdict depends on pairs of arbitrary histories.',
  [PA + 'node/node.rs', PX + 'node.rs'], [('inclusion of nodes', PA + 'node/node.rs')])
p('P17', 'Filters cut and priorities weigh as configured',
  'A node is cut exactly when its depth exceeds the maximum depth, when its depth in repetitions exceeds that maximum, or when the number of nodes has reached the maximum number of nodes. The priority of a step is the sum of the configured weights of what it does.',
  ['inputs', 'configurations'], 'every filter, bound, step and weight',
  'Comparisons at the bounds and sums over arbitrary steps; no test covers them.',
  [PA + 'filter/filter.rs', PX + 'filter/filter.rs', PA + 'priorities.rs', PX + 'priorities.rs'], [('filters', PA + 'filter/filter.rs'), ('priorities', PA + 'priorities.rs')])
p('P18', 'A branch is cut exactly when a local analysis of one trace fails',
  'A local analysis runs on the interaction restricted to the lifelines of its co-localization, with the unread part of that trace alone, the remaining budgets, the configured depth and a kind of analysis that is at most as strict as the main one. It is run on a co-localization exactly when its trace is not finished and the selection policy asks for it, and only a failing verdict cuts the branch.',
  ['inputs', 'configurations', 'histories'], 'every node, every co-localization, every selection policy and depth',
  'Whether a branch is cut rightly depends on unbounded histories of dirty flags; no test runs a local analysis.',
  [PA + 'handling/local_analysis.rs'], [('dead local behaviour', PA + 'handling/local_analysis.rs'), ('the analysis that is run', PA + 'handling/local_analysis.rs')])
p('P19', 'Simulated actions and repetitions stay within the configured limits',
  'The budget of simulated actions (of simulated repetitions) is the configured number, or that of actions outside repetitions of the model (of repetitions, or of nested repetitions), times the length of the multi-trace when asked, and zero when it is not limited. An action may be simulated exactly when each configured limit leaves room for it.',
  ['inputs', 'configurations'], 'every configuration, interaction, length and state of the budgets',
  'Arithmetic over arbitrary budgets and interactions; no test runs a simulation.',
  [PA + 'param/anakind.rs', PA + 'handling/matches.rs'], [('budgets', PA + 'param/anakind.rs'), ('whether an action may still be simulated', PA + 'handling/matches.rs')])
p('P20', 'Names and co-localizations are resolved one to one',
  'Declaring a name twice yields the same identifier, a new name gets the next one, an identifier is resolved to the name it was given for, and an unknown name or identifier is reported as unknown (lifeline, message or gate). The co-localizations of lifelines and the lifelines of co-localizations are exactly those of the partition.',
  ['inputs', 'histories'], 'every sequence of declarations, every partition of the lifelines',
  'Tables grow with arbitrary declarations; no test covers them.',
  ['src/core/general_context.rs', 'src/core/colocalizations.rs'], [('names', 'src/core/general_context.rs'), ('co-localizations', 'src/core/colocalizations.rs')])
p('P21', 'An exploration follows every execution and reports dead-locks exactly',
  'From a node the exploration proposes one step per action of the frontier, and the successor is the interaction reached by that action, with the loop depth increased by that of the action. A node without successor is accepting exactly when its interaction can terminate and is a dead-lock otherwise; accepting nodes are explored further, and one dead-lock makes the global verdict a dead-lock.',
  ['inputs', 'histories'], 'every interaction and every order of exploration',
  'Explorations are unbounded; each step function is decided for all nodes.',
  [PX + 'handling/handler.rs', PX + 'verdict/global.rs'], [('steps', PX + 'handling/handler.rs'), ('verdicts', PX + 'verdict/global.rs')])
p('P22', 'Automata are built with exact letters, final states and operators',
  'A transition is labelled by the letter of its action (or simultaneous actions), a new letter is added for an action that has none, and the alphabet of the automaton holds all of them; a state is final exactly when its interaction can terminate. In the compositional translation choices are unions, parallel compositions are shuffles, strict sequences are concatenations and strict repetitions are stars, over one common alphabet.',
  ['inputs'], 'every interaction and signature',
  'Letters and states are created during unbounded explorations; the existing tests build no automaton.',
  ['src/nfa_translation', PX + 'loggers/nfait/printer.rs'], [('letters and final states', PX + 'loggers/nfait/printer.rs'), ('composition', 'src/nfa_translation/compositional.rs')],
  note='The automata operations themselves belong to another crate and are assumed; explorations are bounded to twice the number of repetitions, beyond which the automaton is an under-approximation by design.')
p('P23', 'Analysis steps are exactly the matching executions',
  'An action of the frontier is executed exactly when, on every co-localization that it involves, the next actions of the multi-trace are its actions there; with partial-order reduction a single one may be kept only if it can be matched in one way on its co-localization. Simulated steps are, within the limits, the executions in which every co-localization that is not matched is simulated, only after the end of its trace or (if allowed) before its start, and likewise for each set of matched ones.',
  ['inputs', 'histories'], 'every interaction, multi-trace, partition in co-localizations and state of an analysis',
  'The frontier, the traces and the positions in them are unbounded; no existing test analyses a multi-trace.',
  [PA + 'handling/matches.rs', PA + 'handling/handler.rs'], [('executed steps', PA + 'handling/matches.rs'), ('simulated steps', PA + 'handling/matches.rs')],
  note='Assumes that every lifeline of the interaction is on a co-localization (which the readers of multi-traces guarantee, see P26).')
GR = 'abstract interpretation of the MIR of the readers over the parse trees of text templates with symbolic names, numbers and sub-terms; the grammar is interpreted from its source'
RN = 'Texts are enumerated form by form (every alternative of the grammar, lists of up to three elements) with symbolic names, numbers and sub-terms; longer lists are read by the same loops.'
p('P24', 'An interaction file is read as the term it denotes',
  'Each text of the interaction language is read as the term it denotes: every operator with its operands in order (more than two are nested to the right), the kind of each repetition, the lifelines of co-regions, the actions of synchronisations, and for communications the origin, the message, the targets in order and whether it is synchronous. Undeclared names, repeated targets and trailing text are errors, and the names that occur in a text never change how it is read.',
  ['inputs'], 'every text form of the grammar, any declared or undeclared names, any sub-terms',
  'Texts, names and nesting are unbounded; no existing test reads a file.',
  ['src/io/input/hif'], [('reader of interactions', 'src/io/input/hif'), ('grammar', 'src/io/input/hif/hif_syntax.pest')], technique=GR, note=RN)
p('P25', 'A signature file declares exactly its names',
  'Reading a signature declares exactly the messages, lifelines and gates that it lists, each in its own table and in the order of the text (a name listed twice is declared once); sections come in any order and may be missing, and a section that occurs twice is an error. Files that do not have the expected extension or cannot be read are errors.',
  ['inputs'], 'every sequence of sections and every list of names',
  'Texts and names are unbounded; no existing test reads a file.',
  ['src/io/input/hsf'], [('reader of signatures', 'src/io/input/hsf'), ('grammar', 'src/io/input/hsf/hsf_syntax.pest')], technique=GR, note=RN)
p('P26', 'A multi-trace file is read as disjoint local traces covering all the lifelines',
  'Each component of a multi-trace is read as the set of lifelines it is declared for (the listed ones, those not yet taken, or those of its actions) with its actions in order, simultaneous actions together; lifelines left over get empty traces, and a bare trace is over all the lifelines. An action outside of its component, a lifeline in two components, an undeclared name and trailing text are errors.',
  ['inputs'], 'every form of component and trace, any declared or undeclared names',
  'Texts, names and lengths are unbounded; no existing test reads a file.',
  ['src/io/input/htf'], [('reader of multi-traces', 'src/io/input/htf'), ('grammar', 'src/io/input/htf/htf_syntax.pest')], technique=GR, note=RN)
p('P27', 'A configuration file sets exactly the options it states',
  'Each option of an exploration, an analysis or a canonization, in each of its spellings, sets exactly the parameter it states to the value it states and leaves every other one to its default; without the section, all of them have their defaults. Options that the process does not support, numbers that do not fit, repeated sections and ill-formed texts are errors (never a crash), and the sections of other processes are ignored.',
  ['inputs', 'configurations'], 'every option, every spelling, any number and name',
  'Options combine freely and are given in text; no existing test reads a configuration.',
  ['src/io/input/hcf'], [('options of explorations', 'src/io/input/hcf/explo'), ('options of analyses', 'src/io/input/hcf/ana'), ('options of canonizations', 'src/io/input/hcf/canon'), ('loggers', 'src/io/input/hcf/loggers'), ('grammar', 'src/io/input/hcf/hcf_syntax.pest')], technique=GR,
  note='Options are enumerated one by one and in a few combinations.')
WR = 'abstract interpretation of the MIR of the writers and of their loops; the texts that they produce are parsed with the grammars of the readers and compared with the terms, up to the algebra of the operators'
p('P28', 'Written interactions and multi-traces read back as what was written',
  'Writing an interaction as text and reading it back yields the same interaction, up to the association of nested operators of the same kind: every operator, the kind of each repetition, the lifelines of co-regions, and each communication with its origin, message, targets and synchronicity. Likewise a multi-trace is written as a text that reads back as the same components, with the same lifelines and the same actions in order.',
  ['inputs'], 'every interaction that the reader can produce, and every multi-trace',
  'Terms and traces are unbounded; no existing test writes one.',
  ['src/io/output/to_hfiles'], [('printer of interactions', 'src/io/output/to_hfiles/interaction'), ('printer of multi-traces', 'src/io/output/to_hfiles/trace')], technique=WR,
  note='Synchronisations of interactions and receptions without recipients have no text that reads back, and are left out.')
p('P29', 'Multi-traces generated along executions are the executed ones',
  'Generating multi-traces during an exploration starts with an empty trace for each co-localization of the asked partition, and each executed action is added at the end of the traces of exactly the co-localizations that it involves. A file is written exactly when the executed action reaches a state of the kind asked (one that accepts, at the given depth, or at a multiple of the given depth), and holds the traces reached there.',
  ['inputs', 'histories'], 'every interaction, partition, sequence of executed actions and option of the generator',
  'Executions are unbounded; no existing test generates traces.',
  ['src/loggers/tracegen', 'src/io/output/to_hfiles/trace'], [('trace generation', 'src/loggers/tracegen/printer.rs'), ('its state', 'src/loggers/tracegen/object.rs')], technique=WR)
p('P30', 'Slices of multi-traces are parts of the kind asked for',
  'Asked for all of them, the prefixes, suffixes or slices written for a multi-trace are all the combinations of one prefix, suffix or slice of each component, and only those. Asked for a random selection, each written multi-trace combines parts of that kind of each component (at least a third of it when asked for wide ones), and there are at most as many as requested.',
  ['inputs', 'schedules'], 'every multi-trace, every requested number, every outcome of the random choices',
  'Lengths and random outcomes are unbounded; no existing test slices a trace.',
  ['src/trace_manip/slice', 'src/util/slicer.rs'], [('exhaustive slices', 'src/trace_manip/slice/exhaustive.rs'), ('random slices', 'src/trace_manip/slice/random.rs'), ('files', 'src/trace_manip/slice/generate.rs')], technique=WR + '; random choices are unknowns bounded by linear arithmetic')
p('P31', 'Mutants of multi-traces differ by edits of the announced kind only',
  'A mutant of a multi-trace differs from the original by edits of the announced kind only (actions removed, actions inserted, two actions of the same component swapped, or components exchanged between multi-traces), at most as many as asked, at most one per component and only at the end when asked so. Inserted actions are on a lifeline of the component that receives them, with a declared message, and the mutant is written under the given name in the given folder.',
  ['inputs', 'schedules'], 'every multi-trace, every limit and option, every outcome of the random choices',
  'Lengths and random outcomes are unbounded; no existing test mutates a trace.',
  ['src/trace_manip/mutate'], [('removed actions', 'src/trace_manip/mutate/remove_actions.rs'), ('inserted actions', 'src/trace_manip/mutate/insert_noise.rs'), ('swapped actions', 'src/trace_manip/mutate/swap_actions.rs'), ('exchanged components', 'src/trace_manip/mutate/swap_component.rs')], technique=WR + '; random choices are unknowns bounded by linear arithmetic')
p('P32', 'Commands run what they announce on the files and options given',
  'Each command takes the files and options that it declares, and runs its process on exactly what they contain: the signature, interaction, traces and configuration of the files named, each option with the value given or its documented default. It reports the files that it read and the outcome that it obtained (the verdict, the number of nodes, the measures), every line of the report being printed. When a file or a number cannot be read, it reports that, does nothing else, and does not crash.',
  ['inputs', 'configurations'], 'every command line of the declared commands, every content of the files',
  'Command lines and files are combined freely; no existing test runs a command.',
  ['src/ui'], [('commands', 'src/ui/commands'), ('declaration', 'src/ui/hibou_cli.yml'), ('dispatch', 'src/ui/hibou_cli.rs')],
  technique='abstract interpretation of the MIR of the commands over the symbolic answers of the parser of the command line, against what each command is declared to run; the declaration of the command line is read and compared with the usage; query of the arguments asked for',
  note='glosem, nfa_experiment and rng_gen_interactions are covered for their declaration only. The exit code of the program is not part of the property.')
p('P33', 'PlantUML translations render every action and operator of the interaction',
  'The sequence diagram written for an interaction holds exactly its messages, in order, each with its sender, its receiver (a lifeline, the environment or none) and its name; alternatives, parallel and strict compositions are groups of their operands in order, nested ones of the same kind being one group, and each repetition is a group named after its kind (loopS, loopW, loopP, loopH). The automata written for it are, for each lifeline, those of its projection: each action is one transition labelled with its direction and message to a new state, sequences go on from the last state, branches leave a fork or choice and meet again, a repetition is a composite state that can be re-entered, and the last state leads to the end. What has no translation (broadcasts, co-regions, synchronisations) is refused rather than left out.',
  ['inputs'], 'every interaction and signature',
  'Terms are unbounded; no existing test translates an interaction.',
  ['src/plantuml'], [('sequence diagrams', 'src/plantuml/sequence.rs'), ('automata', 'src/plantuml/automata_product.rs')],
  technique='abstract interpretation of the MIR of the translations: the text that each call adds to the file, as a function of the texts of the operands (induction over the term), compared with its specification',
  note='The lists of operands of nested operators (that they are the operands is part of P11) have one or two elements on each side; longer ones go through the same loops.')
p('P34', 'The drawing of an interaction as a term is its tree',
  'Drawing an interaction as a term writes a graph with exactly one node for each of its sub-terms, labelled with its operator (the kind of a repetition, the lifelines of a co-region, the actions of a synchronisation) or with its communication (lifeline, direction, message, targets or origin, whether it is synchronous), and exactly one edge from each operator to each of its operands, the left one before the right one. Asked for a sequence diagram, it is a sequence diagram that is drawn, under the name and in the folder given.',
  ['inputs'], 'every interaction and signature',
  'Terms are unbounded; no existing test draws an interaction.',
  ['src/io/output/draw_interactions'], [('the tree', 'src/io/output/draw_interactions/as_term/interaction_repr/repr.rs'), ('labels', 'src/io/output/draw_interactions/as_term/action_repr'), ('which drawing', 'src/io/output/draw_interactions/interface.rs')],
  technique='abstract interpretation of the MIR of the drawing: the nodes and edges that each call adds to the graph, as a function of those of the operands (induction over the term), compared with its specification',
  note='What is drawn in the images of sequence diagrams (positions of pixels) is out of scope.')
p('P35', 'The picture of a process shows its nodes and its steps',
  'Asked for graphics, the picture of an exploration, an analysis or a canonization shows each node with its own interaction, drawn as asked (sequence diagram, term, or both), and in analyses with what remains of each component of its own multi-trace and how much of it was consumed or simulated. Each step is drawn as a node of its own, with an image of its own, which says what was executed (every action, and its position in the term), which components consumed or simulated it (before their start or after their end), which transformation was applied and where, or which lifelines were eliminated. Identifiers are usable and distinct; the image shown for an item is the one that was made for it; distinct verdicts have distinct colours. The picture of the local analysis that settles a verdict is that of the local interaction and local multi-trace of this verdict, for the component concerned.',
  ['inputs', 'configurations'], 'every node and step of every process, every representation asked for',
  'Nodes, steps and multi-traces are unbounded; no existing test makes a picture.',
  ['src/loggers/graphviz', 'src/io/output/draw_transitions', 'src/io/output/draw_traces'], [('nodes and steps', 'src/loggers/graphviz/drawer.rs'), ('steps of analyses', 'src/process/ana/loggers/glog/drawer.rs'), ('steps of explorations', 'src/process/explo/loggers/glog/drawer.rs'), ('steps of canonizations', 'src/process/canon/loggers/glog/drawer.rs'), ('texts of steps', 'src/io/output/draw_transitions'), ('texts of multi-traces', 'src/io/output/draw_traces/implem/ext_mu.rs'), ('names of positions', 'src/core/language/position/position.rs')],
  technique='abstract interpretation of the MIR of the drawers: the items made and the images written by each, as functions of the node or step, compared with its specification; the texts of steps and multi-traces as functions of what they describe',
  note='Texts are compared up to white space and colours; the layout of the items is the business of an external crate, the pixels of images are out of scope.')
p('P36', 'Interactions generated at random are well formed and are decided by the seed',
  'On a signature with at least one lifeline and one message, every interaction that is generated at random only uses lifelines and messages of the signature, with asynchronous communications whose origin and targets are distinct lifelines; it is not deeper than the maximal depth, where only actions are made; the operator made is that of the symbol drawn (a co-region is on a lifeline of both sides, and is a weak sequence when there is none). Symbols are drawn each in its own interval of the given probabilities, in an order that does not change from one run to another; the predefined probabilities are accepted. Of an interaction it is the canonical form that is kept, when it has at least the minimal number of symbols. The command writes different interactions, numbered from 0, no more of them than asked for, all drawn from the seed with the depth, size and probabilities asked for, and gives up after the number of failed tries asked for.',
  ['inputs', 'configurations'], 'every signature, seed, sequence of draws and combination of options',
  'Draws are unbounded; the existing test makes one interaction with one seed and checks nothing about it.',
  ['src/experiments/interaction_random_gen', 'src/ui/commands/cli_rng_gen_interactions.rs'], [('one call of the generator', 'src/experiments/interaction_random_gen/gen.rs'), ('probabilities', 'src/experiments/interaction_random_gen/probas.rs'), ('what is kept', 'src/experiments/interaction_random_gen/interface.rs'), ('the command', 'src/ui/commands/cli_rng_gen_interactions.rs')],
  technique='abstract interpretation of the MIR: induction over the depth (recursive calls are opaque), positions in lists without repetition and linear arithmetic for distinctness and ranges; constant folding of the predefined tables; invariants of the loop of the command for each combination of given options',
  note='The distribution of the draws is out of scope, as is what the external generator of numbers returns. Which interaction is canonical is part of the properties on canonization.')
