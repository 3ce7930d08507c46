"""The properties: one record each; tools/mkdocs.py writes properties.jsonl and MANIFEST.json from it."""
TECH = 'abstract interpretation of the Python source'
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, observe=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=observe))


TRUST = ('Decided on an over-approximation of the program built from the source by an interpreter written for this library; it trusts its table of effects of numpy/networkx/'
         'scipy/matplotlib calls. It reports only definite violations: what it cannot resolve is counted as undecided in the evidence, not reported.')
MODELS = ['pydtmc/markov_chain.py', 'pydtmc/hidden_markov_model.py']
ALL = MODELS + ['pydtmc/assessments.py', 'pydtmc/plotting.py']
CORE = ['pydtmc/measures.py', 'pydtmc/generators.py', 'pydtmc/simulations.py', 'pydtmc/fitting.py', 'pydtmc/computations.py', 'pydtmc/validation.py', 'pydtmc/files_io.py',
        'pydtmc/decorators.py', 'pydtmc/utilities.py']

prop('C01', 'Models are immutable: no operation changes an existing model',
     'Once constructed, a Markov chain or hidden Markov model never changes: no method, property, assessment, plot or export modifies the matrices, labels, graphs or cached values of the '
     'model it works on or of a model it receives as an argument. Filling an internal cache is allowed as long as the model still answers every query in the same way.',
     ['inputs', 'histories'], 'every public operation of both model classes and of the assessment and plotting functions, every argument, in every order of calls',
     'Tests build a fresh model, call one operation and look at its result; none re-reads all of the model afterwards, and none covers every branch of every operation with every kind of argument.',
     ALL + CORE, [('working on copies of the transition matrix and of the other attributes', 'measures.py, computations.py, simulations.py'), ('copies handed to callees', 'markov_chain.py')],
     TECH + ': ownership and effect (write) analysis over the heap', TRUST)
prop('C02', 'Arguments are never modified',
     'No operation modifies an object its caller passes: lists, arrays, dictionaries, graphs, models and sequences given as arguments are the same after the call as before, whether the call '
     'returns or raises.',
     ['inputs'], 'every public operation, every argument position, every kind of value accepted or rejected for it',
     'Tests pass literals and do not compare them with the originals afterwards; the branches that could write in place depend on the kind, type and size of the value.',
     ALL + CORE, [('validators build their own copies of numeric data and label lists', 'validation.py, utilities.py')],
     TECH + ': effect analysis from argument-tagged objects through aliases, views and callees', TRUST)
prop('C03', 'Models and results share no mutable storage with callers',
     'A value returned by any operation or property can be modified freely without changing the model, a later answer, or another value already returned; and a model keeps no reference to '
     'the arrays, lists or dictionaries it was built from. This includes values that the library caches.',
     ['inputs', 'histories'], 'every value returned by every public operation or property, and every constructor and generator of models',
     'Needs mutating every element of every result and re-querying everything; tests only compare results with expected values.',
     ALL + CORE, [('copies made at the boundary', 'markov_chain.py, hidden_markov_model.py'), ('cached properties hand out copies', 'decorators.py')],
     TECH + ': escape/ownership analysis of every object reachable from each result', TRUST)
prop('C04', 'Answers do not depend on the history of calls',
     'The result of an operation depends only on the model, on its arguments and, for unseeded draws, on the random state: never on which other operations were called before, with which '
     'arguments, or on other models. A cached value is one that any later call with the same arguments would compute again.',
     ['histories', 'inputs'], 'every sequence of public calls on one or more models, every argument',
     'Tests call operations once on each model, in a fixed order, so a stale or shared cache entry is never observed.',
     ALL + ['pydtmc/decorators.py', 'pydtmc/validation.py', 'pydtmc/assessments.py'],
     [('per-model cache keyed by the arguments', 'markov_chain.py'), ('cached properties', 'decorators.py'), ('lazily filled class and module tables', 'markov_chain.py, validation.py')],
     TECH + ': dependence analysis of every store that outlives a call (memo key must cover what the value depends on)', TRUST)
prop('C05', 'With an integer seed every operation is reproducible',
     'Every operation that takes a seed gives the same result whenever it is called with the same integer seed, zero included, and leaves the process-wide random state alone; '
     'operations without a seed argument draw no random numbers at all.',
     ['inputs', 'histories', 'schedules'], 'every operation with a seed, every integer seed, every combination of the other arguments, any random state before and any concurrent use of it',
     'Tests fix one seed per case; a draw taken from the global generator on a rare branch, or for the seed zero, gives the expected result as long as nothing else disturbs that generator.',
     MODELS + ['pydtmc/simulations.py', 'pydtmc/generators.py', 'pydtmc/computations.py', 'pydtmc/plotting.py', 'pydtmc/assessments.py'],
     [('one generator created from the seed and passed down', 'computations.py'), ('seeded layouts', 'plotting.py')],
     TECH + ': source/sink analysis of random and ambient sources, with a positive control', TRUST)
prop('C06', 'Results do not depend on the iteration order of sets',
     'Every result, file and figure is the same in every process: nothing that is returned or written carries the arbitrary iteration order of a set of labels. Collections that come out '
     'of a set (communicating classes, periods, edges, combined labels) are put in a defined order first.',
     ['configurations', 'inputs'], 'every public operation, every model, every hash seed of the process',
     'The suite runs in one process with one hash seed at a time and mostly compares sorted or singleton collections.',
     ALL + CORE, [('sorting of what comes out of sets and graph searches', 'markov_chain.py, measures.py, computations.py')],
     TECH + ': taint analysis of set iteration order', TRUST)
prop('C16', 'An algorithm that fails ends in an exception with its reason',
     'When an algorithm that builds or fits a model reports that it could not (the chain is not lumpable, a subchain is not valid, a quadrature or an optimisation did not converge, too many '
     'zeros were asked for), the operation raises an error that carries the reason it gave. No model is ever returned from a computation that reported failure, and a numerical solver that '
     'reports no success is treated as a failure.',
     ['inputs', 'faults'], 'every operation that builds a model by an algorithm that can fail, every input on which it fails',
     'The failing branches are excluded from coverage and hardly any test provokes one; whether a reported failure is heeded on every path is a matter of control flow, not of samples.',
     MODELS + ['pydtmc/generators.py', 'pydtmc/fitting.py'], [('message returned as the last element of the result', 'generators.py, fitting.py'), ('check of the message after each call', 'markov_chain.py, hidden_markov_model.py')],
     TECH + ': typestate of results that carry an error message', TRUST)
prop('C17', 'No side effects besides the documented files and figures',
     'Importing the package and calling any operation prints nothing, changes no process-wide setting (warnings, numpy, matplotlib style, working directory, locale) and uses no network or other '
     'programs, except for testing that Graphviz is available. Files are opened only by the operations that take a path, only at that path, only to read in an import, and from scratch in an '
     'export, and are closed whether the operation returns or raises.',
     ['inputs', 'faults'], 'every public operation, every argument, every path including those that raise',
     'A test notices only the effects it looks for, on the branch it takes; a leaked file or a changed setting surfaces elsewhere.',
     ALL + CORE, [('files opened in with statements', 'files_io.py, validation.py'), ('probe of Graphviz', 'plotting.py')],
     TECH + ': effect analysis of external calls, typestate of open files', TRUST)
prop('C18', 'Plots restore the interactive mode and return figure and axes',
     'Every plotting function that returns leaves the interactive mode of matplotlib as it found it. In interactive mode it shows the figure without blocking and returns nothing; otherwise it '
     'shows nothing and returns the figure and its axes, in this order.',
     ['inputs', 'configurations'], 'every plotting function, every combination of its arguments, matplotlib interactive or not',
     'The suite runs with a non-interactive backend only, so the interactive branches are excluded from coverage altogether.',
     ['pydtmc/plotting.py'], [('interactive mode saved and restored around the drawing', 'plotting.py')],
     TECH + ': typestate of the interactive mode, run in both modes', TRUST)
prop('C19', 'Only documented exceptions are raised on purpose',
     'Every exception that the library raises on purpose and that reaches a caller is of a type announced in the documentation of the operation: invalid arguments always give a '
     'ValidationError, never the internal error that caused it.',
     ['inputs'], 'every public operation, every kind of argument, every raise statement reachable from it',
     'Tests check some invalid values of some arguments; the type raised depends on which check fails first and on the handler around it.',
     ALL + CORE, [('handlers that turn errors into ValidationError', 'markov_chain.py, hidden_markov_model.py, assessments.py, plotting.py')],
     TECH + ': propagation of raised exception types through handlers and callers', TRUST)
prop('C24', 'An error about an argument names the argument that is wrong',
     'When an operation refuses an argument, the message of the ValidationError names an argument of that operation, and it is the one the refused value came from.',
     ['inputs'], 'every public operation, every argument, every reason to refuse it',
     'Tests assert that an exception is raised, not what its message says, and the name is found at run time in the text of a source line.',
     ALL + ['pydtmc/validation.py', 'pydtmc/utilities.py'], [('the name is taken from the source line of the failing call', 'utilities.py')],
     TECH + ': each rejection is followed to the handler that words it', TRUST)
prop('C23', 'Structural answers are exact for chains of any size',
     'Adjacency, accessibility and communication matrices, communicating, recurrent, transient and cyclic classes and states, periods, density, topological entropy and the predicates irreducible, '
     'aperiodic, ergodic, regular and canonical depend only on which transition probabilities are positive, however small these are. They are free of overflow, rounding and tolerances, and '
     'reachability is followed far enough for any number of states.',
     ['inputs', 'configurations'], 'every Markov chain, every number of states, every positive probability however small',
     'Fixtures are small chains with ordinary probabilities; overflow and rounding of matrix powers start at a size no test uses, and slow or rare transitions need extreme values.',
     ['pydtmc/markov_chain.py', 'pydtmc/computations.py', 'pydtmc/utilities.py'], [('comparisons of the transition matrix with zero', 'markov_chain.py, computations.py'), ('graph with an edge per positive probability', 'utilities.py'), ('matrix powers', 'markov_chain.py')],
     TECH + ': dataflow of the probabilities (only comparisons with zero), constant evaluation of exponents and edges', TRUST + ' Exponents are evaluated for 2 to 6 (10 in the thorough tier), 40, 200 and 1500 states.')
prop('C25', 'Measures and generated models have the values their definition fixes',
     'Committor probabilities are 0 on one and 1 on the other of their two sets of states (forward: 1 on the second, backward: 1 on the first), hitting probabilities are 1 and mean first passage times 0 '
     'at the targets. An identity chain stays where it is, in a gambler\'s ruin only neighbours are linked (w upwards, 1 - w downwards) and both ends absorb, an urn model is linked as documented for its kind and leaves both ends with certainty, '
     'and a population genetics model absorbs at both ends (and only links neighbours in the Moran model).',
     ['inputs'], 'every chain a measure is defined for, every set of states, every size of a generated model, every probability',
     'Fixtures compare numbers of a few chains up to rounding; the fixed values must hold for every choice and order of the sets and for every size.',
     ['pydtmc/markov_chain.py', 'pydtmc/measures.py', 'pydtmc/generators.py'], [('equations of the states of the sets', 'measures.py'), ('rows of the first and the last state', 'generators.py')],
     TECH + ': opaque probabilities and labels are followed into each element of the result', TRUST + ' Chains of four states in five patterns, generated models of up to seven states.')
prop('C12', 'Quantities of special kinds of chain are None exactly for the others',
     'A measure that its documentation restricts to a kind of chain is None for every chain of another kind and a value for every chain of that kind. Implied timescales, committor '
     'probabilities, mean first passage and recurrence times, mixing time, mixing and relaxation rates and spectral gap need an ergodic chain, the sensitivity an irreducible one; fundamental '
     'matrix, Kemeny constant, absorption probabilities and times an absorbing chain with transient states; entropy rates, time correlations and relaxations a single stationary '
     'distribution. Mixing time, mixing and relaxation rates and spectral gap may also be None for numerical reasons.',
     ['inputs'], 'every operation with a documented requirement, every combination of irreducible, periodic, absorbing, transient states and number of recurrent classes',
     'The suite fixes a handful of chains per measure; several kinds (two recurrent classes that are not absorbing, a reducible chain with one recurrent class) are never asked for most measures.',
     ['pydtmc/measures.py', 'pydtmc/markov_chain.py', 'pydtmc/computations.py'], [('requirement tested first in each measure', 'measures.py, markov_chain.py')],
     TECH + ': case analysis over the kinds of chain', TRUST)
prop('C13', 'Equality and hashing of models are exact and agree',
     'Two models are equal exactly if they are of the same class and have equal matrices and equal labels in the same order, with no tolerance; a comparison with anything else is false and '
     'never raises. Equal models have equal hashes, also when a zero probability has a negative sign.',
     ['inputs'], 'every pair of models of any sizes, every other object',
     'Tests compare a model with its copy; near-equal, permuted, differently sized and foreign operands are unlimited in number.',
     MODELS, [('operators __eq__ and __hash__', 'markov_chain.py, hidden_markov_model.py')],
     TECH + ': dependences of the two operators, exactness and pairing of what they compare', TRUST)
prop('C07', 'Arguments outside of the documented domain are refused',
     'An argument of a kind the documentation does not allow (None where a value is needed, booleans for numbers, floats for integers, text, complex or non-finite numbers, wrong containers, wrong dimensions or sizes) '
     'or outside of its limits (unknown or repeated labels, negative or too large indices, probabilities outside of 0 and 1, rows that do not sum to 1, numbers beyond a documented bound) is refused with a '
     'ValidationError by every operation and constructor. So are combinations that the operation excludes, such as overlapping sets of states, sequences of different lengths, names used for both a state and a '
     'symbol, or sizes that do not match.',
     ['inputs'], 'every argument of every public operation and constructor: all kinds of values, the limits and both of their sides, whole intervals beyond them, lists of any length',
     'Tests call the validators with a few dozen values each and most operations only with valid arguments; whether an operation applies the right validator with the right limits to each argument is not tested.',
     ALL + ['pydtmc/validation.py', 'pydtmc/utilities.py'], [('a validator call per argument', 'markov_chain.py, hidden_markov_model.py, plotting.py, assessments.py'), ('validators', 'validation.py')],
     TECH + ' over a table of argument domains: kinds, limits and intervals per argument', TRUST + ' Functions passed as arguments and the contents of files are not part of this property.')
prop('C08', 'Arguments inside of the documented domain are accepted',
     'Each documented kind of value of an argument, the documented limits themselves, all of the values between them, and None for an argument that may be omitted are accepted: with usual values for the other arguments the '
     'operation is not refused with a ValidationError. This includes numpy integers, labels as well as indices, arrays, data frames, sparse matrices and nested lists.',
     ['inputs'], 'every argument of every public operation and constructor: all documented kinds of values, the limits, whole intervals between them',
     'Tests call most operations with one or two typical values; a limit that is off by one, an inclusive bound made exclusive, or a kind of value no longer converted shows only for values they do not use.',
     ALL + ['pydtmc/validation.py', 'pydtmc/utilities.py'], [('a validator call per argument', 'markov_chain.py, hidden_markov_model.py, plotting.py, assessments.py'), ('validators', 'validation.py')],
     TECH + ' over a table of argument domains: kinds, limits and intervals per argument', TRUST + ' Refusals that depend on computed values (numerical failures) are not decided.')
prop('C09', 'Files, dictionaries and graphs that describe no model are refused',
     'A csv, json, txt or xml file, a dictionary or a directed graph is only read if it describes a model in the documented layout; anything else is refused with a ValidationError, a ValueError or an OSError, and no model is returned. Refused are probabilities (of files and dictionaries) that are '
     'negative, above 1, infinite, not a number or not numeric, rows that do not sum to 1, empty or blank or repeated labels, fewer than two states or symbols, missing or additional fields, columns, rows, properties, attributes or elements, unknown '
     'references, names used for a state and a symbol, text that is not well-formed, and edges of a graph without a positive finite weight or, like its nodes, with a missing or unknown type or layer.',
     ['inputs', 'configurations'], 'both classes, all formats, dictionaries and graphs, each kind of defect at a place of its own, with ordinary and with certain (0 and 1) probabilities',
     'Tests only read files which are written correctly; each refusal is marked as not covered by them (pragma: no cover).',
     MODELS + ['pydtmc/files_io.py', 'pydtmc/validation.py'], [('layout checks of the readers', 'files_io.py'), ('checks of the matrices that are read', 'markov_chain.py, hidden_markov_model.py'), ('validate_dictionary, validate_graph', 'validation.py')],
     TECH + ': outcome analysis of the readers on documents with opaque labels, abstract numbers and one defect each', TRUST + ' The json, csv and xml modules are modelled; models of 3 states, or 2 states and 3 symbols.')
prop('C10', 'Every documented option is accepted and selects its own behaviour',
     'An argument whose documentation lists options accepts each of them and refuses every other string. Options that are not documented as synonyms select different behaviour, and so do the '
     'two values of each boolean argument. No option, in any combination with other arguments, ends in an internal error because it was forgotten in a later step.',
     ['inputs', 'configurations'], 'every argument with documented options and every boolean argument of the public operations, every value of it, with any values of the other arguments',
     'Options multiply: tests go through some of them with the default of the others, and an option that silently does what another does still returns a plausible result.',
     ALL + ['pydtmc/validation.py', 'pydtmc/fitting.py', 'pydtmc/computations.py', 'pydtmc/generators.py', 'pydtmc/simulations.py', 'pydtmc/measures.py'],
     [('options checked by validate_enumerator, then compared as strings', 'markov_chain.py, fitting.py, computations.py, plotting.py, assessments.py')],
     TECH + ', once per option: comparison of the statements, constants and results it reaches', TRUST)
prop('C11', 'No argument is ignored',
     'Each argument of an operation influences what the operation returns, draws or writes, whichever options, flags and optional values the other arguments have. The only exceptions are the '
     'parameters of an approximation that the chosen method does not need (k, alpha, sigma).',
     ['inputs', 'configurations'], 'every argument of every public operation, every option of the other arguments (pairs of options in the thorough tier)',
     'Tests compare one result with one expectation per combination and rarely vary a single argument with all others fixed; drawing options are hardly checked at all.',
     ALL + CORE, [('arguments passed down through helpers', 'markov_chain.py, plotting.py, simulations.py, fitting.py')],
     TECH + ': data and control dependence of results and effects on each argument', TRUST)
prop('C14', 'Models survive conversions and files unchanged',
     'A model that is written to a csv, json, txt or xml file, or converted to a dictionary, a graph or matrices, and then read back is the same model: the same labels in the same order and the same number at every '
     'position (weights of graphs up to rounding), whatever characters the labels contain (in txt files none are blanks, in xml files all are allowed there) and however small, large or zero the numbers are. What is written has the documented layout, and what is read is '
     'taken by the labels it names, whatever the order of the entries of a document, dictionary or graph.',
     ['inputs', 'configurations'], 'both classes, all labels and matrices (followed with opaque labels and elements in small models), all formats, several orders of the entries',
     'Tests write and read a few models with labels like A, B and C and round probabilities; quoting, encodings, exact digits, tiny elements and other orders of labels and entries are never used.',
     MODELS + ['pydtmc/files_io.py', 'pydtmc/utilities.py'], [('writers and readers of the formats', 'files_io.py'), ('to_* and from_* operations', 'markov_chain.py, hidden_markov_model.py')],
     TECH + ': provenance of every text fragment and number through writer and reader', TRUST + ' The layouts and quoting rules of the json, csv and xml modules are modelled; the size of the models is 3 (2 states and 3 symbols).')

prop('C15', 'Every label stays with its own row, column and value',
     'When an operation derives a model from another one (subchains, canonical form, lazy, bounded, merged, lumped, higher order, restricted or estimated models) or answers with a value per state or per symbol, each probability or value '
     'belongs to the label it is computed for: it is made of the probabilities, weights, rewards or counts of just those states and symbols, whatever order the states are given in, have in the chain, or are named by.',
     ['inputs'], 'all values of the probabilities and labels (opaque) in five patterns of zeros, states given as labels or indices in several orders',
     'Tests use chains whose labels are in the order of their rows and mostly compare matrices alone, so labels or rows that are exchanged between states of equal or alphabetical order are not seen.',
     MODELS + ['pydtmc/generators.py', 'pydtmc/fitting.py', 'pydtmc/measures.py', 'pydtmc/simulations.py'], [('index arithmetic on matrices and label lists', 'generators.py, fitting.py, measures.py, simulations.py')],
     TECH + ': provenance of each element and label of the results', TRUST + ' Which elements a number is computed from is decided, not the formula; chains of 4 states, hidden models of 3 states and 4 symbols.')
prop('C20', 'The classification of a chain is that of its transition graph',
     'The adjacency, accessibility and communication matrices, the communicating, recurrent, transient and cyclic classes and states, absorbing states, periods, and whether a chain is absorbing, aperiodic, canonical, ergodic, irreducible or regular '
     'are those that the definitions give for the graph of its positive transitions, however small these are and in whichever order the states stand. A stationary distribution is given for each recurrent class and is positive on this class only, '
     'and the measures documented for ergodic, irreducible or absorbing chains (or chains with one recurrent class) are None for exactly the other ones.',
     ['inputs'], 'every graph of 2 and 3 states and fifty of 4 to 6 states (every graph of 4 states up to relabelling in the thorough tier), even, dominant and tiny probabilities',
     'There are hundreds of graphs even with three states; tests sample some thirty chains, few of which are periodic, have several classes, or need long paths.',
     ['pydtmc/markov_chain.py', 'pydtmc/computations.py', 'pydtmc/measures.py', 'pydtmc/utilities.py'], [('classification properties', 'markov_chain.py'), ('graph searches', 'computations.py')],
     TECH + ' of the classification on every pattern of positive transitions', TRUST + ' The graph functions of networkx are modelled. The period that is reported for a class which is left is not part of this property.')

prop('C21', 'Every operation ends',
     'Every operation of the library returns or raises. Iterative numerical methods stop after a fixed number of rounds whether or not they converge (and report the failure as documented), counting loops come closer to their bound in every round, '
     'graph searches do not put back what they have met, and a recursion reaches its last level for every argument that validation accepts.',
     ['inputs'], 'every loop and every recursive function of the library',
     'A loop that does not end needs a chain or a sequence whose numbers never settle; tests only sample cases that end.',
     ['pydtmc'], [('iterations', 'fitting.py'), ('aggregation and approximation', 'generators.py'), ('graph searches', 'computations.py'), ('measures', 'measures.py')],
     'termination analysis: loop-carried dependences and ranking counters over the syntax tree, abstract interpretation of the entries of recursive functions',
     'Loops over finite collections are not listed as obligations unless the body changes the collection. Libraries (numpy, scipy, networkx, matplotlib) are trusted to end. How long an operation takes is not part of the property.')


prop('C22', 'Results have the documented number of states, rows and elements',
     'What an operation returns has the dimensions its documentation gives for the model and the arguments: one row, column or element per state, symbol, step, time point, observation, class or part, in all sizes, kinds of chain and combinations of arguments. '
     'Derived and generated models have the number of states and symbols asked for (aggregated chains exactly s states, subchains the states that are reached, urn models 2n+1, population models n+1), and as many labels as rows; sequences contain the initial state and one element per step.',
     ['inputs'], 'measures, predictions, simulations, derived models, generators and fits, on chains of two to nine states with several transition graphs and arguments of several lengths',
     'Dimensions depend on sizes, transition graphs and lengths in combination; tests compare a few pinned examples.',
     ['pydtmc'], [('derived and generated chains', 'generators.py'), ('measures', 'measures.py'), ('simulations and predictions', 'simulations.py'), ('fits', 'fitting.py')],
     'abstract interpretation with exact array shapes (slices, selections, broadcasting, concatenations) and opaque numbers',
     'The numbers of states, steps and elements are enumerated, the numbers in the arrays are arbitrary. Fits that iterate until they converge and the Dirichlet process are undecided (no shape is known after their loops). Results that depend on numbers (which eigenvector splits which states) are followed for several sign patterns.')

prop('N01', 'Measures equal their definitions up to rounding',
     'Stationary distributions, hitting and absorption probabilities and times, passage and recurrence times, sensitivities, rates and all other measures are, up to rounding, the numbers that their definitions give for the transition matrix.',
     ['inputs'], 'every chain, every measure', 'Tests pin the numbers of a few chains.', ['pydtmc/measures.py', 'pydtmc/markov_chain.py'], [('linear algebra of the measures', 'measures.py')],
     na='The statement quantifies over floating-point results of linear algebra (eigenvectors, solves, inverses), which no static argument in reach bounds. What is decidable of it is claimed elsewhere: where measures are None (C12), which '
        'states and elements they are made of (C15), where distributions are positive (C20), their dimensions (C22), and exactness of the structural answers (C23).')
prop('N02', 'Decoding and fitting are optimal',
     'A Viterbi prediction is a most probable sequence of states, fitted parameters maximise the likelihood (or the posterior) of the sequence, and no round of Baum-Welch lowers the likelihood.',
     ['inputs'], 'every hidden Markov model, every sequence', 'Tests pin the results of a few sequences.', ['pydtmc/simulations.py', 'pydtmc/fitting.py', 'pydtmc/measures.py'], [('prediction and fitting', 'simulations.py, fitting.py')],
     na='Optimality compares real-valued objectives over all alternatives; the objective is a runtime number. Termination and failure reports of the fits are claimed as C21 and C16, labels and dimensions as C15 and C22.')
prop('N03', 'Simulations and statistical tests have the documented distributions',
     'Simulated sequences and random models follow the probabilities of the model, and the assessments reject true hypotheses at the given level.',
     ['inputs', 'histories'], 'every chain, every level', 'Tests fix seeds and pin the draws.', ['pydtmc/simulations.py', 'pydtmc/generators.py', 'pydtmc/assessments.py'], [('draws', 'simulations.py'), ('test statistics', 'assessments.py')],
     na='A statement about probability distributions of outcomes, not about paths of the code. Which generator is drawn from is claimed as C05.')
prop('N04', 'Every resulting matrix is stochastic within the tolerance of validation',
     'The rows of every transition and emission matrix that an operation derives, generates or fits sum to one and have no element outside of 0 and 1, within the tolerance that the validation of matrices allows.',
     ['inputs'], 'every operation that builds a model, every input', 'Tests compare a few matrices.', ['pydtmc/generators.py', 'pydtmc/fitting.py', 'pydtmc/markov_chain.py'], [('normalisation', 'generators.py, fitting.py')],
     na='Needs bounds on accumulated floating-point error through arbitrary arithmetic (eigenvectors, quadratures, products). The static part, that given matrices are checked and that reported failures are heeded, is claimed as C07, C09 and C16.')
