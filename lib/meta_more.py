P('P04', 'Searches order nodes by the estimates their algorithm prescribes',
  'Every ordering value a search stores in a node (f, weighted f, h, utility, and the corrected estimates of the local searches) is the combination of path cost, heuristic and weight which that algorithm defines, computed for that very node\'s state. '
  'Every open-list comparison prefers exactly the node its algorithm prescribes, ties included, and is a strict ordering. '
  'Iterative deepening prunes exactly the nodes above its bound and raises the bound to the smallest pruned value, and an anytime search that lowers its weight re-sorts the nodes it keeps.',
  ['inputs'], 'every domain, heuristic, weight and node pair',
  'No test runs a search; a wrong tie-break or a stale weighted value still finds solutions on small instances.',
  ALGS + [S + "search.hpp"],
  [('node comparators', 'pred/prio/tieprio of the node classes'), ('stored estimates', 'wrap and kid loops'), ('bounds of iterative deepening', 'Idastar::dfs and search'), ('re-weighting', 'Arastar::nextwt, updateopen')],
  'order of expansion, cost of returned solutions', PF,
  LN + 'Floating-point formulas are compared as exact polynomials: rounding is not judged.')
P('P05', 'Search limits stop the search, and each search is started and finished once',
  'Between any two node expansions a search asks whether a limit is reached, and once the answer is yes it expands nothing more. '
  'A limit counts as reached exactly when a given bound on expansions or generations is met or a requested time is up; each limit flag sets its own limit from its own argument, and time limits start their timer before and stop it after the search, forgetting earlier time-outs. '
  'Every search records its start once before the first expansion and its finish once before it returns.',
  ['inputs', 'schedules'], 'every domain, command line and moment at which a limit is met',
  'Tests cannot place a limit at every expansion of every search; the time-out arrives asynchronously.',
  ALGS + [S + 'search.hpp', S + 'search.cc'],
  [('limit tests', 'loops around expansions'), ('limit object', 'Limit in search/search.hpp and search.cc'), ('timers', 'settimer, stoptimer, handletimeout')],
  '"total nodes expanded" against the limit; run time; raw times', PF,
  LN + 'Expansion means construction of a state\'s operators. Memory limits are enforced by the operating system.')
P('P07', 'Expansion tries every operator, and a search ends only for a reason',
  'When a search expands a state it builds the transition of every operator the domain offers there, passing over only the operator that undoes the move which led to that state, and leaves operators untried only when it found a goal or met a limit. '
  'A search ends only with a solution, at a limit, or when it has nothing left to expand (a dead end, for the real-time searches), and never takes a node from an open list that may be empty. '
  'Iterative deepening starts another iteration only if the last one pruned something.',
  ['inputs'], 'every domain, operator set (empty ones included), and moment at which a search runs dry',
  'No test runs a search; a skipped operator or an early end only shows on instances whose solutions need it.',
  ALGS + [S + "search.hpp"],
  [('operator loops', 'expand/dfs/addsuccs of each search'), ('open lists', 'OpenList, BinHeap users'), ('endings', 'search() of each algorithm')],
  'solution found or not; "total nodes generated"; final datafile rows', PF,
  LN + 'That domains list all their operators is outside this property. The local heaps of dtastar are excluded from the emptiness rule.')
P('P08', 'Open lists and heaps hand out the best element and track positions',
  'A binary heap restores its order after every push, pop, update, push-or-update, append and re-initialisation, hands out its first element, and a bucketed open list always takes a node of the lowest key and, among those, the highest tie key, keeping its counts exact. '
  'Every stored element is told its own current position, and every element that is popped, removed for an update or cleared out of an open list is told that it is no longer in it. '
  'An open list reports membership and emptiness accordingly, and re-inserts or moves an element whose key changed.',
  ['inputs', 'histories'], 'every element order, every sequence of operations',
  'The heap test pushes and pops random integers without tracking updates; no test touches the bucketed list, positions, append or re-initialisation.',
  ['structs/binheap.hpp', S + 'search.hpp'],
  [('heap order', 'BinHeap::pushdown, pullup, update, reinit'), ('positions', 'setind calls'), ('bucketed list', 'OpenList<Ops, Node, IntOpenCost>')],
  'order of expansion; crashes on stale positions', 'path-sensitive symbolic tracking of slots, positions and order facts over compiler IR of the container templates (no solver, no execution)',
  'Keys of a node must not change while it is stored unless the caller announces it (P03); data() hands out the raw array, whose users must re-initialise (P04).')
P('P09', 'Hash tables, bucket queue, disjoint sets, k-d tree and pool keep their contents',
  'A hash table finds, adds and removes an element in the chain its key hashes to, compares keys before it answers, keeps every element over growth, reaches each element once by iteration, and counts its elements and chains exactly; a node is never chained into two tables by the same link. '
  'The integer bucket queue covers every priority it is given, finds the lowest (first) occupied one and keeps its lists linked both ways; joining disjoint sets links one representative below the other by rank, and finding returns the representative. '
  'The k-d tree inserts on the side it searches and leaves a subtree out of a nearest-neighbour query only if it cannot hold a nearer point; the pool hands out each slot once until it is returned, and destructs an object once before reuse.',
  ['inputs', 'histories'], 'every key set, collision pattern and sequence of operations',
  'The structure tests use a few random sequences with few collisions; removal from the middle of a chain, growth during use and link sharing are not reached.',
  [S + 'closedlist.hpp', 'structs/htable.hpp', 'structs/intpq.hpp', 'structs/djset.hpp', 'structs/kdtree.hpp', 'utils/pool.hpp'] + ALGS,
  [('hash tables', 'ClosedList, Htable'), ('bucket queue', 'Intpq'), ('sets', 'Djset'), ('k-d tree', 'Kdtree'), ('pool', 'Pool'), ('chain links', 'closedentry of each search\'s Node')],
  'found/not found, iteration order, counts, neighbours', 'path-sensitive symbolic tracking of array slots and element links over compiler IR of the container templates (no solver, no execution)',
  'Objects stored must have consistent hash and equality (domain property).')
DOMF = ['tiles/tiles.hpp', 'tiles/mdist.hpp', 'tiles/mdist.cc', 'pancake/pancake.hpp', 'gridnav/gridnav.hpp', 'gridnav/gridmap.hpp', 'vacuum/vacuum.hpp', 'visnav/visnav.hpp', 'traffic/traffic.hpp', 'segments/segments.hpp', 'plat2d/plat2d.hpp', 'drobot/drobot.hpp']
P('P10', 'Applying an operator and going back leaves every state as it was',
  'Applying an operator always yields its cost, the operator that takes it back and that operator\'s cost; the state it was applied to stays unchanged, or is put back exactly as it was when the successor goes away, including the parts it shares with the successor. '
  'In the tile, pancake, grid, vacuum, visibility-graph and dock-robot domains the reverse operator, where one is given, leads back to the previous state at the claimed reverse cost. '
  'The heuristic estimates kept inside a state are adjusted by the change each operator makes, or forgotten.',
  ['inputs', 'histories'], 'every instance, state and operator of every domain',
  'Only the dock robots have a test that applies operators; the in-place domains corrupt states silently when one part of an undo is missing.',
  DOMF + ['tiles/md.hpp', 'drobot/drobot.cc', 'traffic/traffic.cc', 'plat2d/plat2d.cc'],
  [('applying and undoing', 'constructors and destructors of each domain\'s Edge'), ('incremental estimates', 'h/d fields of the State classes'), ('reversal tables', 'rev/revops tables of grid and vacuum')],
  'solution paths and costs; state contents after backtracking', 'path-sensitive value-flow over compiler IR with symbolic memory effects (mod/ref and undo sets, swap and permutation lemmas checked structurally; no solver, no execution)',
  'Reversal of platform moves, of the segment gripper\'s position and of the dock robots\' location contents is not decided; that an operator is applicable where it is offered is outside this property.')
P('P11', 'Stored states are told apart, and come back as they were',
  'Two stored states that compare equal also hash alike, and they compare equal exactly when everything that decides how the state behaves agrees. '
  'Storing a state records all of that without altering the state, whatever the record held before. '
  'Restoring gives back the state that was stored, with its estimates either restored or computed anew, and leaves the record as it was.',
  ['inputs', 'histories'], 'every domain, every state, tiles with 8 and 15 tiles and stacks of 50 and 70 pancakes',
  'Tests store a handful of states at most; a forgotten bit merges states that differ, an approximate comparison splits what the hash merges, and both only cost solutions silently.',
  DOMF + ['tiles/packed.hpp', 'drobot/drobot.cc', 'segments/segments.cc', 'plat2d/plat2d.cc', 'search/*.hpp'],
  [('identity', 'eq and hash of each domain\'s PackedState'), ('storing and restoring', 'pack and unpack of each domain'), ('restore buffers', 'callers of unpack in search/*.hpp')],
  'duplicate counts, solution costs, completeness', 'bit-provenance abstract interpretation of compiler IR (each memory bit is its own symbol; equality facts, hash supports and restored bits are compared as terms), polynomial comparison of place numbering, typestate of restore buffers (no solver, no execution)',
  'Containers are interpreted with three elements; dock robots are decided by their place numbering; the quality of hash functions is not judged.')
P('P12', 'What a solver prints is a complete, readable data file',
  'Every solver run that ends normally writes the line that opens a data file before anything else and the line that closes it after everything else, and writes no key twice. '
  'Every value is printed or read by a conversion of its own type, a table\'s rows come after its header and have exactly its columns, and a line is written whole and in the form the reader takes, or the run fails; it is never cut short.',
  ['inputs', 'histories'], 'every solver, algorithm, argument and length of text',
  'No test reads what the solvers print; a wrong conversion, a lost footer or a cut line only shows when results are collected later.',
  ['utils/datafile.cc', 'utils/utils.hpp', 'search/*.hpp', 'search/search.cc', '*/main*.cc', 'gridnav/scenario.cc', 'gridnav/scenario2rdb.cc', 'rdb/dfcmplt.cc'],
  [('writing lines', 'dfpair, dfrow, dfrowhdr, dfheader, dffooter in utils/datafile.cc'), ('programs', 'main of every solver'), ('results', 'output of every search, SearchStats and Limit')],
  'the data file on standard output', 'compiler type check of every format against its arguments (declared format attributes), variadic argument types in compiler IR, path-sensitive typestate of header, footer and rows, dataflow of measured lengths (no solver, no execution)',
  'Text containing quotes is not escaped by the writer and that is not judged; keys composed at run time are not compared.')
P('P13', 'Searches start from set values, and a reset search starts afresh',
  'Whatever options are given or left out, every setting, counter and estimate read by a search algorithm, its statistics and limits, a container, a problem domain or another object built from arguments has been given a value before it is first read. '
  'A search that was reset starts from the values a newly built one starts from: the results, solution, open and closed lists, bounds, weights, error estimates and step records of the search before are gone, and a container that is cleared counts from zero again.',
  ['inputs', 'histories'], 'every option combination, algorithm, container and domain; any number of searches with resets between them',
  'Tests build an object one way and search once; an unset switch usually happens to be zero there, and leftovers of a previous search only distort the next one.',
  ['search/*.hpp', 'search/search.cc', 'search/closedlist.hpp', 'structs/*.hpp', 'gridnav/scenario.cc', 'gridnav/gridmap.hpp', 'gridnav/gridmap.cc', 'plat2d/plat2d.cc'],
  [('settings', 'constructors of every search algorithm'), ('starting over', 'reset of every search algorithm, called between scenario entries'), ('containers', 'clear of closed and open lists, hash tables and queues')],
  'results and statistics of the first and of every later search', 'definite-initialisation dataflow over compiler IR (byte cells of the object, flag values kept apart), constructor and reset values compared (no solver, no execution)',
  'Objects made without arguments and assigned to later, graphical viewers, and whether scanning functions filled their targets are not judged; memory that a reset leaks is not judged.')
P('P14', 'Malformed inputs are refused before anything in them is used',
  'A value read from an instance, map, level, roadmap, profile or scenario file is used only where the read is known to have delivered it, and reading such a file character by character or line by line stops at its end. '
  'A number from such a file that picks an element of a table, and a field of a split line that is looked at, is first checked against how many there are. '
  'A command-line argument is looked at only when it was given.',
  ['inputs'], 'every instance, map, level, roadmap, profile or scenario file and every command line',
  'Tests only read well-formed instances; a truncated file or an option without its value otherwise searches an instance made of stale memory, or reads past an array.',
  ['tiles/*.hpp', 'tiles/tiles.cc', 'pancake/pancake.hpp', 'gridnav/*.cc', 'gridnav/*.hpp', 'vacuum/vacuum.cc', 'vacuum/vacuum.hpp', 'visnav/*.cc', 'visnav/*.hpp', 'traffic/*.cc', 'segments/segments.cc', 'plat2d/*.cc', 'drobot/drobot.cc', 'search/*.hpp', 'search/anyprof/*.cc', '*/main*.cc', '*/*.cc'],
  [('instances', 'the constructors of each domain taking a FILE or stream'), ('maps', 'GridMap, Lvl, VisGraph and Prm readers'), ('arguments', 'main of every program and constructors of every search algorithm')],
  'refusal (fatal error) instead of a search over unset values or an access out of range', 'finite-value typestate of read results with available difference facts (a <= b + k) over compiler IR; end-of-file loop walk (no solver, no execution)',
  'Sizes given in files are taken as they are; rows of data files written by the programs themselves are taken to have their fields; strings taken with >> keep a value; numbers in option values are not judged.')

P('P15', 'The same instance, options and seed give the same run',
  'Apart from searches that weigh time or sample at random by design (Bugsy, decision-theoretic and monitored anytime search, time-bounded lookahead, real-time A*, rapidly exploring trees) and limits on time, a search and its domain decide from nothing but the instance and the options: not from the clock, the process, a generator seeded by the time, where objects lie in memory, or what an earlier search left in global variables. '
  'Times read along the way end in what is printed about time and nowhere else. '
  'An instance generator that takes a seed draws from that seed alone.',
  ['inputs', 'histories', 'schedules'], 'every search, domain and generator; any number of runs in one process or several',
  'Tests check one run at a time; a decision that follows the clock, an address or a leftover global only shows when the same run is made again.',
  ['search/*.hpp', 'search/search.cc', 'structs/*.hpp', '*/*.hpp', '*/*.cc'],
  [('randomness', 'utils/rand.cc, the programs that make instances'), ('clocks', 'walltime, cputime and their callers'), ('hashing', 'Tiles::inithashvec and the hash members of the packed states')],
  'solutions, statistics and generated instances of repeated runs', 'taint dataflow (interprocedural over fields, results and arguments) and effect analysis over compiler IR of all functions (no solver, no execution)',
  'What a pointer to another object leads to is followed by field; the order in which the system lists files, memory figures and uninitialised reads (another property) are not judged.')

P('P16', 'Files are opened, written, closed and replaced safely',
  'A file or directory handle is used only once its open is known to have succeeded and never after it was closed, one opened for reading is only read and one opened for writing only written, output meant for a file goes to that file, and every function closes what it opens unless it hands it on or ends the program. '
  'A file that takes the place of another does so only after every write to it, and closing it, is known to have succeeded; listing a directory never yields the directory itself or its parent, and removing a directory tree follows no link out of it.',
  ['inputs', 'crash_points', 'histories'], 'every function that opens a file or directory; any failure of the system calls',
  'Tests open files that exist on disks with room; failures to open, full disks, links and long runs that leak a handle each time do not happen in them.',
  ['utils/fs.cc', 'utils/mem.cc', 'rdb/*.cc', 'search/*.hpp', 'search/anyprof/*.cc', 'search/learnh/*.cc', '*/main*.cc', 'graphics/image.cc'],
  [('handles', 'every call of fopen and opendir'), ('replacing', 'rdb/addattrs.cc main'), ('directories', 'utils/fs.cc readdir, rmrecur')],
  'files and open descriptors after runs with failing calls', 'typestate analysis of handles over compiler IR, path by path, with summaries of the functions given a handle (no solver, no execution)',
  'What the read functions do with malformed content is P14; handles kept in an object for its lifetime are followed up to where they are stored.')

N('N01', 'Solution costs meet the bound their algorithm promises',
  'With an admissible and consistent estimate A* and iterative deepening return a cheapest solution, weighted A* one within its weight of the cheapest, and ARA* one within the weight in force. '
  'Each next solution of an anytime search is cheaper than the one before.',
  ['inputs'], 'every domain, instance and weight', 'No test runs a search; bounds hold over all graphs and tie orders.',
  [S + 'astar.hpp', S + 'idastar.hpp', S + 'wastar.hpp', S + 'arastar.hpp'], [('orders and duplicate handling', 'search() of each algorithm')], 'final cost against the optimum',
  'A global statement over all weighted graphs: it follows from the order, duplicate, completeness and goal rules (P01-P04, P07, P08), which are decided, by the textbook induction over the run, which quantifies over path costs no dataflow abstraction bounds.')
N('N02', 'Heuristic estimates never exceed the true cost to the goal',
  'The estimate a domain gives for a state is never more than the cost of a cheapest way from it to a goal, and estimates along an operator never drop by more than its cost.',
  ['inputs'], 'every instance and state of every domain', 'Tests compare a few states at most.',
  DOMF, [('estimates', 'h and d of each domain')], 'estimates against true distances',
  'Compares a formula with the solution of a shortest-path problem; deciding it needs an inductive proof about each puzzle, not a property of the program text. That the incremental estimates equal the recomputed ones is part of P10.')
N('N03', 'Geometric predicates and visibility graphs are geometrically right',
  'Intersection, containment and distance of points, segments, boxes and polygons agree with their definitions up to rounding, and a visibility graph joins exactly the vertices that see each other.',
  ['inputs'], 'every polygon map', 'Tests sample configurations.', ['utils/geom2d.hpp', 'utils/geom2d.cc', 'visnav/visgraph.cc', 'visnav/polymap.cc'],
  [('geometry', 'geom2d')], 'edges of visibility graphs', 'Numerical statement about floating point arithmetic over real inputs; no sound static argument in reach bounds the rounding, and the definitions themselves are geometric.')
N('N04', 'The platform player never ends up inside a blocked tile',
  'However the player moves, its box never overlaps a tile that blocks it, and its movement equals its velocity cut at the first obstacle.',
  ['inputs', 'histories'], 'every level and sequence of moves', 'Tests do not play.', ['plat2d/body.cc', 'plat2d/player.cc', 'plat2d/lvl.cc'], [('movement', 'Body::move and Lvl::isection')], 'player positions',
  'Floating point positions against a grid over unbounded move sequences: needs invariants about rounded real numbers.')
N('N05', 'Encoding, decoding and ranking are inverse to each other',
  'Decoding base-64 or run-length encoded text gives back the bytes that were encoded, and unranking a permutation\'s rank gives back the permutation, distinct permutations having distinct ranks.',
  ['inputs'], 'every byte string and permutation', 'Tests sample strings.', ['utils/encode.cc', 'utils/rank.cc', 'tiles/pdb.hpp'], [('encoding', 'utils/encode.cc'), ('ranking', 'utils/rank.cc')], 'decoded text',
  'Functional equality of two loops over strings of any length: needs loop invariants relating the two programs (a proof), not a flow property.')
N('N06', 'Deadlines and look-ahead bounds hold in wall-clock time',
  'A search with a time limit returns within a bounded delay after it, and a real-time search commits to its next move within its look-ahead.',
  ['schedules'], 'every machine load and domain', 'Tests do not measure time.', [S + 'lsslrtastar.hpp', S + 'dtastar.hpp', 'utils/time.cc'], [('timers', 'Limit, timeout')], 'elapsed times',
  'Time of expansions depends on the machine and on the domain\'s unbounded operations; the order of limit checks and expansions is decided in P05.')
N('N07', 'Anytime profiles are probability distributions of what was seen',
  'The probabilities of an anytime profile add up to one for every cost and time bin, and monitoring decides by the expected utility they give.',
  ['inputs'], 'every set of solution streams', 'Tests sample few streams.', [S + 'anyprof/profile.cc', S + 'arastar.hpp'], [('profiles', 'mkprobs')], 'stored profiles',
  'A numeric identity over sums of unbounded, data-dependent counts; no abstraction in reach tracks the sums.')
N('N08', 'Generated instances are solvable and spread as asked',
  'Random instance generators produce only instances with a solution, of the size and density asked for.',
  ['inputs'], 'every seed and parameter', 'Tests do not generate instances.', ['gridnav/randinst.cc', 'visnav/rand.cc', 'segments/mkinst.cc', 'tiles/generator.cc', 'traffic/randinst.cc'], [('generators', 'main of each generator')], 'generated instances',
  'Solvability of a generated instance and the spread of random numbers are not properties of paths through the generator.')
