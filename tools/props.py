AI = 'abstract interpretation of the syntax trees (path-sensitive, finite abstract domains, opaque collaborators)'
GEN = AI + '; the generated text is parsed and interpreted in turn'
PROPS = []
NOT_APPLICABLE = []


def P(**k):
    PROPS.append(k)


def NA(**k):
    NOT_APPLICABLE.append(k)


P(id='P01', title='Composite nodes run children in order and combine their statuses correctly',
  statement="On every tick a sequence runs its children in order and stops at the first one that does not succeed, returning that child's status, or success if none is left; a priority node does the same with failure in the place of success. An or-node runs every child and returns success exactly when at least one child did not fail. The memory variants of sequence and priority behave likewise but start at the child that was left running by the previous tick, and at the first child otherwise.",
  over=['inputs', 'histories'], forall='every combination of child statuses (success, failure, running, error), every number of children, every tick history',
  why='The tests only run whole solver trees in which a handful of status combinations occur; running and error statuses and the memory composites are never exercised.',
  files=['b3/composites/sequence.py', 'b3/composites/priority.py', 'b3/composites/ornode.py', 'b3/composites/memsequence.py', 'b3/composites/mempriority.py'],
  mech=[('Sequence.tick', 'b3/composites/sequence.py'), ('Priority.tick', 'b3/composites/priority.py'), ('OrNode.tick', 'b3/composites/ornode.py'), ('MemSequence.open/tick', 'b3/composites/memsequence.py'), ('MemPriority.open/tick', 'b3/composites/mempriority.py')],
  state=[('running child', 'index where a memory composite resumes', 'blackboard, per tree and node')],
  observe=['status returned by a tree tick', 'order in which children are ticked'], technique=AI,
  note='All child-status combinations for up to 4 (thorough 5) children and tick histories of 1-3 ticks; longer child lists rest on the uniformity of the loops.')
P(id='P02', title='Decorator nodes map statuses and bound their loops as documented',
  statement="An inverter swaps success and failure and passes the other statuses through; a time-limited node fails once more than its limit has elapsed since it was opened and otherwise returns its child's status; any decorator without a child returns error. A repeater keeps ticking its child while it completes with success or failure, repeat-until-success while it fails, repeat-until-failure while it succeeds, each at most its limit of completed child ticks since it was opened (a negative or omitted limit means no limit), and returns the last child status. A limiter ticks its child at most its limit of completed ticks since it was opened, passing the child's status through, and fails afterwards.",
  over=['inputs', 'histories', 'configurations'], forall='every child status sequence, every loop limit including zero and none, every tick history',
  why='The solver tests use one repeat-until-success node with fixed limits; limits of zero, running children and the other decorators are never executed.',
  files=['b3/decorators/inverter.py', 'b3/decorators/limiter.py', 'b3/decorators/maxtime.py', 'b3/decorators/repeater.py', 'b3/decorators/repeatuntilfailure.py', 'b3/decorators/repeatuntilsuccess.py'],
  mech=[('tick methods', 'b3/decorators/*.py')], state=[('i', 'completed child ticks since the node opened', 'blackboard, per tree and node')],
  observe=['status returned by a tree tick', 'number of child ticks'], technique=AI,
  note='Limits -1..3 (thorough 4), child statuses enumerated; unbounded loops are followed for up to 25 iterations.')
P(id='P03', title='Node life cycle: callbacks are paired and only running nodes stay open',
  statement='Executing a node calls enter, then open if and only if the node is not already open in that tree, then its tick, then close if and only if the tick did not return running, then exit, each exactly once, and the tick status is returned unchanged. A node is therefore open after an execution exactly when it returned running, and open state never leaks between nodes or between trees that share a blackboard. After a tick of a tree made of sequences and priorities, the open nodes recorded for the tree are exactly the running ones and the recorded node count is the number of nodes executed. Every callback is given a tick that carries the ticking tree, the target and the blackboard.',
  over=['histories', 'inputs'], forall='every tick status and every history of ticks, for any two nodes and trees on one blackboard',
  why='No test looks at the life cycle callbacks, and no shipped leaf returns running.',
  files=['b3/core/basenode.py', 'b3/core/tick.py', 'b3/core/behaviortree.py'],
  mech=[('BaseNode._execute and helpers', 'b3/core/basenode.py'), ('Tick open-node list', 'b3/core/tick.py')],
  state=[('is_open', 'whether the node is open in the tree', 'blackboard'), ('open_nodes', 'nodes left running', 'blackboard')],
  observe=['callback order', "blackboard 'open_nodes' and 'node_count'"], technique='typestate analysis by ' + AI,
  note='Decided from both typestates of a node for every status, so inductive over histories; nested trees up to 4 leaves.')
P(id='P04', title='Blackboard cells are independent per scope',
  statement='Reading a key from the blackboard in a scope (global, a tree, or a node of a tree) returns the last value stored under that key in exactly that scope, and nothing if none was stored. Storing or incrementing in one scope never changes what any other scope or key reads. Incrementing adds the given amount to exactly the addressed integer.',
  over=['histories', 'inputs'], forall='every sequence of reads, writes and increments over any keys and scopes',
  why='Tests only read and write global keys.',
  files=['b3/core/blackboard.py'], mech=[('scope resolution', 'b3/core/blackboard.py')], state=[('memories', 'base, tree and node dictionaries', 'b3/core/blackboard.py')],
  observe=['values returned by blackboard reads'], technique='effect analysis by ' + AI,
  note='All write sequences of length 2 (thorough 3) over 2 keys and 6 scopes with opaque values, full read-back.')
P(id='P05', title='Loading a dumped behaviour tree reproduces it',
  statement='Dumping a tree and loading the dump into a new tree gives the same tree: same node identities, node types, titles, descriptions and properties, the same child under each decorator and the same children in the same order under each composite. Custom node types are listed once each in the dump, with their category. A node has its class\'s declared title and description, or the class name as title. Loading a node type that is neither built in nor supplied is rejected with an attribute error.',
  over=['inputs'], forall='every tree built from composites, inverters, library leaves and custom leaves (nodes constructible without arguments), including childless ones',
  why='No test dumps or loads a tree.',
  files=['b3/core/behaviortree.py'], mech=[('BehaviorTree.dump / load', 'b3/core/behaviortree.py')],
  observe=['structure of the loaded tree'], technique='writer/reader agreement by ' + AI,
  note='Fifteen tree shapes up to depth 5 with opaque metadata; nodes whose constructors need arguments are outside the claim.')
P(id='P06', title='Execution accounting: counters, costs and result log match what ran',
  statement="Each execution of a node adds one to its tick count, adds one to its success count exactly when the tick succeeded, and adds its cost to the shared total cost. After a tick the cost of a sequence, priority or or-node is the sum of the costs of the children it executed in that tick. With logging enabled the log receives one success line per node that succeeded (and, at the higher level, one failure line per node that failed), in completion order, and nothing when logging is off.",
  over=['histories', 'inputs'], forall='every combination of child statuses and costs, over consecutive ticks',
  why='Tests never read the counters or costs.',
  files=['b3/core/basenode.py', 'b3/composites/sequence.py', 'b3/composites/priority.py', 'b3/composites/ornode.py'],
  mech=[('BaseNode._tick', 'b3/core/basenode.py'), ('cost sums', 'b3/composites/*.py')], state=[('TotalCost', 'sum of the costs of all executed nodes', 'blackboard')],
  observe=['node counters', 'blackboard TotalCost', 'log file'], technique='effect analysis by ' + AI,
  note='Up to 3 (thorough 4) children with independent costs, 1-3 consecutive ticks, all statuses.')

FORM = 'abstract interpretation of the syntax trees over polynomial normal forms (formula equality, no sampling)'
P(id='P13', title='Elementary transforms have their textbook closed forms (both variants)',
  statement='The functions of pykinsym for elementary rotations about x, y and z (3x3 and 4x4), roll-pitch-yaw rotations (3x3 and 4x4), pure translations and Denavit-Hartenberg links (alpha, a, d, theta in the convention of Craig) return exactly the textbook matrix for every argument, and the numerical variant of each computes the same formula as the symbolic one.',
  over=['inputs'], forall='every angle and length argument', why='The tests compare a few transforms at special angles, where wrong signs or swapped entries can vanish; several numerical variants are never called.',
  files=['ikbtbasics/pykinsym.py'], mech=[('RotX_S .. RotZ4_N, RPY, Trans4, Link', 'ikbtbasics/pykinsym.py')],
  observe=['matrices returned by the transform functions'], technique=FORM,
  note='Complete for all arguments: every matrix entry is compared as a trigonometric polynomial.')
P(id='P14', title='The homogeneous inverse inverts every rigid transform',
  statement='For every rigid homogeneous transform the symbolic and numerical inverse functions return a 4x4 matrix whose product with the argument, on either side, is the identity, and they leave the argument unchanged.',
  over=['inputs'], forall='every rotation and every displacement', why='The tests invert single example transforms.',
  files=['ikbtbasics/pykinsym.py'], mech=[('H_inv_S, H_inv_N', 'ikbtbasics/pykinsym.py')], observe=['product of inverse and argument'], technique=FORM,
  note='General rotation parametrised by three angles plus a general displacement; reduction of both products to the identity.')
P(id='P15', title='Forward kinematics and matrix equations are rearrangements of Td = T06',
  statement='For every DH table, forward_kinematics makes each link transform the DH transform of its table row and T_06 their product in order. get_mequation_set returns exactly the documented equations, each equating inverse link transforms applied to T_d on the left with the remaining product of link transforms on the right (sines and cosines of a twist may appear as named parameters): nothing removed, the first 1 to 5 links moved to the left, and links 1 and 6, or 1, 2, 5 and 6, moved to the left. The scalar equations of each are its first three rows, each left entry paired with the right entry at the same place.',
  over=['inputs', 'configurations'], forall='every DH table of six links', why='The tests compare a few entries for one robot; for a robot with many zero parameters a wrong factor or index is invisible.',
  files=['ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'], mech=[('mechanism.forward_kinematics, get_mequation_set', 'ikbtbasics/kin_cl.py'), ('matrix_equation', 'ikbtbasics/kin_cl.py')],
  observe=['link transforms and T_06 of the mechanism', 'sides of each matrix equation', 'scalar equation lists'], technique=FORM,
  note='All tables with one or two (thorough three) fully symbolic links, plus full tables; products are multilinear in the links so missing or swapped factors show.')
P(id='P16', title='Link velocities and the Jacobian are the geometric ones for any joint types',
  statement='With velocity calculation enabled, column j of the 6x6 Jacobian in frame 6 is, for a revolute joint, the cross product of the joint axis with the vector from the joint to the origin of frame 6 followed by the joint axis, and for a prismatic joint the joint axis followed by zero, all expressed in frame 6; the velocity of the last frame is the Jacobian times the joint rates.',
  over=['inputs', 'configurations'], forall='every DH table and pattern of revolute and prismatic joints', why='The tests compute one Jacobian and check little of it.',
  files=['ikbtbasics/kin_cl.py'], mech=[('velocity propagation and J66', 'ikbtbasics/kin_cl.py mechanism.forward_kinematics')], observe=['J66, v_66, w_66 of the mechanism'], technique=FORM,
  note='Pairs (thorough triples) of fully symbolic links and full tables with nice twists, five joint patterns (including all prismatic).')
P(id='P18', title='Every catalogue robot is a complete and consistent description',
  statement='For every name that robot_params accepts it returns a 6x4 DH table, six joint-type flags that are 0 or 1, and distinct unsolved unknowns numbered from 1 in joint order, each occurring exactly once in the table, with coefficient one, in the theta column of a joint flagged revolute (1) or the d column of a joint flagged prismatic (0); every other symbol of the table is a declared parameter with a numerical value, and no parameter is an unknown. Every robot described is offered; other names are rejected.',
  over=['configurations'], forall='every robot of the catalogue', why='Only two of the robots are used by tests.',
  files=['ikbtfunctions/ik_robots.py'], mech=[('robot_params', 'ikbtfunctions/ik_robots.py')], observe=['return value of robot_params'], technique=AI,
  note='Complete: every name and every branch of the catalogue.')
P(id='P24', title='The solution set contains every combination of solutions exactly once',
  statement='When every unknown has one or two solutions (the first one any number), each an expression in already solved unknowns, parameters and pose entries, create_solution_set and make_LHS_versions yield version equations and solution tuples such that every name in a tuple is defined exactly once, each tuple names one version of every unknown, resolving these definitions gives one consistent choice of a solution per unknown, and every combination of choices is given by exactly one tuple.',
  over=['inputs', 'configurations'], forall='every number of unknowns, solution counts of one or two (of the first unknown also more), and every dependency pattern in solution order',
  why='The tests check names for two fixed robots; whether a combination is lost or mixed up depends on the order and dependency pattern of two-valued unknowns.',
  files=['ikbtbasics/ik_classes.py', 'ikbtbasics/kin_cl.py'], mech=[('Robot.create_solution_set, make_LHS_versions', 'ikbtbasics/ik_classes.py'), ('unknown.set_solved', 'ikbtbasics/kin_cl.py')],
  state=[('FinalEqnMatrix', 'version equations, one row per combination', 'Robot'), ('solutionSet', 'tuples of version names', 'Robot')],
  observe=['Robot.solutionSet and Robot.FinalEqnMatrix'], technique=AI + '; version equations resolved as polynomial normal forms',
  note='All dependency patterns of up to 3 unknowns, selected ones of 4 (thorough 5) and 6; more than two solutions per unknown is outside the claim (no solver produces it).')
P(id='P17', title='The kinematics cache never supplies another robot\'s kinematics',
  statement='Calling kinematics_pickle for a robot whose kinematics were stored by an earlier run, followed by check_the_pickle on the stored and the requested DH table, either stops the program or gives exactly what a fresh computation from the arguments of this call would give: the same DH table, joint types, matrix equations, link transforms, Jacobian, unknowns and auxiliary equations, parameters and parameter values. The same description is accepted again, and a table with another number of rows is refused. Kinematics stored under one robot name are never used for another. The main programs stop before they write any result when the kinematics stored under the name of their robot belong to another table or to other joint types.',
  over=['histories', 'inputs'], forall='every change of one table entry, joint type, parameter value or name between the run that filled the cache and the run that reads it',
  why='The tests either delete or reuse one cache file; no test changes a robot between two runs.',
  files=['ikbtbasics/ik_classes.py'], mech=[('kinematics_pickle, check_the_pickle', 'ikbtbasics/ik_classes.py')],
  state=[('fk_eqns/<robot>_pickle.p', 'stored mechanism, robot and unknowns', 'file system')],
  observe=['mechanism, robot and unknowns returned by kinematics_pickle', 'program exit'], technique=AI + ' over a model of the file system',
  note='A pickle is modelled as a deep copy; one base robot with revolute, prismatic, parametrised and fixed links, and every single-element change of its description. Crashes while the file is being written are outside the claim.')
P(id='P23', title='Equality and hashing of equations, unknowns and graph elements agree',
  statement='Two scalar equations are equal exactly when their left sides and right sides are equal expressions; two unknowns (and two graph nodes) are equal exactly when they have the same symbol, whatever their solution state; two graph edges are equal exactly when parent, child and solution count agree. The inequality operator is always the negation of equality, equal objects have equal hashes, and no equation, unknown or node equals None.',
  over=['inputs'], forall='every pair of objects of these classes', why='The tests compare a handful of objects; wrong identity silently drops or duplicates equations, unknowns or graph edges.',
  files=['ikbtbasics/kin_cl.py', 'ikbtbasics/solutionGraphV3.py'], mech=[('kequation, unknown', 'ikbtbasics/kin_cl.py'), ('Node, Edge', 'ikbtbasics/solutionGraphV3.py')],
  observe=['results of ==, != and hash'], technique=AI,
  note='All pairs from pools of pairwise different expressions, names and solution states, including names that concatenate to the same text; expressions that differ only between integer and floating-point constants are outside the claim.')
P(id='P07', title='A solved unknown is final, and solution order respects dependencies',
  statement="Once an unknown is solved, no later tick of any solver, of the assigner, of the list refresh or of completion detection changes its solutions, their number, its names, dependencies or place in the solution order, and it is registered exactly once. The assigner never hands out a solved unknown while there are unsolved ones, and hands out every unsolved unknown within one round. The k unknowns solved so far have the orders 1 to k, every unknown occurring in a solution was solved earlier, and the recorded dependencies and graph edges are exactly the unknowns occurring in the solutions.",
  over=['histories', 'inputs'], forall='every order of the unknowns, every counter position, every pattern of solved unknowns and every tick history',
  why='Solver tests look at a final state of two robots; re-solving depends on which unknown happens to be last.',
  files=['ikbtleaves/assigner_leaf.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/rank_leaf.py', 'ikbtbasics/kin_cl.py'],
  mech=[('assigner.tick', 'ikbtleaves/assigner_leaf.py'), ('unknown.set_solved', 'ikbtbasics/kin_cl.py'), ('identifier and solver leaves', 'ikbtleaves')],
  state=[('solved / solveorder / solutions', 'state of an unknown', 'unknown'), ('solution_nodes', 'solved unknowns in order', 'Robot'), ('counter', 'round-robin position', 'blackboard')],
  observe=['unknown attributes after each tick', 'Robot.solution_nodes and notation_graph_edges'], technique='typestate analysis by ' + AI,
  note='Assigner complete for up to 4 unknowns; solvers on already solved targets; tick histories of the combined solvers on four families of symbolic matrix equations with selected (thorough all) orders of five unknowns.')
P(id='P08', title='Solutions contain neither their own unknown nor an unsolved one',
  statement='Whatever equations are listed, after any solver or the priority selection of solvers has been ticked, the current unknown is either unsolved or solved with at least one solution, the recorded number of solutions is their actual number, and no solution contains the unknown itself or another unknown that is still unsolved.',
  over=['inputs'], forall='every combination of linear, quadratic, trigonometric, mixed and embedded occurrences of the unknown in one equation, and pairs of equations',
  why='The tests try a few unusable shapes per solver; a wild-card pattern that matches a degenerate reading passes them and yields circular solutions on other shapes.',
  files=['ikbtleaves'], mech=[('identifier and solver leaves', 'ikbtleaves/*_solver.py, two_eqn_m7.py, rank_leaf.py')],
  observe=['solutions of the current unknown'], technique='taint-style ' + FORM,
  note='About 1800 equation shapes per solver; degenerate pattern matches are followed as nondeterministic alternatives.')
P(id='P09', title='Solver leaves decline what they cannot solve',
  statement='Whatever equations are listed, ticking any solver or the priority selection of solvers ends with success or failure: no exception, failed assertion or program exit, and no unknown other than the current one is changed.',
  over=['inputs'], forall='every combination of linear, quadratic, trigonometric, mixed and embedded occurrences of the unknown in one equation, and pairs of equations',
  why='An unusable shape aborts the whole solve only for robots that produce it; the tests contain a few such shapes.',
  files=['ikbtleaves'], mech=[('identifier and solver leaves', 'ikbtleaves/*_solver.py, two_eqn_m7.py, rank_leaf.py')],
  observe=['status of a tick', 'exceptions'], technique=AI,
  note='Same shapes as P08, plus equations with unexpanded sums of angles.')
P(id='P10', title='Ranking keeps exactly one candidate, the one with fewer solutions',
  statement='When both competing methods produced solutions, the unknown is solved with exactly the solutions and the equations of one of them: the one with fewer solutions or, with equally many, the one whose first solution contains fewer unknowns. When one method produced solutions, those are kept. When none did, the unknown stays unsolved. The number recorded is the number of solutions kept.',
  over=['inputs'], forall='every pair of candidate lists of up to two solutions and any numbers of unknowns in them',
  why='Three of the combinations are tested.', files=['ikbtleaves/rank_leaf.py'], mech=[('rank.tick', 'ikbtleaves/rank_leaf.py')],
  observe=['solutions, equations and solved flag of the unknown'], technique=AI, note='All pairs of lists with 0-2 solutions and 0-3 unknowns.')
P(id='P11', title='Solving is reported complete exactly when every unknown is solved',
  statement='The completion detector succeeds exactly when every unknown, including sum-of-angle unknowns, is solved, and fails otherwise (the other way round when it is configured to fail when all is done). It changes neither the list of unknowns nor any unknown.',
  over=['inputs', 'configurations'], forall='every pattern of solved unknowns', why='Tests see the detector only at the end of two complete solves.',
  files=['ikbtleaves/comp_detect.py'], mech=[('comp_det.tick', 'ikbtleaves/comp_detect.py')], observe=['status of the detector'], technique=AI,
  note='All patterns of up to 5 (thorough 6) unknowns.')
P(id='P12', title='Equation lists file every equation under its number of unsolved unknowns',
  statement='After scanning (and after every list refresh) the one-unknown list contains exactly the scalar equations of the matrix equations that have one unsolved unknown, the two-unknown list exactly those with two and the third list exactly those with more, provided the two sides of an equation share no unknown; solved unknowns, parameters and pose symbols do not count; none is listed twice and equations with fewer operations come first. A sum-of-angle definition with one or two unsolved unknowns is in the corresponding list and not in the other. The matrix equations and definitions themselves are unchanged.',
  over=['inputs', 'histories'], forall='every matrix equation and every set of solved unknowns, refreshed any number of times',
  why='The tests check list lengths for one robot and one set of solved unknowns.',
  files=['ikbtbasics/ik_classes.py', 'ikbtleaves/updateL.py', 'ikbtfunctions/helperfunctions.py'], mech=[('Robot.scan_for_equations, erank', 'ikbtbasics/ik_classes.py'), ('updateL.tick', 'ikbtleaves/updateL.py')],
  state=[('eqns_1u, eqns_2u, eqns_3pu', 'equation lists', 'blackboard')], observe=['the equation lists'], technique=AI,
  note='Three symbolic robots, all 32 subsets of five solved unknowns, fresh and after solving one more.')
P(id='P26', title='Every solver returns exactly the solutions of the equations it solves',
  statement="Given an equation of its form with coefficients and constants that contain no unsolved unknown, in any arrangement of the two sides, each solver solves it: a linear equation by its one root, A sin x = B or A cos x = B by both angles, A sin x + B cos x = C by both angles, a pair giving sin x and cos x by the one angle (both antipodal angles when a common unsolved factor of unknown sign is eliminated), and A sin x + B cos x = C with A cos x - B sin x = D by the one angle. Every solution satisfies the equation, the solutions are different angles and their number is the number of roots; conditions recorded with the two antipodal angles name the sign of the factor under which each one holds.",
  over=['inputs'], forall='every coefficient (numbers of either sign, parameters, solved unknowns, products, sums), every constant, every arrangement of the sides',
  why='The tests solve each form for a few numerical coefficients; wrong signs or lost branches for other arrangements give plausible but wrong joint angles.',
  files=['ikbtleaves/algebra_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/two_eqn_m7.py', 'ikbtleaves/rank_leaf.py'],
  mech=[('*_id and *_solve leaves', 'ikbtleaves')], observe=['solutions of the current unknown'], technique=FORM,
  note='About 640 equations per tier with symbolic coefficients; residuals reduced to zero as trigonometric polynomials with square roots. Equality of angles is modulo 2 pi; degenerate parameter values (zero coefficients) are outside the claim.')

P(id='P19', title='Generated Python inverse kinematics compiles, is complete and tests its domain',
  statement="For any solved robot (also when some or all unknowns are unsolved) the Python generator writes one file that is valid Python. Its function, given a pose, returns False if an argument of an inverse sine or cosine is outside [-1, 1], tests every such argument before it is used, and otherwise returns every combination of the symbolic solutions exactly once, resolved to pose and parameters, with the same unknown in the same position of every solution. Parameters with a value are declared with that value, the others as marked places for the user.",
  over=['inputs', 'configurations'], forall='every solution shape, solve method text, number of solutions, dependency among unknowns and parameter with or without a value',
  why='No test generates or runs the output; errors show only for robots with the construct in question.',
  files=['ikbtfunctions/output_python.py', 'ikbtbasics/ik_classes.py'], mech=[('output_python_code', 'ikbtfunctions/output_python.py'), ('make_LHS_versions', 'ikbtbasics/ik_classes.py')],
  observe=['CodeGen/Python/IK_equations*.py', 'return value of the generated function'], technique=GEN,
  note='Fifteen solution shapes alone and after other unknowns with all method texts (rotated in quick, complete in thorough), robots of 2-8 unknowns; negative radicands are outside the claim.')
P(id='P20', title='Generated C++ inverse kinematics compiles, is complete and tests its domain',
  statement='For any solved robot (also when some or all unknowns are unsolved) the C++ generator writes one file whose text is well-formed C++ in which every name is declared before use and nothing is declared twice; every variable holding a version of a solution is assigned once, from quantities assigned before, with the value of that version; arguments of inverse sines and cosines are tested before they are used and the function reports failure exactly when one is outside [-1, 1]; and the combinations of solutions are all delivered, once each, with the unknowns in a fixed order.',
  over=['inputs', 'configurations'], forall='every solution shape, solve method text, number of solutions, dependency among unknowns and parameter with or without a value',
  why='No test generates or compiles the output.',
  files=['ikbtfunctions/output_cpp.py', 'ikbtbasics/ik_classes.py'], mech=[('output_cpp_code', 'ikbtfunctions/output_cpp.py')],
  observe=['CodeGen/Cpp/IK_equations*.cpp', 'values the generated function computes'], technique=GEN,
  note='Same robots as P19; the generated text is read by a parser for the C++ subset it uses (declarations, assignments, calls, conditions, returns); other constructs end the analysis.')
P(id='P21', title='The LaTeX report is well-formed and shows exactly the solution',
  statement='For any solved robot (also when nothing is solved) the report generator writes one LaTeX document in which environments, braces, delimiters and math shifts are balanced. It lists the solved unknowns in the order of solution, names the method that solved each, every symbolic solution and every version equation once and no other equation, every solution tuple, every edge of the dependency graph, a solution table with one row per combination, and the DH table, the columns of the forward kinematics matrix and of the Jacobian in order.',
  over=['inputs', 'configurations'], forall='every solution shape, number of solutions, dependency and robot name',
  why='No test writes a report; an unbalanced or incomplete report appears only for some robots.',
  files=['ikbtfunctions/output_latex.py', 'ikbtbasics/kin_cl.py'], mech=[('output_latex_solution', 'ikbtfunctions/output_latex.py'), ('notation_squeeze', 'ikbtbasics/kin_cl.py')],
  observe=['LaTex/ik_solution_*.tex'], technique=GEN,
  note='Same robots as P19; prose is not checked.')
P(id='P22', title='Forward-kinematics outputs give the forward kinematics of the described robot',
  statement='Running the forward-kinematics program for any robot of the catalogue ends without an error and writes a Python file and a LaTeX report. The Python file is valid, declares every parameter with its described value (or a marked place for the user) and every joint variable, sums of angles as the sum of their joint angles, and runs; its T06 is the product of the link transforms of the Denavit-Hartenberg table for every value of the joint variables. The report is balanced LaTeX and shows the table, T_06 and the Jacobian.',
  over=['inputs', 'configurations'], forall='every robot of the catalogue and further descriptions, every value of the joint variables',
  why='No test runs the program or its output.',
  files=['fkOnly.py', 'ikbtfunctions/output_python.py', 'ikbtfunctions/output_latex.py', 'ikbtfunctions/ik_robots.py'],
  mech=[('main program', 'fkOnly.py'), ('output_FK_python_code', 'ikbtfunctions/output_python.py'), ('output_FK_equations', 'ikbtfunctions/output_latex.py')],
  observe=['CodeGen/Python/FK_equations*.py', 'LaTex/fk_equations_*.tex'], technique=GEN,
  note='All catalogue robots from the first statement of the program (the sum-of-angles scan is left to P25) and eight further descriptions; matrix identities are decided on polynomial normal forms.')
P(id='P25', title='Sums of angles are replaced consistently and defined exactly once',
  statement='After the sum-of-angles scan (or the sum-of-angles leaf) replacing every new unknown by its recorded definition gives back every original matrix equation. Every new unknown appears once in the list of unknowns, unsolved, is named and numbered by the subscripts of the joint angles it is the sum of, and has exactly one definition. No sine or cosine of a sum of two or three joint angles that occurred is left. Differences, sums with parameters and longer sums are not turned into unknowns of their own, the original unknowns are unchanged, and scanning again changes nothing unless an equation had a sum of four angles. The scan never stops with an error.',
  over=['inputs', 'configurations'], forall='every placement of sums, differences and offsets in the matrix equations, and every order of visiting matches',
  why='Which match is visited first depends on hash order, and only two robots with parallel axes are in the tests.',
  files=['ikbtbasics/ik_classes.py', 'ikbtleaves/sum_id.py'], mech=[('Robot.sum_of_angles_transform, sum_of_angles_sub', 'ikbtbasics/ik_classes.py'), ('sum_id.tick', 'ikbtleaves/sum_id.py')],
  state=[('kequation_aux_list', 'definitions of sum-of-angle unknowns', 'Robot'), ('unknowns', 'list of unknowns', 'blackboard')],
  observe=['matrix equations, unknowns and auxiliary equations after the scan'], technique=AI + ', set iteration and wildcard assignment nondeterministic',
  note='24 kinds of expression on either side and in pairs; simplification is modelled as keeping sums as they stand.')
P(id='P28', title='Every name, attribute and call of the solver resolves',
  statement='Whichever module of the behaviour-tree library or the solver is imported first, the import succeeds and no function can fail with an unbound global name, a missing attribute of a project module or of its own object, a call whose arguments do not fit the signature of a project function or class, or a local variable that is read where no assignment can have reached it.',
  over=['inputs', 'configurations', 'histories'], forall='every function, including branches that no test executes, and every import order',
  why='Python finds such errors only when the line is executed; several were in branches no test reaches.',
  files=['b3', 'ikbtbasics', 'ikbtfunctions', 'ikbtleaves'], mech=[('all functions', 'b3, ikbtbasics, ikbtfunctions, ikbtleaves')],
  observe=['NameError, UnboundLocalError, AttributeError, TypeError'], technique='name resolution, signature and reaching-assignment analysis of the syntax trees, over name spaces obtained by abstract interpretation of the imports',
  note='All functions outside test classes and script sections; attributes of objects other than self and project modules are not tracked; a local counts as assigned if some path assigns it.')
P(id='P29', title='Substitution and squaring transforms add only implied equations',
  statement='Ticking the substitution transform leaves the left side of the first matrix equation and all other equations as they are; each right-hand element it rewrites has fewer unsolved unknowns than before and equals the old one once the pose symbols are replaced by the elements they were equated with; when another element occurs in it as a sum and the replacement saves unknowns, it is rewritten; the equation lists show the result. The squaring transform only adds equations: each is the sum of the squares of two listed two-unknown equations up to sum-of-angle definitions and has exactly one unsolved unknown, which alone is noted as found by it; for the second and third joint angle it adds one, and succeeds, exactly when two position equations qualify. Neither transform changes solutions or raises an error.',
  over=['inputs'], forall='every containment between elements, every subset of solved unknowns, every order of the listed equations',
  why='The tests tick each transform on one fixed matrix and mainly look for the absence of errors.',
  files=['ikbtleaves/sub_transform.py', 'ikbtleaves/x2y2_transform.py', 'ikbtbasics/ik_classes.py'],
  mech=[('sub_transform.tick', 'ikbtleaves/sub_transform.py'), ('x2z2_transform.tick', 'ikbtleaves/x2y2_transform.py'), ('soa_expansions', 'ikbtbasics/ik_classes.py')],
  observe=['matrix equations, auxiliary equations and equation lists after a tick'], technique=FORM,
  note='About 2500 scenes: 22 kinds of containment in several places, pairs and chains, all subsets of solved unknowns up to size 1 (thorough all); planar position equations in all pairs and triples, arms with every two- and three-angle sum.')
P(id='P27', title='The solver program ends with outputs and leaves nothing solvable unsolved',
  statement='For every robot of the catalogue the inverse-kinematics program runs to its end without an error and writes the LaTeX report, the Python file and the C++ file under the name of the robot; the Python file assigns every version of every solved unknown and uses no name it does not define, and the solution rows have one entry per solved unknown. When the program stops, none of the solving methods it has can solve a further unknown. Running it again with the stored forward kinematics of the first run solves the same unknowns with the same solutions.',
  over=['inputs', 'configurations', 'histories'], forall='every robot of the catalogue, with symbolic pose, parameters and joint variables, with and without stored kinematics',
  why='No test runs the main program; the composition of the solver tree, the loop limits and the order of transforms are only exercised there.',
  files=['ikSolver.py', 'ikbtleaves', 'b3', 'ikbtfunctions/helperfunctions.py', 'ikbtbasics/kin_cl.py'],
  mech=[('main program: tree of solvers', 'ikSolver.py'), ('assigner, comp_det, updateL', 'ikbtleaves'), ('kinematics_pickle', 'ikbtbasics/kin_cl.py')],
  state=[('unknowns', 'list of unknowns with their solutions', 'blackboard')],
  observe=['exit of the program, files in CodeGen and LaTex, solved unknowns'], technique=AI,
  note='31 robots, one abstract path each, without the sum-of-angles transform (quick) and also with it (thorough). Trigonometric simplification is modelled, so the choice between equally good equations can differ from a real run. Robots that stay unsolved are accepted when no method applies.')
P(id='P30', title='Reported joint solutions are true for the robot, determined and complete',
  statement='For every robot of the catalogue and every joint configuration: the equations recorded as the source of a solution hold; the reported expression has the sine, cosine, tangent or value that the joint variable has, once the pose is that of the configuration and the earlier unknowns have their values; each expression uses only the pose, parameters and unknowns solved before; no inverse tangent is taken of two expressions that are always zero; and the value of the joint variable is among its reported solutions (both angles for an inverse sine, cosine or square root, both signs when a factor of either sign was divided out).',
  over=['inputs', 'configurations'], forall='every robot of the catalogue, every joint configuration outside singular ones, every value of the parameters',
  why='The tests check solver leaves on small equations; whether the combination of kinematics, equation lists, transforms and leaves yields true solutions of a robot is an identity in up to six joint variables.',
  files=['ikSolver.py', 'ikbtleaves', 'ikbtbasics/kin_cl.py', 'ikbtbasics/ik_classes.py', 'ikbtfunctions/ik_robots.py'],
  mech=[('solver leaves', 'ikbtleaves'), ('equation lists', 'ikbtbasics/ik_classes.py'), ('mechanism.forward_kinematics', 'ikbtbasics/kin_cl.py')],
  state=[('solutions, eqntosolve, secondeqn', 'solutions of an unknown and where they come from', 'unknown')],
  observe=['solutions of every unknown when the program ends'], technique=FORM + ', on the result of an abstract interpretation of the whole program',
  note='About 1000 obligations (quick) and twice as many with the sum-of-angles transform (thorough). Pose entries are replaced by the products of the link transforms and the identities are decided on trigonometric polynomials. Three robots have a degenerate solution (known findings).')
P(id='P33', title='Library actions return their documented statuses; waiting measures from opening',
  statement='The succeeding, failing, running and error actions of the behaviour-tree package return that status on every tick. A waiting action created with a number of milliseconds (zero if omitted) returns running until more than that time has elapsed since it was opened and then success; when it is executed again after it succeeded it waits anew, and its start time is its own in every tree, also when several waiting actions or trees share a blackboard.',
  over=['inputs', 'histories', 'schedules'], forall='every waiting time, every sequence of tick times, any number of trees and waiting actions on one blackboard',
  why='No test uses the waiting action, and its behaviour depends on when it is ticked.',
  files=['b3/actions/wait.py', 'b3/actions/succeeder.py', 'b3/actions/failer.py', 'b3/actions/runner.py', 'b3/actions/error.py'],
  mech=[('Wait.open, Wait.tick', 'b3/actions/wait.py'), ('tick of the constant actions', 'b3/actions')],
  state=[('start_time', 'time at which the action was opened', 'blackboard, per tree and node')],
  observe=['status returned by a tree tick'], technique=AI,
  note='Abstract clock with two possible advances between ticks, 3 (thorough 4) ticks.')
P(id='P34', title='Equation queries find exactly the matching unknowns and equations',
  statement='Counting, listing and looking up unknowns in an expression considers exactly the unknowns whose symbol occurs in it (only the unsolved ones for counting and listing unsolved unknowns), whatever functions they are inside and whatever look-alike parameters are present, and changes nothing; the dependencies of a solution are the solved unknowns in it, and a solution with an unsolved unknown is refused. The equations listed for a matrix equation are its twelve entries and its auxiliary equations; those listed for an unknown are the ones that contain it; those grouped by number of unknowns are filed under that number. Ranking equations keeps every equation and puts shorter ones first. The target pose has rotation entries r_11 to r_33 and position Px, Py, Pz.',
  over=['inputs'], forall='every expression, matrix equation and set of solved unknowns',
  why='The helper tests query one or two expressions; every solver decision rests on these answers.',
  files=['ikbtfunctions/helperfunctions.py', 'ikbtbasics/kin_cl.py', 'ikbtbasics/ik_classes.py'],
  mech=[('count_unknowns, get_unknowns, get_deps, get_variables, find_obj, ik_lhs', 'ikbtfunctions/helperfunctions.py'), ('unknown.scan, matrix_equation.get_kequation_list', 'ikbtbasics/kin_cl.py'), ('Robot.scan_Mequation, erank, get_variable_index', 'ikbtbasics/ik_classes.py')],
  observe=['return values of the helpers', 'eqnlist of an unknown', 'lists returned by scan_Mequation'], technique=AI,
  note='All subsets of three unknowns, all solved subsets, 16 expressions; every place of the matrix equation.')
P(id='P35', title='Numerical forward kinematics and displayed abbreviations mean what they say',
  statement='forward_kinematics_N returns the product of the link transforms of the robot with the joint values of the pose and the parameter values put in, stops the program when a value is missing, and changes neither its arguments nor the mechanism. notation_squeeze only replaces sines and cosines by the symbol that names them (s_1 for the sine of th_1, c_23 for the cosine of th_2 + th_3 and so on), so expanding the abbreviations gives back the argument, and every sine or cosine of a single joint angle is abbreviated.',
  over=['inputs', 'configurations'], forall='every DH table, pose and parameter set; every expression',
  why='The tests do not evaluate numerical kinematics of a general table, and look at abbreviated matrices only by eye.',
  files=['ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'], mech=[('forward_kinematics_N', 'ikbtbasics/kin_cl.py'), ('notation_squeeze, Num_check', 'ikbtbasics/pykinsym.py')],
  observe=['matrix returned by forward_kinematics_N', 'expression returned by notation_squeeze'], technique=FORM,
  note='Right-angle poses with distinct lengths on tables with symbolic offsets; all single and double angles.')
P(id='P36', title='A usable equation is found wherever it stands among unusable ones',
  statement="Each solver examines the whole list of equations it works on: when the list holds an equation (or, for the tangent and the simultaneous solver, a pair of equations) of the form it solves for the wanted unknown, the unknown is solved from it whatever the order of the list and whatever unusable equations stand before, between or after: equations without the wanted unknown or without any unknown, equations of another form that the solver's identifier passes over (sine and cosine for the algebraic and the arcsine solver, powers, reciprocals, terms that cancel, products of sine and cosine, other unsolved unknowns in the constant terms), and repeated or negated copies.",
  over=['inputs', 'configurations'], forall='every list and order of one usable equation or pair among up to two (three) of eight to fifteen kinds of unusable equations, for each solver',
  why='Tests put the usable equation at one place of one list; an identifier that gives up at the first unusable equation leaves a solvable robot unsolved without any error.',
  files=['ikbtleaves/algebra_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/two_eqn_m7.py'],
  mech=[('*_id leaves', 'ikbtleaves')], state=[('eqns_1u, eqns_2u', 'equation lists', 'blackboard')], observe=['status of the solver', 'solutions of the current unknown'], technique=AI,
  note='About 9400 lists in quick. Outside the claim: an equation in the sine (cosine) of the unknown that the arcsine solver selects and then cannot decompose (sin(x)^2 and the like) ends its attempt.')
P(id='P37', title='Debugging output and node logging never change what is computed',
  statement="Switching on the debugging output of any or all nodes of a tree, the debug flag of the tree, or node logging at any level changes no status, no cost and no counter, raises no error, and leaves the current unknown, all unknowns and their solutions, the equation lists, the matrix equations, the robot and the files written by the solver program exactly as they are without it.",
  over=['inputs', 'configurations'], forall='every combination of debugging and log level; every solver, transform and bookkeeping leaf on the equation scenes of P08 and on symbolic matrix equations; whole runs of the program for catalogue robots (thorough: all)',
  why='All tests run with debugging off; debugging is switched on exactly when somebody investigates a failing robot, and code in a debugging branch that fails or assigns makes the investigated run another one.',
  files=['ikbtleaves/tan_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/algebra_solver.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/two_eqn_m7.py', 'ikbtleaves/x2y2_transform.py', 'ikbtleaves/sub_transform.py', 'ikbtleaves/sum_id.py', 'ikbtleaves/updateL.py', 'ikbtleaves/comp_detect.py', 'b3/core/basenode.py'],
  mech=[('BHdebug branches', 'ikbtleaves'), ('BaseNode._tick', 'b3/core/basenode.py')], state=[('BHdebug, log_flag, debug', 'debugging switches', 'b3/core/basenode.py')], observe=['status', 'unknowns', 'equation lists', 'generated files'], technique=AI,
  note='Noninterference by comparing the abstract results of the two settings on the same scene (same symbolic decisions).')
P(id='P38', title='Generating outputs is repeatable and leaves the solved robot as it is',
  statement="The report, Python and C++ generators, called for a solved robot in any order, any number of times, also after outputs of other robots were generated in the same process and after the solution set or its versions were built again, write the same one file each as when called alone, and leave the robot, its unknowns, solutions, version equations, solution set and mechanism as they were. Likewise the forward-kinematics generators write the same files in any order and on every repetition, and computing the forward kinematics again adds no parameter twice.",
  over=['histories', 'inputs'], forall='every order and repetition (bounded length) of the generators; the solved robots of P19-P21 and the forward kinematics of catalogue robots (thorough: all)',
  why='The programs call each generator once in one fixed order and the tests look at single generators; a generator that sorts, consumes or extends the shared robot only shows in the files written afterwards.',
  files=['ikbtfunctions/output_latex.py', 'ikbtfunctions/output_python.py', 'ikbtfunctions/output_cpp.py', 'ikbtbasics/ik_classes.py', 'ikbtbasics/kin_cl.py'],
  mech=[('output_latex_solution, output_FK_equations', 'ikbtfunctions/output_latex.py'), ('output_python_code, output_FK_python_code', 'ikbtfunctions/output_python.py'), ('output_cpp_code', 'ikbtfunctions/output_cpp.py'), ('Robot.make_LHS_versions, create_solution_set', 'ikbtbasics/ik_classes.py')],
  state=[('Robot.FinalEqnMatrix', 'version equations', 'ikbtbasics/ik_classes.py')], observe=['files written', 'robot'], technique=AI,
  note='Texts of the same abstract robot are compared character by character; expressions are printed by the modelled printer.')
P(id='P39', title='Kinematics scripts complete and show the kinematics of their robot',
  statement="The scripts fk_EE543.py, foward_kin.py and forward_kin2.py (the last with every robot of the catalogue and without an argument, computing the kinematics or reading them from the store) end without an error; the mechanism they leave has the described table, joint types and the transform T_06 of that table; and every matrix they display is that transform, a link velocity, or the Jacobian (derivative of the velocities with respect to the joint rates) of that robot, abbreviations read by their names.",
  over=['inputs', 'configurations'], forall='the three scripts, every robot of the catalogue, every value of the joint variables and rates',
  why='No test runs the scripts.',
  files=['fk_EE543.py', 'foward_kin.py', 'forward_kin2.py', 'ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'],
  mech=[('scripts', 'fk_EE543.py, foward_kin.py, forward_kin2.py'), ('mechanism.forward_kinematics', 'ikbtbasics/kin_cl.py'), ('ManipJacobian_S, notation_squeeze', 'ikbtbasics/pykinsym.py')],
  state=[], observe=['matrices displayed', 'end of the script'], technique=AI,
  note='The sum-of-angles scan is left to P25.')
NA(id='P31', title='The solver finishes every catalogue robot in a practical time',
  statement='Solving any robot of the catalogue ends within minutes.',
  over=['inputs'], forall='every robot of the catalogue',
  why='Run time depends on the machine and on the computer algebra system.',
  files=['ikSolver.py'], mech=[('main program', 'ikSolver.py')], observe=['run time'],
  reason='Run time is spent in sympy simplification, whose cost on a given expression has no static bound in reach; the number of ticks is bounded by the loop limits (P02, P27).')
NA(id='P32', title='Generated code reproduces the pose to floating-point accuracy',
  statement='For a reachable pose away from singularities every solution returned by the generated code gives back the pose within a small tolerance.',
  over=['inputs'], forall='every reachable pose',
  why='A quantitative statement about rounding in chains of inverse trigonometric functions.',
  files=['ikbtfunctions/output_python.py', 'ikbtfunctions/output_cpp.py'], mech=[('generated function', 'CodeGen')], observe=['pose error'],
  reason='A rounding bound near domain limits needs numerical error analysis over runtime values; moreover the program by design also returns extraneous combinations (independent inverse-sine branches). The exact identities are claimed by P19, P20 and P30.')
