"""One-off helper kept for maintenance: writes properties.jsonl (the text lives here so that it can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
S = "python_dice/src/"
E = S + "expression/"
PD = S + "probability_distribution/"
C = S + "constraint/"

p("C01", "The distribution of an expression is exact",
  "For every expression without variables, the probability distribution the interpreter returns gives each integer exactly the probability that the expression has that value when every die in it is an independent fair draw: no outcome is missing, extra or mis-weighted, however many dice or operators are combined. Arithmetic is exact integer arithmetic (// rounds towards minus infinity), comparisons give 1 or 0, and for AND, OR and ! exactly the values above 0 count as true.",
  ["inputs", "programs"], "all variable-free expressions built from integers, True/False, dice, + - * //, the six comparisons, AND, OR, !, ABS, MIN, MAX and parentheses (that cannot divide by zero)",
  "The tests pin a few dozen concrete expressions, each operator on one or two operand pairs (mostly single operators over d4..d10); nested combinations, negative operands, zero, mixed signs and large counts are never exercised.",
  [E, PD + "probability_distribution.py", PD + "probability_outcome.py"],
  [("pairwise combination of outcomes with multiplied counts", PD + "probability_distribution.py _combine_distributions"), ("value operators on outcomes", PD + "probability_outcome.py _combine"), ("one method per operator node", E + "*_expression.py get_probability_distribution")])

p("C02", "Dice notation means what the documentation says",
  "For every dice term, the distribution is that of the sum of the stated number of independent dice (one when the number is omitted, always 0 for zero dice), each with the stated faces: 1..n for a number, 1..100 for %, -1,0,1 for F, and for [..] the listed values, where a-b means every integer between a and b in either order, and *k repeats every value of that entry k times (k = 0 contributes no face). Entries accumulate when they overlap; signs, leading zeros, spacing and a trailing comma inside the brackets change nothing else.",
  ["inputs"], "all dice terms: any count, any of the four kinds of faces, any list of entries with any signs, order of range ends, multipliers, overlaps and spacing",
  "Tests cover a dozen spellings; the product of sign combinations, reversed ranges, multipliers on ranges, overlapping entries, spacing and dice counts is far beyond that.",
  [S + "syntax/dice_syntax_helper.py", E + "dice_expression.py", E + "dice_expression_helper.py"],
  [("token pattern for dice", S + "syntax/dice_syntax_helper.py"), ("face map of one die", E + "dice_expression_helper.py get_single_dice_outcome_map"), ("n-fold sum", E + "dice_expression.py get_probability_distribution")])

p("C03", "Keep and drop follow their documented law",
  "For every keep/drop term, 'k m' yields the sum of the m highest of the rolled dice (all of them when m is at least the number of dice, 0 when m is 0), and 'd m' the sum of what is left after removing the m highest (0 when m is at least the number of dice, everything when m is 0). The distribution, the minimum and the maximum reported for the term are exactly those of that rule over all equally likely rolls, for every kind of die including negative, weighted and repeated faces.",
  ["inputs"], "all terms <n>d<faces>k<m> and <n>d<faces>d<m>, all n, m and faces",
  "Tests check about ten (n, faces, m) combinations; boundaries between n and m, negative and multi-digit faces (which order differently as text) and weighted faces interact.",
  [E + "drop_keep_expression.py", S + "syntax/drop_keep_syntax.py"],
  [("multiset dynamic program over kept dice", E + "drop_keep_expression.py _build_dice_dict/_compute_iterations"), ("degenerate forms replaced by plain dice or 0", E + "drop_keep_expression.py __init__")])

p("C04", "Rolling follows exactly the calculated distribution",
  "For every program, over all possible outcomes of the underlying random draws, the values returned by rolling it (the result and every variable, jointly) occur with exactly the probabilities given by independent fair dice, each variable keeping the one value it was rolled with. In particular a roll can never return a value outside the distribution reported for the same program, can return every value inside it, and every roll of the same text draws its dice afresh.",
  ["inputs", "programs", "fault_sequences"], "all programs, and for each all answers the random source can give",
  "Tests replace the random source by one fixed answer, or only check that 100 rolls stay within min and max; the law of the roll is never compared with the distribution.",
  [E, S + "python_dice_interpreter.py"],
  [("weighted draw per dice term", E + "dice_expression.py roll"), ("sorted selection", E + "drop_keep_expression.py roll"), ("scalar store of variables", PD + "probability_distribution_state.py set_constant")],
  [("scalar variables", "value each variable was last rolled with", PD + "probability_distribution_state.py _constants")])

p("C05", "Reported minimum and maximum are the attainable extremes",
  "For every program that cannot divide by zero, the minimum and maximum reported for a line and for every variable it has assigned equal the smallest and the largest value that has non-zero probability. This holds for every operator, also for expressions in which the extremes are not reached at the extremes of the operands (subtraction, products with negatives, division, comparisons, ABS, MIN/MAX of negated terms, dependent variables).",
  ["inputs", "programs"], "all programs of assignments followed by expressions, queried for min and max from the start of the program",
  "Tests query min and max on about one expression per operator with positive operands, where naive interval arithmetic gives the same answer.",
  [E, S + "python_dice_interpreter.py"],
  [("extremes taken from the distribution", E + "*_expression.py max/min"), ("closed forms for dice and keep/drop", E + "dice_expression.py, drop_keep_expression.py"), ("operand-wise extremes of MIN and MAX", E + "minmax_expression.py")])

p("C06", "A variable is one roll, shared by all its uses",
  "In distributions, every use of a variable, directly or through other variables, refers to the same single roll, so combinations only contain outcomes that some one assignment of the dice can produce, with the probability of that assignment (for example a - a is always 0). Assigning a name again starts a new independent roll without disturbing variables computed from the old one, and different names never influence each other.",
  ["programs", "histories"], "all programs of assignments, reassignments and expressions over any number of variables, and any sharing pattern between them",
  "Tests pin a handful of two-variable programs; diamonds, chains, reassignment after capture, self-reference (VAR a = a + 1) and name similarity are unbounded.",
  [PD + "probability_distribution_state.py", PD + "probability_outcome.py", C],
  [("value constraint per assignment version attached to each outcome", PD + "probability_distribution_state.py set_var"), ("constraint conjunction, impossible combinations discarded", PD + "probability_distribution.py _combine_distributions, " + C)],
  [("distribution variables", "outcomes with the constraints that link them", PD + "probability_distribution_state.py _var"), ("version counters", "how often each name was assigned", PD + "probability_distribution_state.py _number_of_times_set")])

p("C07", "Division by zero is reported exactly when it can happen",
  "Asking for the distribution, average, minimum, maximum or a chart of a line raises ZeroDivisionError if some outcome of its dice would divide by zero at any // in it, and never otherwise, whatever surrounds the division. A roll raises ZeroDivisionError exactly on those outcomes of the dice that divide by zero and returns the value on all others.",
  ["inputs", "programs", "fault_sequences"], "all expressions containing //, with divisors that are constants, dice, compound expressions or variables, and all outcomes of the dice",
  "Tests try one divisor that contains zero; divisors whose range spans zero without reaching it, or reach zero only in a correlated combination, or zero-probability entries are not tried.",
  [E + "integer_division_expression.py", PD + "probability_distribution.py"],
  [("division of outcomes", PD + "probability_outcome.py __floordiv__"), ("division node", E + "integer_division_expression.py")])

p("C08", "Operators group by one fixed precedence",
  "Every chain of operators is grouped the same way everywhere: comparisons, AND and OR bind tightest (one common level), then * and //, then + and -, each level grouping from left to right; ! and 'VAR name =' apply to everything to their right up to the closing parenthesis, comma or end. Parentheses, ABS(..), MIN(..,..) and MAX(..,..) override this, so adding the parentheses the rule implies never changes any answer (distribution, roll, min, max).",
  ["inputs", "programs"], "all sequences of operands and operators of any length, with ! and parentheses in any position",
  "Tests contain a few mixed expressions; each pair of adjacent operators (12 x 12), runs of three or more, and ! in every position must agree.",
  [S + "python_dice_syntax_objects.py", S + "python_dice_parser.py", E],
  [("precedence table", S + "python_dice_syntax_objects.py PRECEDENCE"), ("LR parser built from it", S + "python_dice_parser.py")])

p("C09", "Text outside the language is rejected with ValueError",
  "A line is accepted exactly when its whole text is one expression of the documented language (an assignment counts as an expression); every other text, including the empty line, is rejected with ValueError before anything is evaluated or assigned, and never silently truncated or partly used. Spacing between tokens, including tabs and line breaks, never changes what an accepted line means.",
  ["inputs"], "all texts",
  "Tests have about ten malformed lines; the set of token sequences and character strings is unbounded and lexing rules overlap (dice, keep/drop, names, negative numbers, keywords).",
  [S + "python_dice_lexer.py", S + "python_dice_parser.py", S + "syntax/"],
  [("lexer with ordered token patterns", S + "python_dice_syntax_objects.py LEXER_SYNTAX"), ("conversion of lexing errors to ValueError", S + "python_dice_lexer.py lex"), ("parser error handler", S + "python_dice_parser.py error_handler")])

p("C10", "A session remembers its variables and answers consistently",
  "An interpreter keeps every assigned variable across calls until it is assigned again: after any sequence of calls, a read sees the latest assignment, reading never changes a variable, and sending several lines in one call gives the same final answer as sending them one per call. Roll, min and max results contain each variable's latest roll/min/max value, distribution and average results each variable's latest distribution, plus 'stdout' for the last line and nothing else; asking for distributions, averages or charts never changes what rolled variables are, and rolling never changes what distributions are.",
  ["histories", "programs"], "all sequences of calls (roll, min, max, distributions, distribution dictionary, average, charts, cost) with any lines on one interpreter",
  "Tests call an interpreter once or twice; interleavings of query kinds, assignments and reassignments over a shared session are not explored.",
  [S + "python_dice_interpreter.py", PD + "probability_distribution_state.py", E + "var_assignment_expression.py", E + "get_var_expression.py"],
  [("per-interpreter state", S + "python_dice_interpreter.py"), ("assignment and lookup", E + "var_assignment_expression.py, get_var_expression.py")],
  [("scalar variables", "last roll/min/max value", PD + "probability_distribution_state.py _constants"), ("distribution variables", "last distribution", PD + "probability_distribution_state.py _var")])

p("C11", "Interpreters are isolated from one another",
  "Whatever calls are made on other interpreters, in any interleaving, before or concurrently from other threads, even when all share one parser, the answers of an interpreter are those it would give alone; a fresh interpreter starts with no variables. Only interpreters created with the same explicit starting state share variables, and those see each other's assignments.",
  ["schedules", "histories"], "all interleavings of calls on several interpreters (sequential and multi-threaded), with separate or shared parsers, and with or without a shared starting state",
  "Tests use one interpreter at a time in one thread.",
  [S + "python_dice_interpreter.py", S + "python_dice_parser.py", PD + "probability_distribution_state_factory.py"],
  [("state object passed with every parse", S + "python_dice_parser.py parse"), ("new state per interpreter", PD + "probability_distribution_state_factory.py create_new_empty_set")],
  [("interpreter state", "variables of one interpreter", S + "python_dice_interpreter.py _state")])

p("C12", "All statistics of a distribution agree with each other",
  "For every distribution, the probabilities of its outcomes are positive and sum to 1, the average is the probability-weighted mean, minimum and maximum are its extreme outcomes, and 'contains zero' is true exactly when 0 is an outcome. 'At least' and 'at most' give, for every integer from the minimum to the maximum and no other, the probability of reaching at least / at most that integer; the distribution, dictionary and average queries of the interpreter all describe the same distribution.",
  ["inputs"], "all distributions (any integer outcomes, gaps, negative values, any weights, any order of insertion)",
  "Tests check each statistic on one or two distributions without gaps or negative values.",
  [PD + "probability_distribution.py", S + "python_dice_interpreter.py"],
  [("statistics", PD + "probability_distribution.py average/at_least/at_most/get_dict_form/contains_zero/max/min"), ("gap filling", PD + "probability_distribution.py _get_histogram_form")])

p("C13", "Charts show the data they are asked for",
  "For every distribution, the histogram, at-least and at-most charts show one bar per integer from minimum to maximum whose height is the probability (of exactly, at least, at most that integer) and a marker line at the average; comparison charts show, for each of the two distributions under its given name, a line through exactly its points, and the difference histogram one bar per integer between the overall extremes with the difference of the two probabilities. Every chart is returned as an image, shows only the data of its own call, and leaves no drawing state behind that a later chart or the caller's own plots would see.",
  ["inputs", "histories"], "all distributions and pairs of distributions, all chart kinds, all sequences of chart calls",
  "Tests compare pixel images for five fixed distributions, one chart at a time.",
  [PD + "probability_distribution.py", S + "python_dice_interpreter.py"],
  [("bar and line drawing", PD + "probability_distribution.py _make_histogram/_make_line_plot"), ("data of each chart", PD + "probability_distribution.py get_*histogram/get_compare*")])

p("C14", "Estimated cost follows its rule and evaluates nothing",
  "For every program the estimated cost is the sum over its lines of: 2 for a constant; number of dice times number of distinct faces for dice; for keep/drop additionally times the number of dice that count (or the cost of the plain dice or constant it reduces to); the sum of the operands for any two-operand operator, MIN and MAX; the operand for parentheses and ABS; the operand plus a tenth, rounded down, for !; the operand plus 2 for an assignment, and the assigned operand's cost for a variable set by a cost query. Computing it neither rolls dice nor builds distributions, so it answers promptly for programs far too large to evaluate, and it leaves distributions unchanged.",
  ["inputs", "programs"], "all programs, including ones with astronomically large dice pools",
  "Tests check one cost per node kind; composition over arbitrary programs and the promptness on huge programs are not tested.",
  [E, S + "python_dice_interpreter.py"],
  [("cost rule per node", E + "*_expression.py estimated_cost"), ("sum over lines", S + "python_dice_interpreter.py get_estimated_cost")])

p("C15", "A set of constraints means their conjunction in any order",
  "A constraint set built from any constraints, in any order, by adding or by combining sets, is possible exactly when, for every variable, the value sets demanded of it have a common value and no constraint is the impossible one; while it is possible, it is satisfied by exactly those variable assignments that satisfy all of its constraints. Building, combining and querying sets never changes any constraint or any other set.",
  ["inputs", "histories"], "all sequences of add and combine operations over any constraints",
  "Tests merge two or three hand-picked constraints; orders, duplicates and combinations of sets are not enumerated.",
  [C],
  [("pairwise merge to a fixpoint", C + "constraint_merger.py"), ("intersection of value sets", C + "var_value_constraint.py merge"), ("set container", C + "constraint_set.py")])

p("C16", "Results are snapshots",
  "Whatever a call returns (rolls, distributions, dictionaries, images) keeps its value forever: no later call, reassignment or query on any interpreter changes it, and modifying a returned dictionary changes no later answer of the interpreter. Asking a returned distribution for any statistic, chart or combination changes neither it nor the other operand, so repeating a query gives the same answer.",
  ["histories"], "all sequences of calls after a result was returned, and all sequences of queries and operators on returned distributions, and mutations of returned dictionaries",
  "Tests read each result once, immediately, and throw it away.",
  [S + "python_dice_interpreter.py", PD + "probability_distribution.py", PD + "probability_distribution_state.py"],
  [("copied dictionaries", PD + "probability_distribution_state.py get_var_dict/get_constant_dict"), ("operators build new distributions", PD + "probability_distribution.py"), ("deep copy of outcomes on assignment", PD + "probability_distribution_state.py set_var")])

p("C17", "A line that fails changes nothing",
  "If evaluating a line, with at most an assignment at its start, raises (ValueError for text that is not in the language, KeyError for a variable that has not been assigned for this kind of query, ZeroDivisionError for a division by zero), that line leaves every variable, rolled or distributed, as it was before; lines of the same call before it keep their effect and lines after it have none. The session stays usable and later answers are those of a session in which the failing line was never sent.",
  ["histories", "fault_sequences"], "all sessions, all positions and kinds of failing line, all query kinds",
  "Tests check that some errors are raised, never the state of the session afterwards.",
  [S + "python_dice_interpreter.py", E + "var_assignment_expression.py", E + "get_var_expression.py", PD + "probability_distribution_state.py"],
  [("value computed before it is stored", E + "var_assignment_expression.py"), ("lookup errors", PD + "probability_distribution_state.py get_var/get_constant")])

p("C18", "A parsed expression can be queried again and again",
  "An expression parsed once answers every query (roll, min, max, distribution, cost, printed form, contained variables) any number of times and in any order as a freshly parsed one would, given the variables at the time of the query; no query other than those of an assignment changes anything. Its printed form is text of the language that parses back to an expression with the same distribution, and its contained variables are exactly the variable names it reads (none for an assignment).",
  ["programs", "histories"], "all expressions, all sequences of queries on one parsed expression, interleaved with changes of the variables",
  "Tests query each expression object once per kind with at most one variable.",
  [E, S + "python_dice_parser.py"],
  [("expression nodes keep no evaluation state", E), ("printed form and variable set per node", E + "*_expression.py __str__/get_contained_variables")])

p("C19", "Distribution objects combine exactly, linked only by shared variables",
  "Applying any operator (+ - * //, the comparisons, and, or, not, abs, max, min) to distribution objects, however obtained, gives the exact distribution of the combined value: independent operands multiply, operands obtained from the same session stay linked through the variables they share. Combining with something that is not a distribution is rejected with TypeError, and a distribution built from given counts reports exactly those counts.",
  ["inputs", "histories"], "all distribution objects (built from counts or returned by a session) and all trees of operators over them",
  "Tests apply each operator to one pair of small positive distributions.",
  [PD + "probability_distribution.py", PD + "probability_outcome.py", PD + "probability_distribution_factory.py"],
  [("operators", PD + "probability_distribution.py __add__ .. __abs__"), ("outcome algebra", PD + "probability_outcome.py")])

p("C20", "Errors say where the text is wrong and which variable is missing",
  "Whenever a line is rejected, the ValueError tells the user where, the same for every kind of query: if some character can start no token, the message shows the piece of its line around it (about fifty characters on either side) with an arrow under exactly that character; otherwise it names the first token with which the text stops being the beginning of any valid line, and that token's position in the text, or the end of the text if that is where it breaks off. Reading a variable that was never assigned raises a KeyError that names a variable the line reads and that is not assigned.",
  ["inputs"], "all texts outside the language, of any length and number of lines; all programs that read unassigned variables",
  "Tests compare the message for two or three texts with one bad character; positions over all texts, long lines and line breaks are not sampled.",
  [S + "python_dice_lexer.py", S + "python_dice_parser.py", PD + "probability_distribution_state.py"],
  [("excerpt and arrow", S + "python_dice_lexer.py lex"), ("unexpected token", S + "python_dice_parser.py error_handler"), ("missing variable", PD + "probability_distribution_state.py get_constant/get_var")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
