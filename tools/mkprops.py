#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here so that they can be edited sanely)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

G='libgringo/src/'
p('C01','Grounding preserves the answer sets of the input program',
 'For every safe logic program without optimisation, the ground program that gringo emits has exactly the answer sets (over the atoms of the input program) of the program\'s full instantiation over its Herbrand universe. This covers facts, normal, disjunctive and choice rules, constraints, default and double negation, comparisons, pools, intervals, arithmetic, conditional literals, and count/sum/sum+/min/max and set aggregates in heads and bodies.',
 ['programs'],'all non-ground programs; checked on generated small-universe programs whose full instantiation can be enumerated',
 'Unit tests fix a few hundred programs and compare printed output; an instantiation order, binder, projection or simplification error shows only on particular combinations of recursion, negation and aggregates, and libgringo tests are not even built here.',
 [G+'input/program.cc',G+'input/statement.cc',G+'input/literals.cc',G+'input/aggregates.cc',G+'ground/statements.cc',G+'ground/instantiation.cc',G+'ground/literals.cc',G+'ground/program.cc',G+'output/statements.cc',G+'output/literals.cc',G+'output/aggregates.cc','libgringo/gringo/domain.hh'],
 [('semi-naive instantiation with component-wise dependency order',G+'ground/instantiation.cc'),('simplification of atoms known true/false',G+'output/literals.cc'),('aggregate translation',G+'output/aggregates.cc')],
 ['intermediate-format (aspif) output of the grounder'])
p('C02','Optimisation statements keep their exact costs',
 'For every program with #minimize, #maximize or weak constraints, each answer set of the emitted ground program has at every priority level the cost given by summing weights over the set of distinct satisfied (weight, priority, terms) tuples, where #maximize negates weights. Tuples are sets: the same tuple obtained from several elements or statements counts once, and different tuples with equal weights all count.',
 ['programs'],'all safe programs with optimisation statements and all their answer sets',
 'Tests look at fixed outputs; tuple merging, sign handling and condition disjunction depend on which elements coincide at which priority.',
 [G+'ground/statements.cc',G+'output/statements.cc',G+'output/output.cc',G+'input/statement.cc'],
 [('tuple de-duplication before emission',G+'output/output.cc'),('minimize translation',G+'output/statements.cc')],
 ['minimize statements in intermediate format'])
p('C03','Text output and intermediate output describe the same program',
 'For every safe program, the plain-text ground program that gringo prints (with its #delayed(n) placeholders replaced by the aggregates listed for them; conditional literals with undecided conditions, which are printed in an extended notation, aside) is itself a valid program which, when grounded again, has the same shown answer sets and optimisation costs as the intermediate-format output of the original program.',
 ['programs'],'all safe programs; checked on generated programs including #show, externals, aggregates, strings and nested terms',
 'The two output paths are separate code; tests compare each with fixed strings and never with one another on arbitrary programs.',
 [G+'output/output.cc',G+'output/literals.cc',G+'output/aggregates.cc',G+'output/statements.cc','libgringo/gringo/output/statements.hh'],
 [('per-literal print / translate / output methods',G+'output/literals.cc')],['text and aspif output of the grounder'])
p('C04','Multi-shot grounding agrees with grounding everything at once',
 'Grounding program parts in several steps, with parameters and externals that are assigned, freed or released in between, yields after each step the answer sets of the union of all part instances grounded so far, with each external atom fixed to its current value. Grounding a part instance again adds nothing, and an external that obtains a definition in a later step stops being an external.',
 ['histories','programs'],'all sequences of add/ground/assign/release/solve steps over modular program parts',
 'A handful of incremental examples exist; the bookkeeping (domain generations, external status, hidden atoms, incremental printing) is history dependent.',
 [G+'input/program.cc',G+'ground/statements.cc','libgringo/gringo/domain.hh',G+'output/output.cc','libclingo/src/gringo_app.cc'],
 [('domain generation counters','libgringo/gringo/domain.hh'),('step begin/end of the output',G+'output/output.cc')],['intermediate-format output of each step'])
p('C05','Ground terms evaluate as documented and undefined ones are dropped',
 'Evaluating arithmetic, pools, intervals, tuples, strings, function and classically negated terms gives the documented values: integer arithmetic on 32-bit numbers with truncating division, the documented power, modulo, absolute value, bitwise and complement operations, and ascending intervals. An operation that is undefined (non-integer operand, division by zero, bad sign target) removes exactly the affected instance with an info message and never changes any other instance.',
 ['inputs'],'all term trees over all operators and constants, in facts, rule bodies, comparisons and as ground terms passed to the term parser',
 'Operator tables are tested with a couple of values each; negative operands, nesting under unary minus, and linear-term rewriting (X+c, c*X+d) in bodies have their own code paths.',
 [G+'term.cc',G+'terms.cc','libgringo/gringo/term.hh',G+'input/groundtermparser.cc',G+'input/groundtermgrammar.yy'],
 [('eval of BinOp/UnOp and simplification to linear terms',G+'term.cc'),('ground term parser',G+'input/groundtermgrammar.yy')],['facts in output','values bound to body variables'])
p('C06','Symbols are canonical, totally ordered, and print/parse losslessly',
 'Two symbols built from equal parts in any way are equal, hash equally and compare as neither smaller; ordering is the documented total order (#inf, numbers, identifiers and strings, functions by sign, arity, name, arguments, and #sup last). Printing any symbol and parsing it back gives the same symbol, including escaped strings, negative numbers, classical negation and one-element tuples.',
 ['inputs'],'all pairs and triples of symbol trees',
 'Order and hashing are checked on a few literals; collisions, deep nesting, sign flips and escapes need arbitrary trees.',
 [G+'symbol.cc','libgringo/gringo/symbol.hh',G+'input/groundtermgrammar.yy','libgringo/gringo/hash_set.hh'],
 [('hash-consed symbol storage',G+'symbol.cc')],['Symbol operations of the engine'])
p('C07','Any byte string is parsed or rejected cleanly',
 'For every byte string given as program or as term, parsing (and, if accepted, building the syntax tree and printing it) terminates without crash, memory error or undefined behaviour: it either succeeds or reports at least one error message with a location inside the input. After a rejected input the parser works normally on the next one.',
 ['inputs'],'all byte strings, including control characters, unterminated comments/strings, scripts, deep nesting and huge numbers',
 'Tests only feed well-formed and a few malformed snippets; lexer states and error recovery depend on byte sequences.',
 [G+'input/nongroundlexer.xch',G+'input/nongroundgrammar.yy',G+'input/nongroundparser.cc',G+'input/groundtermlexer.xh','libgringo/gringo/lexerstate.hh','libclingo/src/astv2_str.cc'],
 [('re2c lexer + bison error recovery',G+'input/nongroundgrammar.yy')],['parser exit status, messages, sanitizers'])
p('C08','Syntax trees reproduce the program they were parsed from',
 'Parsing any program into syntax trees and adding those trees to a control object grounds to the same program as parsing it directly. Printing a tree and parsing the text again gives an equal tree and the same text, copies are equal and independent of the original, equality, hashing and order of trees agree with each other, and unpooling gives pool-free trees that together mean the same program.',
 ['programs'],'all statements of the input language, including theory definitions, directives, aggregates, guards, strings, scripts and comments',
 'Tests parse fixed strings; the tree layer has a builder, printer, parser, unpooler and converter per node type whose agreement must hold for all combinations.',
 ['libclingo/src/astv2.cc','libclingo/src/astv2_build.cc','libclingo/src/astv2_parse.cc','libclingo/src/astv2_str.cc','libclingo/src/astv2_unpool.cc',G+'input/nongroundgrammar.yy'],
 [('node constructors and attribute tables','libclingo/src/astv2*.cc')],['AST operations; grounding of direct and tree-built program'])
p('C09','Exactly the unsafe rules are rejected',
 'A statement is rejected as unsafe if and only if one of its variables (global, or local to an aggregate element or conditional literal) cannot be bound through positive literals, invertible arithmetic assignments, intervals or aggregate assignments; the message names exactly the unsafe variables. A safe statement is never rejected.',
 ['programs'],'all rules over positive/negative literals, assignments, comparisons chains, aggregates and conditional literals',
 'Fixed examples cannot cover the dependency orders among assignments, local scopes and nested arithmetic.',
 [G+'input/statement.cc',G+'input/literals.cc',G+'input/aggregates.cc',G+'term.cc','libgringo/gringo/safetycheck.hh'],
 [('fixpoint over provides/needs graph','libgringo/gringo/safetycheck.hh')],['error messages of the grounder'])
p('C10','Reified output encodes exactly the ground program',
 'The reified facts decode to precisely the rules, weights, minimize statements, outputs, projections, externals, assumptions, heuristics, edges and theory data of the ground program, with set and tuple identifiers used consistently. The SCC facts name exactly the non-trivial strongly connected components of the positive dependency graph, and step arguments match the solving steps.',
 ['programs'],'all ground programs in intermediate format, single- and multi-step, with and without SCC calculation',
 'The few reify tests use tiny programs; sharing of tuples, step handling and component computation depend on program shape.',
 ['libreify/src/program.cc','libreify/reify/program.hh','libreify/reify/util.hh','libgringo/gringo/graph.hh','app/reify/main.cc'],
 [('tuple maps and Tarjan SCC','libreify/reify/program.hh, libgringo/gringo/graph.hh')],['reified fact stream'])
p('C11','Theory atoms are grounded exactly as their theory definition says',
 'For every theory definition and theory atom, the emitted theory data contains exactly the instances given by the atom\'s conditions, with terms parsed by the declared operator priorities and associativities, elements with their tuples and conditions, guards as written, and equal terms shared under one identifier. A theory atom that violates its definition (operator, guard, occurrence) is rejected.',
 ['programs'],'all theory definitions and theory atoms over generated operator tables and conditions',
 'Operator-precedence parsing and instance grouping are tested with a few fixed operator tables.',
 [G+'input/theory.cc',G+'ground/statements.cc',G+'output/theory.cc'],
 [('theory term operator-precedence parser',G+'input/theory.cc, output/theory.cc'),('element/atom de-duplication',G+'output/theory.cc')],['theory directives in intermediate output'])
p('C12','Directives act on exactly the atoms and terms they cover',
 'The #show, #project, #heuristic, #edge, #external, #defined and #const directives take effect for exactly the instances whose bodies hold: every shown term or atom appears in precisely the answer sets where its condition is true, hidden ones never do, and heuristic, edge, projection and external statements carry the evaluated arguments and conditions.',
 ['programs'],'all programs with directives and conditions over choices and derived atoms',
 'Interaction of show statements with facts, conditions and signatures is only sampled.',
 [G+'ground/statements.cc',G+'output/output.cc',G+'output/statements.cc',G+'input/program.cc',G+'input/programbuilder.cc'],
 [('show/project/edge/heuristic statements',G+'output/statements.cc')],['intermediate output'])
PY='libpyclingo/clingo/'
p('C13','Python symbols agree with the solver library in every operation',
 'Symbols created, parsed, copied, printed, compared, hashed and taken apart in Python agree with the C library for every symbol: constructors and accessors are inverse, the comparison operators form the library\'s total order consistent with equality and hash, str() parses back to the same symbol, and repr() evaluates back. Accessors that do not apply raise RuntimeError instead of returning garbage, and pattern matching on name, arity and sign is exact.',
 ['inputs'],'all symbol trees, all pairs, all accessor/type combinations',
 'Unit tests use a dozen symbols; sign/arity/name boundary cases and mixed types need generated trees.',
 [PY+'symbol.py',PY+'_internal.py',PY+'core.py'],
 [('thin wrappers over symbol representation',PY+'symbol.py')],['Python API versus raw C API'])
p('C14','Python solving reports exactly the models and results of the solver',
 'For every program and every combination of grounding, assumptions, projections and enumeration settings, solving through Python yields exactly the models of the program under those settings (as atoms, shown terms, theory symbols and complement, with matching type, number, cost, priorities, optimality flag, contains/is_true answers) and the correct final result (sat/unsat/unknown, exhausted, interrupted). All ways of solving — callback, iteration, asynchronous handle — agree, and assumptions restrict only the call that received them.',
 ['programs','histories'],'all sequences of add/ground/assign/solve calls and model queries over generated programs',
 'Unit tests use fixed programs with a couple of models each and rarely combine features.',
 [PY+'control.py',PY+'solving.py',PY+'_internal.py'],
 [('solve call assembly and model wrappers',PY+'control.py, solving.py')],['Python API versus raw C API and versus brute-force answer sets'])
p('C15','Solve handles obey their protocol in every call order',
 'A solve handle in Python can be driven in any legal order of wait, model, resume, cancel, get, core, last and iteration, synchronously or asynchronously, with or without callbacks: models arrive in order without loss or repetition, get returns the final result once search ends, cancel stops the search, leaving the with-block always closes the handle, and the control object is usable afterwards. on_model returning False stops after that model and on_finish runs exactly once per solve call; on_statistics, on_unsat, on_core are delivered with the right values.',
 ['histories','schedules'],'all sequences of handle operations and callback return values',
 'Tests follow one or two fixed orders.',
 [PY+'solving.py',PY+'control.py'],[('SolveHandle and event handler',PY+'solving.py, control.py')],['Python API'])
p('C16','Backend statements and observer events pass through Python unchanged',
 'Every statement added through the Python backend reaches the solver with exactly the given atoms, literals, weights, priorities, conditions, flags and modifiers, and every ground statement reaches a registered Python observer with exactly its contents, in order, once. Programs built from observed events have the same answer sets as the original, and theory terms and elements keep structure.',
 ['histories','programs'],'all sequences of backend calls and all ground programs observed',
 'Each call is tested once with one argument set; swapped or dropped arguments in rarely used calls are not visible.',
 [PY+'backend.py',PY+'control.py'],[('backend wrappers and observer callbacks',PY+'backend.py')],['recorded C calls, observer events, answer sets'])
p('C17','Python propagators see and steer the search faithfully',
 'A Python propagator receives exactly the callbacks the solver issues (init, propagate with the watched literals that changed, undo with the same changes, check, decide) and every value it reads — assignment truth values, levels, decisions, trail slices, thread ids, watches, check mode — equals the solver\'s. Clauses, nogoods, weight constraints, minimize terms, watches and literals it adds have exactly their documented effect on the answer sets, and the boolean results of add_clause, add_nogood and propagate are reported truthfully.',
 ['histories','programs'],'all programs, scripted propagator behaviours and search states',
 'Two or three small propagators are tested; most accessors are called on one state.',
 [PY+'propagator.py',PY+'control.py'],[('Propagator callbacks; Assignment, Trail, PropagateInit, PropagateControl',PY+'propagator.py')],['Python propagator trace versus raw C trace; answer sets'])
p('C18','Python exceptions surface, unchanged, at the call that triggered them',
 'An exception raised in any user callback (external function, model/finish/statistics/core handler, propagator method, observer method, ground callback context, logger, application hook, syntax-tree callback) propagates with its original type and value out of the library call during which it happened, or is handled as documented for callbacks that cannot fail. No other call is affected: the error is not lost, not raised twice, and not attributed to a later call; errors reported by the library become RuntimeError or MemoryError with the library\'s message.',
 ['fault_sequences','histories'],'all callbacks x all invocation indices at which they raise, followed by further use',
 'Tests raise in a few callbacks at the first invocation only.',
 [PY+'_internal.py',PY+'control.py',PY+'propagator.py',PY+'backend.py',PY+'ast.py',PY+'application.py',PY+'solving.py',PY+'script.py'],
 [('error handler chaining',PY+'_internal.py')],['exception type, value and call'])
p('C19','Python syntax trees behave as faithful values and containers',
 'Trees parsed, built by constructor, updated, copied, deep-copied, compared, hashed, printed, pickled into keys/items/values, transformed or unpooled in Python keep all attributes: what is set is what is read, equal trees print equally, an identity Transformer returns the very same tree, and a changing one changes only what it returns differently. Child sequences follow the Python mutable-sequence contract (indexing, negative indices, slices, insertion, deletion) exactly like a list.',
 ['inputs','histories'],'all node types and attributes, all sequences of container operations',
 'A fixed set of statements is parsed and printed; container operations are tested on one tree.',
 [PY+'ast.py',PY+'util.py',PY+'_internal.py'],[('AST wrapper, ASTSequence, StrSequence, Transformer, constructors',PY+'ast.py')],['Python AST API versus list/dict models and raw C AST API'])
p('C20','Configuration and statistics map to the solver\'s values',
 'Reading, listing, describing and assigning configuration entries from Python reaches exactly the named solver option, and the statistics object converts to exactly the solver\'s statistics tree. User statistics written through the mutable interface (nested maps, arrays, values, callables, updates and extends) read back equal to the written structure after every sequence of updates.',
 ['histories','inputs'],'all configuration paths and all nested structures written to user statistics',
 'Tests read a few keys and write one structure.',
 [PY+'configuration.py',PY+'statistics.py'],[('key/index mapping',PY+'configuration.py, statistics.py')],['Python API versus raw C API and a dict model'])
p('C21','Domain inspection from Python shows exactly the ground atoms and theory data',
 'Iterating, looking up, and filtering symbolic atoms by symbol or signature yields exactly the atoms of the ground program with their literal, fact and external status; theory atoms, elements, guards and terms show exactly the theory data. Containment, lengths, signatures and iteration agree with one another after every grounding, cleanup and external update.',
 ['programs','histories'],'all ground programs and sequences of grounding/cleanup/external operations',
 'Few atoms in one program are inspected.',
 [PY+'symbolic_atoms.py',PY+'theory_atoms.py',PY+'control.py'],[('iterator wrappers',PY+'symbolic_atoms.py, theory_atoms.py')],['Python API versus raw C API and a model of the ground program'])
p('C22','Python applications see their options, files, models and messages correctly',
 'A clingo application written in Python gets exactly the command line it was given: registered options and flags are parsed, validated and delivered (in order, possibly several times) and appear in help, files arrive in order, program name, version and message limit are used, model printing can be replaced and calls the default printer at most as asked, and the exit code reflects the search outcome or the raised error.',
 ['inputs','configurations'],'all option/flag registrations and command lines',
 'One test application with two options exists.',
 [PY+'application.py',PY+'__main__.py','app/clingo/main.cc'],[('option parser callbacks',PY+'application.py')],['output, exit code and callback log of clingo_main runs'])
p('C23','External functions and embedded scripts are called faithfully',
 'Functions called from logic programs with @ — through a Python context object, an embedded Python or Lua script, or the grounding callback of any binding — receive exactly the evaluated argument symbols, and exactly the symbols they return (one, several or none) are used, for every call. The script\'s main function gets the running control, and __main__/clingo state of one script is visible to later ones in the same process only as documented.',
 ['programs','inputs'],'all argument tuples, return shapes and script/contexts combinations',
 'A couple of functions with fixed arguments are tested.',
 [PY+'script.py',PY+'control.py',PY+'_internal.py','libpyclingo/pyclingo.c','libpyclingo/_clingo.c','libclingo/src/scripts.cc','libluaclingo/luaclingo.cc'],[('ground callback and script call bridge',PY+'_internal.py, script.py; luaclingo.cc')],['grounded facts'])
p('C24','Foreign theories are driven through the Python theory wrapper faithfully',
 'For any theory library following the documented C interface, the Python theory wrapper passes configuration, registration, preparation, syntax-tree rewriting, options, model callbacks and statistics with exactly the given arguments, returns assigned values with their types and order, and reports failure of a theory function as an error.',
 ['histories','fault_sequences'],'all sequences of wrapper calls against a scripted theory library',
 'No test covers this wrapper at all.',
 [PY+'theory.py'],[('CFFI wrapper',PY+'theory.py')],['calls recorded by a stand-in theory library'])
L='libluaclingo/luaclingo.cc'
p('C25','Lua symbols, containers and inspection agree with the solver library',
 'Terms created, parsed, printed, compared, used in containers and taken apart from Lua agree with the C library, and symbolic atoms, theory atoms, configuration and statistics read from Lua show exactly the solver\'s data. Ill-typed values raise Lua errors rather than being converted silently.',
 ['inputs','programs'],'all symbol trees, ground programs and lookups',
 'Lua tests are a handful of fixed scripts.',
 [L],[('Lua userdata wrappers',L)],['Lua trace versus raw C API'])
p('C26','Lua grounding, solving and models report exactly what the solver computes',
 'For every sequence of grounding, external assignment, constants, assumptions and solving (by callback or by iteration; asynchronous solving and callbacks during iteration are refused with an error) from Lua, the models with all their attributes, unsatisfiable cores, and results equal the solver\'s, and model extension, clause addition during solving, cancelling and resuming have their documented effects.',
 ['programs','histories'],'all sequences of control operations over generated programs',
 'Lua tests are a handful of fixed scripts.',
 [L],[('ControlWrap, SolveHandle, Model',L)],['Lua trace versus raw C API'])
p('C27','Lua backends and observers pass ground statements unchanged',
 'Every statement added through the Lua backend reaches the solver with exactly the given contents, and every ground statement reaches a registered Lua observer with exactly its contents, in order and once.',
 ['histories','programs'],'all sequences of backend calls and all ground programs observed',
 'Lua tests touch single calls with fixed arguments.',
 [L],[('Backend and GroundProgramObserver',L)],['recorded C calls and observer events'])
p('C28','Lua propagators see and steer the search faithfully',
 'A Lua propagator receives exactly the solver\'s callbacks and reads exactly the solver\'s assignment, trail, literals and watches; its per-thread state tables are kept per thread, and the clauses, nogoods, weight constraints, watches and literals it adds have exactly their documented effect and truthfully reported results.',
 ['histories','programs'],'all programs and scripted propagator behaviours',
 'Lua tests contain one or two small propagators.',
 [L],[('Propagator, PropagateInit, PropagateControl, Assignment, Trail',L)],['Lua propagator trace versus raw C trace'])
p('C29','Lua errors surface at the call that triggered them and leave Lua intact',
 'An error raised in any Lua callback, at any invocation, is reported by the call during which it happened with its message, later calls work normally, and no call leaks stack slots or corrupts values held by the script, however often it is repeated.',
 ['fault_sequences','histories'],'all callbacks and invocation indices at which they raise, followed by further use',
 'Tests cover one or two failing callbacks.',
 [L],[('protected calls and AnyWrap cleanup',L)],['pcall results, messages and Lua stack height'])
H='libclingo/clingo.hh'
p('C30','C++ symbols, containers and inspection agree with the C interface',
 'The C++ interface returns for symbols, signatures, symbolic atoms, theory atoms, configuration, statistics and iterators exactly what the C interface holds; operators, ranges and random-access arithmetic of its iterators follow the standard iterator contracts.',
 ['inputs','programs'],'all symbol trees, ground programs and iterator operation sequences',
 'Catch2 tests use fixed objects and a few operations each.',
 [H],[('header-only wrappers',H)],['C++ driver trace versus raw C API'])
p('C31','C++ grounding, solving and models report exactly what the solver computes',
 'For every sequence of control operations from C++ — add, load, ground with parts and callbacks, externals, assumptions, solving with event handlers, iteration and asynchronous handles, model queries and extension, solve-control clauses, cores, enumeration constants — models, results and events equal the solver\'s, without memory errors.',
 ['programs','histories'],'all sequences of control operations over generated programs',
 'Catch2 tests use fixed programs.',
 [H],[('Control, SolveHandle, Model wrappers',H)],['C++ driver trace versus raw C API, AddressSanitizer'])
p('C32','C++ backends, observers and propagators pass everything unchanged',
 'Statements added through the C++ backend and program builder, events delivered to C++ observers, and all callbacks, values and effects of C++ propagators and heuristics equal those of the C interface.',
 ['histories','programs'],'all sequences of backend/propagator operations and ground programs',
 'Catch2 tests touch each call once.',
 [H],[('Backend, GroundProgramObserver, Propagator wrappers',H)],['C++ driver trace versus raw C API'])
p('C33','C++ syntax trees behave as faithful values',
 'Trees parsed, built, copied, deep-copied, modified, compared, hashed, visited, transformed and printed through the C++ interface agree with the C interface: what is set is what is read, vectors behave like standard vectors, transforming by identity shares the tree, and parsing, printing and re-adding to a program preserves it.',
 ['inputs','histories'],'all node types and sequences of tree operations',
 'Catch2 tests parse and print fixed statements.',
 [H],[('AST namespace',H)],['C++ driver trace versus raw C AST API'])
p('C34','C++ exceptions and error codes cross the C boundary without loss',
 'An exception thrown in any C++ callback leaves the enclosing C++ library call with its original type and message, C errors become exceptions with the right code and message, and applications written in C++ deliver options, files, model printing and exit codes correctly; after an error the objects remain usable.',
 ['fault_sequences','histories'],'all callbacks and invocation indices at which they throw; all command lines',
 'Only a few throwing callbacks are tested.',
 [H],[('Detail::handle_error, AssignOnce/ErrorHandler',H)],['C++ driver trace'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
