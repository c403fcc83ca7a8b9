#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['src/mccode_antlr/' + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

prop('E01', 'Expression text keeps its C meaning through parsing and printing',
     'Any well-formed expression in an instrument or component file denotes, once parsed, the C expression the author wrote: printing the parsed expression as C and evaluating it '
     'gives the same result as evaluating the source text by C precedence and associativity (with / meaning real-number division and ^ a power), for every assignment of values to its identifiers. '
     'Parsing the printed text again gives an expression with the same meaning, and number and string literals keep their value.',
     ['inputs'], 'all well-formed expressions over numbers, strings, identifiers, calls, indexing of a name, member access, arithmetic, comparison, logic and ternary operators, any nesting and parenthesisation; all values of their identifiers',
     'tests/test_expression.py parses about twenty fixed strings; precedence, associativity and parenthesisation faults need particular operator nestings that a handful of examples never contain.',
     ['common/expression.py', 'common/visitor.py', 'grammar/McInstrParser.py'],
     [('expression visitors', 'common/visitor.py visitExpression*'), ('C printing', 'common/expression.py BinaryOp/UnaryOp/TrinaryOp._str_repr_')],
     ['Expr.parse(text)', 'str(Expr)'])

prop('E02', 'Expression arithmetic, simplification and evaluation preserve value',
     'Combining expressions with the arithmetic operators (expression with expression, or with plain numbers on either side), simplifying them, and substituting known values for identifiers never changes the '
     'value they denote: for every assignment of numbers to the remaining identifiers the result evaluates to what ordinary arithmetic gives. An expression in which every identifier is given a numeric value, '
     'built from numbers and + - * /, evaluates to a plain number, and the operands of such an operation are left unchanged.',
     ['inputs', 'histories'], 'all arithmetic expression trees built through the programming interface in any order from numbers and identifiers, all full or partial substitutions',
     'Tests sample a few sums and products; the special-casing of zero, one, minus one, negative constants and nested negation interacts, so a wrong sign or a dropped term appears only for particular shapes.',
     ['common/expression.py'],
     [('operator overloads with 0/1/-1 shortcuts', 'Value.__add__/__sub__/__mul__/__truediv__/__neg__, Op.*'), ('simplify/evaluate', 'BinaryOp.simplify, UnaryOp.simplify, TrinaryOp.simplify, *.evaluate')],
     ['Expr operators', 'Expr.simplify', 'Expr.evaluate'])

prop('E03', 'Expressions know exactly which names they depend on',
     'An expression reports that it depends on a name exactly when that name occurs in it as an identifier, never because the name is part of a longer identifier or text in a string. Once an expression is checked against the instrument '
     'parameters, code generation prefixes exactly the occurrences of those parameters and nothing else. A copy of an expression equals the original, and marking parameters or changing the type of a copy never alters the original, nor the reverse; equal expressions have equal hashes.',
     ['inputs', 'histories'], 'all expressions and all sets of parameter names, including names that are substrings of other names or of string literals, and expressions shared or copied before being marked',
     'Existing tests ask about one or two names in one or two expressions; name confusion and aliasing through nested copies need adversarial name sets.',
     ['common/expression.py'],
     [('depends_on / __contains__', 'common/expression.py'), ('verify_parameters and the prefix format', 'Value.verify_parameters, Value.__format__'), ('copy', '*.copy')],
     ['Expr.depends_on', 'format(expr, "p")', 'Expr.copy'])

prop('O01', 'Component placement chains match McCode coordinate semantics',
     'For every chain of component placements (AT and ROTATED, each absolute or relative to any earlier component) the absolute position and orientation computed for each component equal those of McCode: relative offsets are expressed in the axes of the AT reference, '
     'rotations are about x, then y, then z composed with the orientation of the ROTATED reference, which is the AT reference when ROTATED is omitted. This also holds when coordinates are expressions of instrument parameters, after the parameter values are substituted.',
     ['inputs', 'configurations'], 'all finite placement chains with any mixture of absolute and relative references, arbitrary and special (0, 90, 180, 270, negative) angles, constant or symbolic coordinates',
     'Tests place at most a handful of components with fixed numbers; sign and order-of-rotation errors cancel for single-axis or commuting rotations and for special angles.',
     ['instr/orientation.py', 'instr/instance.py', 'instr/visitor.py'],
     [('dependent orientation chains', 'orientation.Orient.from_dependent_orientations, Parts.from_dependent_chain'), ('rotation matrices', 'orientation._rotation_angles_to_axes_coordinates'), ('exact trigonometric shortcuts', 'orientation.cos_value/sin_value')],
     ['Instance.orientation.position()', 'Instance.orientation.rotation()'])

prop('O02', 'Reducing, inverting and combining placements preserves the transformation',
     'Simplifying a sequence of translations and rotations, copying it, inverting it, or adding and subtracting sequences gives the transformation that matrix algebra gives: the reduced sequence is the same transformation, a sequence combined with its inverse is the identity, '
     'and extracted rotation angles rebuild the same rotation. The rotation read in axes form and in coordinate form are inverses of one another.',
     ['inputs', 'histories'], 'all sequences of translations and axis rotations of any length, with degrees or radians, constant or symbolic amounts, and any order of combining, reducing and inverting',
     'Tests use fixed short sequences and mostly identity or single rotations; non-commuting sequences and gimbal-lock angles are not sampled.',
     ['instr/orientation.py'],
     [('Parts.reduce/resolve/inverse/__add__/__sub__', 'instr/orientation.py'), ('Seitz/Rotation/Vector algebra', 'instr/orientation.py'), ('Euler angle extraction', 'orientation.axes_euler_angles')],
     ['Parts', 'Orient', 'Seitz'])

prop('I01', 'Parsing an instrument file yields exactly the instrument it describes',
     'Reading an instrument file produces an instrument with exactly the parameters (type, unit, default), metadata, dependency flags, code sections, and component instances (type, parameter values, WHEN, SPLIT, GROUP, EXTEND, JUMP, REMOVABLE, CPU, metadata, AT/ROTATED with the right reference) that the text states, in order. '
     'COPY, PREVIOUS(n) and %include resolve as documented: a copied instance inherits the parameter values, WHEN, GROUP, EXTEND, JUMP and metadata which it does not restate (its REMOVABLE, CPU and SPLIT marks are its own, as in McCode), an included instrument contributes its parameters, code, dependencies and non-removable components. Reading only the parameters of a file agrees with reading the whole file. Asking the instrument for a component (by name, counted from the end, by category) or a parameter, and a component for a parameter value, gives exactly that one or tells that there is none.',
     ['programs'], 'all instrument files generated from the McCode instrument grammar over any library of components, including nested includes of one instrument by another',
     'The stable tests parse essentially an empty instrument; the interaction of optional clauses, COPY overrides, PREVIOUS counts and includes is combinatorial.',
     ['instr/visitor.py', 'instr/instr.py', 'instr/instance.py', 'reader/reader.py', 'common/parameters.py'],
     [('InstrVisitor', 'instr/visitor.py'), ('Instance.from_instance and overrides', 'instr/instance.py'), ('include merging', 'InstrVisitor.visitInstrument_trace_include')],
     ['Reader.get_instrument', 'loader.parse_mcstas_instr'])

prop('P01', 'A file or text which is not valid is refused, it is not misread',
     'Reading an instrument file (or a file it includes), a component definition, the text of an expression, or of an instrument parameter which is not valid raises an error; it never gives an object which lacks, or replaces, something that the text says. '
     'Not valid are: any syntax error (a missing or extra bracket, keyword, operand or character, a truncated file, an open block, string or comment, text which follows what was to be read), a reference to a component instance which is not defined earlier (AT, ROTATED or a copy), '
     'an unknown component type, parameter, included file or search path, and a name of an instance or parameter which is used twice. A JUMP to an unknown or outside target and a parameter without a value nor a default are refused at the latest when the instrument is translated. The same holds for the arguments of the Assembler.',
     ['inputs'], 'all valid instruments, components, expressions and parameters with one such error at any place, read by any of the entry points, in the main file or an included one',
     'Tests read valid files; the parser recovers from most syntax errors silently, so an error is noticed only if it happens to break something later.',
     ['grammar/mccode_parse.py', 'loader/loader.py', 'instr/visitor.py', 'comp/visitor.py', 'common/visitor.py', 'instr/instr.py', 'instr/instance.py', 'reader/reader.py', 'assembler/assembler.py', 'translators/c_raytrace.py'],
     [('syntax errors', 'grammar/mccode_parse.py'), ('checks of names', 'instr/visitor.py, instr/instr.py add_component/add_parameter, instr/instance.py verify_parameters')],
     ['loader.parse_mccode_instr', 'Reader.get_component', 'Expr.parse', 'InstrumentParameter.parse'])

prop('I02', 'Printing an instrument as text and reading it back gives the same instrument',
     'The text printed for an instrument is a valid instrument file, and reading it with the same component library gives an instrument with the same name, parameters, code, flags, metadata and component instances: '
     'same types, parameter values, conditions, splits, groups, jumps, extends, removable and cpu marks, and the same absolute placement. Printing again gives text that is again equivalent.',
     ['programs'], 'all instruments obtainable by parsing or by assembling programmatically',
     'Only an empty instrument is exercised by the stable tests; each clause that a printer drops or misplaces needs an instrument that has it, in combination with the references it modifies.',
     ['instr/instr.py', 'instr/instance.py', 'instr/jump.py', 'common/textwrap.py', 'common/parameters.py', 'common/metadata.py'],
     [('to_file methods', 'Instr/Instance/Jump/InstrumentParameter/ComponentParameter/MetaData.to_file'), ('TextWrapper', 'common/textwrap.py')],
     ['str(Instr)', 'Instr.to_file'])

prop('I03', 'Saving an instrument to an HDF5 file and loading it gives an equal instrument',
     'Storing any instrument in an HDF5 file and loading it back reproduces it: all parameters, expressions with their types, component definitions and instances, references between instances, groups, code blocks, metadata, flags and order of every sequence. '
     'The loaded instrument prints the same text and translates to the same simulation source as the original.',
     ['programs'], 'all instruments and component libraries; any number (more than ten) of components, parameters and code blocks',
     'The HDF5 tests need network access and use two fixed instruments; type-dispatch and ordering faults depend on which kinds of values occur and how many.',
     ['io/hdf5.py', 'io/json.py'],
     [('typed group writers/readers', 'io/hdf5.py')],
     ['io.save_hdf5 / io.load_hdf5'])

prop('C01', 'Parsing a component definition is faithful, and COPY/EXTEND inherit correctly',
     'Reading a component file produces a definition with exactly the parameters (kind, type, default), category, metadata, dependency flags, acceleration mark and code sections of the text. '
     'A definition made as a COPY of another, or a section declared COPY [EXTEND], contains the source component\'s section followed by the extension, sections which are restated replace and the rest are inherited, and the source definition itself is not changed.',
     ['programs'], 'all component files from the McCode component grammar, all chains of component copies',
     'Component tests compare a few library files; inheritance depends on which sections each level of a chain states, copies or extends.',
     ['comp/visitor.py', 'comp/comp.py', 'reader/reader.py'],
     [('CompVisitor', 'comp/visitor.py'), ('Comp.copy and section setters', 'comp/comp.py')],
     ['Reader.get_component'])

prop('A01', 'An instrument assembled in Python equals the one written as text',
     'Building an instrument with the programmatic assembler gives the same instrument as reading the text that states the same things: same parameters, component instances, values, conditions, placements with the same absolute position and orientation, groups, jumps, code sections and metadata. '
     'It also translates to the same simulation.',
     ['histories', 'programs'], 'all sequences of assembler calls over any component library with any of their optional arguments',
     'One assembler test of an empty trace is stable; optional arguments and reference defaults are combinatorial.',
     ['assembler/assembler.py', 'instr/instr.py', 'instr/instance.py'],
     [('Assembler methods', 'assembler/assembler.py')],
     ['Assembler.component/parameter/declare/...', 'Assembler.instrument'])

prop('T01', 'The generated simulation runs components in McCode order and control flow',
     'Executed, the generated C simulation visits components, for every particle, exactly as McCode prescribes: in order, honouring WHEN, GROUP (members tried in order until one scatters; absorbed otherwise), SPLIT repetitions, EXTEND after the component\'s trace with its scattering flag, absorption, and JUMP (conditional or counted) to the right component. '
     'Each particle enters a component in that component\'s local coordinates, and initialise, save, finally and display code run once per instance in order. Each particle has a random sequence of its own, which goes on through splits and restored states and is another one for another seed of the run; the numbers of the particles of one process follow those of the process before it.',
     ['programs', 'inputs'], 'all instruments with any combination of WHEN/GROUP/SPLIT/EXTEND/JUMP and all particles, for the serial and the accelerated/funnel code paths',
     'No stable test compiles or runs generated code; wrong jump targets, group boundaries or split nesting appear only in particular combinations.',
     ['translators/c_raytrace.py', 'translators/c_trace.py', 'translators/c_initialise.py', 'translators/c_save.py', 'translators/c_finally.py', 'translators/c.py', 'translators/target.py', 'instr/group.py', 'instr/jump.py'],
     [('raytrace generation', 'translators/c_raytrace.py'), ('class trace functions', 'translators/c_trace.py'), ('group/jump resolution', 'translators/target.py, instr/group.py')],
     ['CTargetVisitor(...).contents() compiled with gcc'])

prop('T02', 'The generated simulation gives every component the values the instrument states',
     'Executed, the generated C simulation initialises every component instance with the parameter values the instrument states (given value or the component default), evaluated with the run-time values of the instrument parameters, whose names, types, and defaults are those declared. '
     'Absolute positions and rotations of every component at run time equal those that the instrument\'s AT/ROTATED clauses define, including when they depend on instrument parameters or on the distance of earlier components, and each code section sees its own component\'s variables.',
     ['programs', 'inputs'], 'all instruments and run-time parameter values; double, int, string and vector parameters; constant and symbolic placement; several instances of one component type',
     'No stable test compiles or runs generated code; value mix-ups need several instances, several types and defaults together.',
     ['translators/c_initialise.py', 'translators/c_header.py', 'translators/c_decls.py', 'translators/c_macros.py', 'translators/c.py'],
     [('parameter table and instance setup', 'translators/c_decls.py, c_initialise.py'), ('parameter macros', 'translators/c_macros.py, c_trace.py')],
     ['CTargetVisitor(...).contents() compiled with gcc'])

prop('T03', 'Translation is deterministic and leaves the instrument unchanged',
     'Apart from the date of creation in a comment, translating the same instrument gives byte-identical source no matter how often it is translated, in which process, and independent of Python hash randomisation or of translating other instruments before. '
     'Translation, printing and saving do not change the instrument: afterwards it prints the same text and equals a fresh parse of its source.',
     ['programs', 'histories', 'configurations'], 'all instruments, any sequence of print/save/translate operations on them, all hash seeds',
     'Unit tests run in one process with one fixed hash seed and look at one output each.',
     ['translators/c.py', 'translators/target.py', 'translators/c_header.py', 'instr/instr.py', 'instr/jump.py'],
     [('source generation', 'translators/c.py'), ('flag de-duplication', 'instr/instr.py unique_flags'), ('jump target resolution', 'translators/target.py')],
     ['CTargetVisitor(...).contents()', 'Instr.decoded_flags'])

prop('T04', 'Strings and metadata reach the running simulation byte for byte',
     'Every text that the code generator embeds as a C string (instrument and component names, file names, string parameter values and defaults, metadata names, types and contents, the embedded instrument source) is recovered exactly by the compiled program, whatever characters it contains. '
     'Metadata of a component type, of an instance, and of the instrument are all present, the instance\'s taking precedence over its type\'s of the same name.',
     ['inputs', 'programs'], 'all texts including quotes, backslashes, percent signs, newlines, trigraph-like sequences, control and non-ASCII characters; all combinations of metadata at the three levels',
     'Tests use plain ASCII words.',
     ['common/utilities.py', 'common/metadata.py', 'translators/c_header.py', 'translators/c_decls.py'],
     [('escape_str_for_c', 'common/utilities.py'), ('metadata table', 'MetaData.to_table_row, Instance.collect_metadata')],
     ['escape_str_for_c', 'compiled metadata table'])

prop('T05', 'Library includes and shared code appear once, after what they need',
     'In the generated source, each library requested with %include "name" (by a component, the instrument, an EXTEND, an included file, or another library\'s header or source) appears exactly once: its header before every header and all component or instrument code that includes it and, when the runtime is embedded, its source once, after all headers and after the sources of the libraries it includes (unless they include each other). '
     'A file named with its extension replaces each directive that names it. The shared code of each used component type appears exactly once. None of this depends on how many components include the same libraries or in which order.',
     ['programs'], 'all include graphs between library files with no circle of headers, and all component sets using them',
     'Tests have no library files; ordering depends on the shape of the include graph.',
     ['translators/c.py', 'translators/c_header.py', 'translators/target.py'],
     [('include expansion and ordering', 'translators/c.py, translators/target.py')],
     ['CTargetVisitor(...).contents()'])

prop('T06', 'C declarations are understood: every declared variable, with its right type',
     'For every block of C declarations that a component or instrument supplies, the names extracted are exactly the variables declared, each with its type, pointer depth, array dimensions and initial value, in order; comments, preprocessor lines, function definitions, typedefs and struct definitions do not add or hide variables, and typedef names are found. '
     'Renaming an extracted name leaves the rest of the declaration untouched. As a structure member each declaration has the type it has as a variable (an array without a size has the one of its initial value), so that the simulation has every variable of a DECLARE block, with its initial value, for every instance, and every variable of USERVARS blocks in the particle. Function prototypes are not variables and not part of the inputs.',
     ['inputs'], 'all C declaration blocks built from basic types, qualifiers, pointers, arrays, structs, enums, typedefs, function pointers, initialisers and comments, several declarators per line',
     'tests/test_c_type_declaration.py covers eleven fixed snippets.',
     ['translators/c_listener.py', 'grammar/CParser.py', 'translators/c_decls.py', 'translators/c_particle.py'],
     [('declaration listener', 'translators/c_listener.py')],
     ['extract_c_declared_variables', 'extract_c_defined_then_declared_variables'])

prop('T07', 'Generated programs find particle state, user variables, components by name',
     'In a generated McStas or McXtrace program, getting a member of the particle by name (its physical state, the temporaries, every user variable of the instrument and of each component instance, the latter named after its index) gives the value or address of exactly that member, and setting a scalar or an array by name changes that member and nothing else; unknown names, and arrays where a scalar is due or the reverse, are reported and change nothing. '
     'User variables are numbered in order of declaration. Restoring a particle restores its physical state and clears its flags but keeps user variables; initialising gives user variables their initial value or zero. EXTEND blocks reach the user variables of the instrument and of components. '
     'Asking for a component instance by name gives its index and its parameters, or that there is none. Two different declarations of one user variable are refused.',
     ['programs', 'inputs', 'histories'], 'all sets of user variables of instruments and components (numbers, arrays, pointers, structures of the runtime), any number of instances, similar names; all sequences of requests',
     'No stable test runs a generated program; those that do need the network and use at most one user variable.',
     ['translators/c_header.py', 'translators/c_macros.py', 'translators/c_particle.py', 'translators/c.py', 'translators/c_trace.py'],
     [('accessors', 'translators/c_header.py header_pre_runtime'), ('user variables', 'translators/c.py CTargetVisitor._determine_uservars'), ('instances by name', 'translators/c_macros.py')],
     ['header_pre_runtime', 'cogen_getcompindex_fct'])

prop('S01', 'Splitting an instrument loses nothing and keeps every placement',
     'Splitting an instrument at a component gives a first part ending at it and a second part starting at it which together contain every component once (the split point in both), with unchanged values, code and conditions, groups that refer to their own components, and every component keeping the absolute position and orientation it had relative to the original. '
     'The original is not modified, parameters are removed only if nothing in the part uses them, and both parts print and translate; the MCPL variant puts the writer at the end of the first part and the reader at the start of the second with a shared file name parameter.',
     ['programs', 'histories'], 'all instruments, all split points, with or without unused-parameter removal, repeated splits',
     'The split tests need network access and cover two fixed instruments.',
     ['instr/instr.py', 'instr/instance.py', 'instr/group.py'],
     [('Instr.split, mcpl_split, copy', 'instr/instr.py'), ('parameter_used', 'instr/instr.py, instr/instance.py')],
     ['Instr.split', 'Instr.mcpl_split'])

prop('D01', 'Detector data files are read, written and combined without loss',
     'Reading a McStas/McXtrace detector file gives the header values and arrays written in it, and writing then reading it reproduces the data, with every header line, for detectors of zero, one or two dimensions. '
     'Combining files of repeated runs adds intensities and counts, combines errors as independent errors (in quadrature) and sums the number of simulated particles, independent of order; files of different detectors, axes or parameters are refused, and the files and objects combined are not changed.',
     ['inputs', 'histories'], 'all detector data of every dimensionality, shapes, and values; any number of files combined in any order and grouping',
     'No stable test reads a data file.',
     ['loader/datfile.py', 'loader/loader.py'],
     [('DatFile classes', 'loader/datfile.py'), ('combine', 'loader/datfile.py')],
     ['read_mccode_dat', 'write_mccode_dat', 'combine_mccode_dats'])

prop('D02', 'Simulation summary files are read, written and combined without loss',
     'Reading a simulation summary file (mccode.sim) gives every section and value it states, and writing it and reading it back gives an equal summary. '
     'Combining summaries of repeated runs sums particle counts and detector intensities, combines errors in quadrature, independent of order and grouping, keeps what all runs have in common and every detector of any run, and refuses results of the same detector which differ in more than results. The objects combined are not changed.',
     ['inputs', 'histories'], 'all summaries of any instruments with any number of parameters and detectors; any number of runs combined',
     'No stable test reads a summary file.',
     ['loader/simfile.py', 'loader/loader.py'],
     [('SimFile classes', 'loader/simfile.py')],
     ['read_mccode_sim', 'write_mccode_sim', 'combine_mccode_sims'])

prop('R01', 'Scan ranges enumerate exactly the points the user asked for',
     'A scan range given as text start:stop or start:step:stop denotes exactly the points of that range, in order, both ends included when they are on the grid; its length, indexing, iteration, minimum and maximum agree with one another. '
     'An empty range is refused. Parameters from a command line (name=value or name value) or from Python (ranges, lists and single values) keep their names and values: scanning them over a grid visits every combination exactly once, the last parameter fastest, and scanning without a grid advances all parameters together, repeats single values, and refuses ranges of different lengths.',
     ['inputs'], 'all ranges with integer or decimal bounds, positive or negative steps, single values and lists; any number of scanned parameters',
     'Range tests are not in the stable set, and floating-point end points and descending ranges are sampled at most once.',
     ['run/range.py'],
     [('MRange, Singular', 'run/range.py'), ('parameters_to_scan', 'run/range.py')],
     ['MRange.from_str', 'parse_scan_parameters', 'parameters_to_scan'])

prop('R02', 'A scan runs the simulation once per point with that point\'s values',
     'Running a compiled instrument over scanned parameters invokes it exactly once per scan point, with that point\'s parameter values, the requested seed, particle count and other options, and a separate output directory per point, of which the data files are returned; fixed parameters keep their value at every point. '
     'Values that contain spaces or special characters reach the program unchanged. A simulation that fails is reported as an error. '
     'Given an instrument file (or its HDF5), the run command compiles it with components from the -I folders in the order given or the working directory, then from the library.',
     ['inputs', 'programs'], 'all parameter sets, option combinations and scan grids',
     'Running needs a compiled McStas runtime, which the tests do not have.',
     ['run/runner.py', 'run/range.py', 'compiler/c.py'],
     [('command composition', 'run/runner.py, compiler/c.py'), ('scan loop', 'run/runner.py')],
     ['mccode_run_scan', 'mccode_run_compiled'])

prop('G01', 'Files are resolved by exact name from the first registry that has them',
     'Asking for a component, library or instrument by name returns the file with exactly that name (the name with its extension, in any folder of the registry unless folders are part of the name) from the first registry that has it, in order of priority, never a file whose name merely contains it; what is not anywhere is reported as missing, and a local folder tree with several files of the name, none at its top, is refused rather than guessed. '
     'Registries found by SEARCH (also those which its SHELL command prints), or prepended, come before all others and appended ones after them, one which is already known keeps its place, the contents read are those of the file, and the functions which load an instrument of one flavour search its library after the registries they are given.',
     ['configurations', 'histories'], 'all sets of registries (in memory, local directory, remote file list), names that are prefixes, suffixes or substrings of one another, any order and priority of registration',
     'Tests use the real McCode lists, which need the network; name collisions are rare in them.',
     ['reader/registry.py', 'reader/reader.py'],
     [('Registry.known/fullname/path/contents', 'reader/registry.py'), ('Reader.add_registry / locate / get_component', 'reader/reader.py')],
     ['Registry', 'Reader'])

prop('F01', 'Dependency flags are decoded exactly and all of them reach the compiler',
     'The compiler flags of an instrument are exactly the dependency strings of the instrument, the instruments it includes and the component types it uses, each once, with ENV(), GETPATH(), CMD() and @NAME@ keywords replaced by their value and everything else unchanged. '
     'Compiling passes every flag as a separate argument without dropping or reordering those of one dependency.',
     ['inputs', 'programs', 'configurations'], 'all dependency strings with any number and mix of keywords, any environment, registries and configuration; any nesting of components and includes',
     'Tests have no components with dependencies available.',
     ['instr/instr.py', 'reader/reader.py', 'instr/visitor.py', 'comp/visitor.py', 'compiler/c.py', 'config/__init__.py'],
     [('keyword replacement', 'Instr._replace_keywords, Instr._replace_env_getpath_cmd'), ('flag collection', 'reader/reader.py, Reader.add_c_flags')],
     ['Instr.decoded_flags', 'compile_instrument'])

prop('B01', 'Building makes the program asked for or an error; running starts exactly it',
     'Compiling an instrument runs, once, the compiler which the configuration (with variables of the environment) names for the target (serial, MPI, OpenACC, NeXus, also after the target is updated), with the flags of that target, and gives it exactly the generated source; '
     'the program is made at the path asked for (by default NAME.out in the working directory, or in the folder given), no other file is made or changed unless the source is asked for, and a program which exists is kept as it is unless it is to be replaced. A compiler which is missing, does not work, or fails gives an error with what it says. '
     'Running starts the program exactly once with exactly the options given, by mpirun with the configured number of processes and machine file if it is an MPI target, and not at all in a dry run or if the program is missing; a program which fails gives an error, otherwise its output is returned.',
     ['inputs', 'configurations', 'faults'], 'all targets and updates of them, output paths, existing files, compilers and programs that work, fail or do not exist, options as a text or a list, configurations with and without variables',
     'The tests that compile need a compiler, MPI, and the component library from the network; they try one configuration and no failure.',
     ['compiler/c.py', 'compiler/check.py'],
     [('compilation', 'compiler/c.py _compile_instrument, linux_compile, linux_split_flags'), ('target', 'compiler/c.py CBinaryTarget'), ('trial of the compiler', 'compiler/check.py simple_instr_compiles'), ('running', 'compiler/c.py run_compiled_instrument')],
     ['compile_instrument', 'run_compiled_instrument'])

prop('M01', 'Configuration and cache commands act on exactly what they are asked to',
     'Setting a configuration key changes that key and no other and is seen by later runs; unsetting it restores the default; getting and listing report the effective values. '
     'Cache listing and removal touch exactly the named package and version, and nothing outside the cache directory.',
     ['histories', 'configurations'], 'all sequences of set, unset, get and list over nested keys, and all cache contents and removal requests',
     'No stable test touches configuration or cache.',
     ['cli/management.py', 'config/__init__.py'],
     [('config_* and cache_* commands', 'cli/management.py')],
     ['mccode config', 'mccode cache'])

prop('X01', 'The command line translators write the C their options and inputs stand for',
     'mcstas-antlr and mcxtrace-antlr write, to the file of -o or else beside the instrument as .c, exactly the C that translating the instrument through the Python interface gives with the settings the options stand for '
     '(-t/--trace, -p/--portable, --source, --no-main, --no-runtime), apart from the date and the name of the file. Components, included instruments and C libraries come from the -I folders in the order given or the working directory, then from the library of the flavour. '
     'An instrument stored as HDF5 is translated as its text is. An input which can not be translated gives an error, and the output is not made or is left as it was. No other file is made, changed or removed.',
     ['inputs', 'configurations'], 'all instruments and components, all placements of their files in search folders (also the same name in several), all sets and orders of options, relative and absolute paths, names with spaces',
     'No stable test runs a command line tool.',
     ['cli/commands.py', 'instr/instr.py', 'translators/c.py', 'reader/reader.py'],
     [('mcstas, mcxtrace', 'cli/commands.py'), ('Instr.to_file, CTargetVisitor', 'instr/instr.py, translators/c.py')],
     ['mcstas-antlr', 'mcxtrace-antlr'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties', [len(p['title']) for p in P if len(p['title']) > 80])
