#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TEXT = 'every C++ input that Clang accepts, with every configuration file and every combination of options'
TESTS = 'The tests run some sixty fixed headers with fixed options and only look whether the generated code compiles and imports; they cannot quantify over all inputs, and text that still compiles goes unnoticed.'

P = [
('C01', 'Only publicly accessible entities are exposed',
 'The generated bindings never name or expose an entity that code outside its class could not access: private and protected methods, constructors, fields, nested types, base classes, operators, and types (or template arguments) that are themselves inaccessible. '
 'A member that a public using-declaration makes accessible counts as public; one that a non-public using-declaration inherits does not. '
 'Protected virtual methods may appear only as overrides within the generated call-back structure.',
 'inputs programs configurations', ['class.cpp', 'type.cpp', 'function.cpp', 'enum.cpp'],
 [('access tests while walking the members, bases, constructors and nested types of a class', 'class.cpp: bind, bind_members_for_templates, maybe_base_classes, is_bindable'), ('types made of inaccessible classes are not bindable', 'type.cpp: is_bindable')]),
('C02', 'Entities that cannot be represented in Python are never bound',
 'No binding is generated for an entity that Python bindings cannot represent: deleted functions, uninstantiated templates and dependent types, conversion operators, non-member operators, unnamed or anonymous entities, incomplete classes, pointer, reference, array and bit-like fields that have no addressable value, functions taking or returning pointers to pointers, arrays, rvalue references or mutable pairs and tuples by reference, and internal entities of the standard library. '
 'This holds wherever the entity or type occurs: as parameter, return type, field, base class, template argument or nested member.',
 'inputs programs', ['type.cpp', 'function.cpp', 'class.cpp', 'enum.cpp'],
 [('is_bindable for functions, fields, classes, enums and types', 'function.cpp, class.cpp, enum.cpp, type.cpp'), ('is_banned_symbol', 'type.cpp')]),
('C03', 'What the configuration says to skip is skipped, specific directives first',
 'An entity excluded by configuration (its exact name or signature, its template, its class, its namespace, or a type in its signature) is not bound, at any nesting depth and whichever other entity would pull it in. '
 'A directive for a more specific name overrides one for a more general name in both directions (signature over function name over namespace, specialization over template over namespace, the longest matching namespace over shorter ones), a namespace directive covers that namespace and everything nested in it and nothing else, and contradicting namespace directives of the same name are reported as an error.',
 'configurations inputs', ['config.cpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'type.cpp', 'context.cpp', 'binder.hpp'],
 [('is_skipping_requested', 'class.cpp, function.cpp, enum.cpp, type.cpp'), ('is_*_skipping_requested', 'config.cpp')]),
('C04', 'Everything requested and representable is bound',
 'Every public, representable, not skipped function, class, enumeration, field, method, constructor, nested type and accessible base that the configuration requests (by name, by signature, by namespace, or through a bound entity that uses it) appears in the generated bindings. '
 'Nothing is dropped because of its position, its order of declaration, the number of its siblings or the presence of another overload, except a const method whose non-const twin with the same parameters is bound.',
 'inputs configurations', ['main.cpp', 'context.cpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'type.cpp', 'config.cpp'],
 [('request propagation and the generation fixpoint', 'context.cpp: bind, request_bindings'), ('member walks', 'class.cpp: bind')]),
('C05', 'Every configuration directive reaches exactly the behaviour it documents',
 'Each line of a configuration file changes exactly the behaviour documented for its directive and sign, with the name it gives, whatever its position in the file and whatever other lines the file holds. '
 'Comment and empty lines (with either line ending) are ignored; an unreadable file, a line without sign, a line without a name, an unknown directive, or a two-part directive with a part missing is an error and never ignored silently.',
 'configurations', ['config.cpp', 'config.hpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'context.cpp'],
 [('routing of tokens to the lists and maps of the configuration', 'config.cpp: read'), ('queries', 'config.cpp: is_*_requested, accessors')]),
('C06', 'Return value policies and call guards are those configured',
 'Every bound function or method that returns a pointer, an lvalue reference or an rvalue reference carries exactly the return value policy configured (or the default one) for that kind of result and for static or member functions, no other function carries a policy, and the policy keyword stands in the binding of every arity. '
 'A configured call guard is attached to every bound function and method at every arity, and no guard appears if none is configured.',
 'inputs configurations', ['function.cpp', 'config.hpp', 'config.cpp'],
 [('choice of policy and guard', 'function.cpp: bind_function')]),
('C07', 'Types a binding depends on are requested and defined before use',
 'Binding an entity also requests bindings for the complete, not skipped, not built-in class and enumeration types its signature exposes (return type, every parameter, bases and template arguments), whatever pointers and references surround them. '
 'In the generated modules a class is registered only after all of its bound base classes, for any declaration order and any shape of the inheritance graph.',
 'inputs programs', ['function.cpp', 'class.cpp', 'type.cpp', 'context.cpp'],
 [('request_bindings', 'type.cpp, context.cpp'), ('dependency ordering', 'context.cpp: sort_binders')]),
('C08', 'Generated output is a function of the input only',
 'For the same sources, configuration and options the generated files are byte for byte the same on every run and every machine: nothing in them depends on addresses, hash or pointer order, time, environment, locale, random numbers or on what a previous run left behind.',
 'histories inputs', ['context.cpp', 'class.cpp', 'function.cpp', 'type.cpp', 'util.cpp', 'binder.hpp', 'config.hpp'],
 [('ordered containers keyed by text wherever an enumeration reaches the output', 'all of source/')]),
('C09', 'Generated files agree with each other',
 'The list of sources names the root file and every generated file exactly once and nothing else, each generated file defines exactly one binding function, and the root file declares and calls exactly these functions, once each, in the order of the files. '
 'No two generated files share a path or function name, none replaces the root file, each binder goes to exactly one file, and this holds with one or several output files, nested or flat naming and any size limit.',
 'inputs configurations', ['context.cpp', 'util.cpp'],
 [('naming, splitting and the lists of sources, modules and functions', 'context.cpp: generate')]),
('C10', 'Output errors are reported, unchanged files are left alone',
 'If a file or directory that has to be created, or its content, cannot be written completely, the run ends with an error and not with success; a configuration or input error also leads to a non-zero exit. '
 'A per-header output file whose content would not change is not rewritten, one whose content changes in any byte is, and files go exactly to the requested place below the output prefix, whatever characters it contains.',
 'fault_sequences histories', ['util.cpp', 'context.cpp', 'config.cpp', 'main.cpp'],
 [('update_source_file', 'util.cpp'), ('stream checks', 'context.cpp: generate')]),
('C11', 'Emitted code names exactly the entity it binds',
 'Every binding statement refers to precisely the C++ entity it was generated for, with its full qualified name, all template arguments in order, its exact parameter types, return type and constness (so that the right overload is chosen), and registers it under its own Python name. '
 'Type names in emitted code denote the same types as in the input: rewriting of standard library names, booleans and implementation namespaces never changes the type meant, and Python names of distinct specializations derive from all their arguments.',
 'inputs programs', ['function.cpp', 'class.cpp', 'enum.cpp', 'type.cpp', 'util.cpp'],
 [('qualified names, pointer types and argument lists', 'function.cpp, class.cpp, util.cpp'), ('standard_name and simplification', 'type.cpp')]),
('C12', 'Documentation comments arrive intact in valid string literals',
 'The documentation string of each bound class, enumeration, enumerator, constructor and function is the comment written for that entity, escaped such that the generated string literal is valid and denotes the same text for every content (quotes, backslashes, line breaks in any combination), and the source location annotation, if enabled, refers to that entity. '
 'Entities without comment get an empty documentation string.',
 'inputs', ['util.cpp', 'function.cpp', 'class.cpp', 'enum.cpp'],
 [('generate_documentation_string_for_declaration', 'util.cpp')]),
('C13', 'Python overrides of virtual methods are honoured faithfully',
 'A class with overridable virtual methods (its own or inherited, public or protected, from any accessible base) gets a call-back structure that overrides each of them exactly once with the exact return type, parameters, constness and exception specification, looks the Python override up under the name the method is bound with, and otherwise calls the C++ implementation of that class, or reports a pure virtual call. '
 'Final classes and final methods are not overridden, all constructor access is preserved, and a configured custom method replaces the generated one.',
 'inputs programs', ['class.cpp', 'function.cpp'],
 [('call-back structures', 'class.cpp: bind_member_functions_for_call_back, generate_prefix_code, is_callback_structure_needed')]),
('C14', 'Bound classes are constructed, copied and held safely',
 'Abstract classes are only ever instantiated through their call-back structure, default and copy constructors are offered exactly when the class (and its call-back structure) has a usable, accessible, not deleted one (an implicit copy constructor counts once the compiler has declared it, which it does when the input needs it), const and unassignable fields are read-only, and an instance is held by the holder its class requires (configured, smart, shared, or non-deleting when the destructor is not public).',
 'inputs programs', ['class.cpp'],
 [('constructor generation and holders', 'class.cpp: bind_constructor, bind_default_constructor, bind_copy_constructor, bind')]),
('C15', 'Default arguments yield every accepted call arity, and only those',
 'A function, method or constructor whose last parameters have default arguments can be called from Python with every number of arguments C++ accepts, and with no other: one binding for each number from the required ones to all, each passing exactly the given arguments, in order, with their names. '
 'Default values are never copied into the bindings; C++ supplies them.',
 'inputs', ['function.cpp', 'class.cpp'],
 [('overload expansion', 'function.cpp: bind_function, function_arguments_for_lambda; class.cpp: ConstructorBindingInfo')]),
('C16', 'Generation terminates and each entity is bound once',
 'Binding generation ends for every finite input, including recursive and mutually dependent types and any size limit: each entity is processed at most once, each pass and each step of splitting, replacing and ordering makes progress, and no entity is emitted twice.',
 'inputs configurations', ['context.cpp', 'binder.hpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'util.cpp', 'type.cpp'],
 [('is_binded state and the fixpoint loop', 'context.cpp: bind, generate, sort_binders, add')]),
('C17', 'C++ operators get the Python name of the same meaning',
 'Each supported C++ operator is bound under the Python special method that has the same meaning and arity (unary and binary forms told apart, in-place forms distinct from plain ones, pre- and post-increment apart), other operators are not bound at all, and ordinary functions keep their C++ name; the name of a static method carries the configured prefix.',
 'inputs', ['function.cpp'],
 [('cpp_python_operator, python_function_name', 'function.cpp')]),
('C18', 'Remembered results are those a fresh computation would give',
 'Results kept for reuse within a run (whether a class can be bound, name simplifications, header lists, template argument texts) never change the output: for every query and every history of earlier queries the remembered result equals the one computed anew for the same entity and the same parameters.',
 'histories inputs', ['type.cpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'util.cpp'],
 [('static memo maps', 'type.cpp: standard_name, simplify_std_class_name; class.cpp: template_specialization, add_relevant_includes')]),
('C20', 'Custom binders replace and add-on binders complete generated code',
 'A class for which a custom binder is configured is bound by exactly one call of it (with module, names and template arguments) and no generated code; an add-on binder is called exactly once after the generated code of its class with the class object. '
 'A binder configured for a namespace replaces all generated code of exactly that namespace and is called exactly once, an add-on binder for a namespace is called once before its generated code.',
 'configurations inputs', ['class.cpp', 'context.cpp', 'config.cpp'],
 [('external binders', 'class.cpp: bind_with_binder, bind'), ('namespace binders', 'context.cpp: generate')]),
('C21', 'Each generated file includes the headers of what it uses',
 'A generated file includes the headers that declare every entity and type its code mentions (classes, parameters, results, template arguments, bases, nested classes, call-back methods, insertion operators) plus those configured for its classes and namespaces and those added globally, except those configured to be skipped, each once. '
 'Standard library entities are reached through public headers, and the result does not depend on the order of declarations.',
 'inputs configurations', ['type.cpp', 'class.cpp', 'function.cpp', 'enum.cpp', 'context.cpp', 'util.cpp', 'config.cpp'],
 [('add_relevant_includes', 'all binders'), ('generate_include_directives', 'context.cpp')]),
('C22', 'Command line options take effect exactly as documented',
 'Every command line option changes exactly what it documents, with the value given: options that name lists add to the configuration together with the configuration file, output location, root module, size limit, annotation, naming, tracing and call-back options act in every part of the output concerned, and an option that is not given changes nothing.',
 'configurations', ['options.cpp', 'main.cpp', 'config.cpp', 'context.cpp', 'class.cpp', 'function.cpp', 'util.cpp', 'enum.cpp', 'type.cpp'],
 [('option definitions', 'options.cpp'), ('transfer into the configuration', 'main.cpp: BinderVisitor')]),
('C23', 'The Python module tree mirrors the namespaces',
 'Each bound entity is registered in the module of exactly the namespace it is declared in (nested classes and enumerations in their class), every such namespace and all its ancestors are created as modules, each after its parent and named after its last component, and the list of modules names exactly these. '
 'Entities of the global namespace live in the root module.',
 'inputs', ['context.cpp', 'util.cpp', 'class.cpp', 'enum.cpp', 'function.cpp'],
 [('create_all_nested_namespaces, module_variable_name', 'context.cpp'), ('base_namespace, last_namespace, namespace_from_named_decl', 'util.cpp')]),
('C24', 'Enumerations are reproduced faithfully',
 'Every enumerator of a bound enumeration is registered under its own name with its own value, in order and once; an unscoped enumeration also supports arithmetic and exports its values to the surrounding scope, while an enum class does neither.',
 'inputs', ['enum.cpp'],
 [('bind_enum', 'enum.cpp')]),
]

TECH = 'static analysis: gated abstract interpretation of the type-checked syntax tree into path-complete summaries, compared with a specification'
NOTE = ('All paths of the anchored functions are summarised from the current source (loops as quantified terms, helpers inlined or summarised) and compared with a hand-written specification of the behaviour; '
        'a disagreement is reported only where it does not depend on anything left uninterpreted. Trusted: Clang\'s parser, the model of the standard library and of the Clang API (opaque pure queries), and the specification.')
EXTRA = {}
NA = []

def main():
    sys.path.insert(0, os.path.join(V, 'lib')); sys.path.insert(0, os.path.join(V, 'spec'))
    import check
    check.specs()
    have = {p for o in check.OBS for p in o.props}
    checks = []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for i, title, st, over, files, mech in P:
            if i not in have: continue
            assert len(title) <= 80, title
            fh.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over.split(), 'text': TEXT}, 'why_tests_cant': TESTS,
                                 'anchors': {'files': ['source/' + f for f in files], 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': ['generated files', 'exit status']}}) + '\n')
            checks.append({'property': i, 'quick_cmd': 'bash run.sh %s quick' % i, 'thorough_cmd': 'bash run.sh %s thorough' % i, 'technique': EXTRA.get(i, (TECH, ''))[0], 'level': 'other',
                           'level_note': NOTE + EXTRA.get(i, ('', ''))[1]})
    json.dump({'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks, 'not_applicable': NA}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print([p[0] for p in P if p[0] not in have], 'not checked;', sorted(have - {p[0] for p in P}), 'unknown')

main()
