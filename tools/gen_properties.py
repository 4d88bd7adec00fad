#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("P01", "Signature matching gives exactly the right verdict",
 "Asking whether an argument can be passed to a parameter, or whether a function can be used with a given signature, yields exactly one of no/partial/exact match: const is never dropped, a mutable reference accepts only a mutable lvalue, an rvalue reference only an rvalue, a derived type is accepted for its base, a registered converter gives a partial match (never into an lvalue reference) and a dynamic value matches any type. "
 "A result is acceptable when it is discarded or converts to what the caller wants, a caller's const reference never binds a temporary result, and a function without result only satisfies callers that discard it or take a dynamic value. "
 "A signature matches only with equal arity and is as strong as its weakest part.",
 ["inputs", "configurations"],
 "every pair of arguments (type x copy/lvalue/rvalue x const) and every signature, over every inheritance/pointer/converter relation between the types",
 "The tests check some forty hand-picked signatures over one fixed class pair; the verdict depends on a product of reference kinds, constness, inheritance, pointer covariance and converters that they sample in a handful of points.",
 ["src/argument.cpp", "src/argument.tcc", "src/function.cpp", "src/function.tcc", "src/ref_type.h"],
 [("Argument::isConvertibleTo", "src/argument.cpp"), ("Function::testReturn / testArguments / combine", "src/function.cpp"), ("makeRefType / isConst", "src/ref_type.h")],
 observe=["Argument::isConvertibleTo", "Function::test", "Argument::make"])

prop("P02", "Overload resolution runs the one right overload or reports an error",
 "For any list of registered overloads and any call, the overload that runs is the first one that matches exactly; without an exact match it is the only partial match; if several overloads match only partially, or none matches, an error is reported and nothing runs. "
 "Asking for an overload by signature answers with the first registered overload that matches, or an error when there is none. "
 "Adding an overload that the existing ones would already match exactly is refused and leaves the list unchanged.",
 ["inputs", "histories", "configurations"],
 "every order of registration of every set of overloads, every call signature and every kind of argument (typed or dynamic)",
 "Tests register two or three overloads in one order; resolution depends on registration order, on where exact and partial matches fall in the list and on the type relations.",
 ["src/overloads.cpp", "src/overloads.tcc", "src/function.tcc", "src/type.cpp", "src/scope.cpp"],
 [("Overloads::add ambiguity check", "src/overloads.cpp"), ("Overloads::call best match loop", "src/overloads.tcc"), ("Overloads::get / test", "src/overloads.tcc")],
 state=[("overloads", "ordered list of registered functions", "src/overloads.h")],
 observe=["Type::call", "Overloads::get", "Overloads::test", "Overloads::size"])

prop("P03", "Reflected calls and casts hand values over as the signature says",
 "When a reflected function runs, each reference parameter refers to the caller's own object, each by-value parameter receives an independent copy, each rvalue parameter receives the caller's contents, a parameter reachable only by a converter receives what the converter produces, and parameters arrive in order; a returned reference refers to the function's object and a returned value is owned by the caller. "
 "Casting a dynamic value follows the same rules. "
 "A call or cast that is not allowed (wrong arity, type or constness, or an argument of a type that cannot be copied or moved as the parameter needs) reports an error and runs nothing; a result that cannot be handed over as wanted is an error after the call.",
 ["inputs", "histories", "configurations"],
 "every callable kind (free function, functor, lambda, const and non-const member), every parameter/argument/return kind, every sequence of calls over shared objects",
 "Tests call a dozen functions once each; aliasing, constness, copy/move choice and failure depend on the combination of value kind, parameter kind and type capabilities and on what earlier calls did to shared objects.",
 ["src/cast.h", "src/cast.cpp", "src/function.tcc", "src/value_function.h", "src/function_type.h"],
 [("cast lref/rref/copy", "src/cast.cpp"), ("Cast<Value,Target>", "src/cast.h"), ("ValueFunctionImpl::call", "src/value_function.h"), ("Function::call", "src/function.tcc")],
 observe=["Function::call", "cast", "Value::call"])

prop("P04", "Dynamic values own, share and release objects exactly once",
 "A dynamic value built from a temporary owns the object, one built from an existing object only refers to it (keeping its constness); copies, const views and rvalue views of a dynamic value refer to the same object and keep an owned object alive, copying the value's content creates an independent object, and moving the content out leaves the moved dynamic value empty. "
 "Through any history of constructing, assigning, copying, moving, viewing and dropping dynamic values, every owned object is destroyed exactly once, when its last holder goes away, and referred-to objects are never destroyed. "
 "Typed access succeeds exactly when the held object is of the requested type or derives from it.",
 ["histories", "inputs"],
 "every sequence of value operations over any number of values and objects, including self-assignment and aliasing",
 "value_test walks a few straight-line scenarios with at most three values; sharing and lifetime errors need particular operation sequences.",
 ["src/value.h", "src/value.tcc", "src/value.cpp"],
 [("storage shared_ptr + ValueDestructor", "src/value.tcc"), ("Value copy/move constructors and assignment", "src/value.cpp"), ("toConst / rvalue / copy / move", "src/value.cpp")],
 state=[("arg, value_, storage", "type/ref/const, object address and owner of a dynamic value", "src/value.h")],
 observe=["Value::value", "Value::isStored", "Value::refType", "Value::isConst", "Value::get", "Value::as"])

prop("P05", "Field access aliases the right member and never drops const",
 "Accessing a field of a dynamic value by name yields the very member of that object: reads see its current content and writes through it change the object, for own, inherited, shadowed and nested fields. "
 "The field is const whenever the object or the member is const, so no reflected access can modify it. "
 "An unknown field name is an error that changes nothing, and the field's own declared name, type, position and traits are what was reflected.",
 ["histories", "inputs", "configurations"],
 "every sequence of field reads, writes, nested accesses and const views over every object layout and inheritance depth",
 "field_test reads each field of one class hierarchy once; propagation of constness through nesting and aliasing between fields and holders needs operation sequences.",
 ["src/value.tcc", "src/field.h", "src/field.cpp", "src/field.tcc", "src/type.cpp", "src/dsl/field.h"],
 [("Value::field", "src/value.tcc"), ("Type::field lookup", "src/type.cpp"), ("Field constructor reference check", "src/field.cpp")],
 observe=["Value::field", "Type::field", "Field::offset"])

prop("P06", "A type's functions and fields form one consistent inherited namespace",
 "Within one type a name is either a field or a function, never both, and a field name is declared at most once; a refused declaration reports an error and changes nothing. "
 "Looking a name up finds the declaration of the nearest type in the inheritance chain, existence queries agree with lookups, lookups for modification only find the type's own declarations, and a missing name is an error. "
 "Listings contain every own and inherited name exactly once, sorted.",
 ["histories", "configurations"],
 "every sequence of declarations on every inheritance chain (including declarations made after the chain is formed)",
 "type_test declares one fixed hierarchy; conflicts and shadowing depend on declaration order across several types.",
 ["src/type.h", "src/type.cpp", "src/type.tcc"],
 [("Type::addFunction / addField conflict checks", "src/type.cpp"), ("Type::function / field / hasFunction / hasField", "src/type.cpp"), ("Type::functions / fields", "src/type.cpp")],
 state=[("fields_, fns_, parent_", "own fields, own functions, parent type", "src/type.h")],
 observe=["Type::functions", "Type::fields", "Type::hasFunction", "Type::function"])

prop("P07", "Type relations are faithful: inheritance, pointers, converters, copy and move",
 "A type is a child of itself and of its ancestors and of nothing else, a pointer type is a child of another exactly when both are the same kind of pointer and their pointees are so related, and 'parent of' is the exact converse. "
 "A type has a converter to another exactly when it or an ancestor declares that conversion, and asking for the converter returns that function or an error. "
 "A type counts as copiable (movable) exactly when one of its registered constructors accepts a value (an rvalue) of that type; pointer queries on a non-pointer and re-declaring a pointer are errors.",
 ["configurations", "histories"],
 "every inheritance forest, pointer graph and set of registered constructors/converters",
 "The tests check one parent/child pair and a few pointers; transitivity, nested pointers, mixed pointer kinds and inherited converters need arbitrary graphs.",
 ["src/type.cpp", "src/type.h", "src/types/pointer.h", "src/types/std/smart_ptr.h"],
 [("Type::isChildOf / isParentOf", "src/type.cpp"), ("Type::hasConverter / converter", "src/type.cpp"), ("Type::isCopiable / isMovable", "src/type.cpp"), ("Type::setPointer", "src/type.cpp")],
 observe=["Type::isChildOf", "Type::isParentOf", "Type::hasConverter", "Type::isCopiable", "Type::isMovable", "Type::pointee"])

prop("P08", "Scopes form a name tree that agrees with itself",
 "Adding a type or function under a qualified name creates exactly the scopes of its path, and afterwards the name is found from the root, from every scope on its path by its relative name, and in the listings, and nothing else is. "
 "Qualified names split at the separators that are not inside template brackets, first component and last component alike, so splitting and joining are inverse; a malformed name is an error. "
 "Existence queries answer true exactly for what lookups find, a scope's full name is the path to it, and a refused addition (a path through a type or function name) leaves the tree unchanged.",
 ["histories", "inputs"],
 "every sequence of additions and queries over every nesting of scopes and every (template-qualified) name",
 "scope_test uses one small fixed tree and a few names; the tree operations interact through shared prefixes and the splitter has to work for every bracket nesting.",
 ["src/scope.h", "src/scope.cpp", "src/scope.tcc", "src/dsl/scope.h"],
 [("Scope::head / tail / join", "src/scope.cpp"), ("Scope::addType / addFunction / scope", "src/scope.cpp"), ("Scope::hasType / hasFunction / hasScope", "src/scope.cpp")],
 state=[("scopes_, types_, functions_, parent_", "child scopes, types, functions and parent of a scope", "src/scope.h")],
 observe=["Scope::scopes", "Scope::types", "Scope::functions", "Scope::id", "Scope::call"])

prop("P09", "The type registry loads every type once and always answers the same type",
 "A registered type is built by running its loader exactly once, on the first lookup and not before, and every later lookup by name, by alias or by C++ type returns that same type object, including lookups made while the type is still being built (recursive types). "
 "The first loader registered for a name wins, an alias resolves to the type it names whether registered before or after it, and a second alias of the same name is refused. "
 "Looking up an unknown name, or registering an empty name or no loader, is an error that leaves the registry usable and unchanged, and a registered name appears in the global scope.",
 ["histories", "configurations"],
 "every sequence of registrations, aliases and lookups, with every (also cyclic) dependency between loaders",
 "The tests rely on one static registration order; load order, mutual recursion, duplicate registration and alias order are never varied.",
 ["src/registry.h", "src/registry.cpp", "src/dsl/type.h", "src/dsl/template.h", "src/clean_type.h"],
 [("Registry::get / load", "src/registry.cpp"), ("Registry::add / alias", "src/registry.cpp"), ("reflectTemplateLoader", "src/dsl/template.h")],
 state=[("types, aliases, loaders, scopes", "built types, name aliases, pending loaders, global scope", "src/registry.cpp")],
 observe=["Registry::get", "Registry::add", "Registry::alias", "Scope::hasType"])

prop("P10", "The type registry is safe under concurrent use",
 "Whatever the number of threads and the interleaving of lookups, registrations and alias declarations (by name or by C++ type, including template instantiations registered on first use), every lookup of a registered type succeeds and returns the one type object of that name, whose loader has run exactly once and to completion unless the lookup comes from within that loader. "
 "No interleaving deadlocks, corrupts the registry or lets two threads touch its state at the same time.",
 ["schedules"],
 "every interleaving of any number of threads performing lookups, registrations and aliasing, with recursive loaders",
 "No existing test creates a thread.",
 ["src/registry.cpp", "src/registry.h", "src/dsl/template.h", "src/argument.cpp"],
 [("registry lock", "src/registry.cpp"), ("reflectTemplateLoader once flag", "src/dsl/template.h")],
 state=[("lock", "mutex protecting the registry", "src/registry.cpp")],
 observe=["Registry::get from several threads"])

prop("P11", "Traits on types, fields, functions and scopes are a write-once map",
 "A trait can be attached once to a type, field, function or scope; attaching the same name again is an error that leaves the first value in place. "
 "Existence queries and listings report exactly the attached names, on that entity only (a trait of a parent type, sibling or namesake is not seen), and reading a trait's value returns what was attached, or an error if the trait is absent or of another type.",
 ["histories"],
 "every sequence of attaching and reading traits across several entities",
 "Tests attach a few traits once; write-once behaviour and isolation between entities need interleaved histories.",
 ["src/traits.h", "src/traits.tcc", "src/traits.cpp"],
 [("Traits::addTrait", "src/traits.cpp"), ("Traits::getValue", "src/traits.tcc")],
 state=[("traits_", "name to value map of one entity", "src/traits.h")],
 observe=["Traits::is", "Traits::traits", "Traits::getValue", "Value::is"])

prop("P12", "The JSON reader turns any bytes into the right tokens or one error",
 "For every input and option set, successive reads return exactly the tokens of the accepted JSON dialect (with comments only when allowed, escapes decoded, unicode escapes decoded or validated and UTF-8 checked as the options say) with their exact values, then end-of-stream; peeking returns the next token without consuming it. "
 "At the first malformed byte sequence an error is recorded with its line and position, the first error is kept, and every later read returns end-of-stream. "
 "No input makes the reader crash, hang or abort.",
 ["inputs", "configurations", "fault_sequences"],
 "every byte string, every option combination and every interleaving of peek and read",
 "reader_test tries some sixty one-token inputs; multi-token streams, truncation at every byte, malformed UTF-8 and the position bookkeeping are not covered.",
 ["src/utils/json/reader.h", "src/utils/json/reader.cpp", "src/utils/json/reader.tcc", "src/utils/json/token.h", "src/utils/json/token.cpp"],
 [("nextToken / readString / readNumber / readLiteral", "src/utils/json/token.cpp"), ("unescapeUnicode / validateUnicode", "src/utils/json/token.cpp"), ("Reader::peekToken / nextToken / expectToken / error", "src/utils/json/reader.cpp")],
 state=[("token, pos, line, error", "look-ahead token, position and first error", "src/utils/json/reader.h")],
 observe=["Reader::nextToken", "Reader::peekToken", "Reader::error"])

prop("P13", "Parsing JSON into reflected values sets exactly what the document says",
 "Parsing a well-formed document of the right shape into a reflected object (with boolean, 64-bit integer, double, string, nested, list, map and pointer members) gives each field the value of its (aliased) key, leaves fields that are absent or marked skipped untouched, ignores unknown keys whatever their content, appends to lists, merges into maps, parses through pointers (allocating when null, resetting on null), honours custom parsers, and for an untyped target builds the corresponding dynamic value. "
 "A malformed, truncated or mistyped document makes parsing return an error naming line and position; it never aborts, crashes or reports success.",
 ["inputs", "configurations", "fault_sequences"],
 "every document, every reflected target type and every initial content of the target",
 "parser_test parses a few fixed documents into fresh objects; truncation at every point, type mismatches and re-parsing over existing contents are not covered.",
 ["src/utils/json/parser.h", "src/utils/json/parser.tcc", "src/utils/json/parser.cpp", "src/utils/json/traits.cpp", "src/utils/json/token.cpp"],
 [("parseObject / parseArray / skip", "src/utils/json/parser.tcc"), ("ObjectParser / PointerParser / ArrayParser / MapParser / ValueParser", "src/utils/json/parser.cpp"), ("json::Traits", "src/utils/json/traits.cpp")],
 observe=["json::parse"])

prop("P14", "Printing a reflected value gives exactly its JSON document",
 "Printing writes one document with every non-skipped field once under its alias in sorted key order, lists in order, map entries once each, null for null pointers, custom printers' output where declared, and omits fields marked skip-if-empty (or, in compact mode, all fields) exactly when they are empty. "
 "Pretty mode changes only white space; strings are escaped (and non-ASCII text escaped, validated or copied as the options say), and text that is not valid UTF-8 is reported as an error whenever escaping or validation is on.",
 ["inputs", "configurations"],
 "every reflected value, nesting depth and option combination",
 "printer_test prints a few fixed objects; the combination of emptiness rules, options, nesting and string contents is unbounded.",
 ["src/utils/json/printer.h", "src/utils/json/printer.tcc", "src/utils/json/printer.cpp", "src/utils/json/format.cpp", "src/utils/json/writer.h", "src/utils/json/writer.cpp"],
 [("printObject / printArray", "src/utils/json/printer.tcc"), ("ObjectPrinter / PointerPrinter / MapPrinter", "src/utils/json/printer.cpp"), ("formatString / escapeUnicode / readUnicode", "src/utils/json/format.cpp")],
 observe=["json::print"])

prop("P15", "Printed JSON parses back to the same value",
 "For every value of a reflected class made of booleans, 64-bit integers, doubles, strings, classes, lists, string-keyed maps and pointers to what reflection can allocate, and every writer option, printing and then parsing into a fresh object of the same type succeeds and yields an equal value (real numbers to the printed precision of twelve significant digits; fields marked skipped excepted, and fields left out as empty taking what a fresh object has), and printing that again gives the same document. "
 "In particular every valid UTF-8 string, every 64-bit integer, every nesting and every null survive.",
 ["inputs", "configurations"],
 "every such value (finite numbers, valid UTF-8 text) and every writer option",
 "No existing test composes printing and parsing.",
 ["src/utils/json/parser.cpp", "src/utils/json/printer.cpp", "src/utils/json/format.cpp", "src/utils/json/token.cpp"],
 [("escapeUnicode / unescapeUnicode", "src/utils/json/format.cpp, src/utils/json/token.cpp"), ("ObjectPrinter / ObjectParser", "src/utils/json/printer.cpp, src/utils/json/parser.cpp")],
 observe=["json::print then json::parse"])

prop("P16", "JSON parsing and printing are safe from several threads",
 "Threads that concurrently parse and print values of the same or different reflected types, including the first use of a type and types that contain each other recursively, each get exactly the result they would get alone. "
 "No interleaving deadlocks, sees a half-prepared type, or lets two threads touch the shared per-type caches at the same time.",
 ["schedules"],
 "every interleaving of first and later uses of every set of (mutually recursive) types",
 "No existing test creates a thread.",
 ["src/utils/json/parser.cpp", "src/utils/json/printer.cpp"],
 [("getParserLocked / getParser cache", "src/utils/json/parser.cpp"), ("getPrinterLocked / getPrinter cache", "src/utils/json/printer.cpp")],
 state=[("parsers / printers", "per-type caches", "src/utils/json/parser.cpp, src/utils/json/printer.cpp")],
 observe=["json::parse and json::print from several threads"])

prop("P17", "Registered callables are kept, moved and destroyed exactly once",
 "A callable handed to reflection lives as long as the function object that holds it: it is destroyed and its memory released exactly once, when the holder is destroyed or overwritten, however often the holder is moved, stored in overload lists that grow, or refused by one. "
 "A moved-to function behaves exactly as the original did, keeping its name and signature and the callable's own state.",
 ["histories"],
 "every sequence of creating, moving, assigning, registering and destroying function objects holding any kind of callable",
 "Tests never count callables; growth of overload lists, move assignment and refused registrations are where lifetime errors live.",
 ["src/function.cpp", "src/function.tcc", "src/value_function.h", "src/value_function.cpp", "src/overloads.cpp"],
 [("Function move constructor / assignment / destructor", "src/function.cpp"), ("freeValueFunction", "src/value_function.cpp")],
 state=[("fn", "owned callable", "src/function.h")],
 observe=["Function", "Overloads::add"])

prop("P18", "Reflected containers and pointers behave like the containers they wrap",
 "Any sequence of operations performed on a vector, map, unordered map, raw pointer, shared pointer or unique pointer through reflection has the same results and leaves the same contents and ownership as the same operations performed directly. "
 "Checked element access outside the bounds or with an unknown key is an error that leaves the container unchanged, const containers cannot be modified, and the element, key and value types and kind traits are reported correctly.",
 ["histories", "inputs"],
 "every sequence of reflected container and pointer operations on every element type",
 "Tests touch each operation once on small fixed contents; sequence-dependent behaviour and ownership are not exercised.",
 ["src/types/std/vector.h", "src/types/std/map.h", "src/types/std/smart_ptr.h", "src/types/std/string.cpp", "src/types/pointer.h"],
 [("reflectTemplate(std::vector)", "src/types/std/vector.h"), ("reflectMap", "src/types/std/map.h"), ("reflectSmartPtr", "src/types/std/smart_ptr.h")],
 observe=["Value::call on containers", "Value operators on containers"])

prop("P19", "Errors are always reported in full and never half-applied",
 "Every misuse (unknown name, impossible conversion, refused declaration, failed cast, bad registration) is reported through the error mechanism exactly once with the source location and the complete message, whatever its length, as an exception when exceptions are enabled and otherwise by printing the message and aborting. "
 "With exceptions enabled, a refused operation leaves every existing type, member, trait, scope entry, registry entry and referred-to object as it was, so correct operations afterwards behave as if the refused one had never been attempted; the exceptions are that looking a type up may have loaded it, and that an argument conversion which fails by itself in the middle of a call may come after other arguments were already moved.",
 ["fault_sequences", "histories", "inputs"],
 "every failing operation at every point of every history, with names and messages of any length",
 "Tests only check that some misuse errors occur, never the message or the state afterwards.",
 ["src/error.h", "src/error.cpp", "src/type.cpp", "src/scope.cpp", "src/registry.cpp", "src/overloads.cpp"],
 [("verror / verrorFormat", "src/error.cpp"), ("reflectError", "src/error.h")],
 observe=["reflect::Error", "stdout and abort of the process"])

prop("P20", "The declaration macros register exactly what the C++ type offers",
 "Declaring a class with the plumbing, constructor, allocation, operator, field, function, parent and alias macros registers exactly the constructors, assignments, allocators and (non-overloaded) operators that the class actually has, with their exact signatures and names and nothing else, for every combination of what the class is able to do, and such a declaration compiles for each of them. "
 "(What is returned or taken by value or by T&& has to be moved through the dynamic value, so those functions need the class to be move constructible.) "
 "Every registered entity does what the corresponding C++ construct does. "
 "Likewise for the functions, overloads, variables and traits which a namespace declares with the scope macros: a variable is a function which answers it and, unless it is const, one which assigns it, found under the same name from every scope above it.",
 ["configurations", "programs"],
 "every combination of default/copy/move construction and copy/move assignment capabilities and every set of operators",
 "Tests declare a few classes; the capability combinations are never enumerated.",
 ["src/dsl/plumbing.h", "src/dsl/operators.h", "src/dsl/function.h", "src/dsl/field.h", "src/dsl/basics.h", "src/dsl/type.h", "src/dsl/scope.h"],
 [("reflectPlumbing / reflectAllocPlumbing", "src/dsl/plumbing.h"), ("reflectOperators", "src/dsl/operators.h"), ("reflectCons / reflectAlloc / reflectFn", "src/dsl/function.h")],
 observe=["Type::functions", "Overloads::print", "Type::construct", "Type::alloc"])

prop("P21", "Operators on dynamic values do what the same operators do on the object",
 "Applying a C++ operator, call, index, dereference, truth test or assignment to a dynamic value invokes the operator of that same name registered for the held object's type, with the same operands in the same order, and yields the same result and the same effect on the object as applying it directly; mutating operators are refused on const values. "
 "Negation uses the type's own negation when it has one and otherwise the opposite of its truth value; an operator the type does not offer is an error that changes nothing.",
 ["inputs", "histories"],
 "every operator, every operand value and every sequence of operators over shared objects",
 "Tests use a handful of operators with one operand value each.",
 ["src/value.h", "src/value.tcc", "src/value.cpp", "src/dsl/operators.h"],
 [("reflectValueOp* macros", "src/value.h"), ("Value::operator! / operator bool", "src/value.cpp"), ("Value::assign", "src/value.tcc")],
 observe=["Value operators"])

prop("P22", "Primitive types are described truthfully under all their names",
 "Every built-in arithmetic type is reflected with its true size, limits, kind (boolean, signed or unsigned integer, floating) and working construction, copy, move, assignment and allocation, whatever value is used. "
 "All alternative spellings and fixed-width aliases which the library declares for a built-in type resolve to the one type of that width and signedness on this platform.",
 ["configurations", "inputs"],
 "every built-in type, every alias and every value of the type",
 "Tests look at int only; the alias table and the other types are never checked.",
 ["src/types/primitives.h", "src/types/primitives.tcc", "src/types/primitives.cpp", "src/types/primitive_int.cpp"],
 [("reflectNumberImpl", "src/types/primitives.tcc"), ("PrimitiveAliases", "src/types/primitives.cpp")],
 observe=["Type::getValue", "Type::is", "Registry::get"])

prop("P23", "Printed descriptions are complete and exact",
 "Printing a type, a scope, a list of overloads or a field describes exactly what it holds: a type its name, its traits, every own field with position, type, name and traits, every own function with its traits and the exact signature of each overload in order, and its parents in turn; a scope its name, traits, functions, types and nested scopes, each described in full. "
 "Every item is listed once, below the entity to which it belongs, nothing else is listed, whatever has been looked up before, and printing changes nothing. Signatures, arguments, kinds of match and kinds of reference are spelled as what they are.",
 ["histories", "inputs"],
 "every sequence of declarations, trait additions, lookups and printing",
 "Tests print descriptions to the log and never look at them.",
 ["src/type.cpp", "src/scope.cpp", "src/overloads.cpp", "src/field.cpp", "src/traits.cpp", "src/argument.cpp", "src/function.cpp", "src/ref_type.cpp"],
 [("Type::print", "src/type.cpp"), ("Scope::print", "src/scope.cpp"), ("Overloads::print", "src/overloads.cpp"), ("signature", "src/function.cpp")],
 observe=["Type::print", "Scope::print", "Overloads::print", "Field::print", "printArgument"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
