#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = 'src/basic/parser/'
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}
T = []
T.append(p("C01", "Damaged bytes always end in a value or an error",
 "Parsing any byte sequence a storage medium can deliver (intact, truncated, bit-flipped, torn between versions, with blocks lost, repeated or misplaced, or crafted) returns a class or an error. It never panics, aborts, overflows the stack of an ordinary 2 MiB thread, or fails to terminate, and the same holds for every lookup, walk and descriptor parse a caller then performs on whatever was returned.",
 ["inputs", "fault_sequences", "schedules"], "every stored image, every sequence of storage and read faults applied to it, every interleaving of a writer and a reader of the same file",
 "No existing test calls the parser on a class file at all, let alone on a damaged one; panics here needed one particular index, table bound or nesting depth.",
 ["src/basic/parser/mod.rs", P+"decode.rs", P+"code.rs", P+"annotation.rs", "src/basic/constpool.rs", "src/types.rs"],
 [("bounds check before every read", P+"decode.rs Decoder::check, limit, skip, read_bytes"), ("bounded nesting", P+"decode.rs Decoder::nest"), ("checked table bounds", P+"code.rs tableswitch"), ("index check", "src/basic/constpool.rs Pool::get")],
 ["basic::parse", "Pool::get*, Pool::iter, Pool::push", "TypeDescriptor/MethodDescriptor::from_str"]))
T.append(p("C02", "A truncated class file is never accepted",
 "If a class file parses, every proper prefix of the bytes it occupies is refused, wherever the cut falls: inside the header, a constant, a member, an instruction or any table. The refusal is the end-of-input (limit exceeded) error, not a wrong diagnosis and never a partial class.",
 ["crash_points", "inputs"], "every class file and every cut point (early end of file, lost tail of an interrupted write)",
 "Tests feed only complete inputs to the integer readers; a missing end check shows only for cuts inside one particular construct.",
 ["src/basic/parser/mod.rs", P+"decode.rs"],
 [("every read is checked against the limit", P+"decode.rs Decoder::check"), ("attribute limits are checked against the enclosing limit", P+"decode.rs Decoder::limit")],
 ["basic::parse", "Error::LimitExceeded"]))
T.append(p("C03", "Declared lengths are enforced exactly",
 "An attribute or a code array is read strictly within its declared length: if its content needs more or fewer bytes than declared, or a declared length exceeds what encloses it, the class file is refused. This holds at every nesting depth and for every attribute kind, including those carried opaquely.",
 ["inputs", "fault_sequences"], "every class file, every attribute or code array in it, every damaged value of its length or of a count inside it",
 "No test parses an attribute; a missed end-of-attribute check silently shifts everything that follows.",
 [P+"decode.rs", P+"mod.rs", P+"code.rs"],
 [("limit/remove_limit pair", P+"decode.rs"), ("attribute loop", P+"mod.rs parse_attributes"), ("code limit", P+"code.rs parse_code")],
 ["basic::parse"]))
T.append(p("C04", "Damage inside one attribute stays inside it",
 "If bytes strictly inside one attribute's body are damaged in place, then either the class file is refused, or everything outside that attribute (constant pool, header, every other member and attribute, order and position) is reported exactly as before the damage.",
 ["fault_sequences", "inputs"], "every class file, every attribute at any depth, every in-place damage of its body",
 "It relates two parses of different inputs; tests have neither.",
 [P+"mod.rs", P+"decode.rs"],
 [("attributes are framed by their length", P+"mod.rs parse_attributes"), ("no state outlives an attribute", P+"decode.rs Decoder::limit")],
 ["basic::parse"]))
T.append(p("C05", "Constants keep their file index and their value",
 "Whatever bytes were delivered, in every pool that parsing returns each index resolves to exactly the constant stored at that index (kind, operands, and numeric bits including NaN payloads and the sign of zero), with duplicates kept apart and long and double taking two indices. Index 0, the second index of a long or double, and every index from the pool's length on are refused.",
 ["inputs", "fault_sequences"], "every class file image, intact or damaged, and every index 0..65535",
 "The one pool test pushes five constants by hand and never reads a pool from bytes.",
 [P+"mod.rs", "src/basic/constpool.rs"],
 [("tag dispatch", P+"mod.rs read_constant_pool"), ("two-slot constants and index-preserving append", "src/basic/constpool.rs Pool::append, Pool::get")],
 ["Pool::get", "Pool::get_utf8", "Pool::get_class_name", "Pool::get_class_name_opt", "Pool::len"],
 [("by_index", "slot per encoded index", "src/basic/constpool.rs"), ("length", "encoded length (highest index + 1)", "src/basic/constpool.rs")]))
T.append(p("C06", "Header, members and simple attributes are reported as stored",
 "Whatever bytes were delivered, an accepted class reports exactly the stored version, access flags (a named flag is present exactly if its bits of the JVM specification are set), name, super class, interfaces, fields, methods and attribute lists, in file order, with the constant, name or string that a ConstantValue, Signature, SourceFile, EnclosingMethod, Deprecated, Synthetic or SourceDebugExtension attribute holds. An attribute with an unknown name is carried verbatim, and a structurally well-formed class file (representable strings, structures nested up to 16 levels) is never refused.",
 ["inputs", "fault_sequences"], "every class file image, intact or damaged, with any number, order and repetition of members and attributes",
 "No test parses a class file; field order or attribute-name mistakes are silent.",
 [P+"mod.rs", P+"class.rs", "src/basic/tree.rs"],
 [("top-level layout", P+"mod.rs parse, parse_fields, parse_methods, parse_attributes"), ("flag constants", "src/basic/tree.rs AccessFlags")],
 ["basic::Class", "basic::Field", "basic::Method", "basic::Attribute", "basic::AccessFlags"]))
T.append(p("C07", "Code is decoded at its true offsets, instruction by instruction",
 "Whatever bytes were delivered, the instructions reported for an accepted code attribute are exactly those the code array encodes: one entry per instruction at its byte offset, with the operation, operands (signed or unsigned as specified, including wide forms) and switch tables (padding relative to the start of the code, signed bounds and keys) of the JVM specification. Stack and local limits, the exception table and nested attributes are as stored, and undefined operation codes are refused.",
 ["inputs", "fault_sequences"], "every code array, intact or damaged, every operation code, operand value and alignment",
 "No test decodes an instruction.",
 [P+"code.rs"], [("opcode table", P+"code.rs parse_instruction"), ("offset bookkeeping", P+"code.rs parse_code")],
 ["basic::Attribute::Code", "basic::Instruction"]))
T.append(p("C08", "Annotations are reported as stored",
 "Whatever bytes were delivered, accepted visible, invisible, parameter, type and default annotations carry exactly the stored types, element names, values (every kind, nested to any supported depth), targets, type paths and order. Undefined value kinds, target types and path kinds are refused.",
 ["inputs", "fault_sequences"], "every annotation structure, intact or damaged, every element kind and target type",
 "No test parses an annotation.",
 [P+"annotation.rs"], [("tag and target dispatch", P+"annotation.rs")],
 ["basic::Annotation", "basic::TypeAnnotation", "basic::ElementValue"]))
T.append(p("C09", "Stack map frames are reported as stored",
 "Whatever bytes were delivered, each accepted stack map frame has the form, offset delta, number of chopped locals, and locals and stack types that its frame type and operands encode, in order. Reserved frame types and undefined verification types are refused.",
 ["inputs", "fault_sequences"], "every stack map table, intact or damaged, all 256 frame types",
 "No test parses a frame; several frame-type ranges differ by one offset.",
 [P+"method.rs"], [("frame-type ranges", P+"method.rs parse_stack_map_table"), ("verification types", P+"method.rs parse_verification_type")],
 ["basic::StackMapFrame", "basic::VerificationType"]))
T.append(p("C10", "Module descriptors and attribute tables are reported as stored",
 "Whatever bytes were delivered, accepted Module, ModulePackages, ModuleMainClass, BootstrapMethods, InnerClasses, Exceptions, LineNumberTable, LocalVariableTable, LocalVariableTypeTable and MethodParameters attributes report exactly the stored entries, each value in its own field, in order.",
 ["inputs", "fault_sequences"], "every such attribute, intact or damaged, any entry counts",
 "No test parses any of them; swapped fields of equal type are invisible to the compiler.",
 [P+"class.rs", P+"method.rs"], [("table readers", P+"class.rs, "+P+"method.rs")],
 ["basic::Attribute"]))
T.append(p("C11", "Interned constants keep their index through any history",
 "For any interleaving of clients pushing and looking up constants in one pool (new, sized, default or read from a class file), with retried pushes and clients that stop midway: pushing returns an index at which an equal constant is found from then on, pushing a constant that is already present adds nothing and returns where it is, and distinct constants (by kind, operands or bits) never share an index. Lookups never change the pool.",
 ["histories", "schedules"], "every finite sequence of operations, every interleaving of several clients, every starting pool",
 "The one test pushes five constants in one order on a fresh pool.",
 ["src/basic/constpool.rs"], [("interning map and slot vector kept in step", "src/basic/constpool.rs Pool::push, Hash/Eq for Item")],
 ["Pool::push", "Pool::get", "Pool::len", "Pool::is_empty"],
 [("by_entry", "constant to its (first) index", "src/basic/constpool.rs"), ("by_index", "index to constant", "src/basic/constpool.rs")]))
T.append(p("C12", "A full pool refuses new constants and loses nothing",
 "The encoded pool length never exceeds 65535 and counts one per constant and two per long or double. A push that would exceed it fails with the too-large error and changes nothing; a constant already present is still found and returned, and smaller constants that still fit are still accepted afterwards.",
 ["histories", "fault_sequences"], "every history that reaches capacity by any mix of one- and two-slot constants, and every operation sequence after exhaustion",
 "Tests never come near capacity.",
 ["src/basic/constpool.rs"], [("capacity check before insertion", "src/basic/constpool.rs Pool::push, Pool::append")],
 ["Pool::push", "Pool::len", "Error::CPTooLarge"]))
T.append(p("C13", "Iterating a pool yields each constant once, at its own index",
 "At any point of any history, iterating the pool yields every constant exactly once in increasing index order, each paired with the index at which looking it up returns that very constant, skips unusable second slots, and then ends. This holds for every way of iterating (one by one, skipping, counting, folding), and a pool says it is empty exactly if there is nothing to yield.",
 ["histories", "inputs"], "every pool content reachable by parsing (intact or damaged images) or pushing, and every point of the history",
 "The iterator assertions in the only pool test are commented out.",
 ["src/basic/constpool.rs"], [("slot walk with index", "src/basic/constpool.rs PoolIter::next")],
 ["Pool::iter", "Pool::get"]))
T.append(p("C14", "A parse depends on its bytes only",
 "The outcome of a parse is a function of the bytes alone: it is the same under any interleaving with other parses on other threads, after any number of earlier parses that succeeded or failed midway, on a new or an old thread, out of a new or a reused buffer, and under any hash seed.",
 ["schedules", "histories"], "every interleaving of concurrent parses at allocation points, every preceding history of successful and failing parses, every hash seed",
 "Tests run no parse twice and no two parses at once.",
 ["src/basic/parser/mod.rs", P+"decode.rs", "src/basic/constpool.rs"], [("no shared or retained state", "whole parser")],
 ["basic::parse"]))
T.append(p("C15", "Memory is bounded by the bytes present, not by declared counts",
 "While parsing n bytes, intact or damaged, the peak heap use stays below a fixed multiple of n plus a fixed constant, so counts, lengths and table bounds that are not backed by bytes never reserve memory.",
 ["inputs", "fault_sequences"], "every image and every damage of its counts, lengths and bounds, alone and combined over nesting levels",
 "Nothing measures memory; one damaged 16-byte instruction could request 16 GB.",
 [P+"decode.rs", P+"code.rs", P+"class.rs"], [("capacity limited by the bytes left", P+"decode.rs Decoder::vec"), ("no reservation for switch tables", P+"code.rs")],
 ["global allocator"]))
T.append(p("C16", "Nothing is left behind after a parse ends, however it ends",
 "Once the results of a parse are dropped, or the parse has failed at any point of the input, all heap memory it obtained has been returned; repeating a parse any number of times does not grow the heap. The same holds for a pool and for descriptors, whatever was done with them, once they are dropped.",
 ["crash_points", "histories", "fault_sequences"], "every image, every point at which the parse is cut off or meets damage, any number of repetitions; pools filled by any push history",
 "Nothing measures memory.",
 ["src/basic/constpool.rs", "src/basic/parser/mod.rs"], [("owned data, acyclic reference counting", "src/basic/constpool.rs Pool")],
 ["global allocator"]))
T.append(p("C17", "The error names the damage",
 "When exactly one discriminating value of an otherwise intact class file is damaged to an undefined value, the error is the one for that construct and names it: not a class file for the magic number; the index of the constant for a constant's tag or method-handle kind; the unusable name index for an attribute name; operation code and code offset for an instruction; and the undefined value for frame, verification and element-value types. Damaged string bytes are reported as invalid UTF-8, and damaged target types and path kinds as such.",
 ["fault_sequences", "inputs"], "every class file and every single-value damage of a discriminator in it",
 "No test provokes a parser error.",
 ["src/result.rs", "src/basic/parser/mod.rs", P+"code.rs", P+"method.rs", P+"annotation.rs"], [("error construction at each dispatch", "src/basic/parser/*.rs")],
 ["jbcrs::Error"]))
T.append(p("C18", "The dump program prints all of an undisturbed read or fails",
 "For whatever short reads and interrupted system calls the operating system makes, the dump program prints the same dump as for an undisturbed read: every constant of the file with its index and value, then the class. If opening or reading fails midway, the bytes read are not a class file, or the output cannot be written, it exits with a failure status, and in the first three cases prints nothing.",
 ["fault_sequences", "schedules"], "every sequence of short and interrupted reads and writes, read errors, early ends of file and output errors at any call",
 "No test runs the program.",
 ["examples/basic_read_class.rs", "src/basic/constpool.rs", "src/basic/parser/mod.rs"], [("read to the end before parsing, print after", "examples/basic_read_class.rs main"), ("pool iteration", "src/basic/constpool.rs PoolIter")],
 ["standard output", "exit status"]))
T.append(p("C19", "Stored strings come back exactly or are refused",
 "Whatever bytes were delivered, a string constant or debug extension is returned only if its bytes are modified UTF-8, and then with exactly the characters they encode, including the two-byte zero and surrogate pairs as one character. Broken sequences, bad continuation bytes, unpaired surrogates, raw zeros and four-byte forms are refused.",
 ["inputs", "fault_sequences"], "every string of every length and every damage of its bytes or length",
 "One test decodes a single ASCII string.",
 [P+"decode.rs"], [("modified UTF-8 decoding", P+"decode.rs Decoder::read_str")],
 ["Pool::get_utf8", "Attribute::SourceDebugExtension", "Error::InvalidUTF8"]))
T.append(p("C20", "Type descriptors round-trip and invalid ones are refused",
 "A string parses as a type descriptor exactly if it is one (up to 255 dimensions, then a primitive tag, or a class name of one or more characters other than a semicolon between L and a semicolon), and printing the result gives the string back. A descriptor built from its parts is equal to the one read from its string, prints as that string, and differs from any other. Printing into something that fails on the way fails, too, and has printed a part of it.",
 ["inputs", "fault_sequences"], "every string a caller can come by, in particular the constants of a stored class file, intact, torn or spliced",
 "Tests sample about a dozen strings.",
 ["src/types.rs"], [("descriptor grammar", "src/types.rs TypeDescriptor::from_str, fmt")],
 ["TypeDescriptor::from_str", "Display"]))
T.append(p("C21", "Method descriptors round-trip and invalid ones are refused",
 "A string parses as a method descriptor exactly if it is one (up to 255 parameters, then a return type or void), and printing the result gives the string back. A descriptor built from its parts is equal to the one read from its string, prints as that string, and differs from any other. Printing into something that fails on the way fails, too, and has printed a part of it.",
 ["inputs", "fault_sequences"], "every string a caller can come by, in particular the constants of a stored class file, intact, torn or spliced",
 "Tests sample about two dozen strings.",
 ["src/types.rs"], [("descriptor grammar", "src/types.rs MethodDescriptor::from_str, fmt")],
 ["MethodDescriptor::from_str", "Display"]))
T.append(p("C22", "Equality of constants is bitwise and agrees with hashing",
 "Two constants are equal exactly if they have the same kind and the same operands, floating-point operands being compared by their bits, equal constants always hash equally, and a copy of a constant equals it.",
 ["inputs", "histories"], "every pair of constants that clients make or read from intact or damaged files, under every hash seed",
 "Tests compare four pairs.",
 ["src/basic/constpool.rs"], [("manual Eq and Hash", "src/basic/constpool.rs")],
 ["Item: Eq, Hash"]))
T.append(p("C23", "Work is bounded by the bytes present",
 "Parsing n bytes, intact or damaged, ends after a number of steps, and after obtaining and moving a number of bytes of memory, below a fixed multiple of n plus a fixed constant, however the bytes nest, repeat or refer to each other. The same holds for pushing, looking up and iterating n constants of a pool, and for reading and printing a descriptor of n characters.",
 ["inputs", "fault_sequences", "histories"], "every file, in particular ones in which anything the format can repeat or nest is repeated up to its limit, every damage, every size of pool, every descriptor",
 "The tests use a few small files; a quadratic step shows only with tens of thousands of entries, an exponential one only with deep nesting.",
 ["src/basic/parser/mod.rs", P+"code.rs", P+"annotation.rs", "src/basic/constpool.rs", "src/types.rs"], [("one pass over the bytes", "src/basic/parser"), ("hashed lookup of constants", "src/basic/constpool.rs Pool::push"), ("names of attributes are not copied", "src/basic/parser/mod.rs parse_attributes")],
 ["edges of control flow taken", "global allocator", "memcpy, memmove"]))
T.append(p("C24", "A refused descriptor is reported with itself and the place",
 "When a string is refused as a type or method descriptor, the error is the one for invalid descriptors and holds the whole string, unchanged, and a position counted in characters: that of the first character with which the string can no longer become a descriptor (its length, if only something is missing), or the one just before it. A method descriptor refused only for having more than 255 parameters may be reported elsewhere within it.",
 ["inputs", "fault_sequences"], "every string a caller can come by, in particular the constants of a stored class file, intact, torn or spliced",
 "No test looks at the error of a refused descriptor.",
 ["src/types.rs", "src/result.rs"], [("error position", "src/types.rs from_str err!")],
 ["Error::InvalidDescriptor"]))
T.append(p("C25", "Of several damages the first in the file is reported",
 "When a value of a class file is refused as undefined or as invalid UTF-8, the error is the one for that first damage in file order, whatever else is damaged, lost or misplaced behind it in the file.",
 ["fault_sequences", "inputs"], "every class file, every first damage of a discriminating value or string, every combination of damages behind it",
 "No test provokes a parser error.",
 ["src/basic/parser/mod.rs", P+"code.rs", P+"method.rs", P+"annotation.rs", P+"decode.rs"], [("strictly sequential reading, errors returned where they occur", "src/basic/parser")],
 ["jbcrs::Error"]))
T.append(p("C26", "Names are looked up through the pool, and refusals name the entry",
 "At any point of any history of a pool (new, read from a class file, and extended), for every index: looking up a string or a class name returns exactly the string stored there or referred to from there, the optional class name being none exactly if the class constant refers to index 0. Everything else is refused with the invalid-constant error that names the entry at fault: the index asked for, or for a class constant whose name is not a string, the index of that name.",
 ["histories", "inputs"], "every pool reachable by reading (intact or damaged images) and pushing, every index 0..65535, every point of the history, references forwards, backwards, to themselves, to unusable slots and beyond the end",
 "No test looks a name up.",
 ["src/basic/constpool.rs"], [("lookups by kind", "src/basic/constpool.rs Pool::get_utf8, get_class_name, get_class_name_opt")],
 ["Pool::get", "Pool::get_utf8", "Pool::get_class_name", "Pool::get_class_name_opt", "Error::InvalidCPItem"]))
T.append(p("C27", "Pools and descriptors in use at once leave each other alone",
 "What an operation on a pool answers (creating, pushing, looking up, iterating, measuring), and what comparing or hashing constants and reading, comparing or printing descriptors answers, depends only on what was done with that pool, or on those constants or that string. It is the same under any interleaving with other pools, parses and descriptors on the same and on other threads, after any history, and under any hash seed.",
 ["schedules", "histories"], "every interleaving, on one or more threads, of users of different pools, of descriptors and of parses, also of users who do nearly the same; every hash seed",
 "Tests use one pool or descriptor at a time, on one thread.",
 ["src/basic/constpool.rs", "src/types.rs"], [("a pool owns all it knows", "src/basic/constpool.rs Pool"), ("no shared or retained state", "src/types.rs")],
 ["Pool", "Item", "TypeDescriptor", "MethodDescriptor"]))
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for t in T:
        assert len(t['title']) <= 80, t['title']
        f.write(json.dumps(t, ensure_ascii=False) + '\n')
print(len(T))
