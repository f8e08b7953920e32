import json
D="src/demangler.rs"; R="src/nodes/derived.rs"; E="src/nodes/enums.rs"; M="src/mangled_string.rs"; C="src/cache.rs"; L="src/lib.rs"
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["return value and buffer contents of the public functions demangle / demangle_into"]
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
P=[]
P.append(p("U01","Every input is answered: never a panic, abort, overflow or hang",
 "For every string (well-formed, malformed, truncated, adversarial, arbitrarily deeply nested, any Unicode) and every flag combination, demangling returns normally with either a result or an error. It never panics, never overflows the stack of an ordinary 2 MiB thread, never aborts the process, and takes time in line with the size of the input and of the (bounded) output.",
 ["inputs","configurations"],"all strings x all 1024 flag sets",
 "The tests run a few hundred fixed, mostly valid names with mostly default flags; none is deeply nested, and only a handful is malformed. Absence of panics is a statement about all inputs.",
 [D,M,R,C],[("checked consumption of the mangled text",M),("nesting limit of the recursive parser",D+" enter_nesting_level"),("node budget",C+" intern"),("bounded writer",D+" BufWriter::write")],
 [("mangled_name","remaining input",D),("nesting","open symbols, types and templates",D)]))
P.append(p("U02","demangle_into: buffer holds exactly the result, or is empty after an error",
 "After demangle_into succeeds the caller's buffer contains exactly the text demangle returns for the same arguments, whatever the buffer held before; after it fails the buffer is empty. Either way the buffer stays usable and its allocation is handed back to the caller (its capacity is never smaller than before the call), also when the failure occurs while the output is being written.",
 ["inputs","histories"],"all inputs x flags x prior buffer contents/capacities, and all sequences of calls reusing one buffer",
 "The tests only ever use demangle with a fresh buffer; buffer reuse, stale contents and failures in the middle of rendering are never exercised.",
 [L,D],[("clear before parsing",L+" demangle_into"),("buffer is taken for rendering and restored on error",D+" parse_into")],
 [("result","the caller's buffer",L)]))
P.append(p("U03","Demangling is a pure function of (name, flags)",
 "The outcome of a call depends only on the mangled name and the flags: repeating it, interleaving it with any other calls (successful or failing), or running it concurrently from several threads never changes the outcome of any call. No state carries over from one call to the next.",
 ["histories","schedules","inputs"],"all call histories and thread interleavings over all inputs and flags",
 "Every test makes isolated calls from a fresh state and asserts one output; carried-over state (back-reference tables, caches, flags, counters) shows only across a sequence or an interleaving of calls.",
 [L,D,C],[("fresh arena, node cache and back-reference tables per call",L+" demangle_into"),("Demangler::new",D)],
 [("backrefs","back-reference tables",D),("cache","node storage",C)]))
P.append(p("U04","Function symbols decode to the right declaration",
 "For every function encoding, the demangled declaration shows exactly what the mangled text encodes: access level, static/virtual/extern \"C\", return type, calling convention, qualified name, parameter list (including void and variadic forms), this-qualifiers, ref-qualifier, noexcept and thunk adjustments, each in its conventional place. Nothing encoded is dropped or invented and nothing is taken from a neighbouring field.",
 ["inputs"],"all function symbols: every function class code x calling convention x qualifier/ref/noexcept/variadic combination x parameter and return types",
 "The tests sample a few dozen of the thousands of combinations of class code, convention, qualifiers and suffixes.",
 [D,R,E],[("demangle_function_encoding / demangle_function_class / demangle_function_type",D),("FunctionSignatureNode output",R)]))
P.append(p("U05","Types and declarators decode at every nesting",
 "Every type encoding - primitive, class/struct/union/enum, pointer, reference, rvalue reference, member pointer, function, array, custom - and every nesting of them is rendered as the C++ declarator it denotes: each const/volatile/__restrict/__unaligned qualifier lands on the level it was encoded for, array bounds and function parameter lists attach to the right declarator with balanced parentheses, and storage-class and access text of variables matches the encoding.",
 ["inputs"],"all type encodings, nested to any depth below the limits",
 "Tests list particular declarators; interactions between nesting levels (pointer to array of member pointers, qualifiers on arrays or function pointers) are a product space they sample sparsely.",
 [D,R,E],[("demangle_type and the per-kind productions",D),("output_pre/output_post pairs",R),("Qualifiers::output",E)]))
P.append(p("U06","Name back-references resolve to the memorised name of their own context",
 "A digit in a name position denotes the (digit+1)-th distinct name memorised so far in the same template context, in order of first appearance; at most ten names are memorised, repeated names are memorised once, and every template instantiation starts with an empty table whose effects vanish when it ends. A mangled name and its fully spelled-out equivalent demangle to the same text, and a reference to a name that was not memorised is an error.",
 ["inputs"],"all symbols with any number, order and nesting of memorised names and references",
 "Back-reference behaviour depends on the whole history of names seen so far; tests contain short histories and never reach the tenth/eleventh entry in most positions.",
 [D],[("memorize_string / memorize_identifier / demangle_back_ref_name",D),("context swap in demangle_template_instantiation_name",D)],
 [("backrefs.names","first ten distinct names of the current template context",D)]))
P.append(p("U07","Parameter back-references resolve to the memorised parameter type",
 "A digit in a function parameter list denotes the (digit+1)-th memorised parameter type of the current template context; exactly those parameters whose encoding is longer than one character are memorised, in order of completion, at most ten, including those of nested function types. Replacing a reference by the encoding it stands for does not change the demangled text, and a reference to a missing entry is an error.",
 ["inputs"],"all parameter lists with any mix of short, long, nested and referenced parameters",
 "As for names: the meaning of a digit depends on the whole preceding history, including nested function types, which tests sample only shallowly.",
 [D],[("demangle_function_parameter_list",D)],[("backrefs.function_params","first ten multi-character parameter types",D)]))
P.append(p("U08","Template arguments decode completely and in order",
 "Every template argument form - types, qualified types, arrays, template aliases, integers, pointers/references to symbols, member pointers with their offsets, auto arguments, empty packs - is rendered in order, separated by commas and enclosed in one balanced pair of angle brackets, for templates nested to any depth and in every position a template name may occur. Pack separators contribute nothing to the argument list.",
 ["inputs"],"all template argument lists, all nestings",
 "Tests contain individual examples of each form but not their combinations, nestings, and positions.",
 [D,R],[("demangle_template_parameter_list",D),("TemplateParameterReferenceNode / NodeArrayNode output",R)]))
P.append(p("U09","Encoded numbers decode to their exact value everywhere",
 "A single digit d denotes d+1 and a letter string denotes its base-16 value (A=0 .. P=15) up to 64 bits, negated by a leading '?'; the exact decimal value appears in the output wherever numbers occur (array bounds, template integers, member-pointer and thunk offsets, scope numbers, vcall offsets, RTTI descriptors, guards). Values outside the range of the field they are used in, or of a forbidden sign, are errors wherever the format requires the field to be in range, and otherwise are reduced to the field's width.",
 ["inputs"],"all encoded numbers (all lengths, signs and boundary values) in every numeric position",
 "Tests contain about twenty distinct numbers; boundaries (2^31, 2^32, 2^63, 2^64, zero, negative zero, over-long encodings) are not covered.",
 [D,R],[("demangle_number / demangle_unsigned / demangle_signed",D)]))
P.append(p("U10","String literal symbols decode to the encoded text",
 "For string literal symbols the character width (char, char16_t, char32_t, wchar_t) is inferred as documented, every encoded byte or character is decoded and escaped exactly once in order, the terminator is left out, and '...' is appended exactly when the literal was truncated. Malformed literals are errors.",
 ["inputs"],"all literal encodings: every byte value in every escape form, all lengths and widths",
 "The tests hold two tables of examples; the width heuristic, truncation and escaping interact over all byte sequences and lengths.",
 [D,R],[("demangle_string_literal, demangle_char_literal, guess_char_byte_size, output_escaped_char",D),("EncodedStringLiteralNode output",R)]))
P.append(p("U11","Operators and special names map to their documented spelling",
 "Every operator, constructor/destructor, conversion and literal operator code, every compiler-generated name (vftable, vbtable, vcall thunk, RTTI structures, static guards, dynamic initializers/destructors, MD5 names, type-info names) is rendered as its own documented spelling together with the class, target or variable it belongs to. Two different codes never share a spelling unless documented, codes reserved without a meaning name nothing, and codes of unknown groups or of special symbols that are not supported are errors.",
 ["inputs"],"all identifier codes x all enclosing scopes and targets",
 "The tests cover many codes once, in one fixed scope each; the mapping of all 100+ codes under every enclosing construct is not covered.",
 [D,R],[("translate_intrinsic_function_code, demangle_special_intrinsic",D),("identifier node output",R)]))
P.append(p("U12","Each flag removes exactly its own elements, at every nesting level",
 "Setting a flag removes exactly the documented elements from the default output - calling conventions, tag words, access words, member-type words, return types, variable types, this-qualifiers, leading underscores of or entire Microsoft keywords, everything but the name - at every nesting level where they apply, leaves the rest in its order, and leaves no stray or missing separators or unbalanced brackets. Flags act independently, any combination behaves as each of its flags, bits that are not assigned to a flag have no effect, and flags never change whether a symbol is accepted unless the output would be too long.",
 ["inputs","configurations"],"all 1024 flag sets x all symbols",
 "Each flag has a few tests on simple symbols; combinations and flags inside template arguments, local scopes, function pointers and special symbols are untested.",
 [L,R,E],[("flag tests in the output functions",R),("Qualifiers/CallingConv output",E)]))
P.append(p("U13","Exactly the well-formed names are accepted",
 "A string is accepted if and only if it is a well-formed mangled name of the supported grammar (within the documented resource limits); anything truncated before its end or violating the grammar is reported as an error rather than being guessed at. Text following a complete symbol is ignored, except for type-info names, RTTI type descriptors and guard numbers, where it is an error.",
 ["inputs"],"all strings, in particular all truncations and single-character edits of well-formed names",
 "Only a dozen malformed strings appear in the tests; acceptance is a property of all strings.",
 [D,M],[("error returns of every production",D),("lookahead predicates",M)]))
P.append(p("U14","Output, node and nesting limits bound every call; only abusive names hit them",
 "Output (and every intermediate rendering) is refused with an error exactly when it would reach 1 MiB; names that would build more than about two thousand syntax nodes, nest several hundred levels deep, or make the decoder render more than about four MiB of names for back-references altogether are refused; everything below these limits is accepted. A short name whose back-references expand exponentially is therefore refused quickly rather than exhausting memory or time.",
 ["inputs"],"all inputs around and beyond the limits",
 "No existing test comes near any limit.",
 [D,C],[("BufWriter::write limit",D),("NodeCache::intern budget",C),("nesting limit",D),("account_for_rendered_name",D)]))
P.append(p("U15","Identifiers are preserved verbatim, including non-ASCII text",
 "Every identifier of the mangled name - of any length and containing any characters but the terminator - appears in the output unchanged, character for character, also when it is reached through a back-reference, inside templates, scopes or literals operators, and in compiler-generated names. Multi-byte characters are never split, dropped, re-encoded or miscounted, and separators are placed the same way as for ASCII names.",
 ["inputs"],"all identifier texts (ASCII and non-ASCII, 1 char to many KB) in all identifier positions",
 "Only one or two tests contain non-ASCII text; byte/char confusions show up only for multi-byte names in particular positions.",
 [M,D,R],[("MangledString consumption by char and by byte",M),("memorize_string",D)]))
P.append(p("U16","Scopes: nested, local and anonymous scopes render outermost first",
 "The qualified name lists the enclosing scopes outermost first separated by '::', for any number and kind of scopes - namespaces, classes, templates, anonymous namespaces, and numbered local scopes, which embed the complete declaration of the enclosing symbol between back-tick and quote followed by the decoded scope number. Names memorised while decoding an enclosing symbol stay available exactly as the mangling order prescribes.",
 ["inputs"],"all scope chains of any length, kind and nesting",
 "Tests show short chains, one level of local scope and few combinations of kinds.",
 [D,M,R],[("demangle_name_scope_chain / demangle_name_scope_piece / demangle_locally_scoped_name_piece",D),("starts_with_local_scope_pattern",M),("QualifiedNameNode output",R)]))
P.append(p("U17","A refusal says why: resource limits are told apart from malformed names",
 "Every refused call reports an error that tells the reason: Error::MaliciousInput - itself, or inside the I/O error (kind OutOfMemory) of a rendering that reached 1 MiB - exactly when a resource limit (output, nodes, nesting, rendered text) refused the name; Error::InvalidBackRef exactly when a digit in a name position refers to a name that was never memorised; and one of the other errors for every other malformed or truncated name, however large its output would have become had it been complete. What comes first in the name decides. demangle and demangle_into give the same reason, every error has a message, and no name yields output that is not UTF-8.",
 ["inputs","configurations"],"all refused strings x flags",
 "The tests only assert that some names fail, never with which error; whether a limit, a dangling reference or a flaw is met first depends on the whole name.",
 [D,C,L],[("MAX_NESTING / enter_nesting_level",D),("node budget",C+" intern"),("bounded writer",D+" BufWriter::write"),("demangle_back_ref_name",D),("Error",L)],
 [("nesting, storage","resources used so far",D)],["the error returned by demangle / demangle_into"]))
P.append(p("U18","Memory: a call keeps none, and needs no more than its name makes it build",
 "When a call has returned - successfully or not - and its result is dropped, nothing the call allocated remains allocated, however often calls are repeated (what is set up once for the whole process or thread aside). While it runs, a call allocates no more than in proportion to the length of the name, the syntax nodes it builds (well below 512 bytes each on average), the names it renders for back-references, and its output, so that the limits on these bound the memory of every call: a short name can never make it allocate a hundred MiB.",
 ["inputs","histories"],"all names x flags, accepted and refused, repeated without end",
 "No test looks at memory at all; leaks and amplification depend on the path taken through the decoder.",
 [D,C,L],[("Bump arena of demangle_into",L),("NodeCache::intern",C),("render_name / account_for_rendered_name",D),("parse_into",D)],
 [("allocator, storage, rendered_bytes","what the call has built so far",D)],["allocation and deallocation around demangle / demangle_into"]))
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
