T = "path-sensitive abstract interpretation of clang IR (effects, heap shape, typestate)"
CORE = ["block.c", "boxed.c", "cee-common.c", "closure.c", "dict.c", "env.c", "list.c", "map.c", "n_tuple.c", "quadruple.c",
        "set.c", "stack.c", "state.c", "str.c", "tagged.c", "triple.c", "tuple.c", "cee-header.h", "cee-resize.h", "release/cee.c"]

prop("P01", "Every managed object stays on its state's chain exactly once until freed",
     """Every object a cee constructor returns is owned by exactly one state: it is reachable from that state exactly once from
     the moment it is created until it is deleted, however it is resized or moved in between. Deleting an object takes it out,
     leaves its neighbours linked and frees its memory and everything only it owns exactly once; deleting the state frees every
     object that is still left, without using any object after it is freed.""",
     ["histories", "inputs"],
     "every sequence of create/resize/delete of every object type, every position of an object in its state, all sizes",
     """the two test programs build a few dozen objects in one order and free everything at once; they never delete from the
     middle, never move an object and do not look at memory""",
     CORE, [("chain / de_chain / resize templates", "cee-header.h, cee-resize.h"), ("delete actions", "each module's trace function"),
            ("state deletion", "state.c")],
     (T, """Every public function of the core (source tree and release amalgamation) is analysed on all abstract paths with
     symbolic inputs; loops are widened to a fixpoint. Assumes malloc succeeds and that objects of different field types do not
     alias. Decides the chain and free discipline, not total memory use."""))

prop("P02", "Marking a live object reaches everything the object holds",
     """When the collector marks an object, the object itself gets the current mark and marking continues to everything it
     holds: every element of a list, stack or n-tuple, every slot of a tuple, triple, quadruple, tagged value or environment,
     every element of a set, both halves of every pair of a map and its list of ordered keys, the keys and values of a dict,
     and a closure's environment. Nothing else is marked. So no object that a root can reach through containers is left
     unmarked.""",
     ["inputs", "histories"],
     "every object type, every size including empty and every element position, both marks, both kinds of marking action",
     """the tests never run a collection, and a missing edge only shows when the object behind it is reachable in no other
     way""",
     CORE, [("mark actions", "each module's trace function, default case"), ("cee_trace", "cee-common.c"), ("state marking", "state.c")],
     (T, """The mark action of every object class (found through its constructor) is analysed on a symbolic object; the pointers the
     object holds are found from its constructor. Tree walkers are modelled as one visit per node. Object graphs are taken to be
     acyclic: marking a cyclic graph does not terminate in cee-std, which is outside the property."""))

prop("P03", "A collection deletes exactly the objects no root reaches, and roots work",
     """cee_state_gc marks everything reachable from the state's roots and contexts with the next mark, then deletes every object of
     the state whose mark differs and only those, without deleting the elements they hold by policy and without using a deleted
     object; the mark alternates between collections. The objects that survive are left as they are. A root added with
     cee_state_add_gc_root or a context added under a key keeps its object alive until it is removed, and
     cee_state_get_context returns the object last added under the key.""",
     ["histories", "inputs"],
     "every state, every mixture of marked and unmarked objects in any order, both values of the next mark, all roots and contexts",
     """a collection is never run by the tests; whether a sweep over a chain stays correct depends on which neighbours are
     deleted, which cannot be enumerated""",
     ["state.c", "cee-common.c", "cee-header.h", "release/cee.c"], [("cee_state_gc", "state.c"), ("roots and contexts", "state.c"), ("chain", "cee-header.h")],
     (T, """cee_state_gc is analysed for both marks and for chains of objects carrying either mark: order of phases, direction and end
     of the sweep, the link read before each deletion, the action passed. Objects created since the last collection may survive one
     more collection, which the property allows."""))

prop("P04", "Reference counts and deletion policies do what cee.h says",
     """For an object with a given reference count and retained flag: taking a reference under DEL_RC adds one to the count, under
     DEL marks it retained, under NOOP changes nothing; giving a reference back under DEL_RC subtracts one, under DEL_RC from
     a retained object or under NOOP or DEL does what the policy documents; deleting a reference deletes the object exactly when
     it was the last one and nothing retains it; cee_del deletes unconditionally; a NULL object is left alone. No other part of
     the object's header changes.""",
     ["inputs", "histories"],
     "every policy, every reference count, retained or not, every primitive",
     """the tests exercise these primitives only through a few containers with the default policy, and a wrong count shows as
     a leak or as a use after free much later""",
     ["cee-common.c", "cee.h", "release/cee.c"], [("count primitives", "cee-common.c: cee_incr_indegree, cee_decr_indegree, cee_decr_rc, cee_del_ref, cee_del_e, cee_del")],
     (T, """Each primitive is analysed for every policy and abstract header (retained 0/1, count 0, 1, 2, n) against a reference table
     derived from cee.h; bit fields are tracked bit-precisely. Counts are taken to stay within their 16 bits."""))

prop("P05", "Containers take one reference per stored element and give it back",
     """A container that stores an element takes exactly one reference to it under the container's deletion policy, and gives exactly
     that one back when the element leaves it (removed, popped, or replaced by another value under the same key). An operation
     that stores or removes nothing (a full stack, an index or key that is not there, an element a set already holds) changes no
     reference count. Lists and sets derived from other containers count their elements too unless the source does not manage
     them.""",
     ["inputs", "histories"],
     "every container type and operation, every policy (maps: every pair of policies), elements present or absent",
     """the tests use one policy and do not look at reference counts; leaks and premature deletion appear only for particular
     sequences of add, replace and remove under particular policies""",
     CORE, [("storing and removing operations", "list.c, stack.c, set.c, map.c, tuple.c, triple.c, quadruple.c, n_tuple.c, tagged.c, env.c, dict.c"),
            ("cee_incr_indegree / cee_decr_indegree", "cee-common.c")],
     (T, """Every operation is analysed once per policy with the container's policy fields (found through its constructor) holding that
     constant; the count operations on each path are compared with the elements that path stores or removes."""))

prop("P06", "Deleting a container applies its policy to each element exactly once",
     """Each constructor records the deletion policy it is given (DEL_RC when it takes none). When a container is deleted, every element it
     holds is released exactly once according to that policy: under DEL_RC its reference is deleted, under DEL it is deleted, under
     NOOP it is left alone. What the container made for itself (a map's pairs and its list of keys, a dict's lists) is deleted exactly
     once and nothing else is released. Clearing a set releases its elements the same way and leaves it empty.""",
     ["inputs", "histories"],
     "every container type, every policy, every size including empty",
     """the tests delete whole states, where policies play no role""",
     CORE, [("delete actions", "each module's trace function, case CEE_TRACE_DEL_FOLLOW"), ("cee_del_e", "cee-common.c")],
     (T, """The delete action of every container class is analysed once per policy; releases on each path are compared with the elements
     found in the object's layout. Loops must visit every index or node exactly once."""))

prop("P07", "Lists and stacks hold exactly the elements put into them, in order",
     """cee_list_append adds an element behind the last one, cee_list_insert puts it at the given index and moves the elements from there on
     up by one, cee_list_remove takes out the element at the index and moves the later ones down by one, each changing the size by one
     and no other element. An index outside the list changes nothing (cee_list_remove returns false). cee_list_iterate and
     cee_list_merge visit the elements in order, each once, with its index, iteration stopping at the first non-zero result and
     returning it. A stack returns elements last in, first out; cee_stack_top(n) the nth from the top; a full stack refuses a push and
     an empty one a pop. The capacity never falls below the size, and the memory always covers the capacity.""",
     ["inputs", "histories"],
     "every size and capacity including 0, every index including negative ones and the size itself, every history of operations",
     """the tests append a handful of elements and never insert, remove or exhaust a capacity""",
     ["list.c", "stack.c", "release/cee.c"], [("list operations", "list.c"), ("stack operations", "stack.c")],
     (T, """Operations are analysed on a container of symbolic size and capacity, 0 <= size <= capacity; header fields that follow the size are
     inferred and shown inductive; loops that move elements are decided from one symbolic iteration (direction, stride, first and
     last element). Sizes are taken to stay below 2^31."""))

prop("P08", "The search tree stays an ordered balanced tree under every operation",
     """musl_tsearch, musl_tfind, musl_tdelete, musl_twalk and musl_tdestroy keep a binary search tree: inserting a key that is not there
     adds exactly one node for it and returns the node, inserting one that is there changes nothing and returns its node; finding
     returns the node whose key compares equal or NULL; deleting removes exactly that node, keeps every other key, frees one node
     once and returns the node that was above the key's (unless it was the root; NULL if the key is not there). After every operation the keys are ordered, every node's children differ in height by at most one and the stored heights
     are right. Walking visits every node in order (inner nodes three times, leaves once, with the right depth), destroying calls back
     once for every key and frees every node once.""",
     ["inputs", "histories"],
     "every balanced tree, every key in it or between its keys, every operation",
     """the tests never build a tree that needs rebalancing; a wrong rotation or height shows only for particular shapes and only
     much later as a lost key or slow lookup""",
     ["musl-tsearch.c", "musl-search.h", "release/cee.c"], [("tree operations", "musl-tsearch.c")],
     ("abstract interpretation of clang IR over tree shapes (shape analysis, no solver)",
     """The transformers of the tree operations are applied to every balanced shape of up to three levels (thorough: four levels), with
     opaque keys ordered by position and the searched key at every place; the result shape is compared with the specification. Higher
     trees are not covered: the operations work on one node and its two levels of children at a time."""))

prop("P09", "Maps, sets and dicts hold exactly what was put into them",
     """A map behaves as an association list under its comparison function: cee_map_add (and add_e, which asks the merge function for the
     value kept when the key is there) binds a key and returns the previous value, cee_map_find returns the value bound last or NULL,
     cee_map_remove unbinds exactly that key and returns its value, cee_map_rename moves a value to another key, cee_map_size, keys,
     values, insertion_ordered_keys (oldest binding first), iterate (every pair once, until a callback returns non-zero, which is
     returned), merge and clone agree with it. A set behaves as a set the same way (add, find, remove, clear, size, empty, values,
     iterate, union, clone; sets under different comparison functions are not joined). A dict finds the value added under a string and nothing else, also when hashes collide and after the
     table has grown. Operations on one container never change another. NULL counts as an empty map or set for size, find, remove,
     empty and iterate.""",
     ["inputs", "histories"],
     "every sequence of operations, every comparison order of the keys, every number of entries",
     """the tests use one map with three keys, never remove from a map and never use a set or a dict; mistakes depend on where
     the key sits in the tree or the table""",
     ["map.c", "set.c", "dict.c", "musl-tsearch.c", "musl-hsearch.c", "list.c", "tuple.c", "release/cee.c"],
     [("map", "map.c"), ("set", "set.c"), ("dict and hash table", "dict.c, musl-hsearch.c")],
     ("abstract interpretation of clang IR over container shapes (shape analysis, no solver)",
     """The transformers of all public operations are applied to containers of up to three entries (thorough: four) built in every order,
     with opaque keys and values and the operand key at every place of the order; everything observable is compared with an
     association list. Dicts: ten keys, colliding and not, across two growths of the table. Values are not NULL; adding a key to a dict twice is
     outside the property."""))

prop("P10", "Products, closures and environments give back what they were built from",
     """A tuple, triple, quadruple or n-tuple holds the arguments it was made from, in order (an n-tuple of more than 16 elements is refused by
     aborting); a tagged value keeps its tag and pointer, a singleton its tag and value, a closure its function and environment, an
     environment its outer environment and variables. cee_get_state of any object gives the state it was made in.
     cee_tuple_update_del_policy changes how exactly that element is released when the tuple is deleted. cee_closure_call calls the
     closure's function once with the caller's state, the closure's environment, the number of arguments and the list of arguments in
     order, and returns its result, NULL included. cee_env_find returns the value bound in the innermost environment that binds the
     key, NULL if none does; environments without variables are skipped.""",
     ["inputs", "histories"],
     "every constructor and argument, every number of arguments, every chain of environments, every subset binding the key",
     """the tests build none of these objects directly""",
     ["tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "closure.c", "env.c", "singleton.c", "cee-common.c", "release/cee.c"],
     [("constructors", "each module"), ("cee_closure_call", "closure.c"), ("cee_env_find", "env.c")],
     ("path-sensitive abstract interpretation of clang IR (dataflow of opaque arguments)",
     """The effect of each function on opaque arguments: where each argument ends up, which indirect call is made. Chains of up to three
     environments stand for all lengths; up to eight call arguments."""))

prop("P11", "Boxed primitives keep their type and value",
     """A value boxed by cee_boxed_from_X is returned unchanged by cee_boxed_to_X, for every X and every value of the type; reading it as any
     other type aborts instead of returning something. cee_boxed_snprint writes the value in the notation of its own type (sign, width,
     floating or integer) into the caller's buffer within the caller's size and returns the length the whole text has.""",
     ["inputs"],
     "all ten primitive types, every value, every pair of boxing and reading type",
     """the tests box a few small numbers; a wrong width or sign shows only for large or negative values of one type""",
     ["boxed.c", "release/cee.c"], [("from/to/snprint", "boxed.c")],
     ("path-sensitive abstract interpretation of clang IR (dataflow of the boxed value, format-string rule)",
     """The value is opaque and followed through the object with its conversions (width and sign exactly); the format string of the one snprintf call
     is compared with the type. Digits printed for floating values are left to snprintf."""))

prop("P12", "Strings keep their text and every block stays inside its memory",
     """cee_str_mk, cee_str_mkv and cee_str_mk_e return a string with room for the whole formatted text and its terminator (mk_e: at least n bytes, and an
     empty string when there is no format); cee_str_strn returns the given bytes and a terminator behind them. cee_str_catf keeps the old text and
     puts the new text behind it, cee_str_add does so with one character, cee_str_replace puts the new text in place of the old;
     each returns the string unchanged when there is no format, and otherwise a string whose header agrees with the memory it occupies. No byte is
     written outside the block, whatever the lengths. Every function that takes variable arguments starts or copies each argument list before using
     it, uses it at most once and ends it. cee_str_ltrim and cee_str_rtrim remove exactly the leading or trailing blanks, tabs, line feeds and
     carriage returns. str_replace_at_offset replaces the given range (inside the string); str_replace_all and str_replace_all_ext replace every
     occurrence of a non-empty needle, left to right, the first needle that fits winning, report the length and leave nothing allocated but the result.
     A block has the size asked for (cee_block_size says so), cee_block_mk's is zeroed, cee_block_mk_e's is handed to its initialiser;
     cee_block_empty is an empty text that deleting and marking leave alone.""",
     ["inputs"],
     "every format and text length, every string and block length, every capacity, every pattern of blanks and of needle occurrences",
     """the tests format a few short strings: an off-by-one shows only when a length meets a capacity""",
     ["str.c", "block.c", "cee-resize.h", "n_tuple.c", "cee-json/value.c", "release/cee.c"],
     [("string operations", "str.c"), ("blocks", "block.c"), ("resize", "cee-resize.h")],
     ("abstract interpretation of clang IR with symbolic lengths (linear bounds), typestate of argument lists, shape analysis of short strings",
     """Lengths and capacities are symbolic: each write is shown to lie in its block by linear inequalities over them. The text vsnprintf produces is not looked into.
     Trimming and replacing run on strings of up to four opaque characters. cee_str_ncat (a stub), empty needles and ranges beyond the string are outside the property."""))

prop("P13", "The JSON parser accepts exactly JSON and builds the value of the text",
     """cee_json_parsex returns 0 exactly when the tokens of its text form one complete JSON value (a comma before a closing bracket is allowed), followed
     by nothing but the end of the text when force_eof is true. The value it hands out then is the one the tokens describe: arrays hold the elements in
     order, objects the members under their keys in the order of first appearance, the last of equal keys winning, every number with the kind and value of its
     token, strings with the string of the token, true, false and null as themselves, to any nesting. Otherwise it returns a non-zero code, sets the value to NULL and
     reports the line the tokenizer has reached. Values nested 500 levels deep are accepted; deeper ones are accepted whole or refused, never
     cut short or written outside the parser's stack.""",
     ["inputs"],
     "every sequence of tokens, every nesting",
     """the tests parse half a dozen well-formed texts; the grammar is decided by the combinations of token and parser state they never reach""",
     ["cee-json/parser.c", "cee-json/value.c", "cee-json/release/cee-json.c", "stack.c", "map.c", "list.c", "tuple.c"],
     [("cee_json_parsex", "cee-json/parser.c"), ("value constructors", "cee-json/value.c"), ("cee_stack_push", "stack.c")],
     ("path-sensitive abstract interpretation of clang IR against the grammar (token alphabet as abstract input, shape analysis of the result)",
     """The tokenizer is abstracted to one that may yield any token: every sequence of up to five tokens (seven: thorough) that the parser reads, every value
     of up to four (five) nodes, and nesting of 500 and 700 levels. Numbers and strings are opaque. Longer sequences are covered as far as the parser's
     state is its stack top and state variable, which is how the bound was chosen, not something the check proves."""))

prop("P14", "The JSON tokenizer reads exactly JSON's tokens and only its buffer",
     """cee_json_next_token skips blanks, tabs, line feeds and carriage returns, counting every line feed and carriage return as a line, and then returns the
     token that starts there: a structural character, true, false, null, a number (no leading zeros, at least one digit after the point and in the
     exponent) or a string; the end of the buffer gives the end token, anything else an error token. The next call goes on right behind the token.
     A string token holds the bytes between the quotes, with every escape replaced by what it stands for: \\uXXXX by the UTF-8 of the code unit, a
     surrogate pair by the UTF-8 of its code point; unpaired surrogates, unknown escapes, control characters and a missing closing quote are errors, and so
     are strings with escapes that are not UTF-8. Integers are delivered as int64_t when they fit, else as uint64_t when they fit, else and with a fraction or exponent as
     double, each converted from exactly the text of the number, whatever errno was before. No byte outside the given buffer is read, the buffer is not changed, and everything allocated on
     the way is released. (What starts with a slash, strings that contain \\u0000, and strings without escapes that are not UTF-8 are not covered.)""",
     ["inputs"],
     "every byte sequence, every buffer length",
     """the tests tokenize a few short ASCII texts; surrogates, numbers at the end of the buffer and invalid escapes are decided by byte values they never contain""",
     ["cee-json/tokenizer.c", "cee-json/tokenizer.h", "cee-json/release/cee-json.c"],
     [("cee_json_next_token", "cee-json/tokenizer.c"), ("string unescaping", "cee-json/tokenizer.c"), ("numbers", "cee-json/tokenizer.c")],
     ("abstract interpretation of clang IR over byte value sets (each path compared with a reference lexer for every text of its class)",
     """Each byte is a set of values split exactly by every condition; 16-bit code units likewise, so whole classes of texts are decided at once, not samples. Texts of up to five
     arbitrary bytes, strings with up to five arbitrary bytes (and more around fixed escapes, two \\u escapes with all their digits), numbers of up to seven characters;
     longer tokens repeat the same loops. strtod, strtoll, strtoull and sscanf are modelled from the C standard; the C locale is assumed."""))

prop("P15", "Printing a JSON value gives JSON text for it, in exactly the space measured",
     """cee_json_snprint without a buffer returns the number of bytes the text takes; with a buffer one byte longer than that it writes exactly that many bytes
     and a terminator, nothing beyond, and returns the same number. cee_json_asprint gives a block that holds the same text with its terminator and reports that
     number as size. The text is JSON and denotes the value: null, true and false, every string and key byte by byte (also the bytes after a NUL in a counted string),
     every number with all the characters cee_boxed_snprint makes of it, all elements in order and all members in the order their keys were added. Compact text
     has no white space outside strings; pretty text differs from it by white space only. Values nested 499 levels deep are printed in full. Printing does
     not change the value. (Undefined values and blobs, which JSON does not have, and doubles that are not finite are not covered.)""",
     ["inputs"],
     "every JSON value: every nesting, every string and key content, every number, both formats",
     """the tests print a handful of fixed values and compare nothing byte for byte; control characters, counted strings with NULs, empty containers between siblings and the exact
     space needed are not exercised""",
     ["cee-json/snprint.c", "cee-json/release/cee-json.c"],
     [("cee_json_snprint", "cee-json/snprint.c"), ("cee_json_asprint", "cee-json/snprint.c")],
     ("abstract interpretation of clang IR over byte value sets on materialised values (output decoded by a reference grammar for every value of the unknown bytes)",
     """Values of up to four nodes of every shape (five in the thorough tier) and every kind of scalar in every place; strings and keys of up to two unknown bytes (three); nesting of 499 arrays, 200 (499)
     objects, 140 in pretty format. Numbers are opaque texts of fixed lengths (their conversions: P11). The size argument of cee_json_snprint is ignored by the code; the buffer is taken to
     have the measured length and one more."""))

prop("P16", "A JSON value reads back as what it was made from, and as nothing else",
     """The reader of a JSON value's own type gives back what its constructor was given: the same number at full width, the same string, list or map, all bytes and the size of
     a blob, the start and size of a counted string, the truth value, the formatted text. Every other reader refuses it (NULL, false or EINVAL) and stores
     nothing. true, false and null are one value each, and cee_json_bool gives the first two. cee_json_empty is true of arrays and objects without
     elements and of nothing else. The typed setters and appenders put in a value of their type made from their argument, with a copy of the string they are given.""",
     ["inputs"],
     "every constructor, every reader, every argument",
     """the tests build values and print them; they never ask a value for another type, and no number exceeds 32 bits""",
     ["cee-json/value.c", "cee-json/release/cee-json.c"],
     [("cee_json_*_mk", "cee-json/value.c"), ("cee_json_to_*", "cee-json/value.c"), ("cee_json_object_set_*, cee_json_array_append_*", "cee-json/value.c")],
     ("abstract interpretation of clang IR (every constructor on opaque arguments followed by every reader)",
     """Numbers, strings and pointers are opaque, so one path stands for every argument; blobs of 0, 1, 7, 8 and 100 opaque bytes. cee_json_to_intx is only held to give the
     low 32 bits of the number."""))

prop("P17", "JSON objects and arrays change exactly as the operation says",
     """After any operation on a JSON object or array, exactly the members and elements that the operation names have changed. cee_json_object_set makes the value of the key the
     given one and keeps all others and their order (a new key comes last); cee_json_object_remove takes away that key only; cee_json_object_rename keeps the value under
     the new name; cee_json_object_append puts a first value in as it is and then collects values in an array, in order, splicing arrays in, whatever their types;
     cee_json_object_convert_to_i64 replaces a string that is a whole decimal number by that number and touches nothing else; cee_json_set_error adds a member "error" unless there is one. cee_json_array_append, insert,
     remove and concat (also with itself) do to the elements what they do to a sequence; an index outside finds or removes nothing; cee_json_listify gives
     an array with the value, or the array itself. cee_json_merge adds the members that are missing, merges values of members that both have
     (objects member by member, arrays by appending, anything else by taking the new one), and leaves the source alone. cee_json_has finds a key anywhere in the value. Iterations
     meet every member or element once, in order, and stop at the first call that returns non-zero, giving its result.""",
     ["inputs", "histories"],
     "every object and array, every key and index, every value",
     """the tests set a few members and never merge, rename, append twice, or operate on a container and itself; what goes wrong depends on the relation between keys and on the order of operations""",
     ["cee-json/value.c", "cee-json/release/cee-json.c", "map.c", "list.c", "tagged.c"],
     [("cee_json_object_*", "cee-json/value.c"), ("cee_json_array_*", "cee-json/value.c"), ("cee_json_merge", "cee-json/value.c"), ("cee_json_has", "cee-json/value.c")],
     ("abstract interpretation of clang IR with shape analysis, compared with a list model after every operation",
     """Objects of up to three members added in every order, arrays of up to four elements, opaque keys and values; nested values of up to four nodes (five: thorough) for the
     search, 160 pairs of nested values for merging. Larger containers: P07, P08 and P09. Inserting beyond the length is not covered."""))

prop("P18", "cee_json_select finds what its selector says, and reads nothing but it",
     """Following a sequence of selectors from a JSON value, cee_json_select gives the value found there: ".name" the member of that name of an object, "[number]" the element of an
     array at that index, ":t" the value itself if it is of type t (s string, n number of any kind, a array, o object, b boolean, ! null); a '*' in a name or index stands for the
     next argument, whatever characters it contains. It gives NULL when a step finds nothing, finds another type, or the name is longer than any name can be. Whatever text
     is given, well-formed or not, and however long names and arguments are, nothing outside the text and the arguments is read, nothing outside the function's variables is
     written, and the value stays as it is. cee_json_select_as_int stores the signed 64-bit number selected (its low 32 bits) and returns 0; for anything else it returns
     another result and stores nothing. (What malformed selectors give is left open.)""",
     ["inputs"],
     "every selector text, every argument, every value",
     """the tests never select; the selector is a small language whose boundaries - token length, empty tokens, names from arguments, indices beyond the end - a few examples do not reach""",
     ["cee-json/value.c", "cee-json/release/cee-json.c"],
     [("cee_json_select", "cee-json/value.c"), ("cee_json_select_as_int", "cee-json/value.c")],
     ("abstract interpretation of clang IR over byte value sets (each path compared with a reference for every selector of its class)",
     """Selectors of up to four arbitrary bytes (five: thorough) and arbitrary bytes at the ends and inside of longer ones; names and indices of 1 to 300 characters; eleven integer arguments, names
     from arguments of up to three arbitrary bytes. Five nested values and every kind of leaf."""))

prop("P19", "Escaped text is the JSON string of exactly the bytes given",
     """For every sequence of bytes, what cee_json_escape_string writes is, between quotes, a JSON string that denotes exactly those bytes (bytes from 128 up go through
     unchanged). It returns the number of bytes written, reports the place right behind them and the room left (each only if asked for), reads nothing outside the bytes given,
     and changes nothing behind the bytes written but a terminator. (A destination with room for six bytes per byte given and a terminator is assumed: the code does not look at its size.)""",
     ["inputs"],
     "every byte sequence",
     """no test calls it; which bytes need which escape, and how far each one advances, is decided by 256 values in every position""",
     ["cee-json/value.c", "cee-json/release/cee-json.c"],
     [("cee_json_escape_string", "cee-json/value.c")],
     ("abstract interpretation of clang IR over byte value sets (output decoded by a reference grammar for every value of the unknown bytes)",
     """Texts of up to three arbitrary bytes (five: thorough) and longer ones with arbitrary bytes in them."""))

prop("P20", "Loading, saving and merging JSON files handles the whole file or reports failure",
     """Loading from a descriptor, a FILE or a path parses the whole file - every byte, in order, once, however many bytes each read delivers - and gives its value; if opening,
     examining, reading or parsing it fails the result is NULL, and the line of a parse error is reported where asked for. Saving prints the value with the given format and writes the
     whole text; the result says whether every byte was written. cee_json_merge_all saves the merge of the files in order, with the list of their names as "originals",
     and returns 0 exactly if all of it worked; when a file cannot be read the destination stays as it was. cee_json_dprintf writes the formatted text, if there is a format,
     then the value on one line ("null" for none) to the descriptor given. On every path, also the failing ones, each file opened is
     closed once and not used afterwards, a file of the caller's stays open, temporary memory is freed once, and states made inside are deleted after their last use.""",
     ["inputs", "faults"],
     "every file, every outcome of every call to the system",
     """the tests load files that exist from a disk that works; no read is short and no call fails""",
     ["cee-json/value.c", "cee-json/cee_json_merge.c", "cee-json/release/cee-json.c"],
     [("cee_json_load_from_*", "cee-json/value.c"), ("cee_json_save*", "cee-json/value.c"), ("cee_json_merge_all", "cee-json/cee_json_merge.c")],
     ("abstract interpretation of clang IR with the system's calls modelled by all their outcomes",
     """Files of up to three opaque bytes, delivered in every possible way (texts of three bytes when writing), up to three files to merge; open, fstat, read and write fail or
     fall short at each call. Parser and printer are those of P13 and P15. A failing fclose is not covered."""))

SQLF = ["sqlite3/cee-sqlite3.c", "sqlite3/cee-sqlite3.h", "sqlite3/join.c"]
SQLT = "abstract interpretation of clang IR with SQLite's calls modelled by all their outcomes"
prop("P21", "Every SQL statement prepared is finalized once, and used only in between",
     """Whatever SQLite answers to any call, each statement that a function of the SQLite layer prepares is finalized exactly once before the function returns, unless it is handed to the
     caller as asked. Nothing is done with a statement that could not be prepared or that is finalized already; parameters are bound before the first step; columns are
     read only while the statement is on a row. States made for temporary values are deleted.""",
     ["inputs", "faults"],
     "every query, every outcome of every call to SQLite",
     """no test runs the SQLite layer; a statement that is left open only shows when a step fails or a caller stops early, as a database that cannot be closed or stays locked""",
     SQLF,
     [("cee_sqlite3_bind_run_sql", "sqlite3/cee-sqlite3.c"), ("cee_sqlite3_select_iter and all that build on them", "sqlite3/cee-sqlite3.c"), ("cee_sqlite3_*join*", "sqlite3/join.c")],
     (SQLT,
      """The scenarios of P22 to P26: statements with up to three parameters, results of up to three rows of up to three columns; each prepare, step and exec fails or not."""))

prop("P22", "SQL parameters get the value meant for them, or the statement does not run",
     """When cee_sqlite3_bind_run_sql runs a statement with bindings, each parameter of the statement that a binding names is bound to the value for that binding, with its type: the datum given, if it has a value, else the
     value in the binding, else - for a required column (not_null) of an insert - 0 or the empty text, else nothing; a value marked null binds null. (A null value for a required column is left open.) Text has the length given, or
     reaches to its end if none is given; a blob has the length given. The order of bindings does not matter, and
     bindings that the statement does not mention are ignored. A parameter that no binding names keeps the statement from running: the result is SQLITE_ERROR and the error is reported. Otherwise
     the statement is stepped once and the result is that of the step; a statement that cannot be prepared is reported with the error that SQLite gives. Members that the status has already stay.""",
     ["inputs", "faults"],
     "every statement text, every list of bindings and values",
     """no test runs the SQLite layer; the value of a parameter depends on type, kind of statement, flags and two sources of values together""",
     SQLF,
     [("cee_sqlite3_bind_run_sql", "sqlite3/cee-sqlite3.c")],
     (SQLT,
      """Some 700 combinations of statement kind, type, source of the value and flags; up to three bindings with opaque values. Statuses are absent, new or an object."""))

prop("P23", "Rows come back as JSON exactly as they are",
     """cee_sqlite3_select gives an array with one element per row, in order: an object with one member per column - an integer, double, string or null as the column holds (blobs
     as strings) - without the columns marked no_return; a single column marked no_label gives just its value. cee_sqlite3_select1 gives the first row only. cee_sqlite3_select_as and cee_sqlite3_select1_as add it to the status under the key and keep the other members. cee_sqlite3_select_iter calls the function once per row, in
     order, and stops when it returns non-zero. cee_sqlite3_next_int gives the largest value plus one, 1 without rows. A join adds to each element of an array the rows for that element's own key, up to the first element without a key of a usable type or whose query fails, which gets an error. When SQLite fails in the middle, the failure is
     the result and is reported as an error to a caller who wants a status.""",
     ["inputs", "faults"],
     "every result, every set of column flags, every failure at any step",
     """no test runs the SQLite layer; what is lost, doubled or attributed to the wrong row depends on the types of columns, flags, the number of rows and on failures in the middle""",
     SQLF,
     [("cee_sqlite3_select*, cee_sqlite3_next_int", "sqlite3/cee-sqlite3.c"), ("cee_sqlite3_*join*", "sqlite3/join.c")],
     (SQLT,
      """Results of up to three rows with all column types and flags, opaque contents; arrays of up to three elements to join. That the status of a failing
     cee_sqlite3_select is an array is not covered (the code stops there)."""))

prop("P24", "Changing rows does and reports what the operation says",
     """cee_sqlite3_insert, cee_sqlite3_delete run their statement once with the values given; on success the status has the id of the row, or the number of rows deleted, under the key given, "last_insert_rowid" or
     "deleted"; the id is stored where asked for, also without a status. cee_sqlite3_update_if_exists and cee_sqlite3_update search with the select statement and run the update only if it finds a row; the status has
     "updated_rows". cee_sqlite3_update_or_insert inserts if the search finds no row. A statement composed for the operation is used where the fixed one is absent. cee_sqlite3_select1_or_insert gives the row found, or
     inserts and gives its id. cee_sqlite3_insert_json_array inserts one row per element with exactly the columns and values of its members, however many there are. If any statement fails, no later one runs, the result is its result,
     an error is reported and no id and no count; ids and counts are those of the statement meant and are not cut.""",
     ["inputs", "faults"],
     "every set of statements and values, every outcome of every call to SQLite",
     """no test runs the SQLite layer; a failing search that leads to an insert, or a count taken from another statement, needs a failure at a particular call""",
     SQLF,
     [("cee_sqlite3_insert, _delete, _update, _update_if_exists, _update_or_insert, _select1_or_insert, _insert_json_array", "sqlite3/cee-sqlite3.c")],
     (SQLT,
      """Two bindings with opaque values, statements present or absent in all combinations, arrays of up to three objects and one of 53 members. Statuses are absent, new or
     an object."""))

prop("P25", "An operation driven by JSON takes its values and columns from the JSON",
     """cee_sqlite3_bind_data_from_json gives each binding whose column is a member of the JSON that member's value (or null), leaves the values of other bindings as they are, and reports the keys it used, those no binding knows, and an error
     for a value of the wrong type. cee_sqlite3_generic_opcode does the same and runs the operation once, with an insert statement (if wanted) of exactly the columns that have a value or are required and an
     update statement (if wanted) of exactly the columns in the JSON that may be updated; its status has the operation's members, those it had before, and the errors. cee_json_to_bind_info gives one binding per
     member that is not null, with that member's value. The operations on top (cee_sqlite3_insert_op, _update_op, _update_if_exists_op, _update_or_insert_op, _select_op) run the statements that the operation's
     name says with the values of the JSON. An operation made from another by new_cee_sqlite3_db_op shares no data with it.""",
     ["inputs"],
     "every JSON object and every list of bindings",
     """no test runs the SQLite layer; which column gets which value depends on types, flags, old values and the order of members together""",
     SQLF,
     [("cee_sqlite3_bind_data_from_json, cee_sqlite3_generic_opcode, cee_json_to_bind_info, cee_sqlite3_*_op", "sqlite3/cee-sqlite3.c")],
     (SQLT,
      """Some 800 combinations of up to four bindings, objects of up to four members, old values, flags and outputs asked for. What happens to the other members after one of a wrong type is left open."""))

prop("P26", "A database is opened, initialised and handed over, or closed again",
     """cee_sqlite3_init_db opens the file unless a database is given, runs the script once, between the begin and the commit of a transaction if asked for, and leaves the database open for a caller who
     asked for it and closed for one who did not. Nothing but a rollback is executed after a failure, a file that cannot be opened leaves no handle behind, and a failing script does not return as if it had worked. cee_sqlite3_get_pragma_variable
     gives the value of the pragma, 0 if there is none. Attaching and detaching execute the statement documented, for the file in the directory of the main database, on that database, and give SQLite's result and message.""",
     ["inputs", "faults"],
     "every way to be called, every outcome of every call to SQLite",
     """no test opens a database; handles are lost when a call fails""",
     SQLF,
     [("cee_sqlite3_init_db, cee_sqlite3_drop_all_tables, cee_sqlite3_get_pragma_variable, cee_sqlite3_attach_db, cee_sqlite3_detach_db", "sqlite3/cee-sqlite3.c")],
     (SQLT,
      """All combinations of arguments and outcomes; opaque names. A buffer for attaching that is too small is not covered."""))

prop("P27", "String views cut, search, compare and convert exactly the text they view",
     """Each function of strview.c gives for every text what its name says. Trimming takes off the whitespace at its end and nothing else. sv_chop_by_delim and sv_chop_by_sv give the text before the
     first delimiter and leave what is behind it, or give the whole text and leave nothing; sv_try_chop_by_delim and sv_index_of store nothing and change nothing if there is none; sv_chop_left and
     sv_chop_right give n characters, all if there are fewer, and leave the others; sv_chop_left_while and sv_take_left_while give the characters up to the first that the predicate refuses. sv_eq, sv_starts_with
     and sv_ends_with compare every byte, sv_eq_ignorecase apart from the case of the letters A to Z. sv_to_u64 and sv_chop_u64 give the value of the decimal digits at the beginning, modulo 2^64. Nothing outside the views is
     read, nothing is written. (An empty delimiter is left open.)""",
     ["inputs"],
     "every text, every delimiter, every length",
     """no test includes strview.c; what goes wrong depends on where in a text something is found - at its end, partly, repeatedly, not at all - and on every byte value""",
     ["strview.c"],
     [("sv_*", "strview.c")],
     ("abstract interpretation of clang IR over byte value sets (each path compared with a reference for every text of its class)",
     """Views of up to five arbitrary bytes, delimiters of up to three arbitrary (four fixed) bytes; lengths of any size for cutting by number. C locale."""))

prop("P28", "Hash tables, linear search and queues hold exactly what was entered",
     """After any entries into a table of musl_hcreate(_r), musl_hsearch(_r) finds each key entered with the data it was first entered with, and no other key, however the keys collide and however often the table grows;
     entering a key that is there gives the old entry, unchanged. The entry returned is the one in the table. musl_hdestroy(_r) frees every block of the table once, and the table can be created again. musl_lfind gives the
     first element that compares equal or nothing; musl_lsearch adds the key behind the others, and counts it, if there is none. musl_insque puts an element right behind another, or makes it the only one;
     musl_remque takes exactly the element given out, and leaves the others linked in both directions.""",
     ["histories", "inputs"],
     "every sequence of entries and searches, every set of keys, every position in a queue",
     """no test uses these functions; what is lost depends on which keys collide and on when the table grows""",
     ["musl-hsearch.c", "musl-lsearch.c", "musl-insque.c", "musl-search.h", "release/cee.c"],
     [("musl_hsearch_r, resize, lookup", "musl-hsearch.c"), ("musl_lsearch, musl_lfind", "musl-lsearch.c"), ("musl_insque, musl_remque", "musl-insque.c")],
     ("abstract interpretation of clang IR on materialised tables, arrays and queues with opaque contents",
     """17 keys, many of them colliding, entered in several orders across the growth of the table; arrays of up to four pointers; queues of up to five elements, every position. calloc succeeds."""))

prop("P29", "Objects that hold each other live exactly as long as something holds them",
     """For objects of every kind, held in every kind of container at every place, shared or not, without cycles: an object that a root or a context of the state reaches keeps its contents through every collection;
     what nothing reaches any more is freed by the second collection at the latest; deleting the state frees everything that is left. Deleting containers that own
     their elements frees an element with the last container that has it (counted ownership), with the first one (plain deletion) or not at all (no ownership). Every block is freed once and nothing is used after it is freed.""",
     ["histories", "inputs"],
     "every graph of objects without cycles, every order of collections and deletions",
     """the tests have no collection and delete everything at once; whether an object survives is decided by its container's mark action, the collector and the counts together, in every combination of two kinds""",
     CORE,
     [("cee_state_gc, roots, contexts", "state.c"), ("trace functions", "each module"), ("cee_del_ref, cee_del_e", "cee-common.c"), ("delete actions", "each module")],
     ("abstract interpretation of clang IR on materialised object graphs (allocation typestate end to end)",
     """Every kind of object in every kind of container at every place, chains of three kinds (thorough: all of them, with more orders of the addresses), up to four elements. Complements P01 to P06, which judge each action alone for every size. malloc succeeds."""))

prop("P30", "A double survives being written as JSON text and read back",
     """Printing a double and parsing the text gives the same double.""",
     ["inputs"],
     "every finite double",
     """the tests print two or three doubles; there are 2^64""",
     ["cee-json/snprint.c", "cee-json/tokenizer.c"],
     [("number formatting and parsing", "cee-json/snprint.c, cee-json/tokenizer.c")],
     None,
     """The digits are produced and read by libc's printf and strtod, whose numerical behaviour is outside the sources here; cee-std prints with %g, so the property does not even hold in general. The paths that carry the number
     to and from libc are decided in P14 to P16.""")

prop("P31", "Time and memory stay bounded by the live data over long histories",
     """Over any history the memory in use is proportional to the live objects and each lookup costs at most logarithmically many comparisons.""",
     ["histories"],
     "every history of operations",
     """tests run short histories""",
     ["state.c", "map.c", "set.c", "list.c", "musl-tsearch.c"],
     [("collection, balanced tree, growth of arrays", "state.c, musl-tsearch.c, list.c")],
     None,
     """Time and memory over histories are runtime quantities that no sound static argument in reach bounds. The local facts behind them are decided elsewhere: balance of the tree (P08), growth of the capacity (P07),
     everything unreachable is freed (P03, P29).""")

prop("P32", "What happens to one state never depends on what was done before or elsewhere",
     """cee-std keeps nothing outside the objects, states, blocks and databases that its callers hold: no variable of the library (file scope or static) carries anything from one call to
     another, so what a call does depends only on its arguments and what they lead to - not on earlier calls, not on other states - and calls on different states can take turns in any way. No function changes or uses
     settings common to the process, such as the locale, the environment, the working directory, signal handlers, strtok's or rand's state. The exceptions are the table that musl_hcreate, musl_hsearch and musl_hdestroy share by
     definition, and the shared constants (true, false, null, undefined, the empty block), which are given the same contents at every use.""",
     ["histories", "schedules"],
     "every sequence of calls on any number of states",
     """a test program runs one history with one state; what an earlier call leaves behind shows only in a particular later one""",
     CORE + ["cee-json/value.c", "cee-json/parser.c", "cee-json/snprint.c", "cee-json/tokenizer.c", "cee-json/cee_json_merge.c", "cee-json/release/cee-json.c", "singleton.c", "strview.c", "musl-hsearch.c", "musl-tsearch.c"] + SQLF,
     [("variables that outlive a call", "every module"), ("cee_singleton_init", "singleton.c"), ("cee_state.next_mark", "state.c")],
     ("effect analysis over clang IR: interprocedural flow of every variable that outlives a call (must-set-before-use on all paths)",
     """Every variable and every function of every unit, without bounds on inputs or histories. Calls take turns; simultaneous threads are not covered. Unused counts in the shared constants are
     taken to decide nothing (P04, P10: their actions do nothing)."""))

prop("P33", "JSON values are freed with what holds them, and nothing else is left behind",
     """No operation on JSON values - making, setting, appending, inserting, removing, renaming, getting, converting, concatenating, merging, iterating, listing, printing to a text, or
     a parse that succeeds - frees anything that a value still held reaches, and none leaves a new object on the state besides those that its result and the values it was given
     reach; keys and texts made on the way are gone when it returns. (What is replaced or removed stays until it is collected.) When values are deleted one after another, in whichever order,
     also values that share members, each stays whole until its own turn, nothing is freed twice or used after it was freed, and with the last value everything is freed that only they held. A garbage collection with
     a value as a root keeps everything it reaches, unchanged, and two in a row free all other values and their parts.""",
     ["inputs", "histories"],
     "every value, every operation, every order of deletion",
     """the tests delete whole states only; a leak or an early release in one of the operations shows in no result""",
     ["cee-json/value.c", "cee-json/parser.c", "cee-json/snprint.c", "cee-json/cee_json_merge.c", "cee-json/release/cee-json.c", "map.c", "list.c", "tagged.c", "str.c"],
     [("cee_json_object_* and cee_json_array_*", "cee-json/value.c"), ("cee_json_parsex", "cee-json/parser.c"), ("cee_json_snprint", "cee-json/snprint.c"), ("cee_json_merge", "cee-json/cee_json_merge.c")],
     ("abstract interpretation of clang IR with real deletion; reachability over the abstract heap",
      """Values nested up to four deep with up to three members; each operation once, on every combination of small values (keys present and absent). The parser's tokens are scripted (nine texts, no key twice); the printer's formatting is modelled."""))

prop("P34", "Core objects that hold each other are freed with the last holder, not before",
     """In any mix of lists, stacks, tuples, triples, n-tuples, maps, sets, tagged values and environments that count what they hold (CEE_DP_DEL_RC, the default), also when they share elements or hold each other, deleting the holders one
     after another, in whichever order, never frees anything that a remaining holder reaches, frees nothing twice, uses nothing that was freed, and with the last holder frees everything only the holders held. Containers that own their elements
     alone (CEE_DP_DEL) free them with themselves; containers that borrow them (CEE_DP_NOOP) leave them alone. No operation on the containers - adding, inserting, pushing, popping, removing, clearing, renaming, finding, iterating,
     merging, uniting, cloning, listing keys or values - frees what a holder still reaches, and none leaves a new object on the state besides its result and what the holders reach. An element that is popped or removed can be
     put elsewhere and counts there as a new one would. A map takes over the key it is given, and frees it if it has one like it. A collection with a holder as a root keeps all it reaches; two in a row free everything else.""",
     ["inputs", "histories"],
     "every mix of containers, every operation, every order of deletion",
     """the tests delete whole states; a count that is one off in one operation shows only when an element it touched is shared and its holders go in a particular order""",
     CORE,
     [("cee_del, cee_del_e, cee_del_ref", "cee-common.c"), ("cee_list_*", "list.c"), ("cee_stack_*", "stack.c"), ("cee_set_*", "set.c"), ("cee_map_*", "map.c"), ("cee_state_gc", "state.c")],
     ("abstract interpretation of clang IR with real deletion; reachability over the abstract heap",
      """Containers of up to three elements (four in the thorough tier), one operation, then all deletions in both orders; dicts and closures are left to P05 and P06. Cyclic structures are left out (DESIGN section 4)."""))
