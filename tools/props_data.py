prop("A01", "Arithmetic keeps its meaning when compiled to native code",
     "For every integer, float, comparison, bitwise, negation, conversion and constant operation of the middle-level IR and "
     "every operand/result type, the native back end produces a machine operation that performs the same operation, with "
     "the same signedness, width and comparison predicate, on the same operands in the same order. No such operation is "
     "dropped, and its result is the value every later use sees.",
     ["programs", "inputs"], "all programs, all operations and operand types, all run-time operand values",
     "Tests compile a few operations on a few types and look at printed IR; the wrong signedness, width or predicate of one "
     "(operation, type) pair shows only for particular operand values of that pair.",
     ["crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs", "crates/trunk-ir-cranelift-backend/src/function.rs"],
     [("arith to clif rewrite patterns", "crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs"),
      ("clif op to Cranelift instruction translation", "crates/trunk-ir-cranelift-backend/src/function.rs")],
     note="Exhaustive over operation x type category x path of the lowering and translating code; trusts Cranelift's "
          "instruction semantics and the MIR models listed in DESIGN.md.")
prop("A02", "Arithmetic keeps its meaning when compiled to WebAssembly",
     "For every integer, float, comparison, bitwise, negation, conversion and constant operation of the middle-level IR and "
     "every operand/result type, the WebAssembly back end emits the instruction that performs the same operation, with the "
     "same signedness, width and comparison predicate. Operands are pushed in operand order and the result goes to the "
     "local that later uses read.",
     ["programs", "inputs"], "all programs, all operations and operand types, all run-time operand values",
     "Tests compile a few operations; a wrong entry of the opcode table or a wrong predicate of one (operation, type) pair "
     "still gives a valid module and shows only for particular operand values.",
     ["crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs", "crates/trunk-ir-wasm-backend/src/emit.rs"],
     [("arith to wasm rewrite patterns", "crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs"),
      ("wasm op to instruction emission and opcode table", "crates/trunk-ir-wasm-backend/src/emit.rs")],
     note="Exhaustive over operation x type x path of the lowering and emitting code; trusts wasm_encoder's instruction "
          "encoding and the MIR models listed in DESIGN.md.")
prop("A03", "Compile-time simplification never changes what a program computes",
     "Whenever the canonicaliser simplifies an arithmetic, conditional or cast operation, the value it substitutes equals "
     "what the operation would have computed for every run-time value of the remaining operands, at the operation's width "
     "and signedness. An operation that can trap is not folded away, a conditional is folded only to the branch its "
     "constant condition selects with all of that branch's operations and results, and a cast only to a value of the cast's own type.",
     ["programs", "inputs"], "all programs, all constant operands and all run-time values of the others, all widths",
     "Tests fold a few small constants; overflow, sign, width and trap corner cases of each operation occur only for "
     "particular constants and widths.",
     ["crates/trunk-ir/src/dialect/arith.rs", "crates/trunk-ir/src/dialect/scf.rs", "crates/trunk-ir/src/dialect/core.rs",
      "crates/trunk-ir/src/transforms/canonicalize.rs"],
     [("registered folds", "crates/trunk-ir/src/dialect/arith.rs"),
      ("conditional fold", "crates/trunk-ir/src/dialect/scf.rs"),
      ("fold driver", "crates/trunk-ir/src/transforms/canonicalize.rs")],
     note="Conditional constant propagation through the MIR of each registered fold at boundary constants of each width and "
          "for unknown operands; not every constant is enumerated.")
prop("A04", "Dead-code elimination removes only unused operations without effects",
     "Dead-code elimination deletes an operation only if none of its results is used anywhere and the operation has no "
     "effect of its own. Calls, stores, allocation, reference-count changes, control flow, ability operations, definitions "
     "and other effectful operations are never treated as effect-free.",
     ["programs"], "all programs, all operation kinds, any number of results and uses",
     "Tests delete a few unused arithmetic operations; one effectful kind wrongly registered as effect-free, or one result "
     "whose uses are not looked at, shows only in programs with that kind or with several results.",
     ["crates/trunk-ir/src/transforms/dce.rs", "crates/trunk-ir/src/op_interface.rs"],
     [("dead-code elimination pass", "crates/trunk-ir/src/transforms/dce.rs"),
      ("registry of effect-free operations", "crates/trunk-ir/src/op_interface.rs")],
     note="Registry evaluated from the registrations in the program; every removing path of the pass is analysed for ops with "
          "one, two and three results.")
prop("A05", "Removing unreachable functions never removes a reachable one",
     "A function that the program entry point, an export, a function with a declared ABI or a requested extra entry point "
     "can reach through calls, tail calls or function references is never deleted by the global dead-function pass. This "
     "holds for references in nested regions, later blocks, chains and cycles, and nested modules.",
     ["programs"], "all modules and call graphs",
     "Tests use two or three functions; a reference form, nesting or chain that the reachability walk misses needs a call "
     "graph the tests do not contain.",
     ["crates/trunk-ir/src/transforms/global_dce.rs"],
     [("reachability and removal", "crates/trunk-ir/src/transforms/global_dce.rs")],
     note="Dataflow through the whole pass for about 45 module shapes (names abstract); call graphs beyond chains of three and "
          "cycles are argued by the worklist's uniformity, not enumerated.")
prop("A06", "The IR store keeps uses, definitions and parent links consistent",
     "After any sequence of operations of the IR store, the list of uses of every value names exactly the operand positions that "
     "hold it, every result and block argument is recorded as defined at its own position, and the parent links of operations, "
     "blocks and regions mirror containment. Setting, appending, removing or replacing operands, inserting, moving, removing, "
     "creating and cloning operations have exactly their stated effect, a clone is a full copy whose internal references point "
     "into the copy, and requests that would break consistency are refused.",
     ["histories", "programs"], "all histories of store operations on all IR shapes",
     "Tests perform a few edits on ops with distinct operands; repeated operands, later positions, nested regions and "
     "cross-block references decide whether an edit leaves a stale or missing link, and nothing fails until a later pass.",
     ["crates/trunk-ir/src/context.rs", "crates/trunk-ir/src/ir_mapping.rs"],
     [("IR arena and use lists", "crates/trunk-ir/src/context.rs"), ("clone mapping", "crates/trunk-ir/src/ir_mapping.rs")],
     note="Shape analysis of every mutating operation from a heap satisfying the invariants, with operands aliased and regions "
          "nested; trusts the third-party entity containers.")
prop("A07", "Pattern rewriting does exactly what the patterns ask for",
     "Rewriting a scope with a set of patterns yields the IR the patterns' requests describe: requested operations are inserted in order "
     "before the matched one, a replacement takes its place, every use of each old result anywhere becomes the corresponding new "
     "value, the old operation is gone, and module-level additions are appended. Every operation in scope that is not legal, at any "
     "nesting depth, is offered to every pattern in order until nothing changes, legal ones and recursively legal bodies are left "
     "alone, and a fixpoint is reported only if there is one. With type conversion on, block arguments take the converted type and "
     "each mismatched operand is read through a cast of itself.",
     ["programs", "histories"], "all IR shapes, all pattern sets and requests",
     "Tests rewrite one or two ops of a flat block; wrong order, a missed nested region, the wrong one of several results or an "
     "operand cast shared between different values needs a shape they do not contain.",
     ["crates/trunk-ir/src/rewrite/applicator.rs", "crates/trunk-ir/src/rewrite/rewriter.rs", "crates/trunk-ir/src/rewrite/helpers.rs",
      "crates/trunk-ir/src/rewrite/type_converter.rs"],
     [("fixpoint driver", "crates/trunk-ir/src/rewrite/applicator.rs"), ("mutation application", "crates/trunk-ir/src/rewrite/rewriter.rs"),
      ("block and region helpers", "crates/trunk-ir/src/rewrite/helpers.rs")],
     note="Shape analysis over about 170 request/shape scenarios on a nested IR with aliased uses; larger shapes are argued by "
          "uniformity of the traversal.")
prop("A08", "A conversion boundary never lets a forbidden operation through",
     "Whether an operation is legal for a conversion target follows the documented precedence of its rules: operation-specific dynamic, "
     "operation-specific static, dialect dynamic, dialect static, fallback, otherwise unknown. A partial conversion succeeds only if "
     "no operation judged illegal remains anywhere in scope, and a full conversion only if every operation is judged legal, except "
     "inside bodies of operations that are themselves legal and marked recursively legal. The error names exactly the offending operations.",
     ["programs"], "all rule sets, all IR shapes and nestings",
     "Tests combine two or three rules on one op; a tier consulted in the wrong order, a body skipped or a verdict reused for another "
     "op lets an unconverted operation reach the back end for rule sets they do not contain.",
     ["crates/trunk-ir/src/rewrite/conversion_target.rs", "crates/trunk-ir/src/rewrite/applicator.rs", "crates/trunk-ir/src/walk.rs"],
     [("legality rules and verification", "crates/trunk-ir/src/rewrite/conversion_target.rs"),
      ("conversion entry points", "crates/trunk-ir/src/rewrite/applicator.rs"), ("traversal", "crates/trunk-ir/src/walk.rs")],
     note="All 576 combinations of rule tiers and 30 nested shapes in both modes.")
prop("A09", "Lowering structured control flow keeps every execution",
     "Lowering conditionals, loops and switches to blocks and branches keeps the executions of every function: for every outcome of its "
     "conditions, the lowered function performs the same operations on the same values in the same order, leaves or repeats loops at "
     "the same points with the same loop-carried values, and returns the same results. This holds for any nesting of conditionals, "
     "loops and switches, for breaks and continues from any depth, and no structured operation is left behind.",
     ["programs", "inputs"], "all nestings of structured control flow and all outcomes of the conditions",
     "Tests lower one construct and count blocks or match printed text; a break bound to the wrong loop or a value carried along the "
     "wrong edge shows only in nestings they do not contain.",
     ["crates/trunk-ir/src/transforms/scf_to_cf.rs"],
     [("structured to branch lowering", "crates/trunk-ir/src/transforms/scf_to_cf.rs")],
     note="Shape analysis over about 50 nested bodies; executions of the input and output shapes are compared for every outcome of "
          "the first conditions. Deeper nestings are argued by the recursion's uniformity.")
prop("A10", "Inlining keeps every execution and never expands recursion",
     "Expanding function calls keeps the executions of every function: with calls entered, each performs the same operations on the "
     "same values in the same order and returns the same results, for calls and tail calls at any nesting depth, repeated arguments "
     "and chains of calls. Every function on a call cycle is recognised as recursive and no other, and calls of recursive "
     "functions, of functions with a declared ABI and by default of functions used as values are left alone.",
     ["programs", "inputs"], "all modules and call graphs, all inlining settings and all outcomes of the conditions",
     "Tests inline one or two calls of a small function; swapped parameters, a value captured from the wrong copy, or a cycle with "
     "two entries that is not recognised shows only in call graphs they do not contain.",
     ["crates/trunk-ir/src/transforms/inline.rs", "crates/trunk-ir/src/transforms/call_graph.rs"],
     [("inliner", "crates/trunk-ir/src/transforms/inline.rs"),
      ("call graph and cycle detection", "crates/trunk-ir/src/transforms/call_graph.rs")],
     note="Shape analysis over 30 modules in five settings; cycle detection for all 512 call graphs of three functions. Larger "
          "call graphs are argued by uniformity.")
prop("A11", "Inserted reference counting is balanced and keeps objects alive",
     "On every path through a native function after reference counting has been inserted, each heap reference is released exactly as "
     "often as it was acquired, nothing is read, written through or given away after its last reference is gone, and nothing is still "
     "held at exit. This holds for branches, loops, values passed along edges and fields of objects, with and without the borrow "
     "optimisations. Caller and callee always agree on which of them owns each argument.",
     ["programs", "inputs"], "all native functions, every path, both borrow policies and any call graph",
     "Tests look at the retains and releases of a few short functions; a leak or a use after free needs one particular control-flow "
     "shape (nested loops, a value dying on one edge, a field of a field) and does not change what the tests print.",
     ["crates/tribute-passes/src/native/rc_insertion.rs", "crates/tribute-passes/src/native/ownership_summary.rs"],
     [("liveness, retain/release placement, temporary borrows", "crates/tribute-passes/src/native/rc_insertion.rs"),
      ("parameter and call ownership contracts", "crates/tribute-passes/src/native/ownership_summary.rs")],
     note="The pass is analysed on 68 plain and 25 contract-carrying function shapes in every policy; an ownership typestate follows every "
          "path of the result for the first five branches. Other shapes are argued by uniformity.")
prop("A12", "Removing reference-count pairs never frees early or leaks",
     "When the optimiser removes a retain together with a release, the function still releases every reference exactly as often as it "
     "acquires it, on every path. No object is read, written through or given away after its last reference is gone, including values "
     "that were stored into, or loaded from, another object that is released in between. Nothing but retains and releases is removed, "
     "and nothing is reordered.",
     ["programs", "inputs"], "all native functions after reference counting was inserted, every path",
     "Tests try one pair at a time with one kind of use in between; a pair that protected a value from another object's release still "
     "looks redundant in all of them.",
     ["crates/tribute-passes/src/native/rc_optimization.rs"],
     [("pair elimination and its barriers", "crates/tribute-passes/src/native/rc_optimization.rs")],
     note="The pass is analysed on hand-written placements of pairs around every kind of use and on everything A11 analyses, with the same "
          "ownership typestate.")
prop("A13", "Native heap objects are built, accessed and destroyed by one layout",
     "In native code, reading a field of a struct or enum value yields what construction or the last write put there, at the field's "
     "width, and testing or casting a variant agrees with the variant constructed. Every access stays inside the object's allocation, "
     "fields never overlap each other or the object header, and the header starts with a count of one and the index of the type's own "
     "release function. Destroying the object releases each non-null reference field of its actual variant exactly once, releases "
     "nothing else, and frees exactly the bytes allocated.",
     ["programs", "inputs"], "all struct and enum types, all sequences of construct, get, set, test, destroy",
     "Tests compute a handful of offsets and look for single instructions; one pass using another's idea of a size, offset or tag for "
     "one combination of field types corrupts memory only at run time.",
     ["crates/trunk-ir/src/adt_layout.rs", "crates/tribute-passes/src/native/rtti.rs",
      "crates/tribute-passes/src/native/adt_rc_header.rs", "crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs"],
     [("field offsets and sizes", "crates/trunk-ir/src/adt_layout.rs"),
      ("release functions", "crates/tribute-passes/src/native/rtti.rs"),
      ("construction and header", "crates/tribute-passes/src/native/adt_rc_header.rs"),
      ("field access and variant tests", "crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs")],
     note="The three passes are analysed end to end on all single field types, all pairs and selected longer lists; the result is followed "
          "through a byte-accurate abstract memory. Longer lists are argued by uniformity. Known finding: anyref fields are never released.")

prop("A14", "Retain and release count atomically and destroy exactly the last reference",
     "In native code, retaining a reference atomically adds one to the count of the object it refers to, releasing it atomically subtracts "
     "one, and both do nothing for null; the result of a retain is the same reference. The object is destroyed exactly when the count "
     "before a release was one, through the release function of the object's own type or by freeing the whole allocation when the type has "
     "none. All other operations of the function happen on the same values and in the same order as before.",
     ["programs", "inputs"], "all functions with retains and releases in any position, all counts and null references, all types",
     "Tests compare a few printed functions with one retain or release each; a count changed for null, a destruction on the wrong count or "
     "a table entry out of place shows only when the program runs and only for some objects.",
     ["crates/tribute-passes/src/native/rc_lowering.rs", "crates/trunk-ir-cranelift-backend/src/translate.rs"],
     [("retain and release", "crates/tribute-passes/src/native/rc_lowering.rs"),
      ("destruction dispatch and its table", "crates/trunk-ir-cranelift-backend/src/translate.rs")],
     note="Executions are compared for all outcomes of the first branches; shapes with several retains and releases per block, in branches "
          "and in loops stand for all positions.")

prop("A15", "The native code generator emits the function it was given",
     "For every lowered native function, the generated machine function performs the same loads, stores, atomic updates, calls, traps and "
     "returns on the same values in the same order, for every outcome of its conditions. Declared, defined and called signatures and "
     "calling conventions agree with each other and with the function type, values of the unit type take no place, and tail calls stay "
     "tail calls. Distinct functions get distinct names, the entry point is exported, imported functions are never defined, and constant "
     "data is emitted with its bytes.",
     ["programs", "inputs"], "all modules of lowered native functions, all branch outcomes",
     "Tests emit a few modules and look at whether an object file results; swapped edge values, a unit argument shifting the others or a "
     "mismatched convention surface only in the running program.",
     ["crates/trunk-ir-cranelift-backend/src/function.rs", "crates/trunk-ir-cranelift-backend/src/translate.rs"],
     [("operations and control flow", "crates/trunk-ir-cranelift-backend/src/function.rs"),
      ("declarations, signatures, data", "crates/trunk-ir-cranelift-backend/src/translate.rs")],
     note="The whole generator is analysed on modules covering every control-flow and call form; what it asks Cranelift to build is read "
          "back and compared with the source function. Cranelift itself is trusted.")

prop("A16", "The IR checker reports exactly the malformed modules",
     "The module checker reports every operand that names a value its operation cannot see, every disagreement between recorded and actual "
     "uses, every structured operation with the wrong regions, arms, results or operands, and every direct call with the wrong number of "
     "arguments, wherever in the module it stands. A well-formed module is never reported.",
     ["programs"], "all modules, malformed in any one or several places, at every nesting depth",
     "Tests try one malformed module per rule; a checker that stops looking in a nested region, a later block or a second function still "
     "finds all of them.",
     ["crates/trunk-ir/src/validation.rs"],
     [("visibility of operands", "crates/trunk-ir/src/validation.rs"), ("use records", "crates/trunk-ir/src/validation.rs"),
      ("per-operation rules", "crates/trunk-ir/src/validation.rs"), ("call arity", "crates/trunk-ir/src/validation.rs")],
     note="Analysed on modules that are malformed in one way at every kind of position, next to their well-formed counterparts; error texts "
          "are not compared beyond the place they name.")

prop("A17", "Dominance and reachability of blocks are exact",
     "For every control-flow graph of a region, one block is said to dominate another exactly when every path from the entry to the second "
     "passes through the first, and a block is said to be reachable exactly when some path leads to it. Predecessor and successor lists "
     "agree with the branches, whatever the order in which the blocks are listed. A branch out of the region makes the analysis say it is "
     "not valid.",
     ["programs"], "all control-flow graphs: loops, irreducible graphs, unreachable blocks, repeated edges, any block order",
     "Tests look at three small graphs whose blocks are listed in execution order; reference counting trusts the answer for every function.",
     ["crates/trunk-ir/src/dominance.rs"],
     [("dominator sets", "crates/trunk-ir/src/dominance.rs")],
     note="The analysis is evaluated abstractly on all graphs of up to three blocks and on larger families, against the definition by paths; "
          "larger graphs are argued by uniformity.")

prop("A18", "Boxed numbers and representation casts keep the value in native code",
     "Boxing a number or boolean and unboxing it again gives the same value, whether it is done by a boxing operation or by a representation "
     "cast. The box starts with a count of one and a built-in type index, every access stays inside it, and a box made by a boxing operation "
     "whose last reference is released in the same function is freed once, with exactly the size it was allocated with. Casts between "
     "reference types change nothing; a cast without a conversion is kept and reported, every other cast disappears wherever it stands.",
     ["programs", "inputs"], "all numbers, all pairings of boxing and unboxing, all pairs of representation types, casts at any position",
     "Tests look for single instructions after one cast or box; a size, width or offset that differs between the two sides corrupts or "
     "leaks memory only in the running program.",
     ["crates/tribute-passes/src/native/tribute_rt_to_clif.rs", "crates/tribute-passes/src/native/type_converter.rs",
      "crates/trunk-ir/src/conversion/resolve_unrealized_casts.rs", "crates/tribute-passes/src/native/rc_insertion.rs"],
     [("boxing operations", "crates/tribute-passes/src/native/tribute_rt_to_clif.rs"),
      ("casts that box or unbox", "crates/tribute-passes/src/native/type_converter.rs"),
      ("replacing casts", "crates/trunk-ir/src/conversion/resolve_unrealized_casts.rs"),
      ("size a box is released with", "crates/tribute-passes/src/native/rc_insertion.rs")],
     note="Lowering, counting and cast resolution are analysed together on every pairing; the result is followed through a byte-accurate "
          "abstract memory.")

prop("A19", "Calls, branches and memory accesses survive lowering to native operations",
     "For every function, lowering its calls, tail calls, branches, returns, function addresses and memory accesses to native operations gives "
     "a function that performs the same calls, loads, stores, traps and returns on the same values in the same order, for every outcome of its "
     "conditions. Function types, parameters, passed values and the signatures of indirect calls agree and have native types; calling "
     "conventions and other attributes are kept. A tail call of unknown convention or signature, or an offset that does not fit, is refused.",
     ["programs", "inputs"], "all functions over all value types, all branch outcomes, at any nesting in the module",
     "Tests look for the lowered instruction of one call or branch each; swapped edges, a lost convention or a signature that differs from the "
     "values passed crash only the running program.",
     ["crates/trunk-ir-cranelift-backend/src/passes/func_to_clif.rs", "crates/trunk-ir-cranelift-backend/src/passes/cf_to_clif.rs",
      "crates/trunk-ir-cranelift-backend/src/passes/mem_to_clif.rs"],
     [("functions and calls", "crates/trunk-ir-cranelift-backend/src/passes/func_to_clif.rs"),
      ("branches", "crates/trunk-ir-cranelift-backend/src/passes/cf_to_clif.rs"),
      ("memory accesses", "crates/trunk-ir-cranelift-backend/src/passes/mem_to_clif.rs")],
     note="The three passes are analysed together on functions covering every operation with every value type; what they leave is compared with "
          "the source function.")

prop("A20", "An operation reaches the innermost handler installed for its ability",
     "At run time, looking up an ability in evidence always gives the prompt tag and the dispatch functions that were installed last for that "
     "ability in it, however many handlers are installed and in whatever order; installing a handler never changes existing evidence, and "
     "prompt tags are fresh. Abilities with different names or type arguments have different identities, as have operations of different "
     "names or abilities. Native code for installing a handler or performing an operation passes the run-time functions and the handler's "
     "closure the evidence, identity, tag, operation, continuation and payload of the original.",
     ["programs", "histories"], "all histories of installed handlers, all ability types, installing and performing at any position in a function",
     "Tests install at most three handlers with small positive identities and look for single calls in the lowered code; a lookup that misses "
     "or finds the outer handler runs the wrong code in the user's program.",
     ["crates/tribute-runtime/src/lib.rs", "crates/tribute-runtime/src/tls.rs", "crates/tribute-ir/src/dialect/ability.rs",
      "crates/tribute-passes/src/native/evidence.rs"],
     [("evidence at run time", "crates/tribute-runtime/src/lib.rs"), ("identities", "crates/tribute-ir/src/dialect/ability.rs"),
      ("native lowering", "crates/tribute-passes/src/native/evidence.rs")],
     note="Histories cover every order type of up to four installations and longer ones past the inline capacity; identities are compared as "
          "what goes into the 32-bit hash, so collisions of the hash itself are not decided.")

FRONT = "the front end and the root crate do not compile offline here (they need the git dependency tree-sitter-tribute), so no MIR of them exists to analyse"
prop("N01", "A program that type-checks has the types inference says it has",
     "Every expression of an accepted program evaluates to a value of its inferred type and performs only the abilities in its inferred effect row.",
     ["programs"], "all source programs", "Tests type-check a few hundred programs.",
     ["crates/tribute-front/src/typeck"], [("inference", "crates/tribute-front/src/typeck")], claim=False,
     reason=FRONT + "; soundness of inference over all programs is besides beyond any static argument in reach")
prop("N02", "Source programs keep their meaning when lowered to the IR",
     "The IR built from a type-checked program performs what the source says, including pattern matching and closures.",
     ["programs"], "all source programs", "Tests compare snapshots of a few programs.",
     ["crates/tribute-front/src/ast_to_ir"], [("lowering", "crates/tribute-front/src/ast_to_ir")], claim=False, reason=FRONT)
prop("N03", "An incremental build gives the same result as a build from scratch",
     "After any sequence of source edits the diagnostics and code equal those of a fresh compilation.",
     ["histories"], "all edit histories", "Tests make a handful of edits.",
     ["src/pipeline.rs"], [("queries", "src/pipeline.rs")], claim=False, reason=FRONT)
prop("N04", "Compilation terminates",
     "Every pass finishes on every well-formed module within its declared iteration limits.",
     ["programs"], "all modules", "Tests run on small modules.",
     ["crates/trunk-ir/src/rewrite/applicator.rs"], [("fixpoint driver", "crates/trunk-ir/src/rewrite/applicator.rs")], claim=False,
     reason="termination quantifies over the number of rewrites, a run-time quantity that depends on the pattern set; no ranking argument over "
            "the patterns is in reach of this analysis (A07 decides that claimed fixpoints are fixpoints and that the limit is respected)")
prop("N05", "A native program frees every object it allocates",
     "When a compiled program ends, every heap object whose references are gone has been freed.",
     ["programs", "inputs"], "all programs and inputs", "Tests count allocations of a few programs.",
     ["crates/tribute-passes/src/native/rc_insertion.rs"], [("reference counting", "crates/tribute-passes/src/native/rc_insertion.rs")], claim=False,
     reason="a whole-program property of run-time object graphs (cycles, references held by the runtime); only its per-function and per-object "
            "parts are decidable from the source and are claimed as A11-A14 and A18; see also the known finding of A13")

prop("A21", "The WebAssembly module is valid and does what its IR module says",
     "For every module of the wasm dialect that is accepted, the encoded module passes WebAssembly validation and has exactly the imports, "
     "functions, tables with their entries, memories, globals, data segments and exports of the IR module, in order and with the declared "
     "types. Each function performs, on every path through its ifs, blocks, loops and branches, the operations, calls and returns of the "
     "original with the same operands; loop variables get the values carried by branches to the loop, and results of blocks the values they "
     "yield. A module that names a function that does not exist, or has an operation or parameter list that cannot be emitted, is refused.",
     ["programs"], "all structured functions (nesting, branch targets, loop variables, results), all kinds of definitions in any order",
     "Tests check that some modules validate and look for single instructions; which local holds a value, which index a function or type "
     "has and where a branch leads depends on everything else in the module.",
     ["crates/trunk-ir-wasm-backend/src/emit.rs", "crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs",
      "crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs", "crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs",
      "crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs", "crates/trunk-ir-wasm-backend/src/emit/definitions.rs",
      "crates/trunk-ir-wasm-backend/src/validation.rs"],
     [("module emission", "crates/trunk-ir-wasm-backend/src/emit.rs"), ("control flow", "crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs"),
      ("definitions", "crates/trunk-ir-wasm-backend/src/emit/definitions.rs")],
     note="One known finding: functions returning function references that branch. Raw local indices (wasm.local_get/set/tee) are passed through "
          "as they are.")

prop("A22", "Lowering a program to WebAssembly keeps what its functions do",
     "For every program of functions over numbers, structs, enums, boxes, function values and closures with structured ifs and loops that the "
     "WebAssembly pipeline (lower_to_wasm, cast resolution, finalize_wasm_gc_types, emission) accepts, the module is valid and each function "
     "does what the original does on every path: the same calls (direct, tail, and through function values, which reach the function that "
     "was named), object creations, field reads and writes, boxings and unboxings with the right signedness, tests and returns, with the "
     "same operands in the same order; breaks and continues go to the loop that encloses them. Variants of an enum are told apart, also "
     "through erased references and when they have the same fields; no cast can trap on a value that the original knows to have the type. "
     "The exported _start calls main once, with empty evidence if it takes evidence, and traps if main leaves an effect unhandled.",
     ["programs"], "all functions over these operations: nesting, operand positions, uses across branches, types of fields, parameters and results",
     "Tests look for single operations after single passes; what a program does depends on all passes together: which type index an object "
     "has, which cast is inserted where, which block a branch leaves.",
     ["crates/tribute-passes/src/wasm/lower.rs", "crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs",
      "crates/tribute-passes/src/wasm/normalize_primitive_types.rs", "crates/tribute-passes/src/wasm/type_converter.rs",
      "crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs", "crates/trunk-ir-wasm-backend/src/passes/func_to_wasm.rs",
      "crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs", "crates/trunk-ir-wasm-backend/src/passes/wasm_gc_to_wasm.rs",
      "crates/trunk-ir-wasm-backend/src/emit.rs", "crates/trunk-ir-wasm-backend/src/emit/helpers.rs"],
     [("pipeline", "crates/tribute-passes/src/wasm/lower.rs"), ("objects", "crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs"),
      ("control flow", "crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs"), ("functions", "crates/trunk-ir-wasm-backend/src/passes/func_to_wasm.rs")],
     note="Tail calls through values whose signature mentions tribute_rt types are refused by the pipeline and are not covered.")
prop("A23", "On WebAssembly an operation reaches the innermost handler installed for its ability",
     "In a program compiled to WebAssembly, performing an operation calls the dispatch function that was installed last for its ability in the "
     "evidence given (the tail-resumptive one or, with continuation and prompt tag, the general one), with that evidence, the function's "
     "environment, the operation's index and the payload, and traps if the ability has no handler; installing a handler makes new evidence "
     "and leaves the old as it was. This holds however many handlers are installed, in whatever order, repeatedly for one ability, and "
     "wherever in a function handlers are installed and operations performed.",
     ["programs", "histories"], "all histories of installed handlers and queries, all orders of ability identities, installing and performing at any position",
     "Tests look for calls of the helper functions in the lowered code; the helpers are generated code that no test runs, and a search that is "
     "wrong only for some orders of identities or for repeated installation runs the wrong handler or traps.",
     ["crates/tribute-passes/src/wasm/evidence_to_wasm.rs", "crates/tribute-passes/src/wasm/lower.rs", "crates/tribute-ir/src/dialect/ability.rs",
      "crates/trunk-ir-wasm-backend/src/emit.rs", "crates/trunk-ir-wasm-backend/src/gc_types.rs"],
     [("generated helpers", "crates/tribute-passes/src/wasm/evidence_to_wasm.rs"), ("pipeline", "crates/tribute-passes/src/wasm/lower.rs")],
     note="Fresh prompt tags are not implemented on WebAssembly (the helper is a trap), so this says nothing about them; identities are compared "
          "as what goes into the 32-bit hash.")
prop("A24", "A pass manager runs the passes it was given, in order, on the operations that are there",
     "Running a pass manager runs its own passes on the target in the order of registration and then its nested managers in the order of "
     "registration; a nested manager runs on every operation of its kind inside the target, in program order, all its passes on one operation "
     "before the next. Operations that an earlier manager added are seen; an operation that a pass erased or turned into another kind gets no "
     "further pass, hook or nested manager, whichever operation that pass ran on. After every pass that succeeds and leaves its target the "
     "verifier and the observer run on it, those of the nearest manager that has one. The run stops at the first pass that fails or that the "
     "verifier rejects, with an error that names this pass and says which of both it was; a nested manager on an operation that is not isolated is refused.",
     ["pipelines", "histories"], "all trees of managers and hooks, all modules, all passes that fail, erase, add or change operations",
     "Tests run single managers with one misbehaving pass; which pass runs on which operation depends on how registration, nesting, hooks and "
     "changes of the module by earlier passes combine, and a pass that runs on an erased operation corrupts the program silently.",
     ["crates/trunk-ir/src/pass.rs"],
     [("pass manager", "crates/trunk-ir/src/pass.rs")],
     note="Erasing an operation that contains a later target, and adding operations to a nested manager while it runs, are not covered.")
prop("A25", "Bytes values and standard I/O of the native run time are exact",
     "In a native program: concatenating two bytes values gives their bytes in order, slicing gives the bytes from start to end and aborts if "
     "start > end or end > length, comparing ranges gives 1 exactly if both ranges lie within their values and hold the same bytes, and the "
     "length is the number of bytes; each new value starts with one reference and its own data or data kept alive by a reference, and operands "
     "stay as they were. Printing and writing (bytes, numbers, newline) put every byte on standard output once and in order even if the system "
     "writes only a part or is interrupted. Reading lines delivers every byte of standard input exactly once and in order, however it arrives "
     "in chunks, across interruptions and across calls: each line without its LF or CR LF, a last unterminated line as it is, end of file "
     "after the last line, an encoding result for a line that is not UTF-8, and a system result with the error's code for a failed read.",
     ["inputs", "schedules"], "all byte contents, lengths and ranges, all ways the system cuts reads and writes, interrupts and fails them",
     "Tests script single reads and writes; which byte is lost, repeated or misjudged depends on where chunk boundaries, interruptions and "
     "line ends fall together.",
     ["crates/tribute-runtime/src/lib.rs", "crates/tribute-runtime/src/tls.rs", "crates/tribute-rc/src/lib.rs"],
     [("bytes and I/O", "crates/tribute-runtime/src/lib.rs"), ("reference counts", "crates/tribute-rc/src/lib.rs")],
     note="A failed read discards the unfinished line before it. Chunks that fill the whole buffer are not followed.")
prop("A26", "Memory of the native run time is handed out and taken back whole",
     "Every allocation of a non-zero size gives memory of at least that size, aligned to 8 bytes, in a block of its own, or aborts if the system "
     "has none or the size cannot exist; size zero gives null. Releasing gives the block back to the system once, with the layout it was asked "
     "for; releasing null does nothing. Under the sanitizer, releasing a block whose 32 bytes on either side were changed aborts, releasing "
     "one twice while it is held back aborts, and nothing else does, whatever the program wrote within its bounds; released memory does not "
     "keep its content, is held back (at most 1 MiB) and goes to the system oldest first, once. Initialising the run time makes exactly one "
     "key for per-thread state, also if repeated or while another thread does it, and returns only when the key is there.",
     ["histories", "schedules"], "all sizes, all histories of allocating, writing and releasing, all points at which another thread initialises",
     "Tests allocate a few small blocks; an off-by-one in a bound, a wrong layout or a wrong eviction shows only for certain sizes, distances "
     "and histories, and then as silent corruption or a false report.",
     ["crates/tribute-runtime/src/lib.rs", "crates/tribute-runtime/src/asan.rs", "crates/tribute-runtime/src/tls.rs"],
     [("allocation", "crates/tribute-runtime/src/lib.rs"), ("sanitizer", "crates/tribute-runtime/src/asan.rs"), ("initialisation", "crates/tribute-runtime/src/tls.rs")],
     note="What the sanitizer prints is not covered.")
prop("A27", "Calling a closure runs its body on the arguments, with the values captured where it was made",
     "After closure conversion and closure lowering, every function does what it did before: calling a closure runs the body of the lambda it "
     "was made from, with the arguments in order and with the captured values it had when the closure was made, also for nested lambdas, "
     "closures that capture or receive closures, closures that are returned, stored or passed on, and lambdas in branches and loops. A closure "
     "of an explicit calling convention is called with its environment and evidence at the positions its type gives; a legacy closure gets the "
     "evidence of the caller. Functions keep their names, their other attributes and their signatures up to the representation of closures, a "
     "parameter of function type is a closure inside, new functions have names of their own, and a plain function value is still called as one.",
     ["inputs", "programs"], "all modules with lambdas, captures, closure values and indirect calls",
     "Tests compare the printed result of single lambdas; which value a body sees depends on how captures, nesting, environment layout and the "
     "position of environment and evidence in the call fit together across three passes.",
     ["crates/tribute-passes/src/lower_closure_lambda.rs", "crates/tribute-passes/src/closure_lower.rs"],
     [("closure conversion", "crates/tribute-passes/src/lower_closure_lambda.rs"), ("closure lowering", "crates/tribute-passes/src/closure_lower.rs")])
prop("A28", "An operation is dispatched with the evidence of exactly the handlers around it",
     "After the shared lowering of abilities, every function does what it did before. An operation is dispatched under its ability and name with "
     "its arguments in order, its continuation if it has one, and the evidence in scope: that of the function, or of the handler body it is in; "
     "a performed operation in a function's body ends the function with the dispatch's result. A handler's body runs with the evidence extended, under one fresh tag per "
     "installation, by its pair of dispatchers for each ability; calls inside pass this evidence on, calls outside, in completions and beside it "
     "that of the function, and calls keep their other arguments and attributes. A legacy handle gives the completion of a normal end, its own "
     "escape, or a foreign escape unchanged. Functions keep names and signatures, the run time's functions are declared once; malformed "
     "handlers, operations without evidence and other ability operations left over are refused.",
     ["inputs", "programs"], "all modules of operations, handlers and calls",
     "Tests compare the printed result of single handlers; which evidence reaches which operation depends on nesting, on the function having "
     "evidence or not and on four passes agreeing, and a wrong one silently runs the wrong handler.",
     ["crates/tribute-passes/src/lower_ability_perform.rs", "crates/tribute-passes/src/resolve_evidence.rs",
      "crates/tribute-passes/src/lower_handle_dispatch.rs", "crates/tribute-passes/src/tail_resumptive.rs"],
     [("operations", "crates/tribute-passes/src/lower_ability_perform.rs"), ("evidence", "crates/tribute-passes/src/resolve_evidence.rs"),
      ("handlers", "crates/tribute-passes/src/lower_handle_dispatch.rs")],
     note="A performed operation as the end of a final handler's body is refused today and not covered.")

prop("A29", "Operators, lists, literals, bytes and I/O of the standard library mean the same in native code",
     "After the lowering of the standard library's intrinsics for native code every function does what it did before. An operator of Int, Nat or "
     "Float is the operation of that name on its operands in order, signed for Int, unsigned for Nat, and where a NaN makes only `!=` of "
     "Float true; as a function value it is a function that performs it. Prepending, emptiness, head and tail of a list see the elements in the order "
     "prepended, head and tail of an empty list trap, and a list node is read with the element type it was made with. A string or bytes literal is a "
     "fresh object whose bytes and length are those of the literal. A byte is read only inside its byte sequence, outside it traps, and its value is "
     "between 0 and 255. Writing passes the bytes and the newline flag to the run time; reading a line gives the variant for the run time's tag with "
     "its fields, and the descriptor is released once, after its last use. Functions of the program that only resemble intrinsics are left alone. "
     "Functions of the run time that the passes or the standard library declare exist there with the same parameters and result.",
     ["inputs", "programs"], "all modules that use the standard library's intrinsics",
     "Tests look at the printed result of one call each; a wrong predicate, a swapped operand, a wrong offset or a released descriptor only shows for "
     "particular values, and the standard library, the passes and the run time are never linked together in the tests that run here.",
     ["crates/tribute-passes/src/intrinsic_to_arith.rs", "crates/tribute-passes/src/list_intrinsics.rs", "crates/tribute-passes/src/io_lowering.rs",
      "crates/tribute-passes/src/native/list.rs", "crates/tribute-passes/src/native/io.rs", "crates/tribute-passes/src/native/const_to_native.rs",
      "crates/tribute-passes/src/native/intrinsic_to_native.rs", "lib/std/prelude.trb"],
     [("operators", "crates/tribute-passes/src/intrinsic_to_arith.rs"), ("lists", "crates/tribute-passes/src/native/list.rs"),
      ("input and output", "crates/tribute-passes/src/native/io.rs"), ("literals", "crates/tribute-passes/src/native/const_to_native.rs")],
     note="A byte sequence of 2^31 bytes or more is not covered.")
prop("A30", "Bytes, literals and output of the standard library mean the same on WebAssembly",
     "In the WebAssembly module the length of a byte sequence is its number of bytes; a byte at an index inside it is that byte, between 0 and 255, and "
     "an index behind the end of a sequence that fills its storage traps; joining gives a new sequence with the bytes of the first and then the second "
     "operand, which stay as they were; comparing a range of one with a range of another, both inside their sequences, is true exactly if every pair of "
     "bytes is equal. This holds for sequences that start anywhere in their storage and for empty ones. A bytes literal has the bytes of the literal, a "
     "string literal is a String leaf with the UTF-8 bytes of the literal, whatever other literals the module has. Writing offers the host, on standard "
     "output, the bytes of the message in order, followed by one line feed if asked for: what the host has taken is not offered again, what it has not "
     "taken is offered next, an interrupted request is repeated, and after another error or a request that makes no progress nothing more is written. "
     "A message of any length gets the memory it needs; if the memory cannot grow the program traps and writes nothing. The host finds the memory "
     "under the name memory, and fd_write is imported from wasi_snapshot_preview1 with its type. A program that reads a line is refused.",
     ["inputs", "histories"], "all byte sequences, literals and messages, and all answers of the host",
     "Tests look at the printed form of the lowered operations and never run a module; wrong offsets, branch depths or sizes only show when the "
     "module is run with short writes, interruptions, long messages or particular literals.",
     ["crates/tribute-passes/src/wasm/io.rs", "crates/tribute-passes/src/wasm/intrinsic_to_wasm.rs", "crates/tribute-passes/src/wasm/const_to_wasm.rs",
      "crates/tribute-passes/src/wasm/lower.rs", "crates/trunk-ir-wasm-backend/src/emit.rs"],
     [("output", "crates/tribute-passes/src/wasm/io.rs"), ("bytes", "crates/tribute-passes/src/wasm/intrinsic_to_wasm.rs"),
      ("literals", "crates/tribute-passes/src/wasm/const_to_wasm.rs")],
     note="Lengths and offsets are a few small values and those around the first two pages of memory; bytes are unknown.")
prop("A31", "Calling conventions reach the target unchanged, and a program starts in its main function",
     "Fixing the physical signatures turns the result of every continuation-passing callable from never into nil, wherever its type occurs: in signatures, "
     "closure types, struct fields, block arguments, results, attributes and named types; every other type, attribute and operation stays as it was, and the "
     "position of a closure's environment is recorded. A module is refused, and left as it was, if a call or tail call does not have its callee's convention, "
     "operand types and result type, if a continuation-passing function or closure is called rather than tail called, returns something, or is tail called from "
     "another kind of function, if a function reference does not fit its function, or if a closure or never-returning callable lacks a convention. "
     "A main function promoted to continuation passing is kept as a worker; "
     "the new main has the recorded convention, calls the worker once with its own or empty evidence and a continuation that returns, and every reference "
     "in its module to the old main refers to the worker; a module whose promoted main does not fit is refused and left as it was. The native entry point "
     "main takes nothing, starts the sanitizer if asked for and then the run time, calls the program's main function once with empty evidence if it takes "
     "evidence, and returns 0; references to main refer to the program's main function, and needed run time functions are declared once. "
     "The join of two calling conventions is the stronger one.",
     ["inputs", "programs"], "all modules with calling conventions and main functions",
     "Tests check single signatures; a type left logical, or a reference left to the wrong main, only shows in modules that nest types, branches and "
     "modules in a particular way, and then as a wrong call in the compiled program.",
     ["crates/tribute-passes/src/target_abi.rs", "crates/tribute-passes/src/native/entrypoint.rs", "crates/tribute-core/src/calling_convention.rs"],
     [("signatures and bridge", "crates/tribute-passes/src/target_abi.rs"), ("entry point", "crates/tribute-passes/src/native/entrypoint.rs")])
prop("A32", "Only modules made of the target's operations and types reach code generation",
     "The final verification before code generation accepts a module exactly if, for the chosen target: every operation at every depth is one of the target's "
     "dialect (inner modules apart); every result, block argument, function parameter and function result has a type the target can hold (native: nil, i1 to i64, "
     "f32, f64, pointers; WebAssembly: nil, i1, i32, i64, f32, f64, bytes, pointers, arrays, functions, structs and enums, wasm references); every type in an "
     "attribute, a named type, a type parameter or a type's own attributes, at any depth, is a core value type, function, bytes, array or reference, an adt type, or for "
     "WebAssembly a wasm reference; the signatures of functions and indirect calls are function types; no name in it is the private control carrier; every calling "
     "convention is a known one, a continuation-passing function has no result and a tail call gives no result; and for WebAssembly an indirect tail call has a "
     "signature without result that fits its operands. In every other case it refuses the module.",
     ["inputs"], "all modules and both targets",
     "Tests try one illegal type in a few places; a place that is not looked at, or a type looked at only once, lets a logical type or operation through to "
     "code generation, where it is compiled to something else or stops the compiler.",
     ["crates/tribute-passes/src/backend_ready.rs", "crates/trunk-ir-cranelift-backend/src/validation.rs", "crates/trunk-ir-wasm-backend/src/validation.rs"],
     [("types and names", "crates/tribute-passes/src/backend_ready.rs"), ("operations", "crates/trunk-ir-wasm-backend/src/validation.rs")])
prop("A33", "A cast between representations is resolved to the conversion that keeps the value, or kept and reported",
     "Resolving the casts of a module replaces every use of a cast, at every depth and in every block, by the cast value in its new representation: between "
     "types of one representation it is the same value; an integer, boolean or float cast to a reference is boxed as that kind (WebAssembly: a 32-bit integer as "
     "i31, a 64-bit one wrapped first; native: a new object with count 1 and the payload), nil cast to a reference is null, a reference cast to a number is "
     "unboxed as the kind the number has, so that casting a value to a reference and back gives the value; casts between references change nothing but the "
     "type, with a checked downcast on WebAssembly where the target is narrower. A cast no such conversion exists for remains where it is and is reported with its source type; "
     "the counts of resolved and unresolved casts are right. All other operations stay, in order.",
     ["inputs"], "all modules with casts, for the target-independent, the WebAssembly and the native converter",
     "Tests resolve single casts between a few types; boxing a value as the wrong kind, or a cast that is missed in a nested region, only shows when the "
     "compiled program uses the value.",
     ["crates/trunk-ir/src/conversion/resolve_unrealized_casts.rs", "crates/tribute-passes/src/type_converter.rs",
      "crates/tribute-passes/src/wasm/type_converter.rs", "crates/tribute-passes/src/native/type_converter.rs"],
     [("resolution", "crates/trunk-ir/src/conversion/resolve_unrealized_casts.rs"), ("boxing", "crates/tribute-passes/src/type_converter.rs"),
      ("WebAssembly", "crates/tribute-passes/src/wasm/type_converter.rs"), ("native", "crates/tribute-passes/src/native/type_converter.rs")],
     note="Naturals and booleans are read back as integers once their type is converted; the sign of naturals of more than 30 bits is not covered.")
prop("A34", "An operation or type reads back exactly what it was built from",
     "For every operation of every dialect: the constructor makes one operation with the dialect's and the operation's own name and the given location, with the "
     "operands, result types, regions and successors of its parameters, in their order, and each attribute under the name of its parameter, an optional one only if "
     "given; every accessor of its wrapper gives the argument of that name, over the whole range of numeric attributes, and the trailing operands as a whole "
     "wherever they begin; operands know the operation as their user and regions as their parent; the wrapper is made from operations of exactly this dialect "
     "and name. The same holds for every type of every dialect, with its parameters and attributes.",
     ["inputs"], "all dialects, operations, types and arguments",
     "The constructors and accessors are generated for 370 operations and types; tests use a handful of them, always together, so that an index off by one behind "
     "optional or trailing operands, a truncated number or a wrong name only shows in the one pass or printed module that uses it.",
     ["crates/trunk-ir-macros/src/codegen.rs", "crates/trunk-ir-macros/src/parse.rs", "crates/trunk-ir/src/dialect", "crates/tribute-ir/src/dialect",
      "crates/trunk-ir/src/ops.rs", "crates/trunk-ir/src/types.rs"],
     [("generation", "crates/trunk-ir-macros/src/codegen.rs"), ("attributes", "crates/trunk-ir/src/types.rs"), ("matching", "crates/trunk-ir/src/ops.rs")])
