#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the lines stay well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

TP, TB, TG, DI = "src/tagged_pointer.rs", "src/tagged_box.rs", "src/taggable.rs", "src/discriminant.rs"
MM, MT = "src/tagged_box_macro/mod.rs", "src/tagged_box_macro/meta_macros.rs"

prop("C01", "Tagging a pointer loses nothing",
 "For every address and every discriminant within the configured limits, a tagged pointer gives back exactly that address and exactly that discriminant through every accessor (integer, raw pointers, references, and the static store/fetch/strip helpers), and its raw word is the address with the discriminant in the bits above the reserved width. Every 64-bit word splits into a discriminant and an address that recombine to the same word.",
 ["inputs", "configurations"], "all addresses 0..=MAX_POINTER_VALUE x all discriminants 0..=MAX_DISCRIMINANT, at each of the 16 widths, debug and release builds",
 "The unit tests pack about seven (address, discriminant) pairs, at the default 60-bit width and in a debug build only.",
 [TP, DI], [("store/fetch/strip with shift and mask", TP + " store_discriminant, fetch_discriminant, strip_discriminant"), ("per-width constants", DI + " generate_discriminants!")],
 [{"name": "tagged_ptr", "meaning": "the packed word", "where": TP}], ["as_u64/as_raw_u64/as_ptr/as_mut_ptr/as_ref/as_mut_ref/discriminant"])

prop("C02", "The selected reserved width is the one in effect",
 "For each of the 16 documented widths (48bits to 63bits) the exported limits describe exactly that split: pointer bits and discriminant bits add up to 64, every value of that many discriminant bits is allowed, fits the discriminant type, and can be stored, and the pointer limit and mask are the low pointer bits. An unset or invalid selection means 60 bits, and after any sequence of builds with different selections the program runs with the last one selected.",
 ["configurations", "histories"], "16 widths, unset and invalid selections, sequences of selections over one build directory",
 "Tests run at the default width only, and nothing compares the exported constants with the documented table.",
 [DI, "build.rs"], [("constants table", DI + " generate_discriminants!"), ("environment to cfg mapping", "build.rs main")], None, ["discriminant::{Discriminant, MAX_DISCRIMINANT, MAX_POINTER_VALUE, POINTER_WIDTH, DISCRIMINANT_MASK, DISCRIMINANT_BITS}"])

prop("C03", "Out-of-range discriminants and addresses are rejected",
 "Creating a tagged pointer or a tagged box from a discriminant above the limit or from an address above the limit panics in every build profile, for sized, zero-sized and dangling contents alike, and everything up to and including the limits is accepted. A value of an enum with more variants than there are discriminants is either rejected with a panic or comes back unchanged: it never silently becomes another variant.",
 ["inputs", "configurations", "programs"], "all discriminants of the type above MAX_DISCRIMINANT, addresses above MAX_POINTER_VALUE, every safe constructor, enums of up to 300 variants, all widths, debug and release",
 "One test passes MAX_DISCRIMINANT+1 to one constructor in a debug build; release builds, zero-sized values and enums with too many variants are never tried.",
 [TP, TB, MM], [("range assertions", TP + " TaggedPointer::new, dangling"), ("variant index conversion", DI + " / " + MM + " __taggable_into_box")])

prop("C04", "A box stores and returns exactly the value put in",
 "Whatever sized type, alignment and discriminant, the value put into a tagged box is what every accessor and every way of taking it out (by value, as Box, via a raw pointer and back) gives, at a non-null, properly aligned address that overlaps no other live box and does not move while the box is owned. Writes through the mutable accessors are seen by all later reads of that box, and change neither its discriminant nor any other box.",
 ["inputs", "histories"], "types of size 0..9MiB and alignment 1..4096, all discriminants, arbitrary operation sequences over many live boxes, boxes built by the crate or from std boxes",
 "The tests store six small values once each and read them back immediately; no large, over-aligned or zero-sized type with alignment, and no history longer than a few operations.",
 [TB, TP], [("typed allocation and move-in", TB + " new, new_unchecked"), ("address round trip", TB + " into_raw, from_raw, into_box, into_inner")],
 [{"name": "boxed", "meaning": "tagged address of the heap cell", "where": TB}])

prop("C05", "No value is destroyed twice or behind the owner's back",
 "A value moved into a tagged box or container is not destroyed while the box holds it, no matter how it is viewed, compared, formatted, cloned, passed through raw form or converted between box, container and enum. Once taken out it is the caller's single instance: dropping it runs its destructor exactly once, for zero-sized values too.",
 ["inputs", "histories", "programs"], "all operation histories over boxes and macro containers, all variant shapes, destructor-carrying fields including zero-sized ones",
 "No test uses a type with an observable destructor, so neither double drops nor early drops can be seen.",
 [TB, MM, MT], [("ManuallyDrop on consumption and on views", TB + " into_inner, into_raw; " + MM + " __ref_from_tagged"), ("move-in without drop", TB + " new")])

prop("C06", "Heap use is exactly accounted for",
 "Boxing a value allocates exactly one block with exactly that value's layout (none for a zero-sized value or a variant without data), reading, viewing, comparing or formatting allocates and frees nothing of the box's own, and converting to a Box and dropping it frees that same block with that same layout. Taking the value out, or discarding a box or container, releases the block, and discarding also destroys the value.",
 ["inputs", "histories"], "all types and all operation histories, observed at the global allocator",
 "Tests never look at the allocator; a leak, a wrong layout or a needless allocation is invisible to them.",
 [TB, MM], [("alloc with Layout::new", TB + " new, new_unchecked"), ("Box::from_raw", TB + " into_box"), ("absence of Drop and of dealloc", TB + " into_inner")])

prop("C07", "Every enum shape survives the round trip unchanged",
 "For every enum accepted by the macro (unit, empty, 1- to 32-element tuple and named-field variants, with or without a trailing comma, in any order and mixture of field types), a value converted to a container or box and back, by any combination of the provided conversions, is the same variant with the same value in every field. Building a container from a variant's payload (a single value or a tuple) equals building it from the variant itself.",
 ["programs", "inputs", "histories"], "all enum definitions the macro accepts, all values, all conversion paths",
 "Tests use five enum definitions with at most four fields in almost uniform layouts; tuple arities above 4 (28 separately written macro arms, twice) are never instantiated.",
 [MM, MT], [("per-arity tuple arms", MT + " __expand_tuple, __expand_tuple_arm"), ("encoders/decoders", MM + " __taggable_into_box, __boxed_into_inner, __from_tagged_box, __ref_from_tagged"), ("payload conversions", MM + " __derive_from")])

prop("C08", "Each variant's discriminant is its declaration index",
 "Whatever way a container or box of a macro-generated enum was made (from the enum, from a payload, by cloning or copying, through raw form), its discriminant is the zero-based position of its variant in the declaration, so distinct variants never share one, and it stays the same until the box is consumed.",
 ["programs", "inputs", "histories"], "all enum definitions with at most MAX_DISCRIMINANT+1 variants, all construction paths and operation histories",
 "No test reads the discriminant of a macro-generated box.",
 [MM, MT], [("counter enum", MM + " __counter_enum"), ("variant index to discriminant", MM + " __taggable_into_box, " + MT + " __expand_tuple_arm")])

prop("C09", "Unknown discriminants are refused, never misread",
 "Decoding a box whose discriminant names no variant of the enum (by taking the enum out of a box or a container, by viewing, comparing or formatting it, or by cloning it where a clone is more than a copy of the word) panics: no enum value is produced, no user code receives one, and the stored contents are neither read as another variant nor destroyed.",
 ["programs", "inputs"], "all enum definitions with fewer variants than discriminants x all undefined discriminants x all decoding operations",
 "No test decodes a box with an undefined discriminant.",
 [MM], [("fallback panicking arms", MM + " __boxed_into_inner, __from_tagged_box, __ref_from_tagged")])

prop("C10", "Viewing a boxed enum is a faithful, side-effect-free borrow",
 "Viewing a box by reference calls the callback exactly once, with a value equal to the stored one in every field, and leaves the box, its discriminant and its contents as they were, however often and however deeply views of the same or of different boxes are nested. Changes that the callback makes through the shared reference (interior mutability) are changes to the stored value.",
 ["programs", "inputs", "histories"], "all variant shapes and values, all nestings of views, interleaved with other operations",
 "Two tests view four values once each and nest one pair; unchanged contents, call counts and destructor-carrying values are not observed.",
 [MM, TG], [("bitwise read under ManuallyDrop", MM + " __ref_from_tagged")])

prop("C11", "Clones and copies are equal and independent",
 "A clone of a box or container holds an equal value under the same discriminant in storage of its own: changing, consuming or destroying either one never affects the other. Copies of a container of a Copy enum can each be consumed and each yields the value, in any order.",
 ["programs", "inputs", "histories"], "all variant shapes and values, chains and trees of clones/copies, interleaved mutation and consumption",
 "One test clones two single-field values once; multi-field, named-field, zero-sized and destructor-carrying variants and copies are not covered.",
 [TB, MM], [("clone via view and re-boxing", TB + " Clone for TaggedBox"), ("Copy marker", TB + " Copy for TaggedBox"), ("derive forwarding", MM + " tagged_box!")])

prop("C12", "Boxes compare exactly as the enums they hold",
 "Equality, partial ordering and total ordering of boxes and containers give, for every pair including a box with itself, the same answer as the same comparison of the enum values they hold, in the same operand order, whatever those comparisons are (values unequal to themselves, incomparable values, user-defined relations). Comparing changes neither operand.",
 ["programs", "inputs"], "all pairs of values of all enum definitions, including NaN and user-defined partial or inconsistent relations",
 "Tests compare one pair of boxes' contents with < and >; nothing compares boxes through all the traits, with themselves, or across variants.",
 [TB], [("delegating trait impls", TB + " PartialEq, PartialOrd, Ord for TaggedBox")])

prop("C13", "Boxes format exactly as the enums they hold",
 "Debug and Display of a box write exactly what formatting the held enum value with the same format options (width, fill, alignment, precision, sign, alternate, hex) writes, and report an error exactly when that does, whether it comes from the value or from the writer. Debug of a container is that of a struct with the value in its one field.",
 ["programs", "inputs", "configurations", "fault_sequences"], "all values, all format options, writers failing at any byte, user formatters that fail",
 "No test formats a box.",
 [TB, MM], [("delegating trait impls", TB + " Debug, Display for TaggedBox")])

prop("C14", "Address formatting shows the address without the discriminant",
 "Hexadecimal, octal and binary formatting of tagged pointers and boxes and pointer formatting of tagged pointers print the stored address alone, under any format options exactly as the plain integer or pointer would print, whatever the discriminant. The debug form of a tagged pointer shows its raw word, its address and its discriminant.",
 ["inputs", "configurations"], "all addresses and discriminants within limits, all format options, all widths",
 "No test formats a pointer or a box.",
 ["src/lib.rs", TP, TB], [("impl_fmt!", "src/lib.rs"), ("Debug/Pointer", TP)])

prop("C15", "Panicking user code leaves boxes intact",
 "If user code that runs during an operation on a box (a view callback, or the held value's clone, comparison or formatting) panics at any point, the panic reaches the caller, the boxes involved still hold their unchanged values and remain usable, nothing held is destroyed, and whatever that operation had created is destroyed exactly once.",
 ["fault_sequences", "programs", "inputs"], "every user-code call made by every operation x panicking at it, all variant shapes",
 "No test panics in user code.",
 [TB, MM], [("ManuallyDrop around the view's copy", MM + " __ref_from_tagged"), ("assignment after success", TB + " Clone for TaggedBox")])

prop("C16", "No undefined behaviour when the API is used as documented",
 "A program that uses the crate within its documented contracts (safe functions freely, unsafe functions with the type that was stored) never causes undefined behaviour: no invalid, uninitialized, misaligned, out-of-bounds or freed memory is accessed, no invalid value is produced, no block is freed twice or with the wrong layout.",
 ["programs", "inputs", "histories", "schedules"], "all contract-abiding programs and operation histories, on all variant shapes, at small and large widths",
 "A plain test run does not notice undefined behaviour that happens to give the expected value; the repository's Miri task is not part of the test run and covers the same few cases.",
 [TP, TB, MM, MT], [("pointer/integer round trip", TP + " as_ref, as_mut_ref, as_ptr, as_mut_ptr"), ("typed reads and writes", TB), ("repr(C) storage structs", MM + ", " + MT)])

prop("C17", "Allocation failure fails cleanly",
 "If the allocator refuses memory while a value is being boxed, converted or cloned, the operation fails with a panic or the standard allocation-error abort; it never touches invalid memory and never returns a box. After a caught failure every previously existing box is unchanged, every value involved has been destroyed at most once, and boxing works again.",
 ["fault_sequences", "inputs", "programs"], "every allocation made by every constructing operation x refusing it, all types and variant shapes",
 "Tests run with an allocator that never fails.",
 [TB], [("null check before the write", TB + " new, new_unchecked")])

prop("C18", "Thread transfer and sharing is sound",
 "Boxes and containers can be sent to or shared with other threads exactly when the enum they hold can. Boxes moved between threads, and boxes read concurrently through shared references (viewed, compared, formatted, cloned), behave as in one thread: no data race, no lost, duplicated or altered value.",
 ["schedules", "programs", "histories"], "all interleavings of threads moving, reading and cloning boxes; all combinations of Send/Sync of the held types",
 "No test uses threads or checks thread-safety markers.",
 [TB, TP], [("auto traits through the type marker", TB + " struct TaggedBox"), ("no shared mutable state", TB + ", " + TP)])

prop("C19", "Programs behave the same at every reserved width",
 "A program whose enums have no more variants than the selected width has discriminants compiles at that width and makes the same observations at every such width, in debug and release builds: the same values come back from all conversions, views, clones, comparisons and formatting, under the same discriminants.",
 ["configurations", "programs", "inputs"], "16 widths x {debug, release} x enum definitions and values",
 "Tests run at the default width in debug only; the repository's own width matrix is not run (and at 48 to 55 bits did not compile).",
 [DI, MM, MT, TP], [("width-generic discriminant type", DI), ("variant index to discriminant", MM + ", " + MT)])

prop("C20", "A container is one 64-bit word: address plus discriminant",
 "A tagged pointer, a tagged box and a macro-generated container each occupy exactly 8 bytes with the alignment of a 64-bit integer, whatever the enum's size, and all three hold the same word: the discriminant above the reserved width and the heap address (or, without heap data, a non-null placeholder aligned for the payload type, or for the enum in a unit variant) below.",
 ["programs", "inputs", "configurations"], "all enum definitions, values and widths",
 "No test checks sizes or the stored word of a box or container.",
 [TP, TB, MM], [("repr(transparent) nesting", TP + ", " + TB + ", " + MM + " tagged_box!")])

prop("C21", "The crate and its macro work without std",
 "A program without the standard library, with only a global allocator, can use the whole crate (tagged pointers, tagged boxes and macro-generated enums with all their trait impls), and it behaves as with the standard library.",
 ["configurations", "programs"], "no_std programs using all public items, debug and release",
 "The tests and doc-tests all link std, which hides a dependency on it in the library or in macro expansions.",
 ["src/lib.rs", MM], [("#![no_std] with alloc", "src/lib.rs"), ("core paths in expansions", MM)])

prop("C22", "Behaviour does not depend on the target architecture",
 "The same program makes the same observations and has no undefined behaviour on 32-bit and 64-bit, little-endian and big-endian targets.",
 ["configurations", "programs", "inputs"], "targets {x86_64, i686, s390x} x programs and values",
 "Tests run on x86_64 only.",
 [TP, TB, "src/lib.rs"], [("u64 word on all targets", TP)])

prop("C23", "Tagged pointers compare and hash by address and discriminant",
 "Two tagged pointers are equal exactly when both their addresses and their discriminants are equal, equal ones hash equally and copies are interchangeable, and their ordering is total, antisymmetric, transitive and consistent with equality.",
 ["inputs", "configurations"], "all pairs and triples of tagged pointers, all widths",
 "No test compares, orders or hashes tagged pointers.",
 [TP], [("derived comparison traits on the word", TP + " struct TaggedPointer")])

prop("C24", "Compile-time evaluation agrees with run-time evaluation",
 "The functions offered for constant contexts (dangling pointers and boxes, discriminant and address accessors, the store/fetch/strip helpers) give in constants and statics the same results as at run time for the same arguments, and a dangling pointer or box is non-null, aligned for its type and carries the requested discriminant.",
 ["inputs", "configurations", "programs"], "all discriminants, types of all alignments, all widths",
 "No test evaluates any of these in a constant, or looks at a dangling pointer.",
 [TP, TB], [("const fns", TP + " dangling, discriminant, as_u64, as_raw_u64, as_ptr, store/fetch/strip_discriminant; " + TB + " dangling, discriminant, as_ptr")])

prop("C25", "Recursive and nested tagged enums behave like plain ones",
 "Tagged enums may hold their own containers and boxes and those of other tagged enums, directly or inside other types, to any depth. Building, taking apart, viewing, cloning, comparing, ordering and formatting such values gives the same results as for the same enums with a plain Box in each container, a clone shares nothing with its original at any depth, and each part taken out is the single instance that was put in.",
 ["programs", "inputs", "histories"], "recursive and mutually recursive enum definitions x values of any depth x sequences of operations",
 "No test holds a container or box within a tagged enum.",
 [TB, MM], [("nested views in Clone, PartialEq, PartialOrd, Ord, Debug, Display", TB), ("views made of the stored parts", MM + " __ref_from_tagged")])

prop("C26", "Hand-written implementations get the same guarantees",
 "For a type with a TaggableInner implementation written by hand as the guide describes (any discriminants within the limit, in any order; several variants with one payload type; generic, borrowing and zero-sized payloads; any of the box's constructors and accessors), boxes and containers of it clone, compare and format exactly as the values do, are Copy when the type is, convert back to the same value, and pass on the implementation's own panic for a discriminant it does not know. Where the implementation takes values out by way of Box, every block is freed and every value destroyed exactly once.",
 ["programs", "inputs", "histories", "configurations"], "implementations of the trait x their values x sequences of operations x widths",
 "One hand-written implementation with two plain payloads is tested on one value each.",
 ["src/taggable.rs", "src/manually_impl_enum.rs", TB], [("trait TaggableInner and TaggableContainer", "src/taggable.rs"), ("the guide", "src/manually_impl_enum.rs"), ("generic trait impls of TaggedBox", TB)])

prop("C27", "User code may use the crate from within its own operations",
 "User code that runs during an operation (a view callback, or the clone, comparison, formatting or destructor of a held value) may itself perform any operation on any tagged box, including those the outer operation is working on, to any depth, and may panic and catch panics doing so. Inner and outer operations each give the results they would give alone, and no box is changed.",
 ["programs", "inputs", "histories"], "operations nested in user code called by operations, to any depth",
 "Tests nest views of two boxes once; no held value's own code uses the crate.",
 [TB, MM, TP], [("user code runs inside ref_from_tagged_box callbacks", TB + " Clone, PartialEq, PartialOrd, Ord, Debug, Display"), ("callback(&value)", MM + " __ref_from_tagged")])

prop("C28", "Tagged enums can be declared wherever plain ones can",
 "The macro can be invoked at any place where an enum can be declared (modules, function and method bodies, blocks, closures and constants, of any edition, several times in one place, under any name or re-export of the crate or macro, from other macros), whatever items and macros the surroundings have or lack. It declares just the two types asked for, accepts every spelling of a payload type, every visibility, and every attribute that fits both types, and values of the enum survive all conversions, views, clones, comparisons and formatting as anywhere else.",
 ["programs", "configurations"], "places of invocation x surrounding names x ways to name the macro x spellings of variants, fields, payload types, attributes and visibilities x editions",
 "The tests invoke the macro in a few functions and modules that import everything, in one edition, under one crate name.",
 [MM, "src/tagged_box_macro/meta_macros.rs"], [("paths and names used by the expansion", MM), ("recursive matching of variants", MM + " tagged_box")])

prop("C29", "The compiler guards borrowed, moved and unchecked access",
 "Programs cannot get at a held value past its owner without saying unsafe: a value, box or container that was moved in or taken apart cannot be used again unless its type is Copy; references obtained from a box, a tagged pointer or a view cannot outlive it, be kept beyond the callback, exist mutably twice or alongside others, or come mutably from a shared box; a box of a borrowing type cannot outlive or lengthen its borrow; and every operation that trusts the caller about type, discriminant or address is an unsafe fn. Programs that keep to these rules are accepted and run without undefined behaviour.",
 ["programs", "configurations"], "programs that break one of the rules once, and the same programs without the breach",
 "Tests contain only programs that compile, so they can't notice that a bound, lifetime or unsafe was lost.",
 [TB, TP, "src/taggable.rs", MM], [("signatures of as_ref, as_mut_ref, into_box, into_inner, into_raw, from_raw, new_unchecked", TB + ", " + TP), ("PhantomData<T>", TB), ("higher-ranked callback of ref_from_tagged_box", "src/taggable.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
