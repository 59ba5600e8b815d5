#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
C="derive_builder_core/src/"
O=C+"macro_options/darling_opts.rs"
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],**({"state":list(state)} if state else {}))))
st=lambda n,m,w: dict(name=n,meaning=m,where=w)

p("C01","Build returns exactly what the setters last wrote",
"For every derived builder and every sequence of setter calls ending in build, each field of the built struct that was set holds the value of the last write to that same field, whatever the order of calls, the number of fields, their types and their names. A write to one field never changes, clears or fills another field.",
["configurations","histories"],"all setter/build call sequences up to a bounded length, for all structs with up to three fields drawn from the field archetypes, under every struct-level pattern, default and validation mode; wide structs (up to 12 fields) by single and pairwise writes",
"The tests run one fixed call chain per fixture struct; order, repetition, cross-talk between particular neighbouring fields and many-field structs are never varied.",
[C+"setter.rs",C+"initializer.rs",C+"build_method.rs",O],
["Setter emits `new.<field> = Some(value)` for its own field only","Initializer reads the equally named builder field in build"],
[st("builder field","Option<T> slot per target field; None until set",C+"builder_field.rs")])

p("C02","Build fails exactly when a required field was never set",
"Build returns an error if and only if some field that has neither a value, nor a default of its own, nor a struct-level default is still unset (and nothing else rejects the build); otherwise it succeeds. The error names the first such field in declaration order by its field name (never by the setter's name), and displays as the documented `<field>` must be initialized message. Failing leaves a by-reference builder unchanged, so setting the missing fields and building again succeeds.",
["configurations","histories"],"all subsets of set fields, reached by all call sequences up to the bound, for structs of up to three fields over required/default/hidden/custom-typed archetypes, renamed and prefixed setters, all patterns and error kinds, with and without struct default",
"Tests check single missing fields on three fixture structs; the if-and-only-if over all subsets, the first-declared choice, and recovery after failure are not enumerated.",
[C+"initializer.rs",C+"build_method.rs",C+"builder.rs","derive_builder/src/error.rs"],
["match on the builder slot returns Err(Into::into(UninitializedFieldError::from(name))) for a missing value without default","initializers are emitted in declaration order"])

p("C03","Defaults: precedence, laziness and fresh evaluation",
"An unset field takes its own default if it declares one, else the corresponding field of the struct-level default value if there is one, and a value that was set always beats both. A field's default expression is evaluated anew by every build that needs it and never for a field that was set, the struct-level default is evaluated once per build, and a bare default means the type's Default value. Default expressions may read the builder and may fail the build with `?`, in which case build returns that error.",
["configurations","histories"],"all combinations of struct-level default (none, bare, expression, failing expression) x field default (none, bare, quoted, unquoted, block, reading the builder, failing) x setter presence x pattern, for one to three fields, over all call sequences up to the bound including repeated builds",
"The default tests use two fixtures with one build call; precedence in mixed structs, evaluation counts, and repeated builds are not checked.",
[C+"default_expression.rs",C+"block.rs",C+"initializer.rs",C+"build_method.rs",O],
["MatchNone chooses field default, then __default.<field>, then error","use_parent_default only when the field has no default"])

p("C04","Builder patterns: consuming, in-place and copying setters",
"A setter's pattern is the field's pattern if given, else the struct's, else mutable: owned setters consume the builder and return it, mutable setters update the very same builder and return a reference to it, immutable setters leave the receiver untouched and return an updated copy. Build consumes the builder only when the struct's pattern is owned; otherwise it leaves the builder unchanged and can be repeated with equal results, also on a clone, and a clone is independent of its origin. Every mixture of struct and field patterns gives a usable builder, whatever the field types.",
["configurations","histories"],"all struct-pattern x field-pattern combinations (for one to three fields) x conversions, each/try setters, Copy, Clone and non-Clone field types, over all call sequences up to the bound with builds and forks interleaved",
"setter_pattern.rs checks one signature per pattern on u32 fields; non-Copy types in mixed patterns, aliasing and repeated or interleaved builds are not covered.",
[C+"options.rs",C+"setter.rs",C+"initializer.rs",C+"build_method.rs",O],
["BuilderPattern selects self parameter, return type and clone-or-move","must_derive_clone"])

p("C05","Setter argument conversion: into and strip_option",
"A setter takes exactly the field's type, unless into is on, when it takes anything convertible into it and converts exactly once; with strip_option on, a field written as Option<T> (bare or as std/core::option::Option) takes T (or anything into T) and stores Some of it, losing exactly one Option layer, while fields of any other type are unaffected. For both switches a field-level setting, on or off, beats the struct-level one. Reading the value back through build yields the converted value and nothing else.",
["configurations","histories"],"the full product of struct-level and field-level into and strip_option settings (absent/true/false), field types (plain, Option, nested Option, path-qualified Option, aliased Option, collections, generic wrappers), patterns and try/each companions, over all call sequences up to the bound",
"Tests set at most one of the levels and never override a struct-level true by a field-level false; nested and path-qualified Options are unit-tested only at token level.",
[C+"setter.rs",O],
["generic_into / strip_option with field-over-struct fallback","extract_type_from_option strips one layer"])

p("C06","Fallible setters convert or leave the builder unchanged",
"With try_setter on the struct or the field, each enabled setter gets a companion named try_<setter name> accepting anything fallibly convertible to the type the plain setter stores, with the same visibility and receiver. On success its effect is identical to the plain setter's; on failure it returns the conversion's own error and, where the builder is still available, no field has changed.",
["configurations","histories","fault_sequences"],"all struct/field try_setter placements x pattern x strip_option x into x naming (field name, prefix, rename, raw identifiers) x field type, over all call sequences mixing successful and failing conversions up to the bound",
"try_setter.rs covers one mutable builder on the success path; no failing conversion is followed by an observation of the builder.",
[C+"setter.rs",O],
["try_ setter converts with ? before touching self"])

p("C07","Collection setters append exactly one element",
"An each setter appends exactly its one item to the field's collection, keeping earlier contents and order, starting from the collection type's Default when the field is unset; with into it converts the item, and with strip_option it fills the inner collection of the Option. Mixing each, plain and fallible setters on the same field has the meaning of performing those operations one after another, and an unset field stays unset until one of them is called.",
["configurations","histories"],"all each forms (string, list, list with into) x strip_option x pattern x default x custom builder field types x struct-level skip, over all interleavings of each/plain/try/build/clone calls up to the bound",
"setter_extend.rs runs one chain per struct with standard collections; interleavings with plain setters, clones and builds, and collections whose Default is not empty are not explored.",
[C+"setter.rs",C+"options.rs",O],
["get_or_insert_with(Default::default).extend(Some(item))"])

p("C08","Validation runs once, first, and gates the build",
"When a validation function is configured, each build call calls it exactly once, with the builder in its current state, before any default is evaluated and before any missing-field check. If it fails, build returns its error converted into the build error type and constructs nothing; if it succeeds the build proceeds exactly as if there were no validation.",
["configurations","histories"],"validator given by path or Self-path x error kinds (generated, custom) x struct default x field defaults x patterns x build method names, over all call sequences up to the bound with passing and failing validator outcomes",
"validation.rs has one struct without logging of order or multiplicity, and no struct-level default.",
[C+"build_method.rs",O],
["#validate_fn(&self)? is the first statement of build"])

p("C09","Hidden and custom-setter fields are present exactly as declared",
"A field is hidden when its setter is skipped on the field, or skipped for the whole struct and not switched on again by the field (bare setter, skip = false, or any of prefix, name, into, strip_option, each); a hidden field has no setter of any kind and always builds from its own default, else the struct default's field, else its type's Default. A field with a custom setter keeps its Option slot in the builder, under the field's name, but gets no generated setters; custom = false behaves as if custom were not written. All other fields have their setter.",
["configurations","histories"],"the full product of struct-level skip (absent/true/false) x field-level skip, custom, prefix, name, into, strip_option, each and bare setter settings x field default x struct default x pattern, with presence and absence of every setter probed and all call sequences up to the bound",
"skip-setter.rs and setter_custom.rs sample a dozen combinations out of the product, and never combine skip with custom.",
[O,C+"builder_field.rs",C+"initializer.rs"],
["FieldLevelSetter::field_enabled / setter_enabled with fallback to the struct's","PhantomData slot for hidden fields"])

p("C10","The generated API has exactly the documented names",
"The builder is called <Struct>Builder, or the given name, and its generated error is the builder's name followed by Error; setters are named after their field, or by a given name, or by <prefix>_<field>, where a field's own name beats any prefix and its own prefix beats the struct's. The build method, the empty-builder constructor, try_ and each setters carry exactly the configured names, raw identifiers included, and nothing is generated under a name that was replaced or disabled.",
["configurations"],"the product of builder name, build method name/skip, create_empty name, struct prefix, field prefix, field rename, try_setter, each name, and field/struct names including raw identifiers, underscored and capitalised names; presence by compiling and calling, absence by compiling probes that must be rejected",
"Each naming option is tested alone; precedence between them, error naming under renames, raw identifiers and absence of the replaced names are not.",
[O,C+"builder.rs",C+"setter.rs",C+"build_method.rs"],
["setter_ident / builder_ident / builder_error_ident","format_ident! handling raw identifiers"])

p("C11","Every generated item has exactly the configured visibility",
"The builder and its error type take the visibility given on the struct, else the struct's own; the build method takes its own setting, else the builder's; setters (with their try_ and each companions) take the field's setting, else the struct-level setting, else public; builder fields take the field-level field setting, else the struct-level one (hidden fields ignore it), else private. Each item is usable from precisely the modules and crates that this visibility admits, and from no other.",
["configurations"],"the full product of struct visibility x builder visibility x build_fn visibility x setter visibility x field visibility settings (absent, public, private, pub(crate), pub(super)) probed from the same module, the parent module, a sibling module and another crate",
"Four compile-fail fixtures cover one combination each; precedence between levels and items outside the same crate are not explored.",
[O],
["VisibilityAttr::to_explicit_visibility and the or_else chains in setter_vis, field_vis, builder_vis, build_method_vis"])

p("C12","Custom builder field types and build expressions are used verbatim",
"A field with a custom builder type has exactly that type in the builder, starts as that type's Default, is written by its setters without an Option wrapper (into, strip_option, try and each setters act on the custom type) and is moved into the target unchanged when no build expression is given. A build expression is evaluated once per build that reaches it, with the builder as self, decides the target value even when the field is unset, and may fail the build with `?`.",
["configurations","histories"],"custom type (absent, same type, Option, collection, unrelated) x build expression (absent, quoted, unquoted, failing) x into/strip/try/each x pattern x neighbouring fields, over all call sequences up to the bound",
"builder_field_custom.rs exercises two fields of one mutable struct.",
[C+"builder_field.rs",C+"initializer.rs",C+"setter.rs",O],
["BuilderFieldType::Precise, FieldConversion::{Block,Move}"])

p("C13","Builders add no bounds beyond Clone where it is needed",
"A builder derives Clone exactly when the struct's pattern or some field's pattern is mutable or immutable; owned-only builders work for field types that are not Clone. The builder carries the struct's generics, lifetimes, const parameters, where clauses and default type parameters unchanged; on its methods type parameters need only the declared bounds, plus Clone where building or setting by reference has to copy, and never any other trait such as Default.",
["configurations","histories"],"generics shapes (type, several types, lifetime, const, defaults, inline bounds, where clauses, ?Sized) x struct and field patterns x hidden fields x struct default, instantiated with types that implement nothing but Clone or nothing at all; trait presence decided by compile-time probes",
"bounds_generation.rs uses one shape per pattern; mixed field patterns on generics and const parameters are not covered.",
[C+"builder.rs",O],
["compute_impl_bounds pushes Clone onto type params when needed","requires_clone"])

p("C14","The build error type is the documented contract",
"Without a custom error, build returns the generated <Builder>Error, which is Debug, Display, converts from the missing-field error and from String, implements std's Error unless no_std is set, and offers the variants UninitializedField (field name) and ValidationError (message), the latter and its String conversion being absent exactly when validation_error = false. With a custom error no error type is generated and missing-field and validation errors are converted by its From impls. The public missing-field error keeps its field name, displays Field not initialized: <name>, and converts from a static string.",
["configurations","inputs"],"error kinds (generated, generated without validation error, custom, custom generic) x no_std x builder names x feature sets, every variant and conversion and trait probed for presence and absence, with display text of all variants",
"Tests look at one message per kind; absence of variants and impls, and the effect of renames, are not probed.",
[C+"builder.rs",C+"build_method.rs",O,"derive_builder/src/error.rs"],
["generate_error / generate_validation_error / std flags"])

p("C15","Attributes are forwarded to exactly the documented places",
"Doc, cfg and allow attributes of a field appear on its builder field and on all its generated setters, builder_field_attr contents only on the builder field, and builder_setter_attr contents only on the field's setters (plain, try and each); cfg and allow on the struct appear on the builder struct and its impl, builder_struct_attr contents only on the struct after its derives, builder_impl_attr contents only on the impl. Relative order is kept, no other attribute is forwarded, and exactly the requested derives (plus Clone where needed) are derived.",
["configurations"],"all sequences up to length three over the attribute alphabet (doc line, doc value, allow, builder_*_attr, foreign attributes) on fields and struct x hidden/custom/try/each/pattern variants, checked on every generated item",
"Tests use one attribute of each kind; combinations, order, and companions (try/each setters) are not checked.",
[O,C+"setter.rs",C+"builder_field.rs",C+"builder.rs"],
["distribute_and_unnest_attrs partitions attributes; unmatched ones are cloned to every output"])

p("C16","Contradictory or unsupported input is rejected, never guessed",
"The derive reports a compile error, and never silently picks a meaning, for: conflicting visibility settings at any level, a field default together with a custom builder type or build expression, a validation function together with validation_error = false, empty default expressions, unknown or repeated options, ill-typed option values, malformed forwarding attributes, and anything that is not a struct with named fields. Each offence is reported wherever it occurs, also next to valid options and other fields, and input without any such offence is never rejected.",
["inputs","configurations"],"every single offence and every pair of offences from the catalogue, at every placement (struct level, build_fn, any of up to three fields) x valid context options; and every offence-free configuration of the other checks' spaces",
"The compile-fail fixtures pin about fifteen single rejections under one compiler version; pairs, placements and the converse (no false rejection) are not covered.",
[O,C+"block.rs",C+"default_expression.rs"],
["VisibilityAttr::from_list, Field::resolve, BuildFn::validation_needs_error, BlockContents::from_value, darling(supports(struct_named))"])

p("C17","Every accepted configuration yields a builder that compiles cleanly",
"For every struct the derive does not reject, expansion terminates without panicking and the generated code is accepted by the compiler, without warnings and without undocumented public items when the input is documented. This holds for every combination of options at struct and field level, including redundant and mutually overriding ones and raw identifiers.",
["configurations","programs"],"all pairs of settings of all options at struct level and on a field (field-by-field, field-by-struct and struct-by-struct), and the full products of the setter-related options, expanded in process and, one per distinct outcome, compiled by rustc with strict lints",
"Tests compile a few dozen hand-written structs; most option pairs never meet.",
[O,C+"lib.rs",C+"setter.rs",C+"builder.rs"],
["builder_for_struct assembles all items","setter_enabled / field_enabled must agree so that hidden fields have no setters"])

p("C18","Generated code depends only on the chosen crate root and environment",
"Generated code refers to library items only through the configured crate root, so a builder works when derive_builder is only reachable under another path given by crate, when user types shadow prelude type names, and in every Rust edition. With no_std set it needs no std, and with validation_error = false (or a custom error) it needs no alloc either; when alloc is disabled a generated error with validation is rejected with an explanation instead of failing obscurely.",
["configurations","programs"],"a representative builder for every option setting compiled and run in every environment of: editions 2015/2018/2021/2024, renamed crate with crate = path, shadowed prelude types, no_std with alloc, no_std without alloc",
"Two no_std fixtures and one alias fixture use almost no options.",
[O,C+"builder.rs",C+"setter.rs",C+"initializer.rs","derive_builder/src/lib.rs"],
["crate_root threaded through every codegen struct","export::core re-exports std or core by feature"])

p("C19","Expansion is a pure function and equivalent spellings agree",
"Deriving is deterministic: the builder generated for a struct depends on that struct alone, not on which or how many structs were expanded before it, in the same or another thread. Equivalent spellings - quoted or unquoted values, word or = true, one builder attribute or several, options in any order, written-out defaults - give builders with the same API and behaviour.",
["histories","inputs","configurations"],"all ordered pairs from a set of configurations covering every option, expanded back to back in one process and in concurrent threads; all orders and all splits over attributes of option lists up to length four; every spelling of every option",
"No test derives twice and compares; spelling variants are tested one at a time.",
[O,C+"lib.rs",C+"block.rs",C+"default_expression.rs",C+"options.rs"],
["no global state in expansion","darling parsing normalises spellings"])

p("C20","A field's behaviour is independent of its siblings",
"What the builder offers for a field - its slot, setters and the value built from it - depends only on that field's declaration and the struct-level options, never on the presence, order, number or options of other fields. Reordering, adding or removing other fields changes only which missing field is reported first and in which order defaults run.",
["configurations","histories"],"all ordered pairs and triples over the set of field archetypes covering every field-level option, under all struct-level archetypes, compared with the single-field builders; wide structs up to 12 fields",
"Each fixture is a fixed struct; no test varies the neighbours of a field.",
[O,C+"builder.rs",C+"lib.rs"],
["builder_for_struct folds over fields with no carried state"])

p("C21","Fresh builders are empty and constructed as configured",
"A fresh builder has no field set: every Option slot is None and every custom-typed slot holds its type's Default, however it was created. The builder implements Default exactly when custom_constructor is absent; the private-to-module empty constructor (create_empty or its configured name) always exists, so custom constructors can start from it, and both give the same empty builder without evaluating defaults or validation.",
["configurations","histories"],"custom_constructor x create_empty name x derives x patterns x field archetypes x generics; every fresh builder observed field by field and after every sequence up to the bound followed by creation of another builder",
"custom_constructor.rs has one struct; emptiness is never asserted directly and Default's absence is never probed.",
[C+"builder.rs",C+"builder_field.rs",O],
["field_initializers emit Default::default() for every slot","impl_default unless custom_constructor"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for r in P:
        assert len(r["title"])<=80,r["id"]
        f.write(json.dumps(r)+"\n")
print(len(P))
