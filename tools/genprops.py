import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
        observe_at=observe or ["expansion of #[derive(Builder)]"],hook_needed=hook)))
C="derive_builder_core/src/"
S=C+"setter.rs";I=C+"initializer.rs";BM=C+"build_method.rs";B=C+"builder.rs";BF=C+"builder_field.rs";O=C+"macro_options/darling_opts.rs";L=C+"lib.rs";OP=C+"options.rs"
p("C01","A setter stores exactly its argument in its own field and nothing else",
 "Calling the setter generated for a field stores exactly the passed value in that field of the builder, whatever was stored there before, and leaves every other builder field unchanged. With the owned pattern the builder is consumed and returned, with the mutable pattern the same builder is returned by mutable reference, and with the immutable pattern the receiver is left untouched and an updated clone is returned. This holds whichever combination of the other setter options is in force.",
 ["inputs","programs","histories","configurations"],"every derive input, every combination of setter options, every prior builder state, every argument value and field type",
 "The unit tests compare the emitted tokens of a handful of option combinations; integration tests call a few setters on a few structs with sample values. None varies all options together or quantifies over values and prior states.",
 [S,L,OP],[("generation of the regular setter",S+" impl ToTokens for Setter"),("collection of one setter per field",L+" builder_for_struct")],
 [("builder field","Option<T> slot (or custom type) holding the last value set","generated builder struct")])
p("C02","build() succeeds exactly when it can, and returns exactly what was set",
 "When validation passes and every field without a default source has been set, the build method returns Ok with a struct in which each set field equals the value last set. For the mutable and immutable patterns the builder is only borrowed and the values are cloned, so building leaves the builder unchanged and building again gives an equal result; for the owned pattern values are moved out. A build method is emitted unless it was switched off, and it always constructs the annotated struct itself with its own generics.",
 ["inputs","programs","histories","configurations"],"every struct, every option combination, every sequence of setter calls before build",
 "Tests build a few fixed structs with fixed values; the interaction of per-field patterns with the struct pattern and of all initializer kinds in one struct is not sampled.",
 [BM,I,L],[("generation of the build method",BM+" impl ToTokens for BuildMethod"),("per-field initializer",I+" impl ToTokens for Initializer")])
p("C03","A missing required field is reported by its exact name, first one first",
 "If a field has no default source and was never set, the build method returns an error for an uninitialized field carrying exactly that field's name, and never a partly defaulted struct. When several are missing the first in declaration order is reported. The error is converted into the build method's declared error type from the library's uninitialized-field error.",
 ["inputs","programs","histories"],"every struct, every subset of unset fields, generated and user-supplied error types",
 "Tests check the message for one or two structs with one missing field; the name/field correspondence for all structs and option combinations is not.",
 [I,L,C+"change_span.rs"],[("error arm of the initializer",I+" MatchNone::ReturnError"),("order of initializers",L+" builder_for_struct"),("decision that a field has no default",O+" FieldWithDefaults::as_initializer")])
p("C04","Defaults apply only to unset fields, in the documented precedence",
 "For an unset field the value comes from the field-level default if there is one, otherwise from the same field of the struct-level default value, and only otherwise is it missing; the bare word `default` stands for the type's Default. A default never replaces a value that was set, and a field-level default is evaluated only when its field is unset. A struct-level default is computed at most once per build, after validation.",
 ["inputs","programs","histories","configurations"],"every combination of struct and field defaults, every subset of set fields",
 "Tests exercise each kind of default on single structs; the precedence lattice (field default x struct default x skipped x pattern) is only sampled.",
 [I,BM,O,C+"default_expression.rs"],[("choice of the None arm",I+" Initializer::match_none"),("struct default binding",BM),("precedence",O+" FieldWithDefaults::use_parent_default")])
p("C05","Validation runs first, sees the builder, and its error stops the build",
 "When a validation function is configured, every call of the build method calls it exactly once with a reference to the builder before any default is evaluated and before any field is inspected or moved. If it fails, build returns that failure converted into the build error type and does nothing else; if it succeeds build continues as if it were absent. Without the option no validation function is called.",
 ["inputs","programs","histories"],"every struct, pattern, default configuration and validator outcome",
 "Integration tests have a couple of validators; none checks ordering against defaults and missing fields for every configuration.",
 [BM,O],[("validator call emitted ahead of the rest",BM+" impl ToTokens for BuildMethod"),("option plumbing",O+" Options::as_build_method")])
p("C06","A skipped field gets no setter and is filled from its default source",
 "A field whose setter is skipped has no setter of any kind and is represented in the builder only by a zero-sized marker of its type (private unless that field's visibility is set explicitly) that no setter or build step reads. Its value in the built struct is its field-level default if given, otherwise the struct-level default's field, otherwise the type's Default; it is never reported as missing. Disabling only the setter (a custom setter) keeps the builder field and ordinary build behaviour.",
 ["inputs","programs","configurations"],"all combinations of struct- and field-level skip, custom and the options that imply an enabled setter",
 "The skip/custom/implied-enable rules form a lattice over struct and field options of which tests visit a few points.",
 [O,I,BF,S],[("enablement rules",O+" FieldLevelSetter::{setter_enabled,field_enabled}, FieldWithDefaults::{setter_enabled,field_enabled}"),("marker field",BF),("initializer of a disabled field",I+" Initializer::default")])
p("C07","A fallible setter is emitted exactly when asked and never half-applies",
 "A `try_` setter, named `try_` followed by the setter's name, is emitted next to a field's setter exactly when try_setter was given on the struct or on that field and the setter itself is emitted. On successful conversion it stores exactly the converted value as the regular setter would and returns Ok; on failure it returns the conversion error and the builder's fields are unchanged.",
 ["inputs","programs","histories","configurations"],"every pattern, option combination, conversion outcome and prior builder state",
 "One integration test converts good and bad values for a mutable builder; atomicity for all patterns/options is not covered.",
 [S,O],[("generation of the try setter",S+" impl ToTokens for Setter"),("flag inheritance",O+" FieldWithDefaults::try_setter")])
p("C08","An each-setter appends exactly one item and keeps the rest",
 "When a per-item setter is configured for a field, a method with the configured name is emitted that extends the field's collection by exactly the passed item (converted when item conversion was requested), first initializing an unset collection with its Default, and changes nothing else in the builder. It is emitted in addition to the regular setter and follows the same self pattern, attributes and visibility, also when the Option wrapper of the field is stripped.",
 ["inputs","programs","histories","configurations"],"every pattern, strip_option/into combination, collection type, prior content and item",
 "Integration tests cover two collections with the default pattern; no unit test pins the generated method.",
 [S,OP,O],[("generation of the each setter",S+" impl ToTokens for Setter"),("parsing of each",O+" parse_each")])
p("C09","into and strip_option change the parameter type exactly as documented",
 "With `into` the setter accepts any value convertible into the parameter type and stores the conversion result; without it the parameter type is exactly the field type. With `strip_option` on a field whose type is written Option<T>, std::option::Option<T> or core::option::Option<T> the parameter type is T and Some of the argument is stored, and on any other type the option has no effect. The two compose, the conversion applying to the inner type.",
 ["inputs","programs","configurations"],"every field type, every combination of into/strip_option at both levels",
 "Recognition of Option is by path and tested for a few spellings; composition with try_setter, each, patterns and custom builder types is sampled sparsely.",
 [S],[("parameter type and wrapping",S+" impl ToTokens for Setter"),("recognition of Option",S+" extract_type_from_option")])
p("C10","Generated items have exactly the documented names",
 "A setter is called by the explicit name if given, else the prefix (field-level before struct-level), an underscore and the field name if a prefix applies, else the field name. The builder is called by the configured name or the struct name followed by `Builder`, the generated error by the builder's name followed by `Error`, the build method and the empty constructor by their configured names or `build` and `create_empty`. Builder fields always carry the name of the struct field.",
 ["inputs","programs","configurations"],"every identifier (including raw ones) and every combination of naming options",
 "Tests use a few names and never combine prefix at both levels with explicit names, or raw identifiers with every option.",
 [O,B,S],[("setter name",O+" FieldWithDefaults::setter_ident"),("builder and error name",O+" Options::{builder_ident,builder_error_ident}"),("error enum name",B)])
p("C11","Field-level options override struct-level ones, which override the defaults",
 "For each option that exists at both levels (pattern, setter prefix, into, strip_option, skip, try_setter, visibility, builder-field visibility) the value in force for a field is the field's own if it states one, otherwise the struct's, otherwise the documented default. An option stated on one field never affects another field, and no option leaks into a different option.",
 ["programs","configurations"],"every combination of presence/value of each option at both levels, for every number of fields",
 "The cross product of two levels for all options is far larger than the sampled structs.",
 [O],[("pull-through accessors",O+" impl FieldWithDefaults"),("conversion to codegen structs",O+" as_setter/as_initializer/as_builder_field")])
p("C12","Visibility of every generated item is the configured one",
 "The builder struct has the visibility configured for it or else that of the annotated struct, and the generated error type has the builder's. A setter (with its try and per-item variants) has the field's, else the struct's configured visibility, else `pub`; a builder field has the field's, else the struct's configured field visibility, else is private; the build method has its own configured visibility, else the builder's.",
 ["inputs","programs","configurations"],"every combination of public/private/vis at every level on every item",
 "Privacy tests check a few combinations in one crate layout.",
 [O,S,B,BM,BF],[("visibility resolution",O+" VisibilityAttr::to_explicit_visibility, builder_vis, build_method_vis, setter_vis, field_vis"),("emission",S+", "+B+", "+BM+", "+BF)])
p("C13","Forwarded attributes reach exactly the items they are meant for, in order",
 "Doc, cfg and allow attributes of a field are copied to its builder field and to each of its setters, and cfg and allow attributes of the struct to the builder struct and its impl. An attribute given through a builder_*_attr wrapper appears, unwrapped, only on the item kind that wrapper names. No forwarded attribute is dropped, duplicated or reordered, and misused wrappers are reported as errors.",
 ["inputs","programs"],"every list of attributes on structs and fields",
 "Tests forward one or two attributes; ordering and interleaving over arbitrary lists is not sampled.",
 [O,S,B,BF],[("distribution",O+" distribute_and_unnest_attrs, unnest_from_one_attribute"),("emission",S+", "+B+", "+BF)])
p("C14","Contradictory or unusable options are always rejected, others never",
 "Every pair of contradictory instructions (public with private, either with an explicit vis, a default with a custom field type or build expression, a validator together with a generated error that has no validation variant) is reported as a compile error naming the conflict rather than silently preferring one. All conflicts found are reported, and combinations without a contradiction are accepted. On error no builder is generated.",
 ["inputs","programs","configurations"],"every combination of the options involved, at every place they may appear",
 "Compile-fail tests pin the message of single conflicts; absence of false rejections and simultaneous conflicts are not covered.",
 [O,L],[("visibility conflicts",O+" VisibilityAttr::from_list"),("default conflicts",O+" Field::resolve"),("validation conflicts",O+" BuildFn::validation_needs_error"),("error exit",L+" builder_for_struct")])
p("C15","The builder has the struct's generics, and Clone exactly where needed",
 "The builder is declared with the struct's generic parameters, bounds and where clause unchanged, and its impls use the same parameters. A Clone bound is added to each type parameter of the impls exactly when the builder is cloned (its pattern is not owned, or an emitted setter uses the immutable pattern), removing no other bound. Clone is derived for the builder exactly when the struct's pattern or some field's pattern is not owned, together with exactly the extra derives requested, in order.",
 ["inputs","programs","configurations"],"every generic parameter list, where clause, pattern assignment to fields and derive list",
 "Tests use two generic structs; clone requirement depends on an any-of over all fields.",
 [B,O,BM],[("impl bounds",B+" Builder::compute_impl_bounds"),("clone requirement",O+" Options::requires_clone"),("derive list",B+" impl ToTokens for Builder")])
p("C16","A new builder is empty, and Default constructs the same empty builder",
 "The empty constructor sets every builder field to its empty state (None for ordinary fields, the marker for skipped ones, the type's Default for custom builder field types) and touches nothing else. Unless a custom constructor was requested, the builder implements Default by calling that constructor; with a custom constructor no Default impl exists.",
 ["programs","configurations"],"every struct and option combination",
 "Tests construct a few builders; the per-field-kind initial value is pinned for one kind only.",
 [B,BF,O],[("empty constructor and Default",B+" impl ToTokens for Builder"),("per-field initial value",BF+" BuilderField::default_initializer_tokens")])
p("C17","The error type is complete, convertible, and generated only when due",
 "An error type is generated exactly when none was supplied; it has an uninitialized-field variant carrying the field name and, unless switched off, a validation variant carrying the message, each constructible by From from the library's uninitialized-field error and from String. Its Display shows the field name or the message verbatim, it is Debug and non-exhaustive, and it implements std's Error unless no_std was requested. Without allocator support a validation variant is a compile error, not broken code.",
 ["inputs","programs","configurations"],"every combination of error options, no_std, validator and crate features",
 "Unit tests pin two configurations; messages for arbitrary names and the option combinations are sampled.",
 [B,O],[("error enum and impls",B+" impl ToTokens for Builder"),("when to generate",O+" Options::as_builder")])
p("C18","Generated code reaches the library only through the configured crate root",
 "Every path by which generated code refers to the builder library starts with the configured crate path (`crate` option, default `::derive_builder`), in every generated item and under every option. Apart from user-supplied code, no other crate path appears except the std Error impl of the generated error type.",
 ["programs","configurations"],"every option combination and every crate path",
 "One compile test renames the crate for one struct; most option combinations never run with a renamed crate.",
 [S,I,BM,B,BF,O],[("interpolation of the crate root",S+", "+I+", "+BM+", "+B+", "+BF),("default root",O+" default_crate_root")])
p("C19","The uninitialized-field error carries the field name unchanged",
 "An uninitialized-field error built from a name reports exactly that name, its Display text is `Field not initialized: ` followed by the name, and two such errors obtained from the same name are indistinguishable. The name survives conversion from &'static str and into the generated error unchanged.",
 ["inputs"],"every field name",
 "Tests look at one name; the property is about every string.",
 ["derive_builder/src/error.rs",B],[("construction, access and Display","derive_builder/src/error.rs"),("conversion",B+" From<UninitializedFieldError>")])
p("C20","Custom builder field types and build expressions are used verbatim",
 "With a custom builder field type the builder field has exactly that type, the setter's parameter is exactly that type and is stored without a wrapper, and the value is moved into the struct at build unless a build expression is given. With a build expression on a field that is not skipped, the struct field is exactly that expression's value, whether or not the field was set. Neither changes how other fields are handled.",
 ["inputs","programs","configurations"],"every custom type and build expression with every other option",
 "Tests use one or two custom fields with the default pattern.",
 [O,BF,S,I],[("field type",O+" FieldWithDefaults::field_type"),("conversion",O+" FieldWithDefaults::conversion"),("emission",I+", "+BF+", "+S)])
p("C21","Every struct field is handled exactly once, in declaration order",
 "For a struct with any number of fields the builder has exactly one field per struct field, in declaration order and with the same name; setters are emitted field by field in that order followed by the build method; and the build method initializes each struct field exactly once in that order. The options used for a field are always that field's own.",
 ["programs"],"every number and order of fields",
 "Tests use structs with one to a few fields; correspondences for all lengths need induction over the field list.",
 [L,O,B,BM],[("field loop",L+" builder_for_struct"),("field iterator",O+" FieldIter"),("collection",B+" push_field/push_setter_fn, "+BM+" push_initializer")])
p("C22","User expressions are carried into the generated code unchanged",
 "A default or build expression is emitted as a block whose content is exactly the user's code, whether written as an expression or as a string literal holding code; an empty string is rejected. Recolouring code with a source location never adds, drops, reorders or alters any token at any nesting depth.",
 ["inputs"],"every expression and token tree",
 "Tests parse three literals; token preservation is a statement over all trees.",
 [C+"block.rs",C+"default_expression.rs",C+"change_span.rs"],[("block contents",C+"block.rs"),("default expression",C+"default_expression.rs"),("span change",C+"change_span.rs change_span")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
