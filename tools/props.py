EXH = "bounded-exhaustive enumeration of inputs on the real code against an independent reference model"
PROPS = [
 dict(id="C01", title="Resolution does not depend on file order or on how groups are split over files",
  statement="For a given set of registry files, the resolved schema and the set of diagnostics are the same whatever the order in which the file system lists the files, the order in which they are parsed, and from one run to the next. Moving groups between files of the registry or reordering them within a file does not change what any group resolves to.",
  over=["inputs","schedules"], quant="every set of registry files and every enumeration/parse order of it",
  why="tests resolve one directory in one order and compare with a golden file; order-dependence (readdir order, rayon completion order, hash iteration order) only shows on particular combinations of files and particular orders",
  files=["crates/weaver_resolver/src/loader.rs","crates/weaver_resolver/src/registry.rs","crates/weaver_resolver/src/attribute.rs"],
  mech=[("parallel load then merge","loader.rs load_semconv_repository / collect"),("fixpoint resolution of refs, extends, includes","registry.rs"),("attribute catalog: first/definition wins rules","attribute.rs AttributeCatalog")],
  observe=["WeaverResolver::load_and_resolve_schema", "weaver registry resolve"],
  bin="resolve", level="exploration", technique=EXH+" (all permutations of enumeration order)",
  note="Every subset (bounded size) of a pool of interacting files x every enumeration order; equal serialised output required. Hash-seed nondeterminism is covered by repeated runs with fresh seeds, not enumerated."),
 dict(id="C02", title="An attribute reference is the definition plus exactly the stated overrides",
  statement="An attribute obtained by reference has, field by field, the value stated at the reference if one is stated there and otherwise the value of the definition (type and enum members always come from the definition), whatever the kind of the referring group and the syntax version of either file. The attribute as seen in its defining group is unaffected by any reference to it.",
  over=["inputs"], quant="every combination of fields stated by the definition and by the reference, every kind of referring group, v1 and v2 syntax",
  why="the field-by-field merge has 2^18 stated/unstated combinations times ten referring contexts; tests sample a few",
  files=["crates/weaver_resolver/src/attribute.rs","crates/weaver_semconv/src/v2","crates/weaver_semconv/src/attribute.rs"],
  mech=[("field-wise override of a ref","attribute.rs AttributeCatalog::resolve"),("v2 attribute refs to v1 refs","weaver_semconv/src/v2/attribute.rs")],
  observe=["resolved schema: groups[].attributes"],
  bin="resolve", level="exploration", technique=EXH,
  note="All subsets of overridden fields x (quick: all/none/single-field subsets, thorough: all subsets) of defined fields x 10 referring contexts x 3 types, compared with a field-wise model."),
 dict(id="C03", title="Inheritance: own refinements over included over parent over definition",
  statement="A group that extends another group, includes attribute groups, or refines a signal (v1 `extends`, v2 `ref_group`, v2 `*_refinements`) has, once resolved, exactly the attributes of its ancestors plus its own; for each field of each attribute, the value stated nearest to the group wins (own, then included group, then parent, then the definition). A v2 refinement has every signal-level field its base has unless it states its own, and is published under its own id; an entity keeps every attribute's identifying/descriptive role. Groups that are inherited from are unchanged by those that inherit.",
  over=["inputs"], quant="every acyclic inheritance shape of bounded size and every combination of per-attribute and per-field refinements along it",
  why="inheritance is resolved by a fixpoint over unordered groups with mutation of shared state; shape x refinement combinations grow into 10^5s and tests exercise a few chains",
  files=["crates/weaver_resolver/src/registry.rs","crates/weaver_resolver/src/attribute.rs","crates/weaver_semconv/src/v2"],
  mech=[("extends/include fixpoint","registry.rs resolve_extends_references / resolve_include_references"),("refinement merge","registry.rs resolve_inheritance_attrs / merge of v2 refinements"),("v2 refinement to v1 group","weaver_semconv/src/v2/*.rs into_v1_group")],
  observe=["resolved schema: groups[]"],
  bin="resolve", level="exploration", technique=EXH,
  note="All acyclic shapes over 3 v1 groups / 2 v2 attribute groups + signal + refinement x all per-attribute refinement combinations x group kinds; all field subsets of base and refinement; all entity role assignments."),
 dict(id="C04", title="Unresolvable references are always reported, never hang or vanish",
  statement="Resolution terminates on every reference graph. It succeeds exactly when every extends, include, refinement, attribute reference and entity association of the registry can be resolved (exists, is not part of a cycle, has the right kind), and then every published group is in the result. Otherwise it fails, and it reports every group/target pair that is truly unresolvable and none that is not.",
  over=["inputs"], quant="every reference graph of bounded size, including self-references, cycles, missing targets and targets of the wrong kind",
  why="the fixpoint loop's termination and its error reporting depend on graph shape (a cycle behind a chain, a missing target inside an expression); tests cover a handful of shapes",
  files=["crates/weaver_resolver/src/registry.rs","crates/weaver_resolver/src/error.rs","crates/weaver_semconv/src/entity_association.rs"],
  mech=[("fixpoint with progress detection","registry.rs resolve_*_references loops"),("entity association checks","registry.rs check of entity associations"),("refinement kind check","registry.rs InvalidRefinement")],
  observe=["WeaverResolver::load_and_resolve_schema result and diagnostics","exit status of weaver registry check/resolve"],
  bin="resolve", level="model_checking", technique="explicit-state reference fixpoint over all reference graphs within bounds, every graph replayed on the real resolver",
  note="All extends functions over 4 (thorough 5) v1 groups; all include graphs over 3 v2 groups + signal + refinement; all reference sets over 4 attribute names; all association expressions of depth <= 2; wrong-kind refinements."),
 dict(id="C05", title="Colliding definitions are reported, exactly",
  statement="If two declarations of a registry claim the same group id, the same metric name, the same signal name, the same v2 signal id or define the same attribute, resolution reports that collision naming the key and the groups involved; it reports no collision that is not there (a refinement does not collide with its base). This holds whatever mix of v1 and v2 syntax and whatever split over files is used.",
  over=["inputs"], quant="every bounded multiset of colliding and non-colliding declarations over v1 and v2 syntax and over file splits",
  why="each collision kind has its own detection pass with its own exemptions; the interplay of several collisions and exemptions is combinatorial",
  files=["crates/weaver_resolver/src/registry.rs","crates/weaver_resolver/src/lib.rs"],
  mech=[("uniqueness passes","registry.rs check_uniqueness_of / check_root_attribute_id_duplicates / check_group_any_of_constraints and friends")],
  observe=["resolution diagnostics"],
  bin="resolve", level="exploration", technique=EXH,
  note="All multisets of <= 5 (thorough 6) declarations from a pool of 20-odd, one file each and merged; reported (kind, key, groups) set equal to the model's."),
 dict(id="C06", title="A registry sees exactly what its dependencies publish",
  statement="A registry that depends on others sees of them exactly what is public. An import pattern brings in, unchanged, exactly the public signals of its field's type whose name it matches; a pattern that matches nothing is reported. Local definitions win over a dependency's. Explicitly importing or referencing something excluded from publication is an error, while including unreferenced items skips it silently. A name published by two unrelated dependencies is ambiguous and reported whatever the order of the manifest; the same item re-exported through two paths is not. The result is the same whether a dependency is given as source or as a published package, and the diagnostics of a dependency are reported with those of the registry that uses it.",
  over=["inputs"], quant="every bounded combination of dependency contents (public/excluded), reference kinds (import patterns, attribute refs, extends/refinements, associations), manifest orders, source or packaged form",
  why="visibility, precedence and ambiguity are decided per lookup kind in separate code paths for source (v1) and packaged (v2) dependencies; tests exercise one path at a time",
  files=["crates/weaver_resolver/src/dependency.rs","crates/weaver_resolver/src/loader.rs","crates/weaver_resolver/src/registry.rs"],
  mech=[("import of dependency signals","dependency.rs ImportableDependency"),("attribute lookup through dependencies","dependency.rs / attribute.rs AttributeLookup"),("group lookup through dependencies","dependency.rs GroupLookup"),("diagnostics of dependencies","loader.rs resolve_dependency")],
  observe=["WeaverResolver::load_and_resolve_schema with a manifest with dependencies"],
  bin="resolve", level="exploration", technique=EXH,
  note="All pattern sets x visibility assignments x manifest orders x source/packaged dependency x include_unreferenced; compared with an independent model of visibility, precedence and ambiguity."),
 dict(id="C07", title="The dependency graph: files, cycles, depth and version conflicts",
  statement="A registry is exactly the non-hidden .yaml/.yml files below its folder, however that folder is named, other than manifests and schema-next.yaml. Its dependencies are those reachable through the manifests. Loading fails if, and only if, some path from the registry meets the same registry name twice, is longer than ten registries, or two versions of one registry with different major versions (or that are not semantic versions) are reachable; it never loops. Otherwise every shared attribute and imported signal is taken from the highest reachable version, whatever the order of the manifests, the recorded dependencies are exactly the reachable registries, and a direct dependency that got a higher version than requested is reported.",
  over=["inputs"], quant="every dependency graph over six registry versions (root lists of up to three, in any order), all pairs of version strings, all chain lengths, all subsets of directory entries",
  why="cycle, depth and conflict detection interact on graph shapes (diamonds, cycles behind a diamond, conflicts two levels down) of which tests hold five examples",
  files=["crates/weaver_resolver/src/loader.rs","crates/weaver_resolver/src/lib.rs","crates/weaver_resolver/src/conflict_strategy.rs","crates/weaver_resolver/src/imports.rs"],
  mech=[("recursive load with chain and chosen versions","loader.rs load_semconv_repository_recursive"),("version choice","conflict_strategy.rs UseLatestMajorVersion"),("upgrade of attributes and imported groups","attribute.rs upgrade_attribute_with_source, imports.rs upgrade_imported_group"),("file selection","loader.rs load_definition_repository")],
  observe=["WeaverResolver::load_and_resolve_schema"],
  bin="resolve", level="model_checking", technique="explicit-state exploration of all name-simple walks of every dependency graph within bounds, every graph replayed on the real resolver",
  note="90 k (thorough 480 k) distinct graphs: error class in the set of applicable problems, closure, warnings and content version equal to the model; 14x14 version strings x 5 declaration shapes x source/packaged; chains to 13; 2^13 directory entry subsets."),
 dict(id="C08", title="What the resolver has cached never changes a result",
  statement="The outcome of loading a registry or resolving a schema URL (the resolved schema, or the kind of failure) is the same whatever the resolver resolved before, in which order, and however small its cache is: the cache only affects speed.",
  over=["histories"], quant="every history of up to three operations (24 operations over 12 registries with shared, upgraded, conflicting and circular dependencies) and every cache capacity in {1,2,3,4,32}",
  why="the effect of an eviction or of a leftover entry shows only for particular histories and capacities; tests resolve once with a fresh cache",
  files=["crates/weaver_resolver/src/lib.rs","crates/weaver_resolver/src/loader.rs"],
  mech=[("LRU cache of resolved schemas","lib.rs WeaverResolver"),("pre-resolved dependencies","loader.rs collect_pre_resolved"),("lookup of chosen versions","lib.rs SchemaLookupContext")],
  observe=["WeaverResolver::load_and_resolve_schema","WeaverResolver::resolve_schema"],
  bin="resolve", level="model_checking", technique="exhaustive exploration of operation histories on the real resolver, each compared with the same operation on a fresh one",
  note="All histories of length <= 2, and (thorough: all; quick: 13.8 k) of length 3, x 5 capacities x 4 choices of packaged registries."),
 dict(id="C09", title="The v2, package and template views hold exactly what was resolved",
  statement="The v2 form of a resolved registry holds every metric, event, span, entity, public attribute group, refinement and attribute definition of it exactly once and nothing else: definitions under the registry, definitions and refinements under the refinements, each with every field it has (brief, note, stability, deprecated, annotations, requirement level, entity associations, unit, instrument, kind, name) and with each attribute as that signal sees it (including its requirement level, sampling relevance and identifying/descriptive role). The template views show the same, with the file each item is declared in; writing the v2 form as a package and reading it back changes nothing; converting twice gives the same.",
  over=["inputs"], quant="every subset of optional fields of every signal kind and of its refinement, every pair of ways to refer to an attribute, every attribute type and definition field subset, awkward texts and values, v1 and v2 sources",
  why="the conversion re-keys attributes through a de-duplicated catalog and copies 15 fields per kind in ten hand-written places; a lost field or a reference to a near-identical catalog entry shows only for particular combinations",
  files=["crates/weaver_resolved_schema/src/v2","crates/weaver_forge/src/v2","crates/weaver_forge/src/registry.rs"],
  mech=[("v1 to v2 conversion","v2/mod.rs convert_v1_to_v2"),("attribute catalog","v2/catalog.rs convert_ref"),("template registries","weaver_forge v2/registry.rs, registry.rs")],
  observe=["v2 ResolvedTelemetrySchema","ForgeResolvedRegistry","ResolvedRegistry","weaver registry package/resolve/generate"],
  bin="schema", level="exploration", technique=EXH,
  note="768 field-subset registries, 1296 reference pairs, 1344 attribute definitions, awkward texts; every view compared with one computed from the resolved v1 groups."),
 dict(id="C10", title="A registry diff lists exactly the items that changed",
  statement="Comparing two versions of a registry lists, per kind of item (attributes, metrics, events, spans, entities, public attribute groups): `added` for exactly the items only the head has, `removed` for exactly those only the baseline has, and `renamed`, `obsoleted` or `uncategorized` (with target and note) for exactly those whose deprecation in the head is stated and differs from the baseline's. Comparing a version with itself lists nothing; other field changes, refinements and overrides at attribute references are not changes of the item. The list is the same on every run, and every report format (json, markdown, ansi, ansi-stats) shows every change.",
  over=["histories"], quant="every pair of versions over two items of a kind in twelve states each, all mixes of the six kinds, v1 and v2 sources compared as v1 and v2 schemas",
  why="the change list depends on a pair of states per item; tests compare two fixed registries",
  files=["crates/weaver_resolved_schema/src/lib.rs","crates/weaver_resolved_schema/src/v2/mod.rs","crates/weaver_version/src/schema_changes.rs","defaults/diff_templates"],
  mech=[("v1 comparison","lib.rs diff_attributes / diff_signals"),("v2 comparison","v2/mod.rs diff_signals_by_hash"),("report templates","defaults/diff_templates")],
  observe=["ResolvedTelemetrySchema::diff (v1 and v2)","weaver registry diff"],
  bin="schema", cli=True, level="model_checking", technique="explicit enumeration of all two-version histories within bounds, each replayed on the real diff",
  note="144x144 pairs x 11 kind/syntax choices x v1/v2 comparison; 64x729 mixed pairs; refinements and refs with their own deprecation; CLI with each format."),
 dict(id="C17", title="Live check reports exactly the documented findings for an attribute",
  statement="For every attribute of every sample, wherever it occurs (on its own, on a resource, scope, span, span event, span link, data point, exemplar or log), live check reports exactly the applicable findings: missing_attribute when neither a definition nor a template matches; template_attribute when a template does (the longest one); deprecated, not_stable and type_mismatch against that definition; undefined_enum_variant for a value that is no member; and from the default policy invalid_format, missing_namespace, illegal_namespace and extends_namespace by the name. Each finding carries the level, context and signal it concerns. Whether the registry is written in v1 or v2 syntax makes no difference.",
  over=["inputs"], quant="every bounded combination of attribute definition, place, value/type and name against registries over a pool of interacting names",
  why="findings depend on combinations of definition, value, name and place; tests hold a few golden samples",
  files=["crates/weaver_live_check/src","defaults/policies/live_check_advice"],
  mech=[("attribute lookup and templates","live_checker.rs find_attribute / find_template"),("built-in advisors","advice/*.rs"),("default policy","defaults/policies/live_check_advice/otel.rego")],
  observe=["LiveCheckRunner::run_live_check results per sample"],
  bin="live", level="exploration", technique=EXH,
  note="28 k (thorough 41 k) definition x observation cases, all registries over 9 interacting names x 104 observed names; findings equal an independent model."),
 dict(id="C18", title="Live check judges signals and their attributes as the registry defines them",
  statement="A metric or event is reported missing iff the registry does not define its name; otherwise deprecated and not_stable are reported as the definition says, a metric's unit and instrument are compared with the definition, and every attribute the signal requires (required, recommended, opt_in or conditionally_required) and the observation lacks is reported at its level, once per data point of every kind (number, histogram, exponential histogram) or once per log; an attribute that instantiates a required template counts. Policies are shown every entity exactly once, with its own resource, its signal and its registry definition.",
  over=["inputs","histories"], quant="every bounded combination of signal definition, requirement levels and observed attribute subsets on every kind of data point; every short sequence of resources before a signal",
  why="each kind of data point has its own code path and the set of requirement levels x presence is exponential",
  files=["crates/weaver_live_check/src"],
  mech=[("signal advisors","sample_metric.rs, sample_log.rs"),("attribute requirement checks","advice/mod.rs check_attributes"),("policy input","advice/rego_advisor.rs")],
  observe=["LiveCheckRunner::run_live_check results per sample"],
  bin="live", level="exploration", technique=EXH,
  note="520 k (thorough 6.8 M) definition x observation cases; findings equal an independent model."),
 dict(id="C19", title="Entity associations hold exactly when the resource satisfies the expression",
  statement="For a metric or event with entity associations, live check reports entity_association_not_satisfied iff the boolean expression over entities (list: any of; one_of; all_of; nested) is false of the resource in force, an entity being present iff its required identifying attributes are; for the entities that are present it reports their absent non-required attributes at their level. The resource in force is the last one seen, or the signal's own.",
  over=["inputs","histories"], quant="every association list of up to two expressions of depth two over three entities, every requirement level of their attributes, every subset of resource attributes and every sequence of two resources",
  why="the truth of the expression depends on the subset of attributes present: exponential, tests hold a dozen",
  files=["crates/weaver_live_check/src/advice","crates/weaver_live_check/src/sample_resource.rs"],
  mech=[("evaluation of associations","advice entity association check"),("resource in force","live_checker.rs / sample_resource.rs")],
  observe=["LiveCheckRunner::run_live_check results per sample"],
  bin="live", level="model_checking", technique="exhaustive evaluation of all assignments of bounded association expressions and all short resource histories, each run on the real checker",
  note="2.1 M (thorough 9.1 M) expression x resource assignments; verdicts equal the boolean semantics."),
 dict(id="C20", title="Finding filters and level overrides change exactly what they name",
  statement="The configured level overrides apply first: a finding takes the level of the first override whose ids, signal type and sample names match it. Then it is dropped iff some filter whose signal type and sample names match it excludes its id, its sample by name pattern, or its level as below the minimum. Nothing else changes: not other findings, not their order, not the statistics of what was seen; and rules given in the configuration file act as those given to the library.",
  over=["inputs"], quant="every rule over bounded choices per field, every ordered pair of a spread choice of rules, on every kind of sample",
  why="rules interact (override then filter, scopes, patterns) over findings of ten kinds in nine places",
  files=["crates/weaver_live_check/src/finding_modifier.rs","crates/weaver_config/src","src/registry/live_check.rs"],
  mech=[("rule matching","finding_modifier.rs"),("where findings are added","live_checker.rs / sample_*.rs"),("configuration section","weaver_config live_check")],
  observe=["findings per sample","weaver registry live-check with .weaver.toml"],
  bin="live", cli=True, level="exploration", technique=EXH,
  note="15 k (thorough 67 k) rule sets x 28 samples, 60 (240) of them through the command line."),
 dict(id="C21", title="Live check statistics and exit code recount what was reported",
  statement="After any sequence of samples, every statistic (entities by type, findings by level, type and message, highest level per entity, seen registry and non-registry attributes and signals, coverage) equals the recount over the reported samples and the registry; what is reported for a sample does not depend on the samples before it (but for the resource in force). The command exits with an error iff some finding is at or above the --fail-on level, and its report shows every sample and every finding in order, in every format, streamed or not.",
  over=["histories"], quant="every sequence of up to four (thorough five) of 14 samples under six rule sets; every combination of --fail-on, highest finding, format and mode",
  why="counters accumulate over histories and are updated in several places; the exit code depends on them",
  files=["crates/weaver_live_check/src/live_checker.rs","crates/weaver_live_check/src/stats.rs","src/registry/live_check.rs"],
  mech=[("statistics","stats.rs CumulativeStatistics"),("exit code","src/registry/live_check.rs fail_on")],
  observe=["LiveCheckStatistics","weaver registry live-check output and exit code"],
  bin="live", cli=True, level="model_checking", technique="exhaustive exploration of all sample histories up to a depth on the real checker against a recount",
  note="41 k (thorough 580 k) histories; 300 (450) command line runs."),
 dict(id="C13", title="Layered weaver.yaml, parameters and options: the nearest statement wins",
  statement="A template is rendered with, for every option of weaver.yaml, the value of the most specific file that states it (home directory, then parent directories downwards, then the target directory; an explicit list of files in its order, and nothing else); template syntax and whitespace options are taken field by field; parameters are merged one by one, null removing one; the parameters of a template entry go over those of the files, and the command line's over all (--param over --params). Acronyms and text maps of the project file .weaver.toml are merged over the template package's.",
  over=["configurations"], quant="every layering of the states of every option over four layers, and of parameters over template and command line",
  why="which layer wins depends on the combination of layers that state an option; tests have a few fixed layerings",
  files=["crates/weaver_forge/src/config.rs","crates/weaver_forge/src/lib.rs","src/registry/generate.rs"],
  mech=[("layering","config.rs WeaverConfig::override_with, collect_from_path"),("parameters","lib.rs TemplateEngine::try_new, init_params"),("command line","generate.rs generate_params_shared")],
  observe=["files written by OutputProcessor::generate","weaver registry generate"],
  bin="forge", cli=True, level="model_checking", technique="exhaustive enumeration of layerings of the real configuration against a last-statement-wins model, observed in rendered output",
  note="41 k (thorough 289 k) layerings; two known findings about --config."),
 dict(id="C14", title="Template application: exactly the files the configuration calls for",
  statement="Generation writes exactly the files its template entries call for: an entry applies to every file of the package its pattern matches, if its `when` is true (any other value than a boolean is an error); `single` renders the filter's output unless it is null or an empty array, `each` renders every item; a file is named by template.set_file_name, else by the file_name expression, else after the template; escaping follows the entry's auto_escape. An entry or item that fails is reported as an error, exit code 1, and neither hides nor removes the files of the others. Rendering to a string gives the same texts.",
  over=["configurations","inputs"], quant="every single entry over patterns, modes, filters, `when`, file names and template bodies; every ordered pair of 44 entries; all escape modes; sets of entries through the command",
  why="entries, items and their failures are processed in parallel and combine freely; tests cover a handful of template packages",
  files=["crates/weaver_forge/src/lib.rs","crates/weaver_forge/src/config.rs","crates/weaver_forge/src/jq.rs","crates/weaver_forge/src/file_loader.rs","src/registry/generate.rs"],
  mech=[("application","lib.rs process_template, process_each_mode, process_single_mode, evaluate_when"),("string form","lib.rs generate_to_string"),("filters","jq.rs execute_jq")],
  observe=["files written by OutputProcessor::generate","generate_to_string","weaver registry generate exit code"],
  bin="forge", cli=True, level="model_checking", technique="exhaustive enumeration of template configurations run by the real engine against a model of the files they call for",
  note="17 k (thorough 55 k) configurations."),
 dict(id="C26", title="Registry sources: what a source string names and what an archive gives",
  statement="A source string names what the documented grammar says (local folder or archive, remote file or archive, git repository with refspec and sub folder), is printed as it was given, and reading it back gives the same source; a local path keeps every character. An archive gives exactly the files below its top-level directory, or below the given (possibly nested) sub folder, with their content and names, however it was fetched. Whatever its entries are (parent or absolute names, links and files behind them), unpacking writes nothing outside its temporary directory, and the directory is gone once the source is dropped.",
  over=["inputs"], quant="every source x refspec x sub folder of the pools; every ordered triple (thorough: quadruple) of 25 archive entries, as tar.gz and zip, with every sub folder",
  why="what an archive can do depends on the order and combination of entries (a link, then a file behind it; a parent component after a sub folder); tests unpack one well-formed archive",
  files=["crates/weaver_common/src/vdir.rs"],
  mech=[("grammar of sources","vdir.rs REGISTRY_REGEX, FromStr, Display, map_sub_folder"),("unpacking","vdir.rs unpack_tar_gz, unpack_zip, path_to_unpack, create_parent_dirs"),("download","vdir.rs try_from_remote_archive")],
  observe=["VirtualDirectoryPath parsing and printing","files below VirtualDirectory::path","files outside of it"],
  bin="common", level="model_checking", technique="exhaustive enumeration of archives as entry sequences (unpacking operations) up to depth 3/4 on the real code, monitored for effects outside the target",
  note="600 source strings; all ordered triples, 14 k (thorough: quadruples, 300 k) of 25 entries x tar.gz/zip x 6 sub folders, and archives served over loopback HTTP. Contained in a scratch directory: every name that can escape has only scratch directories above it that the depth of its parent components can reach."),
 dict(id="C27", title="A credential goes only where its rule says",
  statement="A request carries the token of the [[auth]] rule with the longest prefix of the URL the user gave (the first among equals), obtained from exactly that rule's source (literal, environment variable, first line of the command's output); without such a rule, or when its source gives no token, the request carries no credential, never another rule's. A redirect to another host never carries it. The rules of .weaver.toml reach every download of the command: registry and dependencies.",
  over=["configurations","inputs"], quant="every ordered list of up to four (thorough five) of eight rules with every kind of token source x 13 URLs; every redirect kind",
  why="which token is sent is decided by the interplay of overlapping prefixes, failing sources, caches and redirects; tests try one rule at a time and never look at a request",
  files=["crates/weaver_common/src/http_auth.rs","crates/weaver_common/src/vdir.rs","crates/weaver_config/src/lib.rs"],
  mech=[("rule selection and token sources","http_auth.rs HttpAuthResolver::resolve, materialize, run_command_cached"),("request building and redirects","vdir.rs attach_auth, HTTP_AGENT"),("rules from .weaver.toml","weaver_config build_auth_resolver")],
  observe=["HttpAuthResolver::resolve","the Authorization header of every request a recording HTTP server gets"],
  bin="common", cli=True, level="model_checking", technique="exhaustive enumeration of rule sets and redirects, every request of the real client recorded by a loopback server and compared with a model",
  note="320 k (thorough 1.3 M) rule lists x URLs; downloads with 4 kinds of redirect; the command with rules in .weaver.toml. The GitHub release API (api.github.com) is out of reach without network."),
 dict(id="C25", title="Command line over .weaver.toml over default, for every command",
  statement="The project file is the one --config names, else the nearest .weaver.toml of the current directory and its parents; one that cannot be read or parsed is an error. Every setting of every command is what the command line says, else the project file, else the documented default; an explicit false, an empty or shorter list and each alias count as said. What the command does (exit code, output, diagnostics, files written, ports listened on, endpoint contacted) is what it does with exactly these values given on the command line.",
  over=["configurations"], quant="for each of eight commands, every setting and every pair of settings over absent / each value in the file x absent / each value on the command line; mixed assignments of all of them; every placement of project files",
  why="each command wires its settings by hand through three layers; a test covers single settings, mostly of single layers",
  files=["crates/weaver_config/src","crates/weaver_macros/src/lib.rs","src/registry/mod.rs","src/main.rs"],
  mech=[("discovery","weaver_config discover, src/registry/mod.rs resolve_weaver_config"),("layering","load_config, effective.rs layer_config, RegistryArgs/PolicyArgs apply_to, override_if_set!"),("diagnostics","src/main.rs")],
  observe=["exit code, output and files of the weaver command","ports it listens on, endpoint it connects to"],
  bin="common", cli=True, level="model_checking", technique="exhaustive enumeration of who states each setting (pairwise complete), each run of the real command compared with the run that has the effective values only",
  note="2.9 k command runs (thorough 23 k) in eight commands, 48 server and emitter runs; every value of every setting is shown to make a difference."),
 dict(id="C12", title="Every applicable policy decides, on its stage's input, the exit code",
  statement="Every policy file of the registry folder (hidden ones excepted) and of each -p file or folder is evaluated, in every command that checks policies, exactly on the input of its stage: each definition file before resolution, the resolved registry after it, the resolved registry against the baseline in a comparison. Each finding of its deny rule is reported once for each input that denies it, with the level, context and signal it has; findings, and policies that cannot be parsed or evaluated, make the command exit with an error; --skip-policies evaluates none. A policy of one stage or file never changes what another reports.",
  over=["configurations","inputs"], quant="every single and every pair of policies over stage x place x command x v1/v2 x baseline; defective policies beside good ones; every subset and spelling of a finding's keys",
  why="a policy that is silently not evaluated passes every build; stages, places and commands are wired separately and combine freely",
  files=["crates/weaver_checker/src/lib.rs","crates/weaver_checker/src/finding.rs","src/weaver.rs","src/registry/check.rs","src/registry/mod.rs"],
  mech=[("engine","weaver_checker Engine::add_policies, add_policy_from_file_or_dir, check"),("stages","src/weaver.rs, src/registry/check.rs"),("findings","finding.rs PolicyFinding")],
  observe=["diagnostics and exit code of check, resolve, generate, package","Engine::check"],
  bin="common", cli=True, level="model_checking", technique="exhaustive enumeration of policy placements and finding shapes, run by the real engine and command against a model of the denials",
  note="184 k findings and engine evaluations, 2.7 k command runs (thorough: every triple of places)."),
 dict(id="C15", title="Registry queries of templates select exactly what their options keep",
  statement="Every registry query of templates (attributes, metrics, spans, events, entities, grouped by root namespace or not, for v1 and v2) returns exactly the items that stable_only, exclude_stability, exclude_deprecated, exclude_root_namespace and the code generation annotations keep; the same holds for the members of enums and the attributes nested in signals. An option that is absent, false or an empty list excludes nothing. What is kept is unchanged, sorted, and in the group of its namespace. Template tests and attribute filters agree with the item's state.",
  over=["inputs","configurations"], quant="every query x every combination of options (quick: pairs) over a registry with an item in every state (stability x deprecation x annotation x type) at every level; every subset of seven names; every order of attributes in every requirement level",
  why="generated code silently misses or gains items when a filter is skipped for one combination of option, signal kind, level and schema version; tests have a handful of items",
  files=["defaults/jq/semconv.jq","crates/weaver_forge/src/extensions/otel.rs","crates/weaver_forge/src/jq.rs","crates/weaver_forge/src/registry.rs","crates/weaver_forge/src/v2/registry.rs"],
  mech=[("queries","defaults/jq/semconv.jq semconv_signal, semconv_attributes, stability_filter, deprecated_filter, code_generation_exclude_filter"),("tests and filters","extensions/otel.rs"),("contexts","ResolvedRegistry, ForgeResolvedRegistry")],
  observe=["jq::execute_jq on the template context of a resolved registry","rendered templates","files of `registry generate`"],
  bin="forge", cli=True, level="model_checking", technique="exhaustive enumeration of item states, queries and option combinations, the real jq queries compared with a model of the selection",
  note="7.4 k queries, renderings and orders (thorough: every combination of options)."),
 dict(id="C22", title="What is received over OTLP is what is checked and reported",
  statement="Every acknowledged OTLP message (logs, metrics, traces, profiles) is turned into the samples it states: its resources, scopes and signals in order, every field and attribute kept with its type, each signal checked with the resource and scope of its own message and never with those of another. The report holds exactly the samples of the messages received before the stop, however it is stopped (/stop, SIGINT, SIGHUP, inactivity), streamed, printed or returned over HTTP; findings and statistics are those for the same samples in a file. A receiver that cannot listen fails.",
  over=["inputs","histories","schedules"], quant="every structure of up to two resource and two scope blocks; every ordered pair (thorough triple) of 24 messages in a session; every value at every place; every combination of signal fields; every stop after k messages; every interleaving of two connections",
  why="a session is a history: what a message leaves behind shows only in the next; tests call the conversion on one message",
  files=["src/registry/otlp/mod.rs","src/registry/otlp/otlp_ingester.rs","src/registry/otlp/conversion.rs","src/registry/live_check.rs"],
  mech=[("receiver and stop","otlp/mod.rs listen_otlp_requests, stop_handler, ShutdownCoordinator"),("conversion","conversion.rs"),("context of signals","otlp_ingester.rs fill_buffer_from_request, live_check.rs command"),("input of policies","weaver_live_check rego_advisor.rs")],
  observe=["report and exit code of `registry live-check` fed over gRPC","contexts an echoing policy gets"],
  bin="otlp", cli=True, level="model_checking", technique="exhaustive enumeration of messages and message histories, sent to the real command over loopback gRPC, the report compared with a model of what they state",
  note="17 k messages in 130 sessions (thorough 90 k): acknowledgements order the messages; what happens to messages not acknowledged before the stop is not constrained."),
 dict(id="C16", title="Comments keep their text, structure and frame",
  statement="The comment filter renders the markdown of a text without losing, joining, repeating or reordering anything: a markdown comment is a CommonMark document with the blocks, nesting, numbering, links and code of the text, an html comment the html of it under the format's options. Every line stands between header and footer and carries the indentation and prefix that arguments or else the format state. Dots are removed or enforced as configured. With a line length, only white space moves: no line above the limit could be broken between words, no break is unneeded; no length, however small, is an error.",
  over=["inputs","configurations"], quant="every document of up to two (thorough three) of 19 blocks; every combination of frame options and arguments; every sequence of up to three (four) inline elements, separators and line lengths, also inside nested lists and quotes, and of up to three escaped characters, under all formats",
  why="generated comments are read in generated sources; the renderer walks a tree with state (prefix, numbering, pending breaks) that goes wrong only where elements meet",
  files=["crates/weaver_forge/src/extensions/code.rs","crates/weaver_forge/src/formats/mod.rs","crates/weaver_forge/src/formats/markdown.rs","crates/weaver_forge/src/formats/html.rs"],
  mech=[("frame","extensions/code.rs comment"),("rendering","formats/markdown.rs write_markdown_to, formats/html.rs write_html_to"),("wrapping","formats/mod.rs WordWrapContext")],
  observe=["texts rendered by a template with the comment filter"],
  bin="forge", level="model_checking", technique="exhaustive enumeration of documents, frames and wrapped sequences rendered by the real filter, read back by a parser and compared with a reference model",
  note="710 k comments (thorough: 6 M)."),
 dict(id="C23", title="An inferred registry describes the telemetry it was inferred from",
  statement="After any sequence of samples, `registry infer` writes exactly the attributes, spans, metrics and events observed: each signal once, with the attributes seen on it (span events as events, resource attributes as attributes), kind, instrument and unit as stated, each attribute with its observed type and the distinct examples first observed, at most five, wherever they were observed. The same samples give the same file. The file resolves, and a live check of the same telemetry against it finds no violation. Nothing observed: no file.",
  over=["inputs","histories"], quant="every sequence of up to three (thorough four) of 30 samples; every pattern of up to seven observations of one attribute over signals; every pair of 16 OTLP messages sent to the real command",
  why="inference accumulates over a history: what is lost shows only when signals and attributes recur in some order; tests feed one sample each",
  files=["crates/weaver_infer/src/lib.rs","src/registry/infer.rs"],
  mech=[("accumulation","weaver_infer AccumulatedSamples::add_sample"),("definitions","weaver_infer to_semconv_spec, collect_attribute_defs"),("receiver","src/registry/infer.rs")],
  observe=["the definition AccumulatedSamples gives","its resolution and a live check with it","the file of `weaver registry infer` fed over gRPC"],
  bin="otlp", cli=True, level="model_checking", technique="exhaustive enumeration of observation histories fed to the real accumulator and command, compared with a reference model and checked back by a live check",
  note="188 k histories (thorough: millions); 273 sessions of the command."),
 dict(id="C24", title="Updating markdown changes the inside of snippets, nothing else",
  statement="`registry update-markdown` replaces the lines between a snippet's header and its trailer by what the target's template renders for exactly the group, signal or refinement the header names, with all of the header's arguments (every tag, full, metric_table) and the template parameters; every other line is kept. Updating twice changes nothing more. A header that names nothing, is malformed or has no trailer is an error, and a file in error is not written. A dry run writes nothing, and fails exactly if the update would fail or change a file.",
  over=["inputs","histories"], quant="every document of up to four (thorough five) lines of 14 kinds; every header over openings, ids, argument lists and endings; every id of every kind of object and its near misses; every pair of files x sequences of runs of the command",
  why="the command rewrites hand-written files in place: text lost around unusual headers is lost for good; tests use well-formed files",
  files=["crates/weaver_semconv_gen/src/lib.rs","crates/weaver_semconv_gen/src/parser.rs","crates/weaver_semconv_gen/src/v1.rs","crates/weaver_semconv_gen/src/v2.rs","src/registry/update_markdown.rs"],
  mech=[("document","lib.rs update_markdown_contents"),("headers","parser.rs"),("lookup","v1.rs, v2.rs generate_markdown_snippet"),("files","src/registry/update_markdown.rs")],
  observe=["the text update_markdown_contents returns","files and exit code of the command"],
  bin="markdown", cli=True, level="model_checking", technique="exhaustive enumeration of line sequences, headers, ids and runs, the real generator compared with a reference model of the document",
  note="89 k documents and headers (thorough: 1.2 M)."),
 dict(id="C28", title="Template helpers give the documented result for every value",
  statement="Each filter, function and test offered to templates gives its documented result for every value of its domain: attribute types and enums (a value's own kind decides), sorting and selection by requirement level (a permutation, a partition), stability and deprecation, case conventions, constants, acronyms, namespaces and files of ids, Prometheus names and units under every strategy (always valid where sanitised), member values, text maps, regular expressions, lists, bodies. An input outside the domain is an error, never a silent other value.",
  over=["inputs"], quant="every filter and test x all values up to a bound: enums of up to three (thorough four) members, lists of up to three (four) attributes, ids of up to three (four) words over four separators, names of up to three (four) of eight characters x units x instruments x strategies, bodies of up to four levels",
  why="every line of generated code passes through these helpers; a wrong result for one shape of input compiles into somebody's SDK",
  files=["crates/weaver_forge/src/extensions/otel.rs","crates/weaver_forge/src/extensions/case.rs","crates/weaver_forge/src/extensions/util.rs","crates/weaver_forge/src/extensions/prom.rs","crates/weaver_forge/src/extensions/code.rs","crates/weaver_forge/src/extensions/ansi.rs"],
  mech=[("types and levels","extensions/otel.rs"),("cases and acronyms","extensions/case.rs, util.rs"),("Prometheus","extensions/prom.rs")],
  observe=["values rendered by a template as JSON"],
  bin="forge", level="model_checking", technique="exhaustive enumeration of small input domains of each helper, run by the real template engine and compared with an independent definition",
  note="198 k values (thorough: 1.7 M)."),
 dict(id="C29", title="Search, lookup and browsing show exactly what the registry has",
  statement="A search returns exactly the items that match the query and pass every filter (type, stability, hidden deprecations), best score first by the documented tiers, deprecated ones demoted; the total counts all, and pages of any limit (at most 1000) and offset put together are the whole. A lookup returns the item of that name, templates included, or says there is none; browsing partitions the attributes of a namespace. The HTTP API and the MCP tools answer the same, for every request and order of requests; their items, filters and statistics are those templates and commands get. The MCP live_check reports what the live check command reports, compact output every finding.",
  over=["inputs","configurations","histories"], quant="every query of up to three words x every id, brief and note; every filter combination x limit x offset; every subset of ten keys x separator x prefix; every request to the servers, single and pipelined; every list of up to two (thorough three) samples",
  why="an agent or a user who is told that a convention does not exist invents one; each filter, page and kind is separate code, tests have a handful of items",
  files=["crates/weaver_search/src/lib.rs","crates/weaver_mcp/src/service.rs","src/serve/handlers.rs","src/serve/server.rs","src/registry/mcp.rs"],
  mech=[("search","SearchContext::search, score_match"),("browsing","SearchContext::browse_namespace"),("HTTP","src/serve/handlers.rs"),("MCP","WeaverMcpService")],
  observe=["SearchContext","answers of `weaver serve`","answers of `weaver registry mcp` over stdio"],
  bin="serve", cli=True, level="model_checking", technique="exhaustive enumeration of queries, filters, pages, namespaces and requests against the real library and servers, compared with a reference model",
  note="460 k searches, pages and namespaces of the library, 1.2 k requests to `weaver serve`, 3 k tool calls over MCP."),
]
NOT_CLAIMED = {}
