#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the text stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Layered precedence: the result is the documented fold of all providers",
 "After any sequence of merge, join, admerge and adjoin of any providers, including figments combined into figments, the data held for each profile is exactly the fold of the providers' data in the order they were combined: dictionaries unite key by key at every depth; where two sources conflict, the incoming one wins for merge/admerge and the existing one for join/adjoin; and two arrays are concatenated existing-first for adjoin/admerge. Nothing is lost, invented or altered, however deep, large or oddly named the data, whichever provider kind supplied it, and whatever other threads are combining at the same time.",
 ["histories","inputs","schedules"],
 "every history of combine operations of every provider kind (custom, serialized, tuple, string, file, environment, nested figment), every shape of data, concurrently with other threads' histories and changing files and variables",
 "Tests and doc-tests check a handful of two- or three-provider stacks with flat data; the rule has to hold for every order, depth, mixture of operations and provider behaviour.",
 ["src/figment.rs","src/coalesce.rs","src/util.rs"],
 [("combine one provider","Figment::provide"),("conflict table","coalesce.rs impl Coalescible for Value / Map"),("nested keys","util::nest")],
 [("value","per-profile data accumulated so far","src/figment.rs Figment.value")],
 ["Provider::data of a Figment","Figment::extract"])
p("C02","Profile overlay: default, then the selected profile, then global",
 "Every extraction and query sees, at every depth, the default profile's data overridden by the selected custom profile's data overridden by the global profile's data, and nothing of any other profile; profile names compare case-insensitively everywhere. The selected profile is the one most recently set by a selection or by merging/admerging a provider that sets one; joining/adjoining a provider, or combining one that sets none, never changes it.",
 ["histories","inputs"],
 "every history of combines and selections over any set of profile names in any spelling, including selecting default or global itself, profiles absent from the data and profiles present only in nested figments",
 "Tests exercise a few fixed profile layouts; case variants, sequences of selections, joined providers with profiles and figments nested in figments are not sampled.",
 ["src/figment.rs","src/profile.rs","src/coalesce.rs"],
 [("overlay","Figment::merged"),("profile selection","Figment::provide / Figment::select"),("case-insensitive names","profile.rs Profile(Uncased)")],
 [("profile","selected profile","src/figment.rs Figment.profile")],
 ["Figment::extract","Figment::find_value","Figment::profile","Figment::profiles"])
p("C03","Eager snapshot: a built figment never changes; a new one sees the present",
 "A provider is read when it is combined, so everything a figment yields is fixed from then on: later changes to files, environment variables, working directory or the provider object, combining or selecting on clones, focusing, and use by any number of threads at once never change it. Conversely a figment built after a change reflects the sources as they are at that moment, never an earlier state remembered by the process.",
 ["histories","schedules","fault_sequences"],
 "every interleaving of building, cloning, focusing and querying figments by several threads with changes to the files, variables, directories and provider objects they were built from, including providers that panic midway",
 "The tests are single-threaded and build a figment once from sources that do not change afterwards.",
 ["src/figment.rs","src/providers/data.rs","src/providers/env.rs"],
 [("eager evaluation","Figment::provide"),("value semantics","Figment derives Clone; queries take &self")],
 [("value/metadata","immutable snapshot","src/figment.rs Figment")],
 ["all Figment queries"])
p("C04","A provider failure is never lost, masked or healed",
 "If any combined provider fails, every later extraction and value query of that figment, of its clones, of figments focused from it and of figments it is combined into fails, whatever is combined before or after. The error reports each failed provider's error exactly once, in the order they were combined, each naming its own provider and source and carrying its own message; and a figment none of whose providers failed never reports a provider error.",
 ["fault_sequences","histories"],
 "every placement of any number of provider failures (custom errors, unreadable or malformed files, missing required files, unserializable values, failing nested figments) in any combine history",
 "Tests inject at most one failing provider; three or more failures, failures in nested or focused figments and failures after panics are never sampled.",
 ["src/figment.rs","src/error.rs"],
 [("error accumulation","Figment::provide match on (provider.data(), self.value)"),("chaining","Error::chain, Error::into_iter, Error::count"),("attribution","Error::retagged / Error::resolved")],
 [("value = Err","accumulated provider errors","src/figment.rs Figment.value"),("prev","chained errors","src/error.rs Error.prev")],
 ["Error returned by Figment::extract/find_value/extract_inner/focus"])
p("C05","Provenance: every value traces to the provider that supplied it",
 "Each scalar, and each element of every array, in the resulting configuration is attributed to the provider that supplied that value, with that provider's name, source and the place in the code where it was combined, and to the kind of profile (default, global or custom) it was supplied in. The attribution survives every later merge, join, array concatenation, nesting of figments, focusing, cloning and extraction into tagged values, and never names a provider whose value lost.",
 ["histories","schedules","inputs"],
 "every history of combines over every data shape, with several threads combining at once",
 "Tests look up metadata for a few keys of one fixed stack; concatenated arrays, nested figments, focus and concurrent construction are not sampled.",
 ["src/figment.rs","src/value/tag.rs","src/value/value.rs","src/coalesce.rs","src/metadata.rs","src/value/magic.rs"],
 [("tagging","Figment::provide + Value::map_tag + Tag::for_profile"),("lookup","Figment::find_metadata / get_metadata"),("tag through extraction","magic.rs Tagged")],
 [("metadata map","identity to provider metadata","src/figment.rs Figment.metadata")],
 ["Figment::find_metadata","Figment::get_metadata","Tagged::tag"])
p("C06","Provider identities are unique and ordered across threads",
 "Every act of combining a provider gets an identity distinct from every other one in the process, however many threads combine concurrently and however many have been combined before. Hence a figment's provider listing contains each combined provider exactly once, directly or through nested figments, in the order they were combined, and looking up a value's identity in a figment that contains it always yields that value's own provider, and looking up one whose provider is not part of the figment yields none.",
 ["schedules","histories"],
 "every interleaving of concurrent combine operations, after any number of earlier combines in the same process, followed by any cross-thread nesting of the resulting figments",
 "Uniqueness depends on the interleaving of threads and on the age of the process; the tests are single-threaded and short.",
 ["src/value/tag.rs","src/figment.rs"],
 [("identity allocation","Tag::next"),("metadata map union","Figment::provide __metadata_map")],
 [("COUNTER","process-wide identity counter","src/value/tag.rs")],
 ["Figment::metadata","Figment::get_metadata"])
p("C07","Extraction errors name the exact key, value, provider and profile",
 "When a consumer rejects a value at any place in the configuration, the error's path is the full key path of that value from the figment's root, including array indices, whichever way it was extracted, and the error names the provider and profile that supplied that very value, formatted in that provider's own key notation. A missing key yields a missing-field error, never a value or a different failure.",
 ["fault_sequences","inputs","histories"],
 "every consumer-side failure (type mismatch, custom validation error, unknown or missing field, wrong length) injected at every node of every layered configuration, through every extraction entry point, in figments built under concurrency",
 "Tests check the error text of a few flat failures; failures deep inside arrays concatenated from several providers, in inner extraction or through wrapper types are not sampled.",
 ["src/value/de.rs","src/error.rs","src/figment.rs","src/metadata.rs"],
 [("path prefixing","MapDe::next_value_seed, SeqDe::next_element_seed, Error::prefixed"),("attribution","Error::retagged / resolved"),("entry points","Figment::extract*, extract_inner*")],
 None,["Error.path, .profile, .metadata, .kind and Display of extraction errors"])
p("C08","All ways of querying a figment agree with one another",
 "For every figment and key path, finding the value, testing for presence, extracting that path (strictly or lossily), looking up its metadata and extracting the whole configuration all agree on whether the key exists and what its value is. Focusing on a path narrows each profile separately to the dictionary it holds at that path, drops the profiles that hold none there, and keeps the selected profile and the provider listing, so queries of the focused figment agree with that narrowed data.",
 ["histories","inputs","schedules"],
 "every figment any history can produce and every path into it (present, absent, through non-dictionaries), queried in any order, repeatedly and from several threads",
 "Tests query single keys of small figments; agreement between entry points over arbitrary histories is not tested.",
 ["src/figment.rs","src/value/value.rs"],
 [("common overlay","Figment::merged"),("path lookup","Value::find / find_ref"),("focus","Figment::focus")],
 None,["Figment query methods"])
p("F01","A configuration file is taken whole or reported as an error",
 "When a file provider finds its file, its data is exactly what the format's parser makes of the complete byte sequence the operating system delivers up to end of file, regardless of short or interrupted reads; any I/O error, invalid text or malformed content is reported as an error of that provider, never as partial, stale or empty data. A file that does not exist yields an empty source when optional and, when required, an error naming the file.",
 ["fault_sequences","inputs","schedules","configurations"],
 "every placement of I/O errors, short and interrupted reads, vanishing or changing files, and corrupt or non-UTF-8 content, for every format, nesting and requiredness option",
 "Unit tests read small healthy files; they cannot make the operating system fail, return short reads or change the file mid-call.",
 ["src/providers/data.rs"],
 [("read whole file","Format::from_path"),("missing handling","Data::data required/optional")],
 None,["Provider::data of file providers","Figment extraction"])
p("F02","A relative file is found in the nearest enclosing directory",
 "A relative path names the regular file in the current directory or else in the nearest ancestor directory that has one; directories of that name are skipped and the search ends at the root. With searching disabled only the current directory counts, and an absolute path names only itself. With the directory tree changing concurrently, the file chosen is one that the search could have selected at some moment of the call.",
 ["schedules","inputs","configurations","fault_sequences"],
 "every directory tree, working directory, relative path (with subdirectories and parent components) and option combination, and every interleaving with creations, removals, renames and working-directory changes",
 "Tests search one or two fixed trees; the current directory is process-wide state that other threads change.",
 ["src/providers/data.rs"],
 [("search","Data::resolve")],None,["values delivered by file providers","provider metadata source"])
p("F03","The source named for a file provider is the file that was read",
 "Whenever a file provider delivers data, the source path recorded for that provider, and so for each of its values and errors, denotes the very file whose content was used, even when files appear, disappear or move while the provider is being combined.",
 ["schedules"],
 "every interleaving of combining a file provider with changes to the candidate files and working directory",
 "Needs a concurrent change between two steps inside one call; tests are sequential.",
 ["src/providers/data.rs","src/figment.rs"],
 [("source path","Data::metadata"),("content","Data::data")],None,["Figment::find_metadata(..).source"])
p("E01","Environment provider: exactly the matching variables, at one instant",
 "An environment provider yields exactly the variables that pass its configured steps (prefix, filters, key maps, splits, only/ignore, in the order configured), case-insensitively matched, each under its mapped key with its own value, in its profile, and none other; a combine reflects one consistent snapshot of the environment taken during that call. Options compose: setting one never undoes another, in any order.",
 ["schedules","configurations","inputs","histories"],
 "every environment (non-UTF-8, empty, padded, colliding prefixes), every composition of options, and every interleaving with other threads changing variables",
 "Tests use a few options in one order on a quiet environment; they cannot interleave concurrent changes.",
 ["src/providers/env.rs"],
 [("pipeline","Env::chain, filter_map, iter"),("nesting","Env::data + util::nest")],
 [("environ","process-wide environment","libc")],["Env::iter","Provider::data of Env"])
p("E02","Single-variable lookup finds any spelling, at one instant",
 "Looking up one environment variable, as text or as the selected profile, returns the value of a variable whose name equals the given one case-insensitively whenever the environment holds such a variable, and otherwise nothing (or the given default); it never returns another variable's value, whatever order the environment is in and whatever non-text variables it also holds, and under concurrent changes the answer was right at some moment of the call.",
 ["schedules","inputs","configurations"],
 "every environment content and order, every spelling, and every interleaving with concurrent changes",
 "Tests look up one quiet variable.",
 ["src/providers/env.rs","src/profile.rs"],
 [("Env::var","src/providers/env.rs"),("Profile::from_env","src/profile.rs")],None,["Env::var, Env::var_or, Profile::from_env, from_env_or"])
p("J01","Jails exclude each other and start from the untouched process state",
 "At most one jail runs at a time in the process, from before its body starts until its environment, working directory and temporary directory have been put back; each body starts in its own fresh empty directory with the environment as it was before any jail. Jailed bodies run from any threads therefore behave as if run one after another.",
 ["schedules","fault_sequences"],
 "every interleaving of jails in any number of threads, whose bodies succeed, fail or panic and whose system calls fail at any point",
 "Tests run jails but never control the interleaving or check for overlap.",
 ["src/jail.rs"],
 [("mutual exclusion","Jail::try_with LOCK"),("release order","drop order of guard and jail")],
 [("LOCK","held while a jail is active","src/jail.rs")],["process environment, working directory and temp directory at entry and exit of each body"])
p("J02","A jail restores the environment exactly, however it ends",
 "When a jail ends, by success, error or panic, every environment variable has exactly the value, or absence, it had when the jail began, for every variable the jail set, overwrote or cleared through the jail, including repeated changes to one variable and non-UTF-8 content. Within the jail each setting and clearing takes effect at once. Ending a jail never aborts the process.",
 ["histories","fault_sequences"],
 "every sequence of setting and clearing operations on every initial environment, with every way of ending, including bodies that panic or pass invalid names",
 "Tests check one or two variables on the success path.",
 ["src/jail.rs"],
 [("saving","Jail::set_env, Jail::clear_env"),("restoring","impl Drop for Jail")],
 [("saved_env_vars","original values","src/jail.rs Jail")],["process environment after the jail"])
p("J03","A jail restores the working directory and removes its directory",
 "When a jail ends, by success, error or panic, the process is back in the working directory it had when the jail began, and the jail's directory with everything created in it is gone; directories of different jails are never the same. While it runs, the jail's directory exists and is the initial working directory.",
 ["histories","fault_sequences"],
 "every sequence of jail file, directory and directory-change operations, every way of ending, and I/O faults at any point of the body",
 "Tests never check what is left behind after failures or faults.",
 ["src/jail.rs"],
 [("temp directory","tempfile::TempDir in Jail"),("saved_cwd","impl Drop for Jail")],
 [("saved_cwd","directory to return to","src/jail.rs Jail")],["file system and working directory after the jail"])
p("J04","Jail path operations stay inside the jail directory",
 "From a jail whose body changes directory only through the jail and makes no links itself, creating files, binaries or directories and changing directory with any path, absolute or relative, with any dot or parent components, either affects only paths inside that jail's directory or fails; nothing outside is ever created, changed or entered.",
 ["inputs","histories"],
 "every sequence of jail operations with every path, including parent components, absolute paths into, out of and prefix-similar to the jail directory",
 "Tests try a few escaping paths from the jail's root only.",
 ["src/jail.rs"],
 [("path check","Jail::safe_jailed_path, dedot")],None,["the whole simulated file system after every operation"])
p("J05","A file created through a jail is complete, or the call fails",
 "When creating a file through a jail succeeds, the file at that path holds exactly the given bytes, replacing any earlier content; if the bytes could not all be written for any reason the call reports an error.",
 ["fault_sequences","inputs"],
 "every placement of short and interrupted writes, write errors, full disk and open errors, for every content size and pre-existing file",
 "Tests cannot make writes fail or come back short.",
 ["src/jail.rs"],
 [("write","Jail::create_binary")],None,["file content after create_file/create_binary"])
p("J06","A failing jail reports its failure and never wedges later jails",
 "A jail's outcome is reported faithfully: the body's error is the jail's error, a panic in the body propagates, failure to set the jail up is an error, and success is only reported when the body ran to success. However a jail fails, other threads' and later jails proceed: within a bounded number of steps every waiting jail runs.",
 ["fault_sequences","schedules"],
 "every way a jail can fail (body error, panic, failing directory creation, failing system calls) at any point, with other jails waiting or starting later, in the same thread or others",
 "Tests do not exercise a jail after a panicking or failed-to-start jail, nor waiting jails.",
 ["src/jail.rs"],
 [("lock guard","Jail::try_with _lock"),("propagation","Jail::try_with / expect_with")],
 [("LOCK","must be released on every path","src/jail.rs")],["results of try_with/expect_with; progress of all tasks"])
p("M01","Relative paths resolve against the file that declared them",
 "A relative path value extracted with its origin resolves against the directory of the configuration file that supplied that very value, even when files from several directories are layered or their arrays concatenated, and regardless of working-directory changes, file removal or other threads after the figment was built; the value as written stays available, absolute paths and paths not from files stay as they are, and a path that came from a file, re-serialized and read back from anywhere, still denotes the same path (one that came from no file takes the file it is then read from). This holds whether or not the file still exists, unless a directory now has its name. (A file named by a relative path with searching disabled is recorded as named, so its directory is relative too.)",
 ["histories","schedules","inputs"],
 "every layering of path values from files in different directories and other providers, at any nesting, with working-directory changes at any time",
 "Tests check one file in one directory with no changes in between.",
 ["src/value/magic.rs","src/figment.rs"],
 [("origin lookup","RelativePathBuf::deserialize_from"),("resolution","RelativePathBuf::relative")],None,["RelativePathBuf::original/relative/metadata_path"])
p("S01","A displayed file source always denotes the right file",
 "Displaying the source of a value or error, from whatever working directory and whenever it is done, prints a path that, taken from the current directory at that moment, denotes the recorded file; a failure to determine the working directory never makes displaying fail or print a wrong path.",
 ["schedules","fault_sequences","inputs"],
 "every pair of recorded file and working directory in every tree, with working-directory changes, removal of the working directory and failing lookups of it",
 "Tests display sources from one directory; a failing or deleted working directory cannot be produced in them.",
 ["src/metadata.rs","src/util.rs"],
 [("relative display","impl Display for Source"),("path difference","util::diff_paths")],None,["Display of Source and Error"])
# Pure functions of their input: recorded, not claimed (see MANIFEST not_applicable)
p("P01","Environment value text parses to the value it denotes",
 "Every text parses without failing: text in the documented value grammar (booleans, numbers, quoted and bare strings, arrays, dictionaries) yields the value it denotes and any other text yields itself as a string.",
 ["inputs"],"every string",
 "Tests parse a fixed list of strings.",
 ["src/value/parse.rs","src/value/escape.rs"],[("parser","Value::from_str")])
p("P02","Serializing a value into configuration and extracting it round-trips",
 "Any serializable value converted to configuration data and extracted as its own type equals the original, or is rejected with an error; numbers never change value silently.",
 ["inputs"],"every serializable value and target type",
 "Tests round-trip fixed examples.",
 ["src/value/ser.rs","src/value/de.rs"],[("serializer","ValueSerializer"),("deserializer","ConfiguredValueDe")])
p("P03","Lossy extraction accepts exactly the documented spellings",
 "Lossy extraction reads booleans and numbers from exactly the documented strings and numbers and otherwise behaves as strict extraction.",
 ["inputs"],"every value and target type",
 "Tests list some spellings.",
 ["src/value/value.rs","src/value/de.rs"],[("conversion","Value::to_bool_lossy, to_num_lossy")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
