SER = S
G = "internal/vssgen/"
prop("C12", "The difference of two documents, applied, gives the second one",
     "The patch generated between two documents, applied to the first by the receiver, gives the second one, with all timestamps when they are asked for; a difference that cannot be written as a patch is refused instead of being written wrongly. "
     "A patch is empty exactly when there is nothing to tell, generating changes neither document, and a vehicle that sends its differences over a network that loses, repeats and reorders them brings the cloud to its own state once the faults stop.",
     [I, H, F], "every pair of document states that a series of edits leads to, and every loss, duplication and reordering of the differences and their acknowledgements",
     "The tests diff a few pairs of literals and compare the operations, mostly without applying them.",
     [("GeneratePatch and GeneratePatchWithTimestamp", P + ":GeneratePatch"), ("diff of objects and arrays", P + ":diff"),
      ("application", P + ":ApplyPatch")],
     "delta synchronisation of a vehicle and the cloud over a faulty network; full documents when a difference is refused")
prop("C13", "What was written to disk comes back exactly, or is known to be torn",
     "Documents and patches that were written completely are read back exactly, in each text form and of every kind of value, and every version rebuilt from them after a crash equals the version before it. "
     "A file that a crash cut short or filled with zeros is refused when it is read, never taken for a shorter document or patch.",
     [CR, H, F], "every crash point of a document keeper that writes versions and checkpoints, with every combination of lost, cut and zero-filled unsynced files",
     "The tests serialise a few literals and read them back in the same process; no test ever reads a torn file.",
     [("Marshal and Unmarshal", S + ":Unmarshal"), ("MarshalIndent", S + ":MarshalIndent"), ("compatible form", T + ":FromCompatibleTsonBytes"),
      ("patch text", P + ":Unmarshal")],
     "log and checkpoint recovery on a simulated disk")
prop("C14", "Damaged input is refused, or read as exactly what it says",
     "A damaged document or patch never crashes the reader and never changes the document it was meant for unless it still is a well-formed text, which is then read as exactly what it says; a text cut short is always refused. "
     "Every well-formed way of writing a document is accepted.",
     [I, F], "every bit flip, truncation, lost or repeated part, and inserted garbage in a document or patch on its way",
     "The tests parse a few well-formed texts and almost no malformed ones.",
     [("Unmarshal", S + ":Unmarshal"), ("numbers", S + ":parseNumber"), ("strings", S + ":parseString"), ("timestamps", S + ":parseTimestamp"),
      ("patch text", P + ":Unmarshal"), ("Store", L + ":Store")],
     "a link that damages what it carries; the damaged text goes to a document in use")
prop("C15", "Applying a patch follows the standard, all or nothing, without side effects",
     "Applying operations gives what the JSON Patch rules and the documented meaning of timestamps say for every document, path and operation, and whether an operation is refused follows from them too. "
     "A refused patch leaves no trace, and neither the document, the patch nor any document that shares parts with them is changed by applying.",
     [I, H], "every sequence of operations of every kind on documents of every shape, with escaped, missing, nested and out-of-range paths",
     "The tests apply some operations to a few documents and don't look at the inputs afterwards.",
     [("applyTraverse", P + ":applyTraverse"), ("ApplyPatch", P + ":ApplyPatch"), ("SplitPath", T + ":SplitPath"), ("array indexes", P + ":getIndex"),
      ("GetValue", T + ":GetValue")],
     "long chains of applications that keep and re-examine every intermediate document")
prop("C16", "A generated data set is consistent from its first file to its last",
     "For every specification, size, rates, clock and random choice, each generated patch file leads from one generated document of its car to the next, values and timestamps included, and a document fed with them has exactly those versions. "
     "The first document has the asked number of signals with values their specification allows, later ones keep its types (whole numbers stay whole) and differ from it only as the rates allow, and timestamps are readings of the clock that never go back while the clock doesn't. A data set asked for on the command line is the one asked for, with the defaults for what is left out, and arguments that ask for none (a required one missing or negative, no number, an unknown option) end the program with a message.",
     [I, C, PR], "every specification, number of cars and files, set of rates, clock schedule including stalls and jumps, map iteration order and random seed",
     "The tests generate one data set from the real clock and randomness and check little more than that it is there.",
     [("Generate", G + "vss.go:Generate"), ("GenerateNext", G + "vss.go:GenerateNext"), ("files of a data set", G + "args.go:Generate"), ("LeafNodes", G + "vss.go:LeafNodes"), ("ParseArgs", G + "args.go:ParseArgs")],
     "whole data sets generated under a simulated clock, randomness and map order and read back")
prop("C17", "Generating a data set never silently leaves an incomplete one",
     "If a data set cannot be prepared or written completely, because files or directories cannot be created, removed, examined, read, written or closed or the disk is full, the user is told; if nothing is said, the data set is there, complete and consistent. "
     "After a crash at any point a new generation into the same place gives a complete data set with nothing of the old one left.",
     [F, CR, C], "every single and combined file fault at every file operation of a generation, every crash point, and generations over the remains",
     "The tests run on a healthy disk and never look for what a failed write leaves behind.",
     [("PrepareOutputDir", G + "args.go:PrepareOutputDir"), ("SaveMetadata", G + "args.go:SaveMetadata"), ("Save", G + "vss.go:Save"), ("specification file", G + "vss.go:NewVssJson")],
     "generations over a fault-injected disk, with crashes and regeneration")

X = "exp/"
W = "web_demo.go"
prop("C18", "The web demo answers every request with its data set or with an error",
     "Under every interleaving of concurrent requests the page, the first document of a car, each patch file and the document with the first patches applied are answered with exactly the content of the data set that the demo generated when it started. "
     "A request for something that does not exist, or in which a file cannot be read, is answered with an error or not at all, never with wrong, empty or partial content, and affects no other request; every request ends, and a restarted demo answers from its new data set.",
     [PR, F, H], "every interleaving of concurrent requests at file operations and answer writes, with read faults, clients that go away and restarts",
     "No test starts the demo; concurrent requests and failing reads need a schedule and a disk that the tests don't control.",
     [("updateHandler", W + ":updateHandler"), ("patchHandler", W + ":patchHandler"), ("homeHandler", W + ":homeHandler"), ("generation at the start", W + ":generateVss"),
      ("Store, Append and Snapshot", L + ":Snapshot")],
     "WebDemo itself under a deterministic goroutine scheduler, fault-injected files, clock and randomness; answers compared with the data set")
prop("C19", "The reported counts and sizes of an experiment are those of its patches",
     "For every experiment, in every scenario and for every set of signal definitions, the reported updates, value changes, patch counts, patch sizes, processing times, bandwidths, reduction and cumulative counts agree with each other and with the recorded patches and timing rows, in the files as in what is printed meanwhile. "
     "Every update appears as exactly one timing row in time order, and every value change as exactly one TSON patch, while JSON patches repeat the timestamp on every update.",
     [PR, C], "every set of signal definitions, scenario, clock schedule (stalls and jumps while the experiment measures itself), random choice and map iteration order of a complete experiment",
     "No test runs an experiment; its results are never compared with its patches.",
     [("runRealisticExperiment", X + "exp_scenario.go:runRealisticExperiment"), ("RealworldScenario", X + "exp_scenario.go:RealworldScenario")],
     "complete experiments on drawn signal definitions under a simulated clock, randomness and map order; all result files read back")
prop("C20", "The recorded patches lead from the initial to the final documents",
     "For every experiment, in every scenario (changes of scenario included) and for every set of signal definitions, the recorded TSON patches, applied to the recorded initial document, give the recorded final TSON document, values and timestamps included, and so do the JSON patches, up to the documented tolerance, for the final JSON document. "
     "Both kinds of patches carry the same value changes in the same order, every patch changes something, and the recorded sensor data are the values that the signals had at those times.",
     [PR, H], "every set of signal definitions, scenario, clock schedule, random choice and map iteration order of a complete experiment",
     "No test replays what an experiment recorded.",
     [("runRealisticExperiment", X + "exp_scenario.go:runRealisticExperiment"), ("updateJsonDoc and updateTsonDoc", X + "utils.go:updateTsonDoc"), ("isEqual", X + "utils.go:isEqual"),
      ("DataStorage", X + "doc_data_save.go:saveJSONToFile"), ("RecordSensorData", X + "sensor_data_save.go:RecordSensorData")],
     "complete experiments on drawn signal definitions under a simulated clock, randomness and map order; the patches are replayed by a reference")
prop("C21", "An experiment whose results are not stored completely says so",
     "If any result file of an experiment cannot be created, written, closed or read, or the disk is full, the user is told; if nothing is said about a scenario, its results are there, complete and consistent with each other. "
     "The same holds for experiments run again over the remains of a crashed one, and an experiment on a healthy disk reports no error.",
     [F, CR], "every single and combined file fault at every file operation of an experiment, every crash point, and experiments over the remains",
     "The tests never run an experiment, let alone on a failing disk.",
     [("RealworldScenario", X + "exp_scenario.go:RealworldScenario"), ("DataStorage", X + "doc_data_save.go:saveJSONToFile"), ("sensor data", X + "sensor_data_save.go:Close"),
      ("loadTSONPatches", X + "exp_temporal.go:loadTSONPatches"), ("SaveResults", X + "utils_temporal.go:SaveResults")],
     "complete patch and temporal experiments over a fault-injected disk, with crashes and reruns")
prop("C22", "The scenario follows the battery, with the minimum time between changes",
     "City traffic changes to charging when the battery is at 10 % or less, charging back to the scenario before when it is full (99.95 %), no change comes within 60 s of the change before (or of the start), and highway driving never changes; a change is told exactly when it happens. "
     "On a change every signal gets the pattern that its definition has for the new scenario, signals with a value of their own in that scenario take it, and all others keep their value, around which noise varies. "
     "Other vehicles and the signal definitions are never affected, and a vehicle whose battery sensor is lost or broken goes on with the last known level. "
     "An experiment in the mixed scenario records and prints exactly the changes that its battery calls for, each with its time, the scenarios before and after and the level, and every update under the scenario of its time.",
     [H, F], "every history of battery levels, sensor losses, broken readings, clock steps and jumps of one or two vehicles, and complete experiments with any signal definitions",
     "No test changes a scenario.",
     [("UpdateScenarioState", X + "scenario.go:UpdateScenarioState"), ("InitializeVehicleData", X + "scenario.go:InitializeVehicleData"),
      ("updateAllSensorPatterns", X + "scenario.go:updateAllSensorPatterns"), ("charging settings", X + "scenario.go:applyBatteryChargingSettings")],
     "vehicles with failing battery sensors driven through simulated hours with clock jumps")
prop("C23", "Every signal is updated on its schedule and keeps to its pattern",
     "In every experiment, for every set of signal definitions, every defined signal exists, starts with a value of its type and is updated exactly at the multiples of its interval. "
     "Its values keep its type; signals that are constant in a scenario never change in it (but for the values that the scenario sets when it begins), random walks and linear signals stay in the range of their definition, and linear ones never turn back.",
     [PR, C], "every set of signal definitions (intervals, patterns, ranges, names), scenario, clock schedule, random choice and map iteration order of a complete experiment",
     "The tests never look at the signals of an experiment.",
     [("runRealisticExperiment", X + "exp_scenario.go:runRealisticExperiment"), ("calculateNewValue", X + "utils.go:calculateNewValue"),
      ("numbers", X + "utils.go:calculateNewNumberValue"), ("InitializeVehicleData", X + "scenario.go:InitializeVehicleData")],
     "complete experiments on drawn signal definitions under a simulated clock, randomness and map order")
prop("C24", "Questions about the past are answered alike, and rightly, by both formats",
     "For every history of changes and every time or time range, the document of the temporal experiment and its temporal JSON both give the values of that time, the changes (or periods of value) of a path in that range and the times at which a threshold is exceeded, exactly as the recorded patches say, late patches included. "
     "Result files and tables hold those answers with their true sizes, the newest experiment is the one asked about, and a temporal JSON document built from any additions, replacements and removals answers likewise.",
     [H, I, F], "every history of changes, including late, repeated and simultaneous ones, every time, range, path and threshold, and file faults while answering",
     "No test asks a temporal question.",
     [("FromTSONPatches", X + "tjson.go:FromTSONPatches"), ("TemporalSnapshot", X + "tjson.go:TemporalSnapshot"), ("TemporalTrack", X + "tjson.go:TemporalTrack"),
      ("FindEvents", X + "tjson.go:FindEvents"), ("document of an experiment", X + "utils_temporal.go:createLogumentFromPatches"),
      ("findEventsInLogument", X + "utils_temporal.go:findEventsInLogument"), ("RunTemporalQueryExperiments", X + "exp_temporal.go:RunTemporalQueryExperiments")],
     "histories with late changes queried through the experiment's own files; answers compared with a reference")

prop("C25", "Every form of a document means the same document",
     "A document held as TSON value, TSON text, compatible bytes or value, or (without timestamps) JSON bytes or value converts between these forms, directly or through any chain of others and shared with any number of readers, without losing or changing a key, value, type, null, empty container or timestamp: "
     "TSON text drops negative timestamps, JSON drops all, and the compatible form as a Go value holds timestamps up to 2^53. "
     "No conversion changes its input or shares memory with it, the sorted form has its keys in order, documents are reported equal exactly when they are, with or without timestamps, and the latest timestamp is the greatest one there is, or negative if there is none. "
     "A patch read from a JSON value is the patch that value says.",
     [PR, H], "every document, whatever its shape and root, and every chain of conversions over a network that loses, repeats and reorders",
     "The tests convert a few fixed documents once, and compare hardly anything but equal ones.",
     [("ToJson and FromJson", "internal/tson/tson.go:ToJson"), ("FromJson", "internal/tson/tson.go:FromJson"), ("compatible form", "internal/tson/tson.go:FromCompatibleTsonBytes"),
      ("sorted form", "internal/tson/tson.go:ToCompatibleTsonBytesSorted"), ("Equal and EqualWithoutTimestamp", "internal/tson/tson.go:Equal"), ("GetLatestTimestamp", "internal/tson/tson.go:GetLatestTimestamp"),
      ("Marshal, MarshalIndent and Unmarshal", "internal/tson/serialization.go:Marshal"), ("patches", "internal/tsonpatch/tsonpatch.go:FromJson")],
     "documents sent through chains of converting gateways over a faulty network; every form read independently and compared with the reference")

prop("C26", "Data sets in memory never change, and all that stems from them agrees",
     "From every generated data set the next ones can be derived, any number of times and in any order: the first follows the signal specification, the others keep its types (whole numbers stay whole) and the rates for change and renewal, the patch of each leads to it from the data set it was derived from, and neither that one nor any other data set nor the specification changes. "
     "The list of leaves, the maps built from the data set, its data and the file it is saved to all show every signal exactly once with the value and timestamp it has (maps of JSON values: with timestamps up to 53 bits).",
     [H, C], "every specification, rate, clock schedule, random choice and map order, and every order in which data sets are generated, derived (branches included), looked at, saved and dropped",
     "The tests derive one data set from one specification and count its leaves.",
     [("Generate", G + "vss.go:Generate"), ("GenerateNext", G + "vss.go:GenerateNext"), ("LeafNodes", G + "vss.go:LeafNodes"),
      ("ToMapStringInterface", G + "extension.go:ToMapStringInterface"), ("BuildFromLeafNodes", G + "extension.go:BuildFromLeafNodes"), ("Save", G + "vss.go:Save")],
     "families of data sets derived from each other under a simulated clock, randomness and map order; compared with a reference after every step")

prop("C27", "The demo page shows what is chosen, and snapshots hold what they say",
     "However fast cars and patches are chosen on the demo page, and in whatever order the answers of the server arrive, fail or get lost: once nothing is under way, the page shows the document and the patch of the chosen car and patch with exactly the values the server has, "
     "or, after a failed request, that it failed, but never those of another choice; the result is that of a choice for which it was asked. A saved snapshot named after a car and a patch always holds the document of that car with the patches up to that one, is listed once and stays. "
     "Data never becomes markup, and as soon as the server answers again every choice can be appended and saved.",
     [PR, H, F], "every sequence of choices, clicks and reloads in several tabs, every order, loss and failure of answers, file faults and restarts of the server, and every data set",
     "No test opens the page.",
     [("updateVehicle and updatePatch", "index.html:updateVehicle"), ("onAppendSnapshotClicked", "index.html:onAppendSnapshotClicked"), ("saveSnapshot", "index.html:saveSnapshot"),
      ("setCodeBlockContent", "index.html:setCodeBlockContent"), ("updateHandler and patchHandler", "web_demo.go:patchHandler")],
     "the scripts of the page run in a simulated browser against the real server; every request and answer is held and delivered by the scheduler")

prop("C28", "Every new value of a signal is one that its pattern allows",
     "Whatever the pattern, parameters and earlier values of a signal: its next value has the type of the signal and is one that the pattern allows from the current one at that time: noise within its band around the base line, "
     "linear signals one step of their slope for the interval further, sine waves at their phase of the clock, random walks and steps within step size and range, steps and triggers when their time has come and not before, changes with the chance that was given, choices among those that there are. "
     "A broken value is replaced by one of the right type, a new value can always be found, in bounded time, and no other signal and no parameter changes with it.",
     [PR, H, C], "every order of updates of any signals, every clock (jumps included), pattern, parameter, random choice, change of scenario and broken value",
     "No test asks for the value of a signal.",
     [("calculateNewValue", X + "utils.go:calculateNewValue"), ("numbers", X + "utils.go:calculateNewNumberValue"),
      ("truth values", X + "utils.go:calculateNewBooleanValue"), ("texts", X + "utils.go:calculateNewStringValue")],
     "signals updated one by one in drawn orders under a simulated clock and simulated randomness; each new value is judged by a model of its pattern and each series by its rates")

prop("C29", "Every experiment keeps its results in a place of its own",
     "However many experiments are run, one after another or at once, in whatever processes and however fast: each has a directory of its own, named after its time, of which the newest is the one that is read later. "
     "Every document, patch, list of patches and snapshot that is reported as saved is there, whole, under a name that no other one of that experiment has, until it is saved again; nothing else changes with it, and what can not be saved (or written) is reported and harms nothing. "
     "Every value of a key signal that is recorded is a row of its table, unless the user was told.",
     [PR, H, F, CR], "every order of experiments, saves and records in any number of processes, every clock (stalls included), document, index, time, and every file fault or stop of a process",
     "No test saves anything of an experiment.",
     [("NewDataStorage", X + "doc_data_save.go:NewDataStorage"), ("saveJSONToFile", X + "doc_data_save.go:saveJSONToFile"), ("names", X + "doc_data_save.go:SaveTSONSnapshot"),
      ("NewSensorDataRecorder", X + "sensor_data_save.go:NewSensorDataRecorder"), ("RecordSensorData", X + "sensor_data_save.go:RecordSensorData"),
      ("findLatestTimestampDir", X + "exp_temporal.go:findLatestTimestampDir")],
     "storages and recorders of several simulated processes, of which one can act between any two file operations of another, on a disk with faults under a simulated clock; the files are compared with a model after every step")

prop("C30", "What a document does not hold is refused, not answered",
     "A snapshot, track or slice of a version that the document does not have, whether beyond its latest or (for a slice) before its first, a range of versions or times that runs backwards, and data of a kind that is no document or patch are always refused, however the document came about, "
     "and never answered with something else; a refused request changes nothing, and all requests for what is there are answered afterwards.",
     [I, H], "every document and slice, every history of it and every version, range and kind of data",
     "The tests ask for versions that exist.",
     [("findLatest", L + ":findLatest"), ("Slice", L + ":Slice"), ("Track", L + ":Track"), ("TemporalSlice", L + ":TemporalSlice"), ("TemporalTrack", L + ":TemporalTrack"), ("Store", L + ":Store"), ("NewLogument", L + ":NewLogument")],
     "requests for what is not there mixed into histories of documents and their slices over a faulty network; every document compared with the reference after each")

not_applicable = []
