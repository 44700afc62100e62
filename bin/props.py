prop("M01", "MVR scene: written file and reader show exactly what the API calls built",
     "For every history of calls on an MVR writer, the return codes, the written GeneralSceneDescription.xml and everything a reader of the resulting file is shown (the tree, its order, every name, value, matrix, flag, address, mapping, connection, protocol and reference) are those the calls imply. "
     "Nothing is lost, invented, reordered among its siblings, attached to another parent or shared with another object, except that groups without children are not written.",
     ["histories"], "all finite sequences of the MVR writing calls with arguments of their domains, ended by Close and reading the file back",
     "The tests save a handful of fixed scenes; each loses most combinations of object kind, nesting, reference and omitted default.",
     ["src/SceneDataExchange.cpp", "src/SceneDataExchange.h", "src/Implementation/CMediaRessourceVectorImpl.cpp", "src/Implementation/CSceneObjImpl.cpp"],
     [("OnPrintToFile / OnReadFromNode of every scene class", "src/SceneDataExchange.cpp"), ("setters and walkers", "src/Implementation/CSceneObjImpl.cpp")])
prop("M02", "MVR reading: the scene shown does not depend on how a document spells it",
     "A reader shows the same tree, values and references for every equivalent spelling of a scene: elements in any order, elements that carry their default left out, unknown elements added, UUIDs in upper or lower case, archive members stored or deflated. "
     "References are resolved wherever in the document their target stands, and a reference to something that is not in the document leaves that reference empty and everything else intact.",
     ["inputs"], "all documents derivable from a scene by reordering, omitting defaults, adding unknown elements, dropping definitions or layers, and UUID spelling",
     "The tests read files this library wrote, in the order it writes them.",
     ["src/SceneDataExchange.cpp", "src/XmlFileHelper.cpp"],
     [("ReadFromGeneralSceneDescription", "src/SceneDataExchange.cpp"), ("OnReadFromNode of every scene class", "src/SceneDataExchange.cpp")])
prop("G01", "GDTF fixture: written file and reader show exactly what the API calls built",
     "For every history of calls on a GDTF writer that describes a fixture the format can express, the written description.xml and everything a reader of the resulting file is shown (every node of the tree in its order, every name, number, colour, matrix, enumeration, DMX address and value, and every reference) are those the calls imply. "
     "Nothing is lost, invented, reordered among its siblings, attached to another parent or pointed at another target; what saving adds is only what the format defines: channel sets that fill gaps, the initial function, generated function names and the attribute NoFeature.",
     ["histories"], "all finite sequences of the GDTF writing calls with arguments of their domains that keep the fixture well-formed, ended by Close and reading the file back",
     "The tests save a few fixed fixtures; most kinds of nodes, nestings, orders, omitted defaults and rename-after-reference histories are never sampled.",
     ["src/GDTFManager.cpp", "src/GDTFManager.h", "src/Implementation/CGdtfFixture.cpp"],
     [("OnPrintToFile / OnReadFromNode of every GDTF class", "src/GDTFManager.cpp"), ("GdtfFixture::ResolveAllReferences", "src/GDTFManager.cpp"), ("setters and walkers", "src/Implementation")])
prop("G02", "GDTF reading: the fixture shown does not depend on how a document spells it",
     "A reader shows the same tree, values and references for every equivalent spelling of a description.xml: sections in any order, attributes that carry their default and empty sections left out, gap-filling channel sets left out, unknown elements and attributes added, UUIDs in upper or lower case, archive members stored or deflated. "
     "References resolve wherever their target stands, and a reference to a definition that is not in the document leaves that reference empty and everything else intact.",
     ["inputs"], "all documents derivable from a well-formed fixture by reordering sections, omitting defaults and fillers, adding unknown content and dropping definitions",
     "The tests read fixtures in the one order and spelling in which this library wrote them, plus a few hand-written ones.",
     ["src/GDTFManager.cpp", "src/XmlFileHelper.cpp"],
     [("GdtfFixture::OnReadFromNode and ResolveAllReferences", "src/GDTFManager.cpp"), ("GdtfConverter", "src/XmlFileHelper.cpp")])
prop("G08", "GDTF modes: breaks and footprint follow from channels, geometry and references",
     "The breaks of a mode, in ascending order, are the breaks of its channels; a channel whose break is overwritten contributes instead the last break of every geometry reference (reachable from the geometry of the mode) that leads to a tree with the geometry of the channel. "
     "The footprint of a break is the number of addresses from the lowest to the highest its channels take up: channels on the geometries of the mode at their own offsets, channels on a referenced geometry once per reference, moved by the break of the reference that belongs to theirs, by all bytes of their resolution; virtual channels take up none, and a break the mode does not have has footprint 0. "
     "Writer and reader of a fixture give the same answers.",
     ["inputs"], "all fixtures with any tree of geometries, references with any breaks and modes with channels on any geometry, break, offsets and resolution",
     "The tests ask for the footprints of two fixed fixtures; overlapping instances, several breaks, nested trees, missing breaks and virtual channels combine freely.",
     ["src/GDTFManager.cpp", "src/Implementation/CGdtfDmxMode.cpp"],
     [("GdtfDmxMode::GetBreakArray, GetFootPrintForBreak, GetAddressesFromChannel", "src/GDTFManager.cpp"), ("GetBreakCount/GetBreakAt/GetFootprintForBreak", "src/Implementation/CGdtfDmxMode.cpp")])
prop("G05", "GDTF report: a reader names exactly what is wrong with a document, and where",
     "The parsing errors a reader lists after reading a fixture are exactly the mistakes of its description.xml, each with its kind, the element, the name of the element, its line and (for attributes) which attribute: "
     "mandatory attributes that are missing (also where they are mandatory only because of another attribute), attributes and geometries nobody knows, values that cannot be read (colours, matrices, numbers, dates, identifiers, enumerations), "
     "references to models, geometries, attributes, features, activation groups, mode masters, initial functions, macro channels and RDM modes that lead nowhere, first functions that do not start at 0, functions that overlap without mode masters which tell them apart, "
     "and attributes used twice by one geometry of a mode. A document without mistakes has an empty report, and a mistake at one place neither hides nor invents one at another.",
     ["inputs"], "all well-formed documents derivable from fixtures by leaving out, adding, renaming, repeating and misspelling elements, attributes, values and references, in any number and combination",
     "The tests read about ten hand-made wrong files, one mistake each; every attribute of every element, every kind of reference and value, and combinations of mistakes are left.",
     ["src/GDTFManager.cpp", "src/XmlFileHelper.cpp", "src/Implementation/CGdtfXmlParsingError.cpp"],
     [("OnErrorCheck of every class, GdtfFixture::ResolveAllReferences, CheckForMissingModeMasters", "src/GDTFManager.cpp"), ("GdtfConverter::Convert*", "src/XmlFileHelper.cpp")])
prop("X01", "MVR-xchange: messages survive the wire and wrong packages are refused",
     "Every message that is sent carries exactly the fields of its kind in a package with the documented header, and whoever receives it is shown the same kind, result, texts, identifiers, lists and file bytes; texts are cut at 1023 bytes and nothing else is changed. "
     "A package with a wrong flag, an unknown type, text that is not JSON, a missing key or a value of a wrong kind is reported as not understood or failed; it is never read as something else and never ends the program.",
     ["inputs"], "all messages of the eight kinds with any texts, identifiers, numbers, lists and file sizes, and all packages derived from them by dropping, retyping, adding and replacing values",
     "The tests decode a few hand-written packages; sizes around buffer limits, empty lists, odd texts and each missing key are not sampled.",
     ["src/mvrxchange/mvrxchange_message.cpp", "src/mvrxchange/mvrxchange_dynamic_buffer.cpp", "src/mvrxchange/mvrxchange_prefix.h"],
     [("FromInternalMessage / FromExternalMessage", "src/mvrxchange/mvrxchange_message.cpp")])
prop("X02", "MVR-xchange server: whole packages are answered once, everything else is dropped",
     "Whatever a station's peers do at the same time (deliver packages in any pieces, stop in the middle, half-close, close, reset, announce a wrong flag or more than they send), every package that arrives whole is shown to the station's callback exactly once and answered once, on its own connection, with the answer to that package. "
     "Nothing else reaches the callback or is answered, no connection keeps another waiting, and after every schedule the server still serves.",
     ["schedules", "inputs"], "all interleavings of several connections, their pieces and ends, with any packages, and the server being stopped in between",
     "The tests make no connection; pieces, resets and interleavings come only with real peers.",
     ["src/mvrxchange/mvrxchange_session.cpp", "src/mvrxchange/mvrxchange_server.cpp", "src/mvrxchange/mvrxchange_message.cpp"],
     [("MVRxchangeSession::DoRead / Deliver", "src/mvrxchange/mvrxchange_session.cpp"), ("DecodeHeader", "src/mvrxchange/mvrxchange_message.cpp"), ("DoAccept", "src/mvrxchange/mvrxchange_server.cpp")])
prop("X03", "MVR-xchange membership: everybody in a session knows exactly the others",
     "After any history of stations connecting (also at the same time), connecting again under another name or elsewhere, leaving, looking around and sending, the members a connected station sends to are exactly the other stations of its session, each once and under its current name and address. "
     "A station that joins is told to every other one once, a station that leaves likewise; a lookup finds exactly the stations that are there, ends, and refuses an index out of range; strangers' services with odd TXT records disturb nobody, and nothing keeps asking the network when all is at rest.",
     ["schedules", "histories"], "all histories of connects, leaves and lookups of several stations on one or several hosts of a network",
     "The tests connect at most one station to itself; discovery, JOIN and LEAVE between stations are not exercised.",
     ["src/mvrxchange/CMVRxchangeService.cpp", "mdns_cpp/src/mdns.cpp"],
     [("ConnectToLocalService / LeaveLocalService / QueryLocalServices / TCP_OnIncommingMessage", "src/mvrxchange/CMVRxchangeService.cpp"), ("executeQuery2", "mdns_cpp/src/mdns.cpp")])
prop("X04", "MVR-xchange sending: exactly the addressed members get it and answer to it",
     "A message is delivered exactly once to every member of the group it is addressed to (all of them, or those listed in a COMMIT or REQUEST) and to nobody else, also when several messages are sent at the same time and some members are gone, stall, answer nonsense or break off. "
     "Every answer that arrives whole is handed once, in the order of the group, to the callback given with that message or else to the general one; files travel byte for byte whether they are given as buffer or as path; a member that fails takes away nothing but its own answer.",
     ["schedules", "histories"], "all groups of stations and misbehaving members, sequences and concurrent batches of messages with any recipient lists",
     "The tests send nothing; concurrency, failing members and recipient lists are not exercised.",
     ["src/mvrxchange/CMVRxchangeService.cpp", "src/mvrxchange/mvrxchange_client.cpp", "src/mvrxchange/mvrxchange_message.cpp"],
     [("Send_message", "src/mvrxchange/CMVRxchangeService.cpp"), ("MVRxchangeClient", "src/mvrxchange/mvrxchange_client.cpp")])
prop("M03", "MVR files: every file given to a writer reaches the reader, bytes and name",
     "For every history of adding files from disk, memory buffers and folders of fixture types to an MVR writer, the archive holds the scene, then each file and buffer once under its name (the first of a name wins) and every fixture type that a fixture of the scene names and a given folder has, with the bytes it had when the writer was closed. "
     "Every reader of the archive, from disk or from memory, hands out exactly those files with exactly those bytes, and closing a reader leaves nothing of it behind.",
     ["histories"], "all histories of adding, overwriting and deleting files, buffers, folders and fixtures before the writer is closed, with any names and contents, read any number of times",
     "The tests add one or two small files; equal names, empty contents, deleted sources, sub folders and rereading are not exercised.",
     ["src/SceneDataExchange.cpp", "src/Implementation/CMediaRessourceVectorImpl.cpp", "src/Wrapper/ZIPFileImpl.cpp"],
     [("WriteToFile / ReadFromFile / AddFileToMvrFile / AddBufferToMvrFile", "src/SceneDataExchange.cpp"), ("AddFile / GetFile / GetNextFile", "src/Wrapper/ZIPFileImpl.cpp")])
prop("G03", "GDTF files: a fixture keeps every file given to it through writing and reading",
     "For every history of adding files and buffers of any resource type to a GDTF writer, on disk or in memory, the archive holds each once in the folder of its type with its bytes, and the description. "
     "A reader hands out exactly those files; its models, wheel slots and thumbnail show the path or bytes of exactly the file of their own name and type or nothing; and a fixture read and written to a buffer again, with or without further files, keeps all of them.",
     ["histories"], "all histories of adding files and buffers of the eleven resource types with any names and contents, written to disk or memory, read, extended and written again",
     "The tests add a gobo or a model once; equal names in different folders, empty contents, missing sources and re-export are not exercised.",
     ["src/GDTFManager.cpp", "src/Implementation/CGdtfFixture.cpp", "src/Implementation/CGdtfModel.cpp"],
     [("ImportFromZip / ExportToZip", "src/GDTFManager.cpp"), ("AddFileToGdtfFile / ReadFromBuffer / ToBuffer", "src/Implementation/CGdtfFixture.cpp")])
prop("Z01", "Archives: exactly the sound members are handed out, however laid out or damaged",
     "Whatever program wrote an MVR or GDTF archive (stored, deflated or streamed members, extra fields, comments, gaps, any order, folders, several members of one name) a reader hands out exactly its members, the first of a name, each with its bytes. "
     "A member that is packed in an unknown way, encrypted or damaged is left out and takes no other with it; an archive without a readable description is refused; and no input, however damaged, ends the program, keeps it busy for ever or is read beyond its end.",
     ["inputs"], "all archives of any members and layout, any of them with any faults in members, directory and end record, truncated or with changed bytes, read in any order from file or memory",
     "The tests read archives this library wrote, and no damaged one.",
     ["src/Wrapper/ZIPFileImpl.cpp", "src/Wrapper/ZIPFileBuffer.cpp", "src/SceneDataExchange.cpp", "src/GDTFManager.cpp", "src/GSString.cpp"],
     [("GetNextFile / GetFile / GetFileInfo / Inflate", "src/Wrapper/ZIPFileImpl.cpp"), ("ReadFromFile", "src/SceneDataExchange.cpp"), ("ImportFromZip", "src/GDTFManager.cpp")])
prop("Z02", "Archives: reading touches nothing outside of the library's working folders",
     "Whatever the members of an archive are called (names that lead up, that are absolute, that use other separators or segments that mean nothing) and whatever fixture type names a scene contains, reading it and releasing what was read creates, changes and removes no file or folder outside of the working folder it is unpacked into. "
     "Members with ordinary names beside them are handed out all the same.",
     ["inputs"], "all archives with any member names and scenes with any fixture type names, read from file or memory and released",
     "The tests read only archives with ordinary names.",
     ["src/SceneDataExchange.cpp", "src/GDTFManager.cpp", "src/XmlFileHelper.cpp"],
     [("IsFileInsideArchiveFolder", "src/XmlFileHelper.cpp"), ("ReadFromFile", "src/SceneDataExchange.cpp"), ("ImportFromZip / PrepareWorkingFolder", "src/GDTFManager.cpp")])
