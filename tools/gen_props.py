"""Writes properties.jsonl (run after editing)."""
import json, os

P = []

def prop(pid, title, statement, over, text, why, files, mech, **kw):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
    }
    anchors.update(kw)
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": anchors,
    })

prop("C01", "Channel data reaches a decoder complete, in order and unchanged",
     "Every emission queued by a telemetry environment is put in exactly one data frame, and decoding all frames built by a dispatch yields, for every channel, exactly the emitted values, oldest first and none missing, duplicated or invented. Each decoded frame carries the application id and the timestamp of the frame, and each value compares equal to what the channel's type can represent of the emitted one.",
     ["inputs", "histories", "configurations"],
     "all channel types, values, channel ids, emission counts relative to the MTU, timestamps",
     "tests emit a handful of fixed values through one MTU; frame splits depend on the exact mix of sizes, types and MTU",
     ["vtelem/channel/framer.py", "vtelem/frame/channel.py", "vtelem/parsing/frames.py", "vtelem/frame/framer.py"],
     [("build_data_frames", "vtelem/channel/framer.py"), ("ChannelFrame.add", "vtelem/frame/channel.py"), ("parse_data_frame", "vtelem/parsing/frames.py")])

prop("C02", "No frame exceeds the MTU and every length header is exact",
     "No frame produced for channel data, events, messages or stream filler is larger than the MTU in force when it was built, also after the MTU changed, and the raw bytes and size of a finalized frame are those of its content. On a stream every frame is preceded by a length header equal to the number of bytes that follow it up to the next frame.",
     ["inputs", "configurations", "histories"],
     "all MTUs at which a frame can hold an element, element sizes and counts",
     "boundary cases (an element that exactly fits, does not fit by one byte) depend on symbolic arithmetic over MTU and header sizes that tests fix to one value",
     ["vtelem/frame/__init__.py", "vtelem/frame/channel.py", "vtelem/frame/message.py", "vtelem/frame/framer.py", "vtelem/channel/framer.py"],
     [("Frame.space / Frame.finalize", "vtelem/frame/__init__.py"), ("handle_new_mtu", "vtelem/channel/environment.py")])

prop("C03", "Events reach a decoder complete, in order and unchanged",
     "Every queued change event is put in exactly one event frame, and decoding the frames yields the events in queue order with channel, previous value, previous time, new value and new time unchanged.",
     ["inputs", "histories", "configurations"],
     "all channel types, values, times, event counts relative to the MTU",
     "tests decode a few fixed events; the split point and time encoding depend on values",
     ["vtelem/channel/framer.py", "vtelem/frame/channel.py", "vtelem/parsing/frames.py"],
     [("build_event_frames", "vtelem/channel/framer.py"), ("add_event", "vtelem/frame/channel.py"), ("parse_event_frame", "vtelem/parsing/frames.py")])

prop("C04", "Change tracking records every change once, and nothing else",
     "On a channel with change tracking, each accepted command or store that changes the value queues exactly one event holding the value and time before and after, in the order of the changes; storing an equal value, a rejected value, or a change to an untracked channel or adding a channel that is refused queues none. Emissions never consume or reorder events.",
     ["histories", "inputs"],
     "all sequences of stores of a channel up to the queue capacity, all types",
     "tests exercise one or two changes; the interplay of equal, rejected and repeated values needs all sequences",
     ["vtelem/channel/__init__.py", "vtelem/classes/event_queue.py", "vtelem/classes/type_primitive.py"],
     [("Channel.set_cb", "vtelem/channel/__init__.py"), ("EventQueue.enqueue", "vtelem/classes/event_queue.py")])

prop("C05", "Each channel is emitted at its own rate, never faster or skipped",
     "A channel is emitted by exactly those dispatches at which at least its period has elapsed since it was last emitted (since time zero while it never was); a rate change applies from the next dispatch. An emission carries the value the channel has at that dispatch.",
     ["inputs", "histories"],
     "all periods, all non-decreasing sequences of dispatch times",
     "tests use fixed rates and times; exact boundary (elapsed equals period) and irregular dispatch need all times",
     ["vtelem/channel/__init__.py", "vtelem/channel/framer.py"],
     [("Channel.emit / last_emission", "vtelem/channel/__init__.py")])

prop("C06", "A typed value accepts exactly what its type can carry",
     "Storing a value in a typed primitive succeeds exactly when the value has the type's kind and lies in the type's range, and everything accepted can be encoded and sent. A rejected store leaves value and change time as they were, reports failure and runs no change handler; an accepted store is visible to every later read, and increments behave like storing the sum.",
     ["inputs", "histories"],
     "all primitive types, all integers, floats and booleans incl. the ends of every range",
     "tests sample a few values per type; range ends and the float/int/bool boundary need every value",
     ["vtelem/classes/type_primitive.py", "vtelem/enums/primitive.py"],
     [("TypePrimitive.set / add", "vtelem/classes/type_primitive.py"), ("Primitive.validate", "vtelem/enums/primitive.py")])

prop("C07", "Primitive encodings are big-endian, sized by type, and round-trip",
     "Writing a typed value into a buffer occupies exactly the type's size, in big-endian (network) order, and reading it back at the same place with the same type yields an equal value and advances by the same number of bytes. Writes never disturb bytes before them, and the buffer's size is the furthest byte written.",
     ["inputs", "histories"],
     "all types, all values, sequences of writes, positions and buffer starts",
     "tests round-trip random samples; sign, width and position errors show only on particular values and sequences",
     ["vtelem/classes/byte_buffer.py", "vtelem/classes/type_primitive.py", "vtelem/enums/primitive.py"],
     [("ByteBuffer.write / read", "vtelem/classes/byte_buffer.py"), ("TypePrimitive.write / read", "vtelem/classes/type_primitive.py")])

prop("C08", "Stream reassembly does not depend on how the bytes are chunked",
     "Feeding a stream of length-prefixed frames to a stream processor yields the same sequence of frames however the bytes are cut into chunks, and each frame is yielded as soon as its last byte arrives. A header announcing more than the MTU never yields a frame and does not keep later, separately delivered frames from being processed.",
     ["inputs", "histories"],
     "all frame sizes, all contents, all chunkings within the bound",
     "there are exponentially many chunkings; tests use a few",
     ["vtelem/frame/processor.py", "vtelem/client/tcp.py"],
     [("FrameProcessor.process / read_size", "vtelem/frame/processor.py")])

prop("C09", "Corrupted or foreign frames are never delivered",
     "A frame whose footer does not match its content, or whose application id differs from the expected one, is not delivered to consumers; one changed byte in the id, timestamp or payload of any genuine frame with a footer makes its decoding fail (as long as it leaves the layout as it is). A genuine frame is accepted when the expected application id is its own or is not given.",
     ["inputs", "fault_sequences"],
     "all frame contents, all single-byte corruptions of id, timestamp and payload, all application ids",
     "tests corrupt one chosen byte; every position and value of every frame kind must be detected",
     ["vtelem/parsing/encapsulation.py", "vtelem/parsing/frames.py", "vtelem/frame/__init__.py"],
     [("decode_frame", "vtelem/parsing/encapsulation.py")])

prop("C10", "Decoding arbitrary bytes never fails other than by rejection",
     "Decoding any byte sequence with any channel registry either yields a decoded frame or reports that there is none; it never raises, reads past the data or registers anything. A telemetry client handed arbitrary frames stays usable: the next genuine frame is delivered.",
     ["inputs", "fault_sequences"],
     "all byte strings up to the bound, all registries",
     "tests feed well-formed frames; malformed layouts are innumerable",
     ["vtelem/parsing/encapsulation.py", "vtelem/parsing/frames.py", "vtelem/client/__init__.py"],
     [("decode_frame", "vtelem/parsing/encapsulation.py"), ("TelemetryClient", "vtelem/client/__init__.py")])

prop("C11", "A message is split into fragments that rebuild it exactly",
     "Framing a message produces fragments numbered from zero, of one message id, type, checksum and total, each filling its frame and at most the MTU, whose contents in order are exactly the message; decoding and ingesting them yields the original. Equal messages have equal checksums; messages of one type are numbered consecutively, starting over at the end of the field, and each non-empty message gets at least one fragment.",
     ["inputs", "configurations"],
     "all contents and lengths within the bound, all MTUs, all message types",
     "tests send a few sizes; lengths at a multiple of the fragment size are the risky ones",
     ["vtelem/message/framer.py", "vtelem/frame/message.py", "vtelem/message/cache.py", "vtelem/parsing/frames.py"],
     [("MessageFramer.serialize_message", "vtelem/message/framer.py"), ("MessageFrame", "vtelem/frame/message.py"), ("parse_message_frame", "vtelem/parsing/frames.py")])

prop("C12", "Messages are reassembled from fragments in any order, exactly once",
     "Whatever the order, repetition and interleaving in which fragments of messages arrive, a message is reported complete exactly when its last missing fragment arrives, its content is then the original, and its handlers run once with that content. Saving a cache and loading it again, at any point, continues with the same knowledge; a restart without saving never yields a wrong or partial message and the message completes when its fragments come again. A cleaned cache knows nothing and goes on working.",
     ["histories", "schedules", "crash_points"],
     "all orders, duplications and interleavings of fragments of several messages, a save and reload at any point",
     "permutations with duplicates and reload points are exponential; tests ingest in order once",
     ["vtelem/message/cache.py", "vtelem/classes/data_cache.py"],
     [("MessageCache.ingest / complete / content / load_fragments", "vtelem/message/cache.py")])

prop("C13", "Registered names and ids are unique, stable and consistent",
     "Registering a new name gives it the next unused id and registering a known one is refused without changing anything; names, ids and items always map to each other one-to-one. Looking something up never changes a registry, and an exported registry describes exactly what was registered. An environment's counts of channels, enumerations and types are how many are registered.",
     ["histories", "inputs"],
     "all sequences of registrations and look-ups, names known or unknown, explicit ids",
     "tests register a few names; invariants over all histories of registration and look-up are needed",
     ["vtelem/registry/__init__.py", "vtelem/registry/enum.py", "vtelem/channel/registry.py", "vtelem/registry/type.py"],
     [("Registry.add / get_item / get_id", "vtelem/registry/__init__.py")])

prop("C14", "Enumerations map names and values one-to-one and stay in their set",
     "A user enumeration's names (case aside) and integers map to each other one-to-one; a mapping that breaks this, has integers its primitive can't carry or names an unknown default is refused, and look-ups change nothing. A channel of it holds its default unless it is given an initial name, setting it by name makes it hold exactly that name's integer, and unknown names are refused and change nothing. Values travel as their integer and are named the same on the other side.",
     ["inputs", "histories"],
     "all mappings within the bound, all values and names",
     "tests use one well-formed enumeration",
     ["vtelem/classes/user_enum.py", "vtelem/registry/enum.py", "vtelem/channel/environment.py"],
     [("UserEnum", "vtelem/classes/user_enum.py"), ("set_enum_now", "vtelem/channel/environment.py")])

prop("C15", "Every description loads back to an equal object, and schemas are enforced",
     "An enumeration, a registry of enumerations or a primitive, turned into its JSON description and loaded again (by any object of that kind), is an equal object: the same names, values, identifiers and default, the same description again, and a registry that goes on with the same identifiers. Two such objects are equal if and only if they describe the same. An object created or loaded with a schema, or with a manager that has the schema of its kind, reports itself valid if and only if its description conforms to that schema; a description it can't be built from is refused. What is loaded is held to the same schema as what loaded it.",
     ["inputs"],
     "all integers, names, texts, missing, unexpected and odd fields of each kind of description",
     "tests round-trip one object of each kind",
     ["vtelem/classes/serdes.py", "vtelem/classes/user_enum.py", "vtelem/registry/enum_retry.py", "vtelem/serializables/primitive.py", "vtelem/schema/__init__.py", "vtelem/schema/manager.py"],
     [("Serializable", "vtelem/classes/serdes.py")])

prop("C16", "Every command gets exactly one result and none stops the service",
     "Commands are served in queue order. Each handler registered for a command runs exactly once for it, with the command's data, and its outcome (a failure if the handler raises) is told exactly once to the result callback registered with that handler and to the callback queued with the command; a command that is malformed or has no handler is told once that it is rejected. Nothing that a command contains, a handler does or a callback raises stops the service from going on with the next command. The counters of commands, successes, failures and rejections always add up to what was processed.",
     ["inputs", "histories", "fault_sequences"],
     "all command documents, handler outcomes including exceptions, sequences",
     "tests send a few good and bad commands; every malformed shape and handler failure must be survived",
     ["vtelem/daemon/command_queue.py", "vtelem/daemon/queue.py"],
     [("CommandQueueDaemon", "vtelem/daemon/command_queue.py")])

prop("C17", "Channel commands change exactly the commanded channel, or nothing",
     "A set, increment or decrement command on a channel changes that channel's value as asked and succeeds exactly when the channel (named by name, identifier, or both consistently) exists, is commandable and the new value is acceptable for it; an enumeration's channel is set by the name of a value; a get command replies with the value. In all other cases nothing changes and the reply says that the command failed. No command changes any other channel.",
     ["inputs", "histories"],
     "all channel types, commandable or not, values of any JSON kind, operations, enumeration or not",
     "tests send several fixed commands",
     ["vtelem/channel/environment.py", "vtelem/channel/__init__.py", "vtelem/daemon/command_queue.py", "vtelem/telemetry/server.py"],
     [("Channel.command / command_channel", "vtelem/channel/environment.py")])

prop("C18", "A service's state follows its operations exactly",
     "Start, pause, unpause, stop, restart and serve of a background service take effect and report success exactly when its state allows them, in every order and also when issued concurrently; state changes are announced once and in their order, published counts and state agree with them, and a failed operation changes nothing. After stop has returned the service's task has ended and a start is possible again.",
     ["histories", "schedules"],
     "all sequences of operations within the bound, thread schedules within the bound",
     "the state graph times operation sequences and thread timing is not sampled by tests",
     ["vtelem/daemon/__init__.py", "vtelem/enums/daemon.py"],
     [("DaemonBase.perform", "vtelem/daemon/__init__.py"), ("is_operation", "vtelem/enums/daemon.py")])

prop("C19", "Service groups operate dependencies in order, each exactly once",
     "Operating all managed services operates each exactly once and after the services it depends on, for any acyclic dependency graph; operating one by its name operates it alone. Services are known under unique names, unknown names and actions are refused, and the overall result is success only when every operation succeeded.",
     ["inputs", "configurations", "histories"],
     "all dependency graphs within the bound, all outcomes of individual operations",
     "tests use a chain of a few services",
     ["vtelem/daemon/manager.py"],
     [("DaemonManager.perform", "vtelem/daemon/manager.py")])

prop("C20", "State machines run only permitted transitions and account for them",
     "A state machine runs the current state once per step, leaves it only for a state it named, runs leave and enter hooks exactly once per transition, and refuses transitions a state does not allow, staying where it was. Its published state and counters always agree with what ran.",
     ["inputs", "histories"],
     "all transition outcomes per step, enter/leave refusals, machine sizes in the bound",
     "tests run one fixed machine",
     ["vtelem/classes/state_machine.py", "vtelem/classes/state.py"],
     [("StateMachine.run", "vtelem/classes/state_machine.py")])

prop("C21", "Keeper time scales, never runs backwards, and its followers agree",
     "As long as the clock it reads does not run backwards, the time a keeper hands out is its start plus the elapsed real time, scaled by the scale then in force, up to its last update, is never less than an earlier one, and is the same for every attached time entity after each update, including for values stored by them. Changing the scale neither jumps nor reverses time and a non-positive scale is refused; sleeping lasts the scaled duration.",
     ["inputs", "histories"],
     "all clock readings, scales and sequences of operations",
     "tests run against the wall clock with a few scales",
     ["vtelem/classes/time_keeper.py", "vtelem/classes/time_entity.py"],
     [("TimeKeeper.time / scale / sleep", "vtelem/classes/time_keeper.py"), ("TimeEntity.set_time", "vtelem/classes/time_entity.py")])

prop("C22", "Queue counters equal what is in the queue",
     "For every metered queue, after any sequence of successful and failing puts and gets, the element counter equals the number of elements held, the enqueued and dequeued totals equal the puts and gets that succeeded, and elements leave in the order they entered. Registering channels or writers later does not change that.",
     ["histories"],
     "all sequences of blocking, non-blocking and failing operations within the bound",
     "tests put and get a few elements without failures",
     ["vtelem/classes/metered_queue.py"],
     [("MeteredQueue.put / get", "vtelem/classes/metered_queue.py")])

prop("C23", "Every writer gets every frame in order; a failing one affects no other",
     "Each frame taken from the stream is written, complete and in order, to every stream and queue registered at that time, and to none that was removed before. A stream that fails or closes is dropped and its error handler told once, while every other stream still gets every frame.",
     ["histories", "fault_sequences", "schedules"],
     "all sequences of frames, additions and removals, failures at any write, in the bound",
     "failure points times registration sequences are not sampled by tests",
     ["vtelem/stream/writer.py", "vtelem/stream/__init__.py", "vtelem/classes/udp_client_manager.py"],
     [("StreamWriter.process / add_stream / remove_stream", "vtelem/stream/writer.py"), ("UdpClientManager.closer", "vtelem/classes/udp_client_manager.py")])

prop("C24", "No lock stays held after an operation fails or returns",
     "Whatever an operation's outcome, including an exception from a handler or from the body it protects, every lock it took is free once it has ended, so other users of the same object can go on.",
     ["inputs", "fault_sequences"],
     "all exits, normal and by exception, of operations that take locks",
     "tests do not raise inside protected regions",
     ["vtelem/classes/time_entity.py", "vtelem/channel/environment.py", "vtelem/channel/group.py", "vtelem/registry/__init__.py"],
     [("OptionalRLock", "vtelem/classes/time_entity.py")])

prop("C25", "HTTP responses are framed exactly, whatever the handler returns",
     "Every handled request gets one well-formed response: a status line, headers and a body whose length equals the announced content length, containing exactly the handler's content, whatever characters it holds (a HEAD request gets the same headers and no body). A failing handler's text reaches the client in an error response; a missing or raising handler and content that cannot be encoded yield an error response too: no request breaks its connection or a later request.",
     ["inputs", "fault_sequences"],
     "all contents of the bounded length, status values, handler outcomes",
     "tests return short ASCII bodies",
     ["vtelem/classes/http_request_mapper.py"],
     [("MapperAwareRequestHandler", "vtelem/classes/http_request_mapper.py")])

prop("C26", "HTTP requests reach exactly the handler registered for them",
     "A request runs the handler registered for its method and path, with exactly the query and form fields that were sent with a value (the query wins where both name a field; the parts of form data have their names and contents), and no other handler. A path or method without a handler, and a request whose address, content length or encoding is invalid, are answered with an error and run no handler. The index lists exactly the registered handlers; a telemetry server is only stopped by requests with its own identifier.",
     ["inputs"],
     "all registered handler sets, paths, queries and bodies within the bound",
     "tests send a handful of requests",
     ["vtelem/classes/http_request_mapper.py", "vtelem/daemon/http.py"],
     [("HttpRequestMapper", "vtelem/classes/http_request_mapper.py")])

prop("C27", "Channel groups write and read their channels as one",
     "Writing a channel group stores exactly the given members' values, with one time, or nothing at all if a name or an enumeration's value is unknown; each read of a group gives the members' values of one moment. Leaving a group's context writes the members changed in it and reverts no other change. A group operation by one user is never seen half done by another user of the group or of its channels' environment.",
     ["schedules", "inputs", "histories"],
     "all member sets, values and preemption points within the bound",
     "interleavings are not controlled by tests",
     ["vtelem/channel/group.py", "vtelem/channel/group_registry.py"],
     [("ChannelGroup.data", "vtelem/channel/group.py")])

prop("C28", "File playback delivers every recorded frame, whatever the limits",
     "Decoding a recorded stream delivers each of its valid frames once, in recorded order, however many runs it takes, and ends when the file does. A limit on the number of frames holds for the file: exactly that many of its first frames are delivered, frames that cannot be decoded are not counted, and decoding continues with the next frame when the limit is raised.",
     ["inputs", "histories"],
     "all files of frames in the bound, all limits per call",
     "tests decode one file with one limit",
     ["vtelem/client/file.py"],
     [("FileClient / FileClientDaemon", "vtelem/client/file.py")])

prop("C29", "A periodic service runs its task at its rate until told otherwise",
     "A periodic service initializes once per start, then calls its task once per period (it sleeps the rest of the period after the task) while it runs and not while it is paused. The metrics hold the duration of the last call, the total of all of them, the starts, and the overruns (a task that takes a period or longer is reported and not followed by a sleep). After a stop the task is not called again and the final state is published. A rate change takes effect from the next period; a time keeper iterates at its rate.",
     ["histories", "inputs"],
     "all task durations relative to the period, operations issued between iterations",
     "tests sleep in real time and check coarse counts",
     ["vtelem/daemon/synchronous.py", "vtelem/daemon/__init__.py"],
     [("Daemon.run", "vtelem/daemon/synchronous.py")])

prop("C30", "Concurrent use loses and corrupts nothing",
     "When several threads register names, update counters, set channels or use metered queues at the same time, the outcome equals that of some sequential order: ids stay unique, no update is lost and every change is recorded; none of them deadlocks.",
     ["schedules"],
     "all interleavings of two or three threads within the stated number of preemptions",
     "tests cannot control the scheduler",
     ["vtelem/registry/__init__.py", "vtelem/channel/environment.py", "vtelem/classes/type_primitive.py", "vtelem/classes/metered_queue.py"],
     [("Registry.add", "vtelem/registry/__init__.py"), ("metric_add", "vtelem/channel/environment.py")])

prop("C31", "Any combination of enabled interfaces gives a working server",
     "A telemetry server can be built with every combination of its network interfaces enabled or disabled: exactly the enabled ones are known to its service manager (under their names and addresses, with the dependencies they need) and run once it is started, its http requests for its identifier, types and registries are answered, registered applications are set up once and then run, and it stops completely, whether by call, by timeout, or by the shutdown request, which needs its identifier.",
     ["configurations"],
     "all combinations of enabled interfaces",
     "tests build one combination",
     ["vtelem/telemetry/server.py", "vtelem/types/telemetry_server.py"],
     [("TelemetryServer.__init__", "vtelem/telemetry/server.py")])

prop("C32", "Frame timestamps and ids keep their value in every unit",
     "Converting a time to the integer written in a frame and back keeps it to the stated precision and order for every representable time, and application ids are always in the range that a frame can carry.",
     ["inputs"],
     "all times within the representable range, all ids",
     "tests convert a few times",
     ["vtelem/frame/framer.py", "vtelem/frame/__init__.py", "vtelem/enums/primitive.py"],
     [("time_to_int", "vtelem/frame/__init__.py")])

prop("C33", "Network clients deliver every frame they receive, and end cleanly",
     "A tcp or udp client delivers each genuine frame it receives exactly once and in order, however the stream is cut into reads and whatever else arrives (timeouts, frames of others, frames or datagrams that are damaged or incomplete, which it drops), also after it was stopped in the middle of a frame and started again. A stop always succeeds, closes the connection, ends the thread and puts the end marker on the output once, also if the connection was reset or is being made, and each start has a connection of its own. Finding out a port or an MTU leaves no socket open and options as they were.",
     ["inputs", "histories", "fault_sequences"],
     "all frame kinds, cuts, datagrams, ends of connections and moments of a stop within the bound",
     "tests use a loopback connection that delivers whole frames and is stopped when idle",
     ["vtelem/client/socket.py", "vtelem/client/tcp.py", "vtelem/client/udp.py", "vtelem/client/__init__.py", "vtelem/mtu.py"],
     [("SocketClient.run", "vtelem/client/socket.py"), ("TelemetryClient.handle_frames", "vtelem/client/__init__.py")])

prop("C34", "Every connected client is served, whatever other clients do",
     "A websocket- or tcp-telemetry service sends each connected client every frame written while it is connected, in order and with its length header, whatever other clients do and however long there is nothing to send; a websocket service handles every message of each client in order; when a client leaves, its queue or stream is removed and the others go on. A stop ends every connection, also one accepted at that moment, leaves no thread, task, queue or stream behind, and the service can be started again; a websocket client delivers each genuine frame once and in order over any number of connections, and can always be stopped.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of clients connecting, leaving and failing, frames, silences, stops and restarts within the bound",
     "tests connect one client to one service and don't control when it leaves",
     ["vtelem/daemon/websocket.py", "vtelem/daemon/websocket_telemetry.py", "vtelem/daemon/event_loop.py", "vtelem/daemon/tcp_telemetry.py", "vtelem/client/websocket.py", "vtelem/stream/writer.py"],
     [("telem_handle", "vtelem/daemon/websocket_telemetry.py"), ("event_loop_stopper", "vtelem/daemon/event_loop.py"), ("TcpTelemetryHandler.handle", "vtelem/daemon/tcp_telemetry.py")])

prop("C35", "Control commands do exactly what they ask for, and always get an answer",
     "A command that starts, stops, pauses, unpauses or restarts services reaches exactly the services named (or all of them), and its answer tells each one's result and the state each is in; a command that adds, removes or lists udp clients adds, closes or lists exactly those, and its failure leaves everything as it was. A command that is incomplete, unknown or malformed is refused with a reason and has no effect. Each message of a websocket client gets exactly one answer, in order, with the result of the command it holds, and no message ends the connection.",
     ["histories", "inputs"],
     "all sequences of commands (valid and not), lists of services, identifiers, kinds of message and states of the services within the bound",
     "tests send a few valid commands and two invalid ones",
     ["vtelem/factories/daemon_manager.py", "vtelem/factories/udp_client_manager.py", "vtelem/factories/websocket_daemon.py", "vtelem/daemon/manager.py", "vtelem/classes/udp_client_manager.py"],
     [("create_daemon_manager_commander", "vtelem/factories/daemon_manager.py"), ("create_udp_client_commander", "vtelem/factories/udp_client_manager.py"), ("commandable_websocket_daemon", "vtelem/factories/websocket_daemon.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as out:
    for item in P:
        assert len(item["title"]) <= 80, item["title"]
        out.write(json.dumps(item) + "\n")
print(len(P))
