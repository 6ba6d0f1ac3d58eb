"""Source of properties.jsonl (run:  python3 dst/properties_src.py > properties.jsonl)."""
import json

C = "givenergy_modbus/client/client.py"
F = "givenergy_modbus/framer.py"
P = "givenergy_modbus/model/plant.py"
S = "givenergy_modbus/model/battery_splice.py"
MAN = "givenergy_modbus/model/manifest.py"
RR = "givenergy_modbus/pdu/read_registers.py"
WR = "givenergy_modbus/pdu/write_registers.py"
TR = "givenergy_modbus/pdu/transparent.py"
HB = "givenergy_modbus/pdu/heartbeat.py"
MOCK = "givenergy_modbus/testing/mock_plant.py"
REG = "givenergy_modbus/model/register.py"

ROWS = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    row = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    }
    if state:
        row["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    ROWS.append(row)


p("P01", "A response is only returned to the request it answers",
  "A read or write call returns only a non-error response, received after the call began on the connection then open, "
  "that names the same operation, device address and register range (for a write, the same register and value) as the request; a read's response has a valid checksum. "
  "When it returns, the register values that response carried are already visible in the plant's state unless a data-quality guard rejected them or newer data has replaced them. "
  "Concurrent calls with different targets never receive, cancel or starve one another.",
  ["schedules", "fault_sequences", "histories"],
  "for all interleavings of concurrent reads and writes, and all losses, delays, duplicates, reorderings, segmentations and unsolicited responses",
  "Unit tests resolve one or two futures by hand in one order; they cannot cover late, duplicated, reordered or unsolicited answers interleaved with retries of several callers.",
  [C, TR, RR, WR, P], [("shape-keyed in-flight map, cache updated before the waiter is resolved", C)],
  ["return value of each request call", "plant register caches at the instant of return", "bytes delivered by the simulated peer"],
  state=[("expected_responses", "in-flight requests by expected response shape", C)])

p("P02", "Every public call finishes in bounded time",
  "Every public call of the client (connect, close, detect, liveness probe, poll, load configuration, write command, capture) returns or raises "
  "within a time computable from its own timeout, retry and pacing arguments, whatever the peer and network do. "
  "Silence, half-open links, hung or refused connects, resets, floods, and concurrent callers never leave a call waiting forever. "
  "A call that cannot succeed raises the library's communication error, a timeout or (when its caller, a newer identical call or a close gave it up) a cancellation, never another error.",
  ["schedules", "fault_sequences", "configurations"],
  "for all fault sequences and interleavings of calls, including a close or reconnect issued while other calls are in flight",
  "Tests sample single stalls with mocked readers and writers; an unbounded wait only appears for a particular point of a stall inside a particular call.",
  [C], [("bounded queue put, frame-sent safety net, bounded drain, per-attempt response timeout", C)],
  ["start and end virtual time of every call"])

p("P03", "Connection loss is reported promptly and uniformly",
  "When the connection drops without the caller closing it (peer end-of-stream, reset, transport error, or a write stalled past its bound), the client promptly reports itself disconnected "
  "and every in-flight or queued request fails with the connection-lost error rather than a plain timeout. "
  "Until a reconnect succeeds, later requests fail with that same error immediately. "
  "A request failed by connection loss is never retransmitted.",
  ["schedules", "crash_points", "fault_sequences"],
  "for every instant at which the connection can drop, every way it can drop, and any number of in-flight and queued requests",
  "Tests drop a mocked connection at a few chosen points and only by clean EOF or drain timeout; they never reset a socket in the middle of arbitrary concurrent work.",
  [C, "givenergy_modbus/exceptions.py"], [("teardown on unexpected drop fails in-flight and queued futures", C)],
  ["connected flag", "exception type of each call", "bytes written after the drop"])

p("P04", "Reconnecting always recovers, with nothing left over",
  "After any history of faults, failed connects, closes and cancellations, once the peer is reachable and healthy a single connect followed by a request succeeds on its first attempt. "
  "Nothing from an earlier connection (received bytes, queued frames, late failures) affects the new one. "
  "At most one connection is open at a time.",
  ["histories", "crash_points", "fault_sequences"],
  "for all histories of connects, drops, closes, cancellations and partial frames preceding the reconnect",
  "Reconnect tests use fresh mocks, so state that leaks across connections (buffers, queue items, late timers) is never exercised in combination.",
  [C, F], [("connect tears down leftovers and starts fresh tasks", C)],
  ["outcome of connect and of the first request after faults stop", "frames on the new connection", "number of open sockets"])

p("P05", "Close leaves nothing behind",
  "Once close (the last one, if several overlap) returns, the socket is released, no background activity of the client remains, nothing more is transmitted or applied to the plant, and no background error is left unretrieved. "
  "Closing twice, before connecting, or after a drop is harmless. "
  "Calls in flight at that moment still finish in bounded time.",
  ["schedules", "crash_points", "histories"],
  "for every instant at which close is called relative to in-flight work, incoming data and drops",
  "Tests close idle or single-request clients; they do not enumerate the instants between enqueue, write, delivery and wake-up.",
  [C], [("ordered shutdown of producer, writer, consumer, reader", C)],
  ["tasks alive after close", "transport state", "wire bytes and plant state after close", "event-loop exception reports"])

p("P06", "Transmissions are paced, ordered and whole",
  "Consecutive frames the client transmits on a connection are separated by at least the configured message gap, however many callers, retries and heartbeats compete. "
  "Frames leave in the order they were queued. "
  "Every transmission is one complete well-formed frame, never interleaved with another.",
  ["schedules", "configurations", "fault_sequences"],
  "for all numbers and timings of concurrent callers, pacing settings, backpressure and heartbeats",
  "Tests check one producer loop with patched sleep; they do not check spacing and order over arbitrary contention and backpressure.",
  [C], [("single producer draining a FIFO with a minimum sleep", C)],
  ["client-to-peer byte stream with virtual timestamps"])

p("P07", "Retransmission is bounded and never gratuitous",
  "A request is transmitted at most retries+1 times, and transmitted again only after its previous attempt timed out or was answered with an error. "
  "With zero retries a write reaches the wire at most once. "
  "A queued attempt whose answer has already arrived is not transmitted, and nothing is transmitted for a single request whose caller already got its result, a timeout, a cancellation or a connection loss.",
  ["schedules", "fault_sequences"],
  "for all loss, delay, error-response and queueing patterns and all retry settings",
  "Tests count sends for one request against a scripted peer; duplicates arise from races between late answers, retries and queued attempts of several callers.",
  [C], [("skip-if-already-answered at dequeue, bounded retry loop", C)],
  ["frames on the wire attributed to calls"])

p("P08", "Only permitted writes ever reach the wire",
  "Through the command interfaces, only writes to registers permitted for the detected model and the chosen privilege tier, with values in range, are ever transmitted; undetected plants get the single-phase set; permitted ones are not refused. "
  "If any request of a batch is not permitted, the call fails before anything of the batch is transmitted. "
  "A dry run validates identically and transmits nothing.",
  ["histories", "configurations", "inputs", "schedules"],
  "for all models, all histories of (re)detection around the call, all batches and tiers, with other traffic in flight",
  "Tests sample a few registers per model right after setting capabilities by hand; they do not observe the wire under concurrent traffic and re-detection.",
  [C, MAN, WR], [("model-dependent write-safe sets, tier separation, pre-flight validation", MAN)],
  ["write frames on the wire versus an independent permission table"])

p("P09", "Frame recovery is independent of how bytes arrive",
  "The sequence of messages the client acts on depends only on the bytes received, never on how they are split into reads. "
  "Every intact frame that follows line noise free of frame markers is processed exactly once and in order, and after any garbage whatsoever intact traffic is processed again within a bounded number of bytes. "
  "No byte sequence stops reception or makes buffering grow without bound.",
  ["inputs", "schedules", "fault_sequences"],
  "for all byte streams, garbage insertions, truncations and segmentations",
  "Tests feed hand-picked chunkings and garbage; the claim is over all splits and all garbage.",
  [F, C], [("sliding-window marker scan with header sanity checks", F)],
  ["messages acted on (state, replies, counters) versus an independent parser", "memory held for reassembly"])

p("P10", "Bad frames never change state or satisfy a request",
  "A read response with a wrong checksum, an error response, a null response, an input-register response with the known corrupt-bank fingerprint, or an undecodable frame never changes any stored register, freshness or presence mark. "
  "A wrong-checksum read response, null response or undecodable frame never completes a pending request: it keeps waiting or retries as if the frame had not arrived. "
  "An error response never completes one successfully: it consumes the attempt.",
  ["fault_sequences", "inputs", "schedules"],
  "for all corruptions of any response at any point of any exchange",
  "Tests corrupt single canned frames outside of live traffic.",
  [RR, P, C, TR], [("checksum validation, error/null/suspicious filters before commit", P)],
  ["plant registers and timestamps before/after each bad frame", "outcome of the pending call"])

p("P11", "A battery's first reading must be corroborated",
  "With no prior data for a battery pack, its first full reading is not adopted until a second consecutive reading within the cold-start window agrees with it. "
  "A reading that disagrees restarts the wait with itself, two agreeing readings of which the later is internally corrupt are not adopted, and once adopted the baseline is the later reading.",
  ["histories", "inputs", "fault_sequences"],
  "for all sequences of battery readings, gaps, losses and reconnects starting from an empty pack state",
  "Tests run a handful of two- or three-frame sequences; the rule is over every history including gaps, restarts and other packs in between.",
  [P, S], [("cold-start hold", P)], ["pack registers versus an executable reference model after every frame"])

p("P12", "Spliced battery readings never replace good data",
  "Outside the documented recoveries of the guard (see P13), a full reading that, against an established battery baseline, breaks two or more physical limits, changes identity, or blanks several temperature sensors is never adopted, and a single implausible value alone is held at last-good until a second consecutive reading confirms it. "
  "Clean readings are adopted at once and in full. "
  "Each pack is judged independently of all others.",
  ["histories", "inputs", "fault_sequences"],
  "for all histories of clean, spliced, escalating and interleaved readings of several packs within the freshness window",
  "Tests cover each rule by itself with a constructed pair of frames; they cannot cover combinations and orders of held, rejected and clean readings.",
  [P, S], [("per-bank splice guard with physics, identity and cohort rules", S)],
  ["pack registers, hold and reject counters versus an executable reference model after every frame"])

p("P13", "The battery guard always recovers",
  "A changed constant value is adopted once it has persisted for the configured heal time and number of readings, an opted-in legitimate multi-value step is adopted after the configured sustained smooth period, and a pack not seen for longer than the staleness window is re-adopted at once unless the reading is itself corrupt. "
  "A baseline that is itself physically impossible never blocks recovery: sane readings replace it after corroboration. "
  "None of these happens earlier than its configured bound.",
  ["histories", "inputs", "configurations"],
  "for all histories of readings over minutes to hours of simulated time and all heal settings",
  "Recovery needs tens of readings over many minutes with specific gaps; tests step a few fixed sequences.",
  [P, S], [("scalar heal, reject heal, staleness bypass, impossible-baseline re-seed", P)],
  ["pack registers versus an executable reference model after every frame"])

p("P14", "An all-zero dropout never wipes good data",
  "A full bank of zeros received for a device that already holds non-zero data for that bank is ignored: values, freshness and presence stay as they were. "
  "The first non-zero reading afterwards is processed normally. "
  "A zero bank for a device without data, and zero values inside a non-zero bank, are not affected.",
  ["histories", "fault_sequences"],
  "for all devices, banks and histories of dropouts, losses and reconnects",
  "Tests apply one zero bank to one device.",
  [P], [("bank hold on all-zero", P)], ["plant registers and timestamps versus reference model"])

p("P15", "Freshness reports the truth",
  "The reported age of a register block is the wall-clock time since the last reading of that block whose data was actually adopted: it restarts on every adoption, also of unchanged or unsolicited data, and on nothing else. "
  "Rejected, held, corrupt and error readings leave it unchanged, and it is unknown until the first adoption. "
  "A register's age is that of the freshest adopted block covering it, content counts as unchanged since the adoption that first brought it, and invalidating a block forgets its age, presence and registers and nothing else.",
  ["histories", "schedules", "fault_sequences"],
  "for all histories of accepted, rejected, held, duplicated and unsolicited readings under all clock behaviour",
  "Tests check single stamps with injected timestamps; the claim relates every timestamp to the full delivery history.",
  [P], [("per-block stamps written at commit", P)], ["age and timestamp queries versus recorded adoption times"])

p("P16", "Polling requests exactly the banks that are due",
  "A poll requests every measurement bank of the detected topology exactly once, except banks the last detection marked absent and, when a maximum age is given, banks adopted within that age. "
  "No bank outside the detected topology is requested. "
  "A bank whose age exceeds the maximum, is unknown, or is negative because the clock was stepped backwards is always requested.",
  ["histories", "configurations", "schedules"],
  "for all topologies, maximum ages, fan-out traffic patterns and clock steps",
  "Tests compare request lists for fixed plants with hand-set timestamps.",
  [C, MAN, P], [("refresh range planning with presence and age gates", C)],
  ["read requests on the wire during each poll versus an independent bank table"])

p("P17", "Poll outcomes are honest",
  "A poll or configuration read succeeds if and only if every requested bank was answered; otherwise it raises the partial or total failure error, listing exactly the banks that failed. "
  "Banks that were answered are usable even when others failed. "
  "A caller's cancellation is never turned into a failure report.",
  ["fault_sequences", "schedules"],
  "for all subsets of failing banks, failure kinds, retries and drop instants",
  "Tests fail one or two mocked reads; the claim is about every subset and timing.",
  [C, "givenergy_modbus/exceptions.py"], [("gather-with-exceptions aggregation", C)],
  ["outcome and failure list of each poll versus answers delivered per bank"])

p("P18", "Detection reports the plant that is there",
  "With every device answering within the configured timeouts and retries and HV stacks numbered without gaps, detection returns exactly the model and set of devices present, for every supported topology, whatever data earlier sessions left behind. "
  "Transient losses within the retry budget, unsolicited traffic and ghost answers of absent devices do not change the result. "
  "Every device reported is one that answered with valid data.",
  ["configurations", "fault_sequences", "histories"],
  "for all topologies (model, packs, meters, stacks, modules), histories and fault sequences within the retry budget",
  "Tests detect a few recorded plants over a perfect link.",
  [C, P], [("tiered probing then validation from cached data", C)],
  ["returned capabilities versus the simulated plant"])

p("P19", "Failed or mismatched detection leaves a clean state",
  "If detection fails because the peer times out or the link drops at any point, it raises, the connection is closed, and no partially detected topology is installed. "
  "With a topology hint, detection succeeds only if reality matches the hint; otherwise it raises a mismatch carrying hint and reality, clears the installed topology and leaves the connection usable. "
  "A link that drops during detection is never reported as a smaller plant.",
  ["crash_points", "fault_sequences", "histories"],
  "for every instant at which the link can fail during cold or hinted detection, and all hints",
  "Tests fail the first read; they do not drop the link at each of the dozens of probes.",
  [C, P], [("detect wrapper closes on failure; hint comparison", C)],
  ["exception, connected flag, installed capabilities after detect"])

p("P20", "The liveness probe tells the truth and never raises",
  "The liveness probe returns true whenever the first answer within an attempt's window is an adoptable identity reading from the inverter, and only if such a reading was adopted during the probe; it then leaves the connection open for reuse. "
  "Otherwise it returns false with the connection closed, so that a later connect works. "
  "It never raises and never takes stale data as a sign of life.",
  ["fault_sequences", "histories", "crash_points"],
  "for all peer behaviours (silent, error, zero bank, corrupt, drop at any instant) and all earlier sessions",
  "Tests mock one response per outcome.",
  [C], [("probe judged by re-stamping of the identity block", C)],
  ["return value versus adopted frames during the probe", "connection state after"])

p("P21", "Every heartbeat is answered exactly once",
  "On a live connection each heartbeat received is answered exactly once, on that connection, with a reply of the same type, within a bounded time set by pacing and the queue. "
  "Heartbeats never satisfy, delay beyond pacing, or disturb requests in flight, and a flood of them does not stop reception.",
  ["schedules", "fault_sequences"],
  "for all timings and numbers of heartbeats relative to queued requests, drops and reconnects",
  "Tests answer one heartbeat on an idle client.",
  [C, HB], [("consumer queues the reply behind pending frames", C)],
  ["heartbeats delivered versus replies on the wire per connection"])

p("P22", "Captured traffic is complete and redacted",
  "While a capture runs, what the sink receives for each direction is the exact traffic with every serial number and network address of the decodable frames received whole during it blanked and checksums recomputed, independent of how the bytes were split. "
  "Undecodable bytes, and frames cut by the start or end of the capture or connection, pass through unmodified; nothing is dropped, duplicated or reordered. "
  "No complete serial number or network address of a decodable whole frame ever reaches the sink.",
  ["inputs", "schedules"],
  "for all traffic, frame kinds, garbage and segmentations",
  "Tests redact canned frames with a few splits.",
  [C, "givenergy_modbus/model/register_cache.py", "givenergy_modbus/pdu/lan_config.py"], [("frame-aware stream redactor", C)],
  ["sink output versus an independent redactor over the recorded traffic"])

p("P23", "Capturing never disturbs the client",
  "A capture never affects requests, state or connectivity: a sink that raises, or traffic of any kind, leaves the client working as if no capture ran. "
  "Only one capture runs at a time, a second is refused without disturbing the first, and a finished or cancelled capture flushes, stops delivering, and allows a new one.",
  ["schedules", "fault_sequences", "crash_points"],
  "for all capture start, stop and cancellation instants, sink failures and concurrent traffic",
  "Tests run one capture with one failing sink call.",
  [C], [("sink wrapper swallowing errors, cleanup in finally", C)],
  ["client outcome with and without capture", "sink calls over time"])

p("P24", "Link-quality counters count each event once",
  "Each per-device counter equals the number of corresponding events: frames received with bad checksums, retries consumed by ordinary requests, readings held, rejected or held at cold start. "
  "Speculative probes of possibly absent devices never count as retries. "
  "Counters never decrease and are unaffected by which other devices misbehave.",
  ["histories", "fault_sequences"],
  "for all histories of faults, retries and guard decisions across devices",
  "Tests bump one counter at a time.",
  [P, C], [("per-device counters bumped at the decision point", P)],
  ["counters versus events recorded by the simulator"])

p("P25", "Identity comes only from the inverter itself",
  "The plant's inverter serial number is only ever the one carried by the latest non-error response from an inverter address, never one from a battery, meter or other device, or from a checksum-failed reading or an error answer. "
  "The data-adapter serial number is likewise never taken from a checksum-failed reading or an error answer. "
  "Neither changes for any other reason.",
  ["histories", "fault_sequences", "schedules"],
  "for all orders of responses from devices carrying different serials, including rejected ones",
  "Tests update from one device at a time.",
  [P], [("address-gated identity adoption", P)], ["serials after every frame versus frames delivered"])

p("P26", "Acknowledged writes are visible, unacknowledged ones are not",
  "When a write command returns successfully, the plant already shows the acknowledged value for that register on the inverter, and it stays until a later reading or acknowledged write supersedes it. "
  "A write that timed out, failed or was refused without an acknowledgement leaves stored values unchanged. "
  "Acknowledgements change only the register they name.",
  ["schedules", "fault_sequences", "histories"],
  "for all interleavings of writes with polls, losses, error answers and late acknowledgements",
  "Tests apply one echo to an idle plant.",
  [P, C, WR], [("write echo applied to the inverter's cache", P)],
  ["plant registers versus acknowledgements and readings delivered"])

p("P27", "Clients in one process are isolated",
  "Several clients with their own plants running in one event loop never affect one another: each client's state, outcomes and traffic are exactly what they would be had it run alone against the same peer. "
  "This holds also when all devices use the same addresses and when one of the peers misbehaves.",
  ["schedules", "configurations", "fault_sequences"],
  "for all interleavings of several clients with identical addressing and independent faults",
  "Tests create one client at a time, so shared mutable state between instances is invisible.",
  [C, F, P], [("per-instance state", C)], ["per-client history alone versus together"])

p("P28", "The mock plant serves concurrent clients faithfully",
  "Every well-formed read of a present bank sent to the mock plant is answered exactly once with that bank's data and the requester's device address, on the requester's own connection, under any segmentation and any number of concurrent clients. "
  "Absent devices stay silent, absent banks get an error answer, permitted writes are acknowledged without changing data. "
  "Malformed traffic, stalled or aborted connections never affect other clients, and stopping the mock returns promptly whoever is connected.",
  ["schedules", "inputs", "fault_sequences"],
  "for all specifications, client counts, segmentations, garbage and disconnect instants",
  "Tests connect one well-behaved client over loopback.",
  [MOCK, F, TR], [("per-connection handler with its own framer", MOCK)],
  ["bytes returned per connection versus the specification"])

p("P29", "Repeated trouble is coalesced in the log, never swallowed",
  "The first drop of a burst of clean reconnect churn is logged as a warning, repeats within the re-warn window are not, and each further window of a sustained burst logs one warning with the exact tally since the previous one. "
  "Rejected battery bursts likewise warn at onset, on change of pattern, and once per window, and log one clearing line with recovery. "
  "After a quiet period a new burst warns again at once.",
  ["histories", "schedules"],
  "for all timings of drops and rejected readings over hours of simulated time",
  "Tests call the coalescing helper with a few timestamps.",
  [C, P], [("burst state on the client and per pack", C)], ["log records with virtual timestamps versus the sequence of drops and rejections"])

p("P30", "Typed views never fail on received data",
  "After any sequence of received frames, including partial, corrupt, spliced, zero or unusual data from any device, every typed view and status query of the plant is readable without raising. "
  "Views reflect the stored registers at that moment.",
  ["inputs", "histories", "fault_sequences"],
  "for all streams of received data over all topologies",
  "Tests read views over recorded healthy data.",
  [P, REG, "givenergy_modbus/model/battery.py", "givenergy_modbus/model/inverter.py", "givenergy_modbus/model/ems.py", "givenergy_modbus/model/gateway.py"],
  [("total converters and tolerant accessors", REG)], ["every public view of the plant at random instants"])

p("P31", "A saved plant is the plant again after a restart",
  "Detected capabilities saved as JSON (in any documented form) and restored after the process was killed at any moment are equal, and a client restarted from them sends the same polls and shows the same plant as one that still holds them; hinted detection confirms them exactly when the plant is unchanged. "
  "Register caches saved as JSON or as the compact dump restore every register exactly; damaged entries or rows are left out without touching any other, and documents of an unknown version are refused. "
  "A plant rebuilt offline from the saved registers shows the same views as the live plant did, and derives the topology live detection found, confined to a saved topology where one is given.",
  ["crash_points", "histories", "fault_sequences"],
  "for all plants, histories of polls, faults and writes, save and kill instants, and damage to the saved documents",
  "Tests round-trip a few hand-made objects and never restart a client.",
  [P, C, "givenergy_modbus/model/register_cache.py"], [("to_dict/from_dict, json/from_json, to_compact/parse_compact, from_caches", P)],
  ["restored object, requests and views of the restarted client, offline rebuild versus live plant"])

p("P32", "A shared export names no device and is a snapshot",
  "At any moment of any session the redacted copy of a plant contains no serial number of any device it has wholly received (inverter, adapter, batteries, stacks, modules, managed and directly read inverters) and no meter product identifier, "
  "in its registers, headers, views, JSON or compact dump. Every other register, capability, time stamp and counter is as in the original. "
  "Making it changes nothing in the live plant, and later traffic changes nothing in it.",
  ["histories", "inputs", "schedules"],
  "for all topologies, histories of received data, and instants of export",
  "Tests redact a few hand-made plants once.",
  [P, "givenergy_modbus/model/register_cache.py"], [("serial group redaction, Plant.redact", P)], ["exported copy versus the original, at the export and later"])

p("P33", "A setting takes effect exactly as stated and is shown back",
  "When a setting helper's requests (through a view, the command functions or the installer helpers) were sent and the call returned, the device holds exactly the values the arguments stand for in exactly the registers of that setting for the detected model and slot layout, and nothing outside the settings asked for was ever written. "
  "Once the configuration was read again, the typed views show the device's value of that setting. "
  "Arguments outside the documented range and settings not offered for the model are refused before anything is sent, and good ones never are.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "for all models, firmware versions, slot layouts, sequences of settings with all arguments, other applications' changes, losses, delays and errors",
  "Tests compare a few built requests with expected lists; they never carry a sequence of settings to a device and read it back under faults.",
  ["givenergy_modbus/client/commands.py", C, "givenergy_modbus/model/slot_map.py", "givenergy_modbus/model/inverter.py", "givenergy_modbus/model/ems.py"],
  [("setting helpers, slot maps, one_shot_command/installer_command", "givenergy_modbus/client/commands.py")],
  ["holding registers of the simulated device at return", "write frames on the wire", "typed views after load_config"])

p("P34", "Every quantity a view shows is the exact reading of its registers",
  "Whatever was received before, each register-backed field of each typed view shows the value its documented registers hold at that moment, with the documented width, byte order, sign, scale, enumeration and unit, and no value exactly when a register was never received, the code is undefined, or the reading lies outside the stated range (an all-zero bank is exempt). "
  "Derived quantities, deprecated aliases, model and rating follow their documented formulas from those fields and are absent when an input is. "
  "The metadata queries name the registers and decimal places actually used.",
  ["inputs", "histories", "fault_sequences"],
  "for all streams of received register blocks over all device kinds, including values at and beyond every limit",
  "Tests decode a few recorded blocks; most of the ~1300 fields are never read at a limit, with a sign, or from a partly received bank.",
  [REG, "givenergy_modbus/model/inverter.py", "givenergy_modbus/model/inverter_threephase.py", "givenergy_modbus/model/battery.py", "givenergy_modbus/model/hv_bcu.py",
   "givenergy_modbus/model/ems.py", "givenergy_modbus/model/gateway.py", "givenergy_modbus/model/meter.py", "givenergy_modbus/model/manifest.py"],
  [("converters, bounds, computed fields and aliases", REG)], ["every field of every view at random instants versus an independent decoding of the stored registers"])

p("P35", "The device walk shows each known device once, rightly named and owned",
  "At every moment Plant.devices lists one root (gateway, EMS or inverter) that alone holds control, and one row per battery, module, stack, meter and managed inverter the capabilities name, absent ones as placeholders, each with its documented stable identity, kind, parent, validated serial, firmware, validity, source and its own device's data, in the documented order. "
  "Managed inverters are reconciled by serial with directly read ones, direct data first and the summary filling gaps, and the serial index agrees. "
  "The plant's serial is resolved from the best valid source and never from a battery.",
  ["inputs", "histories", "fault_sequences"],
  "for all topologies, capabilities (detected, preset or restored), histories of received data on one or two connections, and instants",
  "Tests build a handful of plants by hand, each once and complete.",
  [P, "givenergy_modbus/model/devices.py", "givenergy_modbus/model/ems.py", "docs/plant-device-graph.md"],
  [("Plant.devices / inverters / serial_index / inverter_serial", P), ("unified inverter", "givenergy_modbus/model/devices.py")],
  ["rows of the walk at random instants versus an independent walk of capabilities and registers"])

p("P36", "The legacy wrappers do exactly what the primitives they stand for do",
  "Whatever happens on the link meanwhile, refresh_plant sends the requests, raises the errors and leaves the state of detect (only without capabilities), load_config (full refreshes) and refresh with the same arguments, and stops at the first that fails. "
  "watch_plant is connect, one full refresh, then handler and, unless passive, a refresh each period, until an error or cancellation that ends it at once and leaves nothing running; execute gives one result per request in request order, or the first failure.",
  ["schedules", "fault_sequences", "histories"],
  "for all plants, arguments, concurrent use of the client, losses, delays, errors, connection failures and cancellations",
  "Tests call the wrappers with mocked primitives; none compares a whole session with one made of the primitives under the same faults.",
  [C, "docs/migrating-from-the-async-fork.md", "docs/usage.md"],
  [("refresh_plant / watch_plant / execute", C)],
  ["requests on the wire, outcomes, times, handler calls and final state of twin sites under the same faults"])

p("P37", "What a client keeps does not grow with repeated use",
  "A long-lived client that is used in the same way again and again (reads, writes, detections, refreshes, captures, lost links, reconnects, cancellations, stray traffic) keeps no more after many repetitions than after a few: no object it references, shared package state, background task or open connection is left behind by each. "
  "What it keeps per use ends with that use, whatever way the use ended.",
  ["schedules", "fault_sequences", "histories"],
  "for all ways of using one client for a long time, under any faults that recur with that use",
  "Tests use a client a handful of times and look at its answers; a leak shows only in what is left behind over many repetitions of a use that may itself have failed.",
  [C, "givenergy_modbus/framer.py", "docs/usage.md"],
  [("connect / close / send_request_and_await_response / capture / detect", C)],
  ["objects reachable from the client and the package, live tasks, open connections after each repetition"])

p("N03", "Command builders encode valid intents and refuse others",
  "Each command builder yields exactly the register writes that express its arguments and refuses arguments outside the documented range.",
  ["inputs"], "for all arguments", "Tests sample arguments.",
  ["givenergy_modbus/client/commands.py"], [("argument validation", "givenergy_modbus/client/commands.py")], ["returned requests"])

p("N04", "Register decoding is exact",
  "Each register is decoded with its documented scale, sign and unit, and encoding a decoded value yields the original registers.",
  ["inputs"], "for all register values", "Tests sample values.",
  [REG], [("converter functions", REG)], ["decoded values"])

if __name__ == "__main__":
    for r in ROWS:
        print(json.dumps(r))
