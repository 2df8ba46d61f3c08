# The listed properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this file.
def P(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    anchors["hook_needed"] = None
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=anchors)


PROPS = [
P("C01", "Strain mode spots every clearly audible calling CW station",
  "When the IQ stream contains CW stations that keep sending a call with their callsign in regular Morse timing (16-28 wpm, 36-42 dB above noise of -72 to -66 dBFS per FFT bin, at least 3 kHz apart, inside the observed bandwidth, up to four stations), strain mode reports every one of them as spotted, with exactly the callsign that was sent and at its true frequency to within one FFT bin, within the first 50 seconds. This holds whatever the number of stations, their positions in the band, their phases, speeds and starting times, and the center frequency.",
  ["inputs", "configurations"], "all sets of 1-4 stations (callsign, offset, level, speed, phase, start), noise seeds, center frequencies",
  "No existing test runs the receiver at all; the stages are only tested alone with single values.",
  ["rx/receiver.go", "rx/listener.go", "rx/text_processor.go", "rx/peaks.go", "cw/spectral.go", "cw/decode.go", "dsp/fft.go"],
  [("receive loop: FFT, noise floor, cumulation, peak selection, listener attachment", "rx/receiver.go run"), ("one decoder and text processor per listener", "rx/listener.go")],
  ["the spotted-callsign reports of a reporter added to the receiver"]),
P("C02", "Strain mode never reports a callsign that is not on the air",
  "Whatever is on the air (noise, unmodulated carriers, keyed text without callsigns, calling stations in the level range above), every callsign that strain mode reports as spotted was actually sent by a station, at the reported frequency to within one FFT bin; a band without callsigns yields no spots.",
  ["inputs"], "all mixtures of noise, carriers, keyed non-callsign text and calling stations",
  "No existing test feeds the receiver; a sampled test cannot rule out phantom spots for other band contents.",
  ["rx/receiver.go", "rx/text_processor.go", "dsp/fft.go"],
  [("peak threshold above the noise floor", "rx/receiver.go run"), ("callsign pattern and repetition count", "rx/text_processor.go collectCallsign"), ("bin to frequency mapping", "dsp/fft.go FrequencyMapping")],
  ["all reports of a reporter added to the receiver"]),
P("C03", "Receiver reports follow the listener lifecycle",
  "For every IQ history and every sequence of control operations (settings, retuning, stop, restart), each listener identity is reported activated and deactivated strictly alternately and with the same frequency, never more listeners are active than the mode allows (1 in decode mode, on the VFO frequency; 30 in strain mode), and every callsign report comes from a currently active listener with the frequency it was activated on. Stopping the receiver deactivates every active listener, nothing is reported after that, every control operation returns, and the receiver can be started again.",
  ["histories", "schedules"], "all interleavings of IQ blocks, time steps and control operations over both modes",
  "Needs long generated histories with timeouts and stops at arbitrary moments; existing tests only exercise the listener pool alone.",
  ["rx/receiver.go", "rx/listener.go"],
  [("attach, detach and pool release in the receive loop", "rx/receiver.go run"), ("Receiver.Stop", "rx/receiver.go"), ("Listener.Attach, Detach", "rx/listener.go")],
  ["reports of an added reporter"]),
P("C04", "Listeners are released by silence and busy time, exactly then",
  "In strain mode a listener is released as soon as it has decoded no character for longer than the silence timeout or has been attached for longer than the busy timeout, and never earlier; text that keeps coming keeps the listener until the busy timeout. Changed timeouts apply to listeners that are active already. The frequency of a released listener is not visited again before two minutes have passed since it was found for that visit, and is visited again soon afterwards while the signal is still there.",
  ["histories", "configurations"], "all timeout settings and all patterns of transmissions and pauses",
  "Time-dependent over long histories; no existing test covers a timeout of the receiver.",
  ["rx/listener.go", "rx/receiver.go", "rx/peaks.go"],
  [("TimeoutExceeded", "rx/listener.go"), ("peak states and Cleanup", "rx/peaks.go")],
  ["activation and deactivation reports with their times"]),
P("C05", "Settings apply no matter when they are made",
  "A receiver setting (peak threshold, edge width, silence and busy timeout, signal debounce, center frequency) has the same effect when it is made before the receiver is started, directly after it was started, or later before the first listener is bound: given the same signal, the same listeners are activated and released and the same callsigns are reported at the same frequencies and the same times. Each setting has its effect: only signals above the peak threshold are found, the edges do not count for the noise floor, keying shorter than the debounce is not decoded, in strain mode the text of the listener on the VFO frequency is printed. Reading back the center frequency returns the last value set, before and after the start, and every setting operation returns.",
  ["configurations", "histories"], "all settings values and all moments of setting them, for generated signals",
  "A metamorphic relation between whole runs over all settings; no existing test sets anything on a receiver.",
  ["rx/receiver.go", "rx/listener.go", "cw/spectral.go"],
  [("settings are stored and handed to present and future listeners", "rx/receiver.go newListener, Set*")],
  ["reports of two receivers with the same input"]),
P("C06", "No IQ input crashes, blocks or permanently deafens the receiver",
  "Whatever blocks are fed (wrong sample rate or block length, silence of exact zeros, extreme, infinite or not-a-number samples), in whatever order and pace, the receiver neither crashes nor blocks the caller, blocks that do not fit the configured rate or size have no effect, and within three minutes after a normal signal is back its stations are found and spotted as usual.",
  ["inputs", "fault_sequences"], "all sequences of malformed, degenerate and normal blocks",
  "Existing tests never feed degenerate blocks; recovery needs a history with a fault followed by normal operation.",
  ["rx/receiver.go", "dsp/fft.go", "dsp/dsp.go"],
  [("size and rate checks in IQData, bounded input queue", "rx/receiver.go IQData"), ("rolling means of noise floor and deviation", "dsp/dsp.go RollingMean")],
  ["panics, return of IQData, spotted reports after recovery"]),
P("C07", "Decode mode prints the text received on the VFO frequency",
  "In decode mode, the text of a station in regular Morse timing that transmits on the current VFO frequency (center frequency plus VFO offset, to within half an FFT bin) is written to the output exactly as sent (from the second word on; the first tells the speed), and nothing is written for stations at least 3 kHz away; after every retune of the VFO or the center only the station on the new frequency is printed. A VFO frequency that was set before the start of the receiver is used. In strain mode, setting the VFO to the FFT bin of a listener prints the text of this listener from then on, and of no other; setting it elsewhere prints nothing.",
  ["inputs", "histories"], "all VFO frequencies, stations, texts and retune histories",
  "No existing test runs decode mode; the mapping of the VFO frequency to the FFT bin must hold for every frequency.",
  ["rx/receiver.go", "dsp/fft.go", "cw/decode.go"],
  [("SetVFOOffset", "rx/receiver.go"), ("FrequencyToBin", "dsp/fft.go"), ("channel writer", "rx/receiver.go ChannelWriter")],
  ["text output"]),
P("C08", "Cleanly keyed Morse decodes to exactly the sent text",
  "For every text over the Morse alphabet sent with 1:3:7 timing (words neither beginning nor ending with the single-element letters E and T), the decoder writes exactly the text that was sent: after a short lead-in like 'vvv' at 8-46 wpm, and from the first character when the speed is near 20 wpm, for every tick rate in which a dit has at least about 2.3 ticks, for every phase of the keying against the ticks, and with timing jitter up to a tenth where a dit has six or more ticks. The speed may change (up to nearly double or half) between transmissions that are separated by silence, and a long carrier before a transmission has no effect.",
  ["inputs", "configurations"], "all texts x speeds x tick rates x phases x jitter x speed changes",
  "The tests decode a few recorded streams and single characters; the adaptive thresholds must work for every text and speed.",
  ["cw/decode.go"],
  [("adaptive thresholds for on and off durations", "cw/decode.go AdaptiveThreshold"), ("edge handling and decode table", "cw/decode.go Decoder")],
  ["decoder output"]),
P("C09", "The CW decoder copes with any keying and forgets on reset",
  "For every on/off history the decoder only writes characters of the Morse table, spaces and the unknown-character marker, never crashes, and writes no more than was keyed: every character written accounts for its own key-down periods, none is written twice, and a pending character is written after a long pause. A key-down that is too long for an element spoils the character it belongs to and no other one. Attaching a scope does not change the output. After a reset the output for any keying is the same as that of a new decoder, and clearing drops the pending character only.",
  ["inputs", "histories"], "all on/off tick histories with resets at any point",
  "Tests only use well-formed keying; robustness and independence of history quantify over all histories.",
  ["cw/decode.go", "cw/spectral.go"],
  [("Tick, Reset, Clear, decodeCurrentChar", "cw/decode.go")],
  ["decoder output"]),
P("C10", "Audio demodulation decodes a keyed tone for any pitch, level and buffering",
  "A tone at the configured pitch, keyed with text in regular Morse timing, is decoded to exactly that text for every supported pitch, sample rate, amplitude (with automatic scaling), channel count and any split of the sample stream into writes; samples of other channels have no effect and a tone clearly off the pitch is not decoded. Settings read back as they were set, every call returns also after the close, and closing writes the pending character.",
  ["inputs", "configurations"], "all pitches, sample rates, levels, channel counts, texts, speeds and chunkings",
  "The audio path has no test at all.",
  ["cw/audio.go", "dsp/dsp.go", "cw/decode.go"],
  [("block assembly, scaling, filter, debouncer and decoder", "cw/audio.go run"), ("Write picks the first channel", "cw/audio.go Write")],
  ["text output, getters"]),
P("C11", "Every callsign in the decoded text is found, and nothing else",
  "For every text, each callsign that stands as a word of its own (preceded and followed by white space, at most nine characters) is reported as decoded, once per occurrence, in order, in upper case and complete with its prefix and suffix parts (like DL/W1AW, DL1ABC/P); words that contain no callsign are never reported, and neither is what begins with TU5NN (a report that runs into the word before it). The result does not depend on how the text is cut into writes.",
  ["inputs"], "all texts of callsigns, portable prefixes and suffixes, other words and spacing, and all ways of cutting them into writes",
  "The tests use one sentence; window shifts fall on different positions for every text and cut.",
  ["rx/text_processor.go"],
  [("sliding text window", "rx/text_processor.go textWindow"), ("callsign pattern", "rx/text_processor.go callsignExp"), ("findNextCallsign", "rx/text_processor.go")],
  ["decoded-callsign reports"]),
P("C12", "A callsign is spotted exactly when it is the best with enough evidence",
  "For every sequence of decoded callsigns, a callsign counts its occurrences, only callsigns with a known DXCC prefix count when the prefix database is available, and a callsign known to the supercheck database carries one extra point. After each decoded callsign the one with the most points is spotted if it has at least three, a previously spotted different callsign is timed out first, and nothing else is spotted or timed out.",
  ["histories", "configurations"], "all sequences of callsigns, with and without the two databases",
  "Tests check one callsign without databases; the decision depends on the whole history.",
  ["rx/text_processor.go"],
  [("collectCallsign, bestMatch", "rx/text_processor.go")],
  ["decoded, spotted and timeout reports"]),
P("C13", "A callsign at the end of a transmission is not lost, a restart forgets all",
  "When the text ends with a callsign without anything following, it is reported once after more than five seconds without further text, not earlier, and not again when text continues. In a running receiver the last callsign of a station that falls silent is therefore reported five to seven seconds after its last character. After a restart (new signal) neither text nor counts from before have any influence: the reports are those of a new text processor, even if text was still waiting to be processed.",
  ["histories", "schedules"], "all texts, cut points, pauses, timeout checks and restart points",
  "The only test of the timeout bypasses the clock, and no test restarts.",
  ["rx/text_processor.go"],
  [("CheckWriteTimeout, writeTimeout, Restart", "rx/text_processor.go")],
  ["decoded and spotted reports"]),
P("C14", "The peaks table is a faithful bookkeeping of frequency ranges",
  "For every sequence of operations, each bin of the table belongs to at most one peak, a new peak never displaces an active or inactive one unless forced, replaced peaks disappear completely, only new peaks are handed out for listening and one is always handed out when any exists, activation makes a new or inactive peak active, deactivation makes an active one inactive, and cleanup removes exactly the non-active peaks that are older than the peak timeout.",
  ["histories"], "all sequences of put, forced put, activate, deactivate, next, cleanup, reset and time steps over peaks of any width and position",
  "Tests run single operations on small fixed tables.",
  ["rx/peaks.go"], [("PeaksTable", "rx/peaks.go")], ["table lookups by bin, selected peaks"]),
P("C15", "Listener identities are never handed out twice and never lost",
  "For every sequence of bind, release and reset, the pool holds at most its size of listeners, all with distinct identities out of the fixed set prefix1 to prefixN, binding succeeds exactly when fewer than N are bound, releasing removes exactly the given listeners (unknown ones have no effect), and iteration visits each bound listener once.",
  ["histories"], "all sequences of bind, release (single, several, foreign, repeated), reset and iteration for all pool sizes",
  "The test does one fixed sequence.",
  ["rx/listener.go"], [("ListenerPool, IDPool", "rx/listener.go")], ["bound listeners and their ids"]),
P("C16", "The spectrum is the centered Fourier transform of the IQ samples",
  "For every IQ block of any supported size, spectrum and power density equal the discrete Fourier transform of the complex samples with frequency zero in the middle bin (up to rounding): power is conserved, a tone appears in the bin of its frequency, and results do not depend on blocks processed before. The three magnitude measures are consistent with each other.",
  ["inputs"], "all blocks (sizes, contents) and call sequences with changing sizes",
  "Tests cover one block size and few values.",
  ["dsp/fft.go"], [("IQToSpectrum, IQToSpectrumAndPSD", "dsp/fft.go"), ("magnitude measures", "dsp/fft.go")], ["spectrum and PSD values"]),
P("C17", "Frequencies and FFT bins map onto each other consistently",
  "For every sample rate, block size and center frequency, each bin's frequencies (lower edge, center, upper edge) are where they belong to within two Hertz, every frequency inside the band is mapped to the bin whose center is nearest, frequencies outside are mapped to the nearest edge bin, and changing the center frequency shifts everything by the same amount.",
  ["inputs", "configurations"], "all sample rates, block sizes, center frequencies, bins and frequencies, for integer and floating point types",
  "Tests cover a handful of values.",
  ["dsp/fft.go"], [("FrequencyMapping", "dsp/fft.go")], ["mapped values"]),
P("C18", "Peak detection finds exactly the ranges above the threshold",
  "For every spectrum and threshold, the detected peaks are exactly the maximal runs of bins whose mean value exceeds the threshold, in ascending order, each with its true maximum value and bin, with the matching edge frequencies, and with a signal frequency that lies within half a bin of the maximum's bin; for a parabola shaped peak it is the vertex.",
  ["inputs"], "all spectra, thresholds and cumulation sizes",
  "Tests use small fixed spectra and do not check the interpolated frequency over the band.",
  ["dsp/fft.go"], [("FindPeaks, PeakCenterCorrection", "dsp/fft.go")], ["returned peaks"]),
P("C19", "The noise floor estimate is the quietest stretch of the band",
  "For every power density with a usable width, the noise floor is the mean of a stretch of a tenth of the usable band that is minimal among the consecutive stretches, the returned variance belongs to that stretch, bins in the excluded edges never influence it, strong signals elsewhere do not raise it, and it scales with the input.",
  ["inputs", "configurations"], "all power densities and edge widths",
  "One fixed test vector.",
  ["dsp/fft.go"], [("FindNoiseFloor", "dsp/fft.go")], ["returned noise floor and variance"]),
P("C20", "Block and rolling statistics equal their definition at every step",
  "For every sequence of values, the rolling mean and rolling variance over n equal mean and variance of the last n values (missing ones counting as zero) at every step, also after a reset and after values that are not finite have left the window; the history functions (sum, maximum, minimum, mean, variance, deviation over a range or selected positions) and the block functions (sum, mean, maximum with position over a section) return what a plain computation returns.",
  ["histories", "inputs"], "all value sequences, window sizes, sections and index sets",
  "Tests cover few short sequences.",
  ["dsp/dsp.go", "dsp/fft.go"], [("RollingMean, RollingVariance, RollingHistory", "dsp/dsp.go"), ("Block", "dsp/fft.go")], ["returned values"]),
P("C21", "The tone filter detects its pitch and only its pitch",
  "For every supported pitch and sample rate the filter's block size is a whole number of (rounded) pitch periods near the requested duration; its magnitude equals the magnitude of the discrete Fourier transform at its bin, is linear in the amplitude and independent of phase; a tone at the pitch above the reference level is detected, silence and tones well off the pitch are not, and exactly one block of samples is taken while too short buffers are refused.",
  ["inputs", "configurations"], "all pitches, sample rates, amplitudes, phases, other frequencies and buffer lengths",
  "Tests use a few pitches with fixed signals.",
  ["dsp/dsp.go"], [("Goertzel", "dsp/dsp.go")], ["magnitude, state, consumed samples"]),
P("C22", "The debouncer changes state only after the required number of equal inputs",
  "For every input sequence and threshold n the debounced state is the value of the most recent run of at least n equal inputs (initially off), so that shorter glitches never show and a stable change shows with exactly the n-th equal input; with a threshold below two the output is the input. Changing the threshold takes effect with the next input.",
  ["histories"], "all input sequences and threshold changes",
  "Tests use few fixed sequences.",
  ["dsp/dsp.go"], [("BoolDebouncer", "dsp/dsp.go")], ["returned states"]),
P("C23", "Telnet clients get each spot once per silence period, in cluster format",
  "For every sequence of spots, a connected client receives exactly those spots whose callsign was not announced on the same frequency (rounded to kHz) within the silence period before, in order, each as one line in DX cluster format from which reporter call, frequency to 0.1 kHz, callsign, comment and UTC time can be read back unchanged.",
  ["histories", "inputs"], "all sequences of callsigns, frequencies, times and silence periods",
  "One test checks the format of a single spot.",
  ["telnet/telnet.go"], [("shouldAnnounce, registerSpot, formatSpotMessage", "telnet/telnet.go")], ["lines received by a client"]),
P("C24", "Telnet spots reach every connected client, whatever others do",
  "For every history of clients connecting, leaving, breaking or not reading, each client that is connected and reads receives every spot announced after it was greeted, completely and in order; no client can stop the others from being served or block the announcing of spots. Stopping the server always returns, closes all connections and frees the address, and nothing of it runs on.",
  ["histories", "fault_sequences", "schedules"], "all interleavings of connects, disconnects, stalled clients, spots and stop",
  "No test opens a connection.",
  ["telnet/telnet.go"], [("server loop, removal of closed connections", "telnet/telnet.go Server.run"), ("Connection.Write, Close", "telnet/telnet.go")], ["bytes received by clients, return of Stop and Spot"]),
P("C25", "The telnet dialog is independent of packet boundaries",
  "For every input of a client, cut into packets in any way, the dialog is: greeting, question for the callsign, a welcome with exactly the first line entered, then an empty line for each further line entered; messages written meanwhile appear completely, in order and exactly once. This also holds for connections that accept data only in small pieces, and writing to or closing a connection that is closed or breaks always returns.",
  ["inputs", "schedules", "fault_sequences"], "all inputs, packet cuts, short writes, interleaved messages and points of failure",
  "No test opens a connection.",
  ["telnet/telnet.go"], [("Connection.run, readLoop, writeAll, parseAnswerByte", "telnet/telnet.go")], ["bytes written to the connection"]),
P("C26", "Scope frames arrive at the client as they were shown",
  "Every time frame and spectral frame shown on the scope server reaches a connected client with the same stream, time, values, frequency range and markers (as 32 bit numbers), in the order shown per kind, until the client is closed, which ends its frames but nobody else's.",
  ["inputs"], "all frames",
  "Tests send one frame of each kind.",
  ["scope/server.go", "scope/client.go", "scope/scope.go"], [("conversion to and from protobuf", "scope/server.go, scope/client.go")], ["frames received by a client"]),
P("C27", "Slow or leaving scope clients never disturb the signal path or others",
  "For every history of scope clients connecting, not reading and leaving, showing a frame never crashes and never blocks, clients that read receive an unbroken sequence of the frames shown while they are connected, and the server can be stopped at any time - also while frames are shown - and started again, and nothing of a stopped server runs on.",
  ["histories", "fault_sequences", "schedules"], "all interleavings of connects, stalls, disconnects, frames, stop and restart",
  "Tests use at most one stalled stream.",
  ["scope/server_grpc.go", "scope/server.go"], [("sendFrameToStreams, removeStream, shutdown", "scope/server_grpc.go")], ["frames received, return of the show and stop calls"]),
P("C28", "KiwiSDR messages are decoded correctly or refused, never fatal",
  "For every sequence of messages from a KiwiSDR, IQ samples are delivered exactly as sent (16 bit big endian, scaled to -1 to 1) with the announced audio rate and only after it is known, the handler is told about the connection exactly once and before any samples, malformed, short or unknown messages are skipped without effect on others, and refusals of the server (busy, wrong password, down) end the connection.",
  ["inputs", "histories"], "all message sequences, well-formed and malformed",
  "Tests decode a few well-formed messages.",
  ["kiwi/client.go"], [("readLoop, decodeKiwiMessage, decodeConfigurationMessage, decodeIQMessage", "kiwi/client.go")], ["handler calls"]),
P("C29", "The KiwiSDR client opens, runs and closes cleanly under every fault",
  "Opening a connection sends credentials and setup completely and in order with every special character intact, for any host address form; the client keeps the connection alive, and for every moment at which the peer closes, fails or refuses, opening and closing return, nothing crashes, the connection is closed and nothing of the client or its receiver runs on.",
  ["fault_sequences", "schedules", "inputs"], "all fault points and close moments, credentials, center frequencies, bandwidths and address forms",
  "No test opens a connection.",
  ["kiwi/client.go", "cli/cli.go"], [("Open, writeLoop, Close, send", "kiwi/client.go")], ["messages received by the server, return of Open and Close"]),
P("C30", "IQ data of a TCI device become spots on the device and on telnet",
  "For a TCI device that streams IQ data, every calling station is handed to the spot service under its callsign and true frequency and, if enabled, shown as a spot on the device, and a spot that is superseded is removed; IQ data and frequency changes of other receivers of the device have no effect. This holds across reconnects of the device, and closing always returns and stops the IQ stream and the receiver.",
  ["histories", "fault_sequences", "inputs"], "all device histories: handshake order, receivers, DDS/IF changes, IQ streams, reconnects, close moments",
  "No test covers this package.",
  ["tci/tci.go"], [("Process, tciListener", "tci/tci.go")], ["spotter calls, commands received by the device"]),
P("C31", "IQ packets are cut into blocks completely, in order and unaltered",
  "For every packet of IQ samples from a device, the receiver processes exactly the samples of the packet, cut into blocks in the original order with no sample lost, repeated or altered, also when packets arrive faster than they are processed as long as the queue has room.",
  ["inputs", "schedules"], "all packet contents and arrival patterns",
  "No test covers the path from packets to blocks.",
  ["tci/tci.go", "kiwi/kiwi.go", "kiwi/client.go", "rx/receiver.go"], [("tciListener.IQData, Process.IQData", "tci/tci.go, kiwi/kiwi.go"), ("input queue", "rx/receiver.go IQData")], ["spectral frames shown on the scope, decoded text"]),
P("C32", "Host arguments are understood in every notation",
  "For every host argument (name or address in IPv4 or bracketed or plain IPv6 notation, with or without port, empty parts) the resolved address has the given host, or the default if there is none, and the given port, or the default if there is none.",
  ["inputs"], "all combinations of host forms, ports and defaults",
  "No test covers argument parsing.",
  ["cli/cli.go"], [("ParseTCPAddrArg, splitHostPort", "cli/cli.go")], ["resolved address"]),
P("C33", "The program does what its command line says",
  "For every documented combination of arguments of 'strain tci', 'strain kiwi' and 'decode tci', in every notation of flags, the program connects to the given device with the given receiver, credentials, center frequency and bandwidth, applies the given threshold, debounce, silence, busy and spot intervals (or the documented defaults), announces spots on the given telnet port under the given callsign, shows spots and listeners on the device exactly if told to, serves the scope on the given address exactly if told to, prints the decoded text or the spots, and ends with exit code 0 and with all connections closed on SIGINT, SIGTERM, SIGHUP and SIGQUIT. Arguments it cannot follow (unknown flags, malformed values or hosts, a device or an address that is not available) end it with another exit code and never with a crash.",
  ["inputs", "schedules"], "combinations of arguments and their notation, signals on the band, time of the signal that ends the program",
  "No test runs a command; the wiring between flags and receivers is not executed by any test.",
  ["cmd/root.go", "cmd/strain.go", "cmd/decode.go", "cmd/kiwi.go", "cmd/tci.go"],
  [("runWithCtx and the persistent flags", "cmd/root.go"), ("runStrainKiwi", "cmd/kiwi.go"), ("runStrainTCI and runDecodeTCI", "cmd/tci.go")],
  ["commands the device receives", "telnet lines", "printed lines", "scope frames and markers", "times of listening", "exit code"]),
P("C34", "Decode pulse prints the text of the given audio source",
  "For every PulseAudio server, with any number of sources with any sample rates and numbers of channels, 'decode pulse' records from the source that is given, or from the default source if none is given, and prints exactly the text that is keyed there at the given pitch, from the first character if it is sent at the preset speed, for every level with automatic or fixed scaling and for every fragmentation of the recorded data. A source that does not exist ends the program with an error; a signal, or a signal after the server has gone, ends it with exit code 0 and a closed connection.",
  ["inputs", "configurations"], "all sets of sources, arguments, levels, texts and packet sizes",
  "No test executes this command; it works with some sources by chance only.",
  ["cmd/pulse.go", "cw/audio.go", "cw/decode.go"],
  [("runPulse", "cmd/pulse.go"), ("AudioDemodulator", "cw/audio.go")],
  ["stream the server is asked for", "printed text", "exit code"]),
P("C35", "The scope shows what the receiver does, and only shows it",
  "Whatever is received, an active scope gets exactly one time frame of every stream per block and listener and one spectral frame per 100 blocks, at the time of the block: with the magnitude and the threshold that were compared, the raw and the debounced state of the key, the ticks since the last change of the key, and the timing thresholds with which the decoder tells dits from dahs and gaps between elements from gaps between characters - what is shown explains what is written. The spectral frame holds the mean magnitude of every bin over the last 100 blocks and marks the bin of an active listener. A scope that is attached, replaced or switched off at any time never changes what is decoded, reported or printed, and a scope that is not active or was replaced gets nothing.",
  ["inputs", "histories"], "all signals and all histories of scopes that are attached, replaced, switched on and off",
  "The tests never attach a scope to a receiver; what it shows depends on the whole history of the signal.",
  ["cw/decode.go", "cw/spectral.go", "cw/audio.go", "rx/receiver.go", "rx/listener.go"],
  [("scopeDemod, scopeDecode, scopeSignalTiming, scopeGapTiming, scopeAudio", "cw"), ("run, SetScope", "rx/receiver.go")],
  ["frames shown on a scope", "decoded text", "reports"]),
]
NOT_CLAIMED = {}
