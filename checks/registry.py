# How each check is built and run. See run.py.
#   pkg     package to build (below /repo, through the overlay)      go   toolchain (1.25 where testing/synctest is needed)
#   run     regular expression of the test functions                 shards  processes with different seeds
D = "./internal/verifchk/"
PBT = "property-based testing (rapid) "


def C(pkg, run, technique, note, **kw):
    return dict(pkg=pkg, run=run, technique=technique, note=note, **kw)


CHECKS = {
    "C16": C(D + "dspx", "TestVerif_C16_.*", PBT + "against a naive DFT",
             "Generated blocks of 17 sizes compared bin by bin with a direct transform in float64, including call sequences with changing sizes; tolerance 1e-6 (float32) / 1e-9 relative."),
    "C17": C(D + "dspx", "TestVerif_C17_.*", PBT + "against the ideal mapping",
             "Generated sample rates, even block sizes, centers and frequencies compared with the ideal affine mapping to within 1 Hz; bins narrower than 6 Hz are not explored."),
    "C18": C(D + "dspx", "TestVerif_C18_.*", PBT + "against a reference peak finder",
             "Generated finite spectra compared with an independent run finder and the vertex formula; spectra with infinite values are not explored here (see C06)."),
    "C19": C(D + "dspx", "TestVerif_C19_.*", PBT + "against a reference estimator and metamorphic relations",
             "Generated power densities with at least 10 usable bins; the oracle accepts any of several equally quiet stretches."),
    "C20": C(D + "dspx", "TestVerif_C20_.*", PBT + "against direct computation",
             "Generated operation histories with resets, non-finite values and window overflow, for integer and floating point types; floating point tolerance 1e-6 / 1e-4."),
    "C21": C(D + "dspx", "TestVerif_C21_.*", PBT + "against a direct Fourier sum",
             "Pitches 250-1600 Hz, rates 8-96 kHz. Detection of the pitch is only asserted where the rounded period puts the filter's bin within 0.15 bins of the pitch."),
    "C22": C(D + "dspx", "TestVerif_C22_.*", PBT + "against a run-length model",
             "Generated input sequences with threshold changes, compared after every input."),
    "C14": C(D + "rxpool", "TestVerif_C14_.*", PBT + "stateful, against a reference table",
             "Generated operation histories over tables of 2-200 bins; after every operation all bins are compared with the model, peak states through what the table does with them."),
    "C15": C(D + "rxpool", "TestVerif_C15_.*", PBT + "stateful, against a set model",
             "Generated bind / release / reset histories for pools of 1-30 listeners with real listeners."),
    "C11": C(D + "rxtext", "TestVerif_C11_.*", PBT + "against the generated word list, in virtual time", go="1.25",
             note="Texts of up to 20 words with generated callsigns (at most nine characters, with portable prefixes and suffixes), non-callsign words and cuts; the first word of a text, and words that merely contain a callsign are left out."),
    "C12": C(D + "rxtext", "TestVerif_C12_.*", PBT + "stateful, against a counting model, in virtual time", go="1.25", uid=54321,
             note="Sequences of up to 30 callsigns; the databases are files generated per case, read through the normal lookup in the user's home directory (an unlisted uid with its own scratch home). Any callsign with the most points is accepted when several have them."),
    "C13": C(D + "rxtext", "TestVerif_C13_.*", PBT + "stateful, against a text model, in virtual time", go="1.25", gomaxprocs=1,
             note="Histories of up to 25 writes, pauses, timeout checks and restarts in virtual time, also with work pending at the restart; words of more than nine characters end a case. Whole receivers with one station in noise (C01's levels) that falls silent."),
    "C08": C(D + "cwx", "TestVerif_C08_.*", PBT + "round trip text, keying, decoder",
             "Speeds 8-46 wpm at ten tick rates with 2.34 and more ticks per dit; timing jitter up to 9 percent (less below 6 ticks per dit), words of one or two characters only with 6 and more ticks and little jitter; the speed changes by up to a factor of 1.8 between transmissions."),
    "C09": C(D + "cwx", "TestVerif_C09_.*", PBT + "against invariants and a new decoder",
             "Run-length histories with resets; every written character must be covered by key-down periods; decoders with and without scope and after a reset are compared."),
    "C10": C(D + "cwx", "TestVerif_C10_.*", PBT + "round trip text, keyed tone, demodulator, in virtual time", go="1.25",
             note="Six sample rates, pitches 300-1200 Hz whose filter bin is within 0.1 bins of the pitch, 12-32 wpm, noise up to 5 percent of the tone, automatic scaling from amplitude 0.12 on; a tone off the pitch is at least 500 Hz off and not simultaneous."),
    "C01": C(D + "rxe2e", "TestVerif_C01_.*", PBT + "whole receiver in virtual time against the generated band", go="1.25", note="Bands of 1-4 stations in white noise at three sample rates (blocks of 10.67 ms), 50 s of IQ data each; levels 36-42 dB over the noise of one bin and noise of -72 to -66 dBFS per bin, where the demodulator's threshold (derived from the absolute noise level) works; stations closer than 3 kHz disturb each other (no window function) and are not explored."),
    "C30": C(D + "rxe2e", "TestVerif_C30_.*", PBT + "with a fake TCI device, injected faults and virtual time", go="1.25",
             note="Histories of one device with two receivers: up to four stations (C01's domain at 48 kHz), connections that break between packets or at any command, that are not available, never ready or deaf, and up to three goroutines that close at any time. The connection is replaced by an in-memory one below the websocket library. A device that ends the connection before it is ready is not explored: the client library then waits for ever."),
    "C31": C(D + "rxe2e", "TestVerif_C31_.*", PBT + "differential against a directly fed receiver, in virtual time", go="1.25",
             note="Streams of up to 700 packets in bursts of up to 100 blocks, with settings and retunes in between, for a TCI device; both receivers run in the same virtual time, so that reports, printed text and scope frames are compared exactly, and the spectra also with an independent Fourier transform of the blocks sent. The same for a KiwiSDR with packets of whole blocks and one signal in the middle of a bin."),
    "C02": C(D + "rxe2e", "TestVerif_C02_.*", PBT + "whole receiver in virtual time against the generated band", go="1.25", note="Up to five sources (stations, carriers, keyed words that are no callsigns) or none; 40 s of IQ data each. Only spotted callsigns are judged: single garbled decodes are filtered by the repetition count by design."),
    "C03": C(D + "rxe2e", "TestVerif_C03_.*", PBT + "whole receiver in virtual time against a lifecycle model", go="1.25", note="Operation histories over small bands (blocks of 64 or 128 samples), with up to two more goroutines that control the receiver; up to 40 carriers for 30 listeners. A call that does not return within 72 hours of virtual time counts as blocked."),
    "C04": C(D + "rxe2e", "TestVerif_C04_.*", PBT + "whole receiver in virtual time against a timing model", go="1.25", note="Keyed and unkeyed signals exactly on FFT bins, at least 2 kHz apart, up to 290 s; releases are judged to within 2.5 blocks plus the time the decoder takes for a character (40 dits)."),
    "C05": C(D + "rxe2e", "TestVerif_C05_.*", PBT + "whole receiver in virtual time differential and metamorphic", go="1.25", note="Settings before the start, right after it, or before block 40 (they take effect on the first selection of peaks at block 100); the random selection of peaks is seeded. Direct effects are judged with carriers at least 4 dB off the threshold and debounces of at most 2 or at least 25 blocks."),
    "C06": C(D + "rxe2e", "TestVerif_C06_.*", PBT + "whole receiver in virtual time with injected faults", go="1.25", note="21 kinds of unusual blocks in stretches of 1-700 blocks, with and without pauses; recovery is judged over 185 s. Bursts longer than the queue are dropped by design."),
    "C07": C(D + "rxe2e", "TestVerif_C07_.*", PBT + "whole receiver in virtual time against the generated texts", go="1.25", note="1-4 stations at least 3 kHz apart (also from an idle VFO), up to four phases with retunes of VFO and center in between; texts with a lead-in that is not judged; in strain mode up to 14 stations, with the VFO on the bin of a listener; the first three seconds after the start are left out (the noise floor is a mean over 60 blocks)."),
    "C25": C(D + "telnetx", "TestVerif_C25_.*", PBT + "against a dialog model, in virtual time", go="1.25",
             note="Generated packets, messages of up to three goroutines, connections that accept pieces, break, stall or end at any byte; CR and LF each end a line."),
    "C23": C(D + "telnetx", "TestVerif_C23_.*", PBT + "against a reference spot filter, over loopback", go="1.25", shards=40, parallel=40,
             note="Histories of up to 40 spots with callsigns and frequencies that often fall into the silence period of one another, seen by one client of a real server over the loopback network; frequencies exactly half way between two roundings are left out."),
    "C24": C(D + "telnetx", "TestVerif_C24_.*", PBT + "stateful, with misbehaving clients over loopback", go="1.25", shards=40, parallel=40,
             note="Histories of up to 16 operations over clients that read at once, slowly or not at all, leave, reset, half-close or type while they are spotted to; megabytes of text in between; Stop with and without concurrent spots and stops. A call that needs more than a minute counts as blocked."),
    "C26": C(D + "scopex", "TestVerif_C26_.*", PBT + "round trip over loopback",
             note="Up to 40 frames with valid UTF-8 names, arbitrary 64 bit numbers and up to 40000 values, seen by one to three clients that join at any frame; at most five frames are under way at a time, because a client that falls back by more than ten is dropped by design."),
    "C27": C(D + "scopex", "TestVerif_C27_.*", PBT + "stateful, with misbehaving clients over loopback",
             note="Histories of up to 14 operations over clients that read, do not read, read again or leave, with up to 40 frames of 256 KB in between; Stop with up to three goroutines that show frames and up to three that stop, followed by a restart on the same address. Clients that are dropped for a burst of more than ten frames are judged up to there."),
    "C28": C(D + "kiwix", "TestVerif_C28_.*", PBT + "stateful, against a message model, with a fake device on loopback",
             note="Up to 25 messages of 14 kinds in one connection; refusals are judged by the value 1; a message with an invalid audio rate carries no other parts that matter; IQ values are scaled by 32767 or 32768."),
    "C29": C(D + "kiwix", "TestVerif_C29_.*", PBT + "with injected faults of a fake device on loopback",
             note="Nine forms of the host argument, arbitrary credentials, 12 kinds of faults at any of the setup messages, up to three goroutines that close; keepalives are observed for 12 or 17 s in real time. A device that accepts the connection but never answers the handshake is not explored (45 s)."),
    "C32": C(D + "clix", "TestVerif_C32_.*", PBT + "against the generated parts", shards=4,
             note="Names (localhost only), IPv4, IPv6 in all notations with and without brackets and zones, with and without port; the same text with a port is only generated with brackets. Arbitrary arguments are judged for invented ports only."),
    "C33": C(D + "rxe2e", "TestVerif_C33_.*", PBT + "whole program with fake devices, in real time", go="1.25", shards=24, parallel=24,
             note="The test binary starts itself again as the program, with generated arguments in every notation of flags: strain tci, strain kiwi and decode tci with one generated station or signal, at 3 to 8 times the natural speed, over the loopback network. Timeouts are judged to within a second; runs in which the overloaded program skips IQ data (which it logs) are judged only for what does not depend on it."),
    "C34": C(D + "rxe2e", "TestVerif_C34_.*", PBT + "whole program with a fake PulseAudio server", go="1.25", shards=12, parallel=12,
             note="The test binary starts itself again as 'decode pulse' with generated arguments; the fake server (native protocol, version 13, on TCP or a Unix socket) has one to three sources and sends what was asked for: the given source at the given rate and number of channels. Pitches as in C10."),
    "C35": C(D + "rxe2e", "TestVerif_C35_.*", PBT + "against models of the keying, in virtual time", go="1.25",
             note="Histories of keyed and random ticks, audio blocks and bands with scopes that are attached, replaced and switched at any time; what the time frames of the decoder show is compared with the ticks and with what it writes, key-downs of a single tick are not judged."),
}
