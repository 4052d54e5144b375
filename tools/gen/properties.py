"""Writes /verif/properties.jsonl (kept in one place so that ids, statements and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

L2, API = "src/horus_l2.c", "src/horus_api.c"
p("P01", "Layer-2 packet codec is lossless for every payload",
  "For every payload size from 1 to 128 bytes and every payload content, decoding the frame produced by the layer-2 encoder yields exactly the original payload.",
  ["inputs", "configurations"], "all 2^(8n) payloads of every size n in 1..128, with run-time and with static Golay tables",
  "The tests decode a handful of recorded frames; the payload space is 2^(8n) per size and most sizes are never encoded.",
  [L2, "src/golay23.c"], [("encoder", L2 + ":horus_l2_encode_tx_packet"), ("decoder", L2 + ":horus_l2_decode_rx_packet"), ("interleaver", L2 + ":interleave"), ("scrambler", L2 + ":scramble")],
  ["horus_l2_encode_tx_packet / horus_l2_decode_rx_packet return buffers"])
p("P02", "Up to three wrong bits per Golay codeword are corrected",
  "Whenever every 23-bit codeword of a received layer-2 frame has at most three inverted bits, the decoder returns the transmitted payload; this holds for every data word and every error pattern of weight at most three.",
  ["inputs"], "all 4096 data words times all 2048 error patterns of weight <= 3; packet level: the same pattern in every codeword of packets of several sizes, and every single wire bit",
  "Recorded samples contain a few channel errors at fixed places; the tests never sweep error patterns or data words.",
  ["src/golay23.c", L2], [("codeword decoder", "src/golay23.c:golay23_decode"), ("packet decoder", L2 + ":horus_l2_decode_rx_packet")])
p("P03", "The transmitted layer-2 frame format is fixed",
  "A transmitted frame is two '$' (0x24) bytes followed by the payload bits and their Golay(23,12) parity bits (generator 0xC75), interleaved and scrambled in the project's published order, so that every deployed receiver can decode it; the reported frame length is the number of bytes produced (for example 45, 65, 94, 126, 186 and 249 bytes for 22, 32, 48, 64, 96 and 128 byte payloads).",
  ["inputs"], "every payload of every size 1..128 bytes; every transmitted bit",
  "Self-consistent changes to both encoder and decoder keep the round-trip tests passing while breaking every radio in the field.",
  [L2, "src/golay23.c"], [("encoder", L2 + ":horus_l2_encode_tx_packet"), ("length", L2 + ":horus_l2_get_num_tx_data_bytes")])
p("P04", "One CRC-16 definition and placement shared by C and Python",
  "Every CRC in the system is CRC-16-CCITT (polynomial 0x1021, initial value 0xFFFF, no reflection, no final xor) over all bytes of the packet except the two CRC bytes themselves, stored least significant byte first at the end of v1/v2 packets and at the start of v3 packets, and as four upper-case hexadecimal digits in text sentences. A packet to which the library added a CRC always passes the library's CRC check with the same placement, and packets too short to carry one, or unknown CRC types, raise ValueError.",
  ["inputs"], "every packet of 0..126 bytes in C; every packet of every length in Python (lengths 0..140 enumerated, contents symbolic)",
  "The tests check eight fixed packets; they cannot tell a CRC that agrees on those from one that differs elsewhere, nor a byte left out of the sum in other lengths.",
  [L2, "horusdemodlib/checksums.py"], [("C CRC", L2 + ":horus_l2_gen_crc16"), ("check", "horusdemodlib/checksums.py:check_packet_crc"), ("add", "horusdemodlib/checksums.py:add_packet_crc"), ("text", "horusdemodlib/checksums.py:ukhas_crc")])
p("P05", "Binary frames are reported only with a valid CRC and as the exact payload",
  "The binary receiver reports a frame exactly when it is completely received and its decoded payload has a matching CRC (at the end for 22-byte v1 and 32-byte v2 frames, at the start for 32, 48, 64, 96 and 128 byte v3 frames), as the upper-case hexadecimal text of exactly that payload. The CRC-valid flag, protocol version and payload size it exposes agree with the report; a frame that is not yet completely received changes none of them, and one whose CRC does not match leaves the CRC-valid flag false.",
  ["inputs", "configurations"], "every bit pattern in the frame window for each frame size, at the listed buffer positions (thorough: every position)",
  "Recorded audio gives a few good frames; corrupted frames, CRC placement confusions and frames at the end of the window are not sampled.",
  [API], [("v1 extraction", API + ":extract_horus_binary_v1"), ("v2/v3 extraction", API + ":extract_horus_binary_v2_256"), ("receive entry", API + ":horus_rx")], ["horus_rx return value and text", "horus_crc_ok", "horus_packet_version"])
p("P06", "RTTY lines are reported only with a matching hexadecimal CRC, verbatim",
  "The RTTY receiver reports a line only if the four characters after '*' are hexadecimal digits equal to the CRC of the characters between the leading '$' run and '*', and the reported text is the received characters up to and including that checksum. A completely received line whose checksum matches is reported, and the CRC-valid flag agrees with the result.",
  ["inputs", "configurations"], "every text content in 7N1, 7N2 and 8N2 for the enumerated checksum positions and checksum characters",
  "Three recorded lines per mode; malformed checksums, non-hex characters and other line lengths are not exercised.",
  [API], [("RTTY extraction", API + ":extract_horus_rtty"), ("digit conversion", API + ":hex2int")], ["horus_rx return value and text", "horus_crc_ok"])
p("P07", "Frame extraction and packet decoding are memory safe for all received bits",
  "For every sequence of received bits, extracting and decoding frames or RTTY lines reads and writes only storage belonging to the modem handle or to the caller's buffers of the sizes the library itself reports, never reads uninitialised data, and never hits undefined behaviour or a failing assertion.",
  ["inputs", "configurations"], "all bit patterns at the listed window positions, all four modes, verbose on and off; layer-2 coding of every payload of 1..128 bytes",
  "An out-of-bounds access by a byte does not fail a functional test, and hostile bit patterns are not in the recordings.",
  [API, L2, "src/golay23.c"], [("RTTY extraction", API + ":extract_horus_rtty"), ("binary extraction", API + ":extract_horus_binary_v2_256"), ("reported sizes", API + ":horus_get_max_ascii_out_len"), ("decoder", L2 + ":horus_l2_decode_rx_packet")])
p("P08", "Closing a modem releases everything it allocated, and only that",
  "For every mode and configuration, any sequence of open, configure, receive and close frees every allocation of that modem exactly once, never uses freed storage, and never touches another open modem; the number of samples asked for is positive and within the maximum the library reports.",
  ["histories", "configurations"], "open/configure/receive/close histories over the listed configurations in all modes, one and two handles",
  "Leaks and cross-handle frees are invisible to output-comparing tests, which open one modem per process.",
  [API, "src/fsk.c"], [("open", API + ":horus_open_advanced_sample_rate"), ("close", API + ":horus_close"), ("demodulator destroy", "src/fsk.c:fsk_destroy")])
p("P09", "The receive entry point keeps the bit stream and sync positions exact",
  "Each receive call passes every supplied sample to the demodulator once and in order and appends the demodulated bits to the bit history unchanged, so that a sync word with at most one wrong bit is found wherever it falls relative to call boundaries and is tracked until its frame is reported or leaves the history. A frame is reported by one call only, reporting one does not lose other pending ones, and nothing is reported when no sync word was received.",
  ["inputs", "histories"], "every bit history; sync words at every offset of the search window (sampled in quick, all in thorough), up to a full table of pending positions",
  "Tests run whole recordings, where a lost or duplicated frame is indistinguishable from noise and call boundaries fall at fixed places.",
  [API], [("receive entry", API + ":horus_rx"), ("sync search", API + ":horus_find_uw")], ["horus_rx return value over successive calls"], [("bit history", "received bits not yet expired", API + ":struct horus rx_bits"), ("pending positions", "sync words awaiting a complete frame", API + ":struct horus uw_loc")])
p("P10", "The demodulator core is memory safe and finite for every sample block",
  "For every block of samples, including silence, full-scale and arbitrary noise, the FSK demodulator stays inside its buffers, terminates, holds no storage of its own afterwards, delivers bits that are 0 or 1, and asks for a valid number of samples next (at least one, at most the reported maximum).",
  ["inputs", "histories"], "every sample sequence and every filter state (any float value, infinities and NaN included) in the listed modem configurations",
  "Recordings cover benign signals only; buffer indices depend on floating-point estimates.",
  ["src/fsk.c", "src/kiss_fft.c"], [("demodulator", "src/fsk.c:fsk_demod_core"), ("frequency estimator", "src/fsk.c:fsk_demod_freq_est")])
p("P12", "The Python binding declares exactly the C interface",
  "Every function, structure and constant that the Python binding declares has the same type, layout and value as in the C headers it is compiled against.",
  ["programs"], "all declarations of the binding and all public headers",
  "A wrong constant or field is only visible to a test that happens to use it.",
  ["horusdemodlib/horus_api_build.py", "src/horus_api.h", "src/horus_l2.h", "src/modem_stats.h"], [("binding declarations", "horusdemodlib/horus_api_build.py:preprocess_h"), ("C declarations", "src/horus_api.h")])
p("P13", "The C codec for v3 packets implements the published ASN.1 schema",
  "The generated C encoder/decoder for v3 telemetry has the same fields, order, optionality, types, value ranges, sizes, alphabets, enumeration values and extension markers as the published ASN.1 schema that the Python decoder uses; fields the schema adds behind its extension marker are either known to the C codec in that order or skipped by it as unknown extensions. The validation functions accept exactly the values the schema permits, and each table entry addresses the structure member of its name.",
  ["programs"], "all types, members and constraints of the schema",
  "The tests use the Python codec only; a C table entry that disagrees is not exercised.",
  ["horusbinaryv3/HorusBinaryV3.asn1", "horusbinaryv3/clib/Telemetry.c"], [("schema", "horusbinaryv3/HorusBinaryV3.asn1"), ("generated tables", "horusbinaryv3/clib")])
p("P14", "Packets are accepted only after their CRC verifies",
  "Decoding a binary packet returns a result only if a CRC over that packet verified (at the start: v3; otherwise at the end with the format chosen by the packet length 22, 16 or 32), and in every other case raises ValueError; the result is marked CRC-valid, names the modulation of that format and carries the raw bytes in upper-case hex.",
  ["inputs"], "packets of every length 0..140 with symbolic contents, default arguments",
  "The tests feed six packets; other lengths, damaged packets and placement confusion are not covered.",
  ["horusdemodlib/decoder.py", "horusdemodlib/checksums.py"], [("decoder", "horusdemodlib/decoder.py:decode_packet"), ("check", "horusdemodlib/checksums.py:check_packet_crc")])
p("P15", "v1/v2 packet fields are decoded with the documented layout, scaling and limits",
  "For every CRC-valid v1 or v2 packet each telemetry field is taken from its documented little-endian position and scaled as documented (time as HH:MM:SS, latitude/longitude in degrees, battery 0-255 as 0-5 V, custom fields by the layout of the payload ID or the 4FSKTEST-V2 default), and the text sentence lists those values with a correct CRC. Out-of-range times and coordinates (hours over 23, minutes or seconds over 59, degrees beyond +-180) raise ValueError instead of producing a result; unknown payload IDs decode as UNKNOWN_PAYLOAD_ID.",
  ["inputs"], "every packet content of the 22, 16 and 32 byte formats (fields symbolic)",
  "A few constant packets, mostly zeros, cannot distinguish field positions, sign, scale or limits.",
  ["horusdemodlib/decoder.py", "horusdemodlib/delegates.py"], [("format table", "horusdemodlib/decoder.py:HORUS_PACKET_FORMATS"), ("field decoders", "horusdemodlib/delegates.py:delegate_list"), ("custom fields", "horusdemodlib/delegates.py:decode_custom_fields")])
p("P16", "Every v3 telemetry field is translated, with the right name and unit",
  "For every decodable v3 packet, each field of the schema that is present appears in the result under its documented name and unit (1e-5 degrees to degrees, cm/s to m/s, tenths to units, millivolts to volts), fields that are absent stay absent, and every non-standard field is listed among the custom field names. A value is never taken from another field or another packet except that a cached sensor name of the same callsign and sensor index may be reused.",
  ["inputs", "histories"], "every combination of optional schema fields and every value",
  "The tests decode one packet with all fields and one with few; the 2^20 combinations of optional fields and their interactions are not sampled.",
  ["horusdemodlib/decoder.py", "horusbinaryv3/HorusBinaryV3.asn1"], [("translation", "horusdemodlib/decoder.py:decode_packet"), ("name cache", "horusdemodlib/decoder.py:HORUS_V3_NAME_CACHE")])
p("P17", "The v2 encoder clips every field and lays the packet out as documented",
  "For every input, the v2 packet encoder places each value at its documented position after clipping it to the documented range (time of day to valid hours, minutes and seconds, altitude 0-65535, speed and satellites 0-255, temperature -128..127, battery 0-5 V, custom fields to their 16/8 bit ranges), with the CRC at the end, and rejects payload IDs outside 256-65535 with ValueError; out-of-range values never abort the encoding or wrap around.",
  ["inputs"], "every combination of in-range and out-of-range arguments",
  "The tests encode one packet with typical values; no clipping branch is taken.",
  ["horusdemodlib/encoder.py"], [("packet encoder", "horusdemodlib/encoder.py:create_horus_v2_packet")])
p("P18", "Bytes become modem symbols most significant bits first, after the preamble",
  "Converting a packet to 4FSK symbols gives the requested number of 0x1B preamble bytes and then every packet byte, each as four two-bit symbols, most significant first; the one-bit-per-byte conversion gives the same bytes as eight 0/1 bytes each, most significant first. Nothing is dropped or added for any packet length, including the empty one.",
  ["inputs"], "every byte value, packet lengths 0..6 and preamble lengths 0..9 (the conversion is byte-wise)",
  "No test looks at the symbols of anything but one packet's output length.",
  ["horusdemodlib/encoder.py"], [("4FSK symbols", "horusdemodlib/encoder.py:bytes_to_4fsk_symbols"), ("bit bytes", "horusdemodlib/encoder.py:bytes_to_onebitperbyte")])
p("P19", "Payload ID and custom field lists load robustly",
  "Parsing a payload ID list or custom field list never raises: malformed lines or entries are skipped without affecting well-formed ones, the built-in entries stay available unless the list redefines them and are not themselves changed by loading, and a custom field layout is accepted only if it is exactly nine bytes long. Downloading a list returns nothing when the download fails or the text is not recognisably such a list, and then the local list is used.",
  ["inputs", "fault_sequences"], "every list text (lines and JSON entries symbolic), every failure of download, file open, read and write",
  "The tests parse the shipped lists only; bad lines, failing files and failing downloads are not exercised.",
  ["horusdemodlib/payloads.py"], [("payload list", "horusdemodlib/payloads.py:parse_payload_list"), ("custom fields", "horusdemodlib/payloads.py:parse_custom_field_list"), ("initialisation", "horusdemodlib/payloads.py:init_payload_id_list")])
p("P20", "Telemetry is translated to SondeHub form only when it should be uploaded",
  "Telemetry addressed to another service, from an unknown payload ID, or with a time that cannot be parsed or (when time checking is on) differs from the receiver's clock by more than three minutes is never turned into an upload. Otherwise the upload carries the callsign, frame number, position and time of that packet and exactly those optional values that are present and valid (temperature above absolute zero, battery not negative, SNR not the -999 marker, frequency in MHz), plus all custom fields.",
  ["inputs"], "every telemetry dictionary: every combination of present fields and every value",
  "The single test prints one translation without asserting anything about gating or mapping.",
  ["horusdemodlib/utils.py", "horusdemodlib/delegates.py"], [("translation", "horusdemodlib/utils.py:telem_to_sondehub"), ("date", "horusdemodlib/delegates.py:fix_datetime")])
p("P21", "Uploads are bounded by the retry limit and failures never kill the uploader",
  "An inhibited uploader queues and sends nothing and starts no thread; otherwise every accepted packet is queued once, and the uploader thread sends every queued packet exactly once per batch, in order. Sending a batch stops after success (200, 202), any other final status or a failed connection, and repeats only on server errors (500 to 504; 500 for the station report) up to the retry limit; the station report is repeated at most once per update period whatever its result. No server response or network failure raises into the uploader thread or stops it, and every request has a time limit.",
  ["inputs", "histories", "fault_sequences"], "every sequence of HTTP results and exceptions up to the retry limit",
  "The tests stub the HTTP call with a constant 200 answer.",
  ["horusdemodlib/sondehubamateur.py"], [("upload", "horusdemodlib/sondehubamateur.py:upload_telemetry"), ("station position", "horusdemodlib/sondehubamateur.py:station_position_upload"), ("queueing", "horusdemodlib/sondehubamateur.py:add")])
p("P22", "Local UDP emission reports the packet and never disturbs the receiver",
  "A payload summary is sent exactly when the telemetry is usable and the position is not exactly 0,0; it carries the telemetry's own values (or -1 for speed, satellites and battery when absent), frequency in MHz and all custom fields, to the requested port on the broadcast address, or on localhost if that fails. No input and no network failure raises out of the emission functions.",
  ["inputs", "fault_sequences"], "every telemetry dictionary; every combination of failing socket operations",
  "The test sends one message on a working socket and checks nothing.",
  ["horusdemodlib/horusudp.py"], [("summary", "horusdemodlib/horusudp.py:send_payload_summary"), ("OziMux", "horusdemodlib/horusudp.py:send_ozimux_message")])
p("P23", "No input line stops the telemetry handler, and every valid packet is forwarded",
  "Whatever bytes arrive on standard input, the telemetry handler goes on to the next line until end of input or interrupt, and then closes the uploader. Each line that decodes is forwarded once over UDP, once to the SondeHub uploader and once to the log, with the current SNR, frequency, tone spacing and baud rate attached; a line that does not decode is not forwarded at all. The payload lists are fetched again for an unknown payload at most every 30 minutes, and the packet is decoded with the new lists. The station's callsign, position and comments given to the uploader are those of the configuration file.",
  ["inputs", "histories"], "every input line (sentence, statistics, hex or garbage), every command-line configuration, arbitrary earlier lines",
  "The tests feed one good line per run.",
  ["horusdemodlib/uploader.py", "horusdemodlib/decoder.py", "horusdemodlib/demodstats.py"], [("main loop", "horusdemodlib/uploader.py:main"), ("sentence parser", "horusdemodlib/decoder.py:parse_ukhas_string"), ("statistics", "horusdemodlib/demodstats.py:update")])
p("P24", "The Python wrapper feeds every sample once, in order, and reports each packet",
  "However the caller slices the audio, every sample added to the wrapper reaches the modem exactly once and in order, in blocks of the number of samples the modem asks for, and the callback is called once for each block that produced data, with the data, CRC flag, sync and SNR of that block. The wrapper refuses modes that are not modem modes and fails when the modem cannot be opened.",
  ["inputs", "histories"], "every sequence of added sample blocks, every modem answer",
  "The tests of the wrapper need audio files that feed constant-size blocks; slicing is not varied.",
  ["horusdemodlib/demod.py"], [("sample feeding", "horusdemodlib/demod.py:add_samples"), ("block demodulation", "horusdemodlib/demod.py:demodulate")])
p("P25", "Modem statistics cover exactly the averaging window and ignore bad records",
  "After each valid statistics record, SNR is the peak (or the mean, if peak hold is off) and clock offset and tone spacing are the means over exactly the records younger than the averaging time, and the tone frequencies are those of the last record. Records that are not JSON objects with the required fields change nothing and raise nothing.",
  ["inputs", "histories"], "every record content, every history of earlier records at any ages (bounded length)",
  "Two tests feed one regular sequence; missing fields, expiry at the edge and two-tone records are not covered.",
  ["horusdemodlib/demodstats.py"], [("update", "horusdemodlib/demodstats.py:update")])
p("P26", "Packet times are dated to the UTC day they were sent",
  "A time of day in the last hour of the day that is received in the first hour after midnight UTC is dated to the previous day, one in the first hour received in the last hour to the next day, and every other time to the receiver's current UTC day; the time of day itself is never changed.",
  ["inputs"], "every time of day and every receiver clock",
  "The rollover is only reachable around midnight; the tests run with the real clock.",
  ["horusdemodlib/delegates.py"], [("date fix", "horusdemodlib/delegates.py:fix_datetime")])
p("P27", "Text sentences are accepted only with a valid CRC and plausible fields",
  "A UKHAS sentence is parsed only if the text between the last '$' and '*' has exactly the CRC given after '*', and has a callsign, integer sequence number, valid time of day, finite latitude and longitude and an altitude from 0 to 65535, which are returned unchanged; every other input raises ValueError.",
  ["inputs"], "every sentence (text symbolic)",
  "The tests parse two sentences.",
  ["horusdemodlib/decoder.py", "horusdemodlib/checksums.py"], [("sentence parser", "horusdemodlib/decoder.py:parse_ukhas_string"), ("CRC", "horusdemodlib/checksums.py:ukhas_crc")])
p("P28", "The command-line demodulator prints only verified packets",
  "Unless verbose output is requested, the command-line demodulators print a packet only when its CRC verified; every packet the modem reports is printed exactly once, as reported, on a line of its own, to the output the user named, and labelled CRC OK or CRC BAD according to the modem's flag when asked to. Every whole block of the recording named as input reaches the modem, which is opened in the requested mode, baud rate, tone spacing and estimator limits.",
  ["inputs", "configurations"], "every modem result and every combination of output options",
  "The tests grep for known good packets in the output; a wrongly printed bad packet, an output file left empty or an ignored option does not fail them.",
  ["src/horus_demod.c", "horusdemodlib/demod.py"], [("C main loop", "src/horus_demod.c:main"), ("Python callback", "horusdemodlib/demod.py:main")])
p("P29", "Printed modem statistics are JSON lines with the values of the modem",
  "When statistics are requested, every record the command-line demodulators print is one complete line of JSON, on standard error or (with -g) on standard output, never inside a packet line, with SNR, clock offset, eye diagram and the tone frequencies (two or four, as the mode has) the modem reported after the last block, starting with the first block.",
  ["inputs", "configurations"], "every modem result, statistics content and combination of output options", "No test reads the statistics output of the demodulators.",
  ["src/horus_demod.c", "horusdemodlib/demod.py"], [("C statistics", "src/horus_demod.c:main"), ("Python statistics", "horusdemodlib/demod.py:main")])
p("P30", "Packets are decoded at the published sensitivity",
  "At an Eb/N0 at or above the published threshold the modem decodes at least the published fraction of packets.",
  ["inputs"], "all noise realisations, frequencies and timing offsets", "One recording per mode at one noise level.", ["src/fsk.c"], [("demodulator", "src/fsk.c:fsk_demod_core")])
p("P31", "The tone frequency estimator tracks drifting signals inside its limits",
  "For every signal whose tones stay inside the configured estimator limits, the estimated tone frequencies converge to the true ones and stay within half a bin while the signal drifts.",
  ["inputs", "histories"], "all drift profiles and tone spacings", "Recordings have almost no drift.", ["src/fsk.c"], [("frequency estimator", "src/fsk.c:fsk_demod_freq_est")])
p("P32", "C and Python v3 codecs agree on every packet bit",
  "Every v3 telemetry value encoded by one codec is decoded to the same value by the other.",
  ["inputs"], "all telemetry values", "The tests cover one direction with one value.", ["horusbinaryv3/clib", "horusbinaryv3/HorusBinaryV3.asn1"], [("UPER runtime", "horusbinaryv3/clib")])
with open(os.path.join(os.path.dirname(__file__), "..", "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
