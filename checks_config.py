"""What each check runs: worker binary, mode, number of executions per tier."""
SAN = "AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions watch every execution"
NOTE = ("Runtime monitoring: the property held on every execution explored (seeded generated workloads, see evidence). " + SAN +
        ". Trusts the harness's own model of the expected result; says nothing about inputs outside the generator's reach.")

def check(*work, rule, technique, min_nontrivial=100, note=NOTE, assumptions=()):
    return dict(work=list(work), rule=rule, technique=technique, level_note=note, min_nontrivial=min_nontrivial, assumptions=list(assumptions))

def w(worker, mode, quick, thorough, **kw):
    return dict(worker=worker, mode=mode, quick=quick, thorough=thorough, **kw)

CHECKS = {
    "P01": check(w("w_stream", "meta", 4000, 120000),
                 rule="random experiences encoded and decoded with random packet durations, description compared leaf by leaf; non-trivial: holds at least one perception; distinct by content and packet duration",
                 technique="sanitized execution, encode/decode round-trip monitor"),
    "P02": check(w("w_stream", "effects", 4000, 100000),
                 rule="random experiences encoded and decoded with random packet durations (boundaries placed on keyframes), every effect and keyframe compared; non-trivial: holds at least one keyframe; distinct by content and packet duration",
                 technique="sanitized execution, encode/decode round-trip monitor"),
    "P03": check(w("w_stream", "wavelet", 3000, 60000),
                 rule="random experiences with bands of wavelet blocks beside other bands, packet durations longer and shorter than the block; non-trivial: holds at least one wavelet block or keyframe; distinct by content and packet duration",
                 technique="sanitized execution, encode/decode round-trip monitor"),
    "P04": check(w("w_stream", "framing", 3000, 80000),
                 rule="random experiences written with random packet durations and synchronisation points, bytes parsed by an independent reader; non-trivial: at least one perception; distinct by bytes",
                 technique="offline monitor over the bytes written (independent parser), sanitized execution"),
    "P05": check(w("w_stream", "stable", 1500, 40000),
                 rule="random experiences encoded, decoded, re-encoded over four generations with unrelated work in between; non-trivial: at least one perception; distinct by content and packet duration",
                 technique="sanitized execution, differential monitor over repeated use"),
    "P06": check(w("w_stream", "join", 6000, 80000),
                 rule="streams cut at a later initialization unit and decoded from there; non-trivial: the stream holds such a unit; distinct by bytes",
                 technique="sanitized execution, differential monitor over truncated streams"),
    "P07": check(w("w_json", "roundtrip", 8000, 200000),
                 rule="random conformant documents compared leaf by leaf after write+read; non-trivial: holds at least one effect; distinct by content hash",
                 technique="sanitized execution, round-trip monitor over generated documents"),
    "P08": check(w("w_json", "large", 1, 2, cpu_ms=300000), w("w_json", "conformance", 3000, 60000),
                 rule="documents at, under and over each profile/level limit; non-trivial: the verdict is decided by a limit; distinct by document",
                 technique="sanitized execution, accept/reject oracle from the conformance tables"),
    "P09": check(w("w_json", "malformed", 12000, 200000),
                 rule="documents with missing, mistyped, out-of-range or corrupted parts; non-trivial: the document was changed; distinct by document",
                 technique="sanitized fuzzing with differential oracle (file without the bad part)"),
    "P10": check(w("w_stream", "hostile", 3000, 40000),
                 rule="generated streams cut, spliced, re-framed and corrupted (8 variants per execution), and packets of arbitrary content; non-trivial: the stream was changed; distinct by bytes",
                 technique="sanitized fuzzing with an independent framing oracle"),
    "P11": check(w("w_bin", "fields", 150000, 3000000),
                 rule="random sequences of fields of many widths written to one bit buffer and read back both from a stream and from the buffer; non-trivial: at least two fields; distinct by fields",
                 technique="sanitized execution, round-trip monitor with an independent bit-level view"),
    "P12": check(w("w_bin", "binary", 4000, 100000),
                 rule="random experiences written to a binary file and read back from the file and from memory; non-trivial: at least one perception; distinct by content",
                 technique="sanitized execution, round-trip monitor over generated experiences"),
    "P13": check(w("w_codec", "spiht", 40000, 500000),
                 rule="sequences of random coefficient blocks coded and decoded; non-trivial: some coefficient is not zero; distinct by coefficients",
                 technique="sanitized execution, encode/decode round-trip monitor"),
    "P14": check(w("w_codec", "arith", 120000, 2000000),
                 rule="random symbol/context sequences; non-trivial: contains a one; distinct by symbols",
                 technique="sanitized execution, encode/decode round-trip monitor"),
    "P15": check(w("w_codec", "dwt", 120000, 2000000),
                 rule="random signals, lengths and levels; non-trivial: not silent; distinct by samples",
                 technique="sanitized execution, algebraic monitor (reconstruction, linearity)"),
    "P16": check(w("w_codec", "band", 24000, 300000), w("w_codec", "fresh", 500, 8000),
                 rule="random sampled signals coded into a wavelet band and decoded; non-trivial: not silent; distinct by samples and settings",
                 technique="sanitized execution, signal reconstruction monitor"),
    "P17": check(w("w_codec", "hostile", 40000, 600000),
                 rule="random and mutated coded blocks; distinct by bits and length",
                 technique="sanitized fuzzing of the block decoder with range monitors"),
    "P18": check(w("w_ohm", "file", 30000, 1000000),
                 rule="random OHM descriptions written, read back, compared with the byte layout, then damaged; non-trivial: at least one element; distinct by content",
                 technique="sanitized execution, round-trip monitor with an independent layout, fuzzing of damaged files"),
    "P19": check(w("w_ohm", "mapping", 16000, 200000),
                 rule="random OHM descriptions imported into an experience and exported again; non-trivial: at least one element; distinct by content",
                 technique="sanitized execution, correspondence monitor"),
    "P21": check(w("w_bin", "hostile", 3000, 40000),
                 rule="binary files cut, corrupted, repeated in part, arbitrary bytes and endless nesting (6 variants per execution); distinct by bytes",
                 technique="sanitized fuzzing with a truncation oracle"),
    "P20": check(w("w_types", "library", 12000, 150000),
                 rule="random experiences with repeated, nearly repeated, composite and referring effects refactored and linearized, the content of every effect compared; non-trivial: at least two effects; distinct by content",
                 technique="sanitized execution, differential monitor of the resolved content"),
    "P22": check(w("w_types", "synthesis", 13500, 250000),
                 rule="random bands of every type and curve evaluated at random sampling rates, timescales and paddings and compared sample by sample with the defined signal; non-trivial: at least one band; distinct by content and settings",
                 technique="sanitized execution, sample-by-sample monitor against the defined signals"),
    "P23": check(w("w_types", "containers", 6000, 200000),
                 rule="random histories of edits, the whole container compared with a model after each; distinct by history",
                 technique="sanitized execution, model-based monitor over edit histories"),
    "P24": check(w("w_types", "placement", 18000, 300000),
                 rule="random channels asked for bands available for 30 spans each, then filled band by band; non-trivial: at least one band; distinct by content",
                 technique="sanitized execution, monitor of every placement against interval overlap"),
    "P28": check(w("w_types", "play", 5000, 60000),
                 rule="random experiences played at random rates, timescales and paddings into a recording stand-in for the audio file writer; non-trivial: at least one channel; distinct by content and settings",
                 technique="sanitized execution, monitor of the audio handed to the file writer"),
    "P25": check(w("w_conv", "ahap", 120000, 2000000),
                 rule="random AHAP patterns with curves over, across and beside the events, in any order, every event looked for in the result; non-trivial: at least one event; distinct by text",
                 technique="sanitized execution, correspondence monitor between events and effects"),
    "P26": check(w("w_conv", "ivs", 120000, 1500000),
                 rule="random IVS documents with nested repetitions, overrides and envelopes, every repetition of every launch looked for in the result; non-trivial: at least one launch; distinct by text",
                 technique="sanitized execution, one-to-one correspondence monitor with an independent repetition model"),
    "P27": check(w("w_conv", "hostile", 40000, 1500000),
                 rule="AHAP and IVS files cut, corrupted, retyped, with extreme numbers, deep nesting and arbitrary bytes (4 variants per execution); distinct by text",
                 technique="sanitized fuzzing with a truncation oracle"),
    "P29": check(w("w_cli", "tools", 2500, 60000, cpu_ms=20000),
                 rule="random AHAP, IVS, WAV, OHM, HJIF and binary inputs, a tenth of them broken, run through the three tools with random options, the files written compared with the library's; distinct by input",
                 technique="sanitized execution, differential monitor of output files and exit codes"),
    "P30": check(w("w_cli", "wav", 48000, 400000),
                 rule="random audio saved and loaded, files of an independent writer loaded and saved again, broken files and outputs; non-trivial: at least one sample; distinct by content",
                 technique="sanitized execution, round-trip monitor"),
    "P31": check(w("w_cli", "pcm", 4500, 60000),
                 rule="random signals reduced to their extrema and to curves, then encoded whole with every bit of the budget and played; non-trivial: more than three samples; distinct by content and settings",
                 technique="sanitized execution, monitor of the extracted points and of the played signal"),
    "P32": check(w("w_any", "accepted", 5000, 150000, cpu_ms=20000),
                 rule="HJIF, binary and HMPG inputs with nudged, extreme, missing and repeated values, every accepted one loaded afresh for each of eight kinds of use; non-trivial: always; distinct by content",
                 technique="sanitized execution, mutation of accepted inputs with a usability monitor"),
    "P33": check(w("w_stream", "layout", 6000, 100000), w("w_bin", "layout", 6000, 100000), w("w_json", "layout", 6000, 100000),
                 rule="random experiences written as stream, binary file and text, the bytes read by an independent reader that knows only the format; non-trivial: at least one perception; distinct by content",
                 technique="offline monitor over the bytes written (independent reader with the format's own tables), sanitized execution"),
    "P34": check(w("w_codec", "budget", 24000, 300000),
                 rule="random signals, some far below what can be heard, coded with two budgets and decoded, coefficients compared one by one; a block coded alone; budgets of rising bitrates; non-trivial: the larger budget was better somewhere; distinct by samples and settings",
                 technique="sanitized execution, monitor of coefficient errors over pairs of runs"),
    "P35": check(w("w_stream", "checksum", 5500, 250000),
                 rule="streams into which checksum units, holding or not, and timing packets are inserted, compared with the stream without them and without the packets to be skipped; non-trivial: something was inserted; distinct by bytes",
                 technique="sanitized execution, differential monitor with an independent checksum"),
    "P36": check(w("w_codec", "mask", 4000, 150000),
                 rule="random spectra with flat tops, steps and limits met exactly, sets of peaks, and blocks of signals, compared with peaks, masks and ratios computed from their definition; non-trivial: some spectrum has a peak; distinct by spectra and signals",
                 technique="sanitized execution, monitor against the definition of peaks, masks and ratios"),
}
