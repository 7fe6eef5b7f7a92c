NA = {}

prop("P01", "HMPG stream keeps the experience description",
 "Encoding an in-range haptic experience as an HMPG stream and decoding it returns the same header, avatars, perceptions, reference devices, channels and bands: the same items in the same order, exact identifiers, types, texts, masks and flags, and reals within the resolution of their stream field (of a text longer than its field allows, the first 255 characters). Nothing is dropped, duplicated or attached to another parent. The encoder does not change the experience it is given.",
 ["inputs", "configurations"], "every conformant experience whose fields fit their stream fields, for every packet duration",
 "The unit tests round-trip a few hand-written hierarchies, mostly one packet at a time; which items survive depends on combinations of optional fields, counts and packet durations they never sample.",
 [IOS, T + "Haptics.cpp"], [("metadata packets", IOS + " write/readMetadata*"), ("stream assembly", IOS + " writeUnits/readFile")],
 ["IOStream::writeFile", "IOStream::readFile"])

prop("P02", "HMPG stream keeps every effect in time for any packet duration",
 "Decoding the stream of an experience with transient, vectorial-wave, curve and reference effects returns, for every band, the same effects in position order with the same type, base signal and phase, and the same keyframes at the same positions with amplitudes and frequencies within the field resolution. The packet duration and the way effects and keyframes straddle or fill packets do not change what is decoded.",
 ["inputs", "configurations"], "every in-range set of effects (overlapping or not, distinct positions in a band), every packet duration that fits its field, silences of any length",
 "Tests use packet durations and effects that leave most packet-boundary coincidences (a keyframe on the boundary, an effect spanning many packets, silence between) unsampled.",
 [IOS], [("payload packets", IOS + " createPayloadPacket"), ("effect reassembly", IOS + " readData/addTimestampEffect")],
 ["IOStream::writeFile", "IOStream::readFile"])

prop("P03", "HMPG stream keeps wavelet blocks",
 "A wavelet band written to an HMPG stream is decoded to the same sequence of wavelet blocks: the same coded bits, in order, at the same positions, with the same semantic. This holds for packets shorter than, equal to or longer than a block, and the other bands of the experience are not disturbed.",
 ["inputs", "configurations"], "every band of contiguous wavelet blocks from the start of the experience, of any block length and packet duration that fit their fields",
 "One fixed wavelet block is tested; the block-to-packet arithmetic depends on block length, timescale and packet duration.",
 [IOS, IOBB], [("wavelet payload", IOS + " createWaveletPayload/readWaveletEffect")], ["IOStream::writeFile", "IOStream::readFile"])

prop("P04", "HMPG streams written are well formed",
 "Every stream written parses from its own length fields alone: units follow each other exactly to the end of the file, packets tile each unit, each coded length matches what follows it, and reserved bits are zero. The stream starts with an initialization unit that carries the timing and the complete description, and unit timing covers the experience without a gap or an overlap: every keyframe lies in the time span of the unit that carries it. A unit is marked as independently decodable exactly when every effect in it starts in it.",
 ["inputs", "configurations"], "every conformant experience and every packet duration",
 "Tests decode with the same code that encoded, so a symmetric framing error passes; no test parses the bytes independently.",
 [IOS], [("unit framing", IOS + " writeMIHSUnit*"), ("packet framing", IOS + " writeMIHSPacket")], ["bytes written by IOStream::writeFile"])

prop("P05", "HMPG encoding is deterministic and stable under re-encoding",
 "Writing the same experience twice gives identical bytes, and decoding then re-encoding with the same packet duration reaches a fixed point: the second generation decodes to the same experience as the first. No state carries over from one encoding or decoding to the next.",
 ["inputs", "histories"], "every in-range experience and every sequence of encodings and decodings in one process",
 "Each unit test encodes once in a fresh fixture; drift over generations and leftover state need repeated use.",
 [IOS], [("stream state", IOS + " initializeStream, StreamReader/StreamWriter")], ["IOStream::writeFile", "IOStream::readFile"])

prop("P06", "A decoder can join an HMPG stream at an initialization unit",
 "A stream cut at any later initialization unit decodes on its own to the complete description of the experience, every effect that starts at or after that instant, complete and at its original time, and the remaining keyframes of the effects already running. Nothing that ended before that instant appears.",
 ["inputs", "configurations", "crash_points"], "every experience, packet duration, set of synchronisation points and initialization unit of the stream",
 "The unit tests decode streams from their first unit only.",
 [IOS], [("repeated initialization units", IOS + " writeUnits"), ("timing", IOS + " read/writeInitializationTiming")], ["IOStream::writeFile", "IOStream::readFile"])

prop("P07", "HJIF files keep the whole experience",
 "Writing a conformant haptic experience to an HJIF file and reading it back returns the same experience: every avatar, perception, reference device, channel, band, effect, keyframe, library entry, sync and optional field, in the same order and attached to the same parent, with numbers equal to single precision. Optional fields that are absent stay absent.",
 ["inputs"], "every conformant experience, whatever optional fields it has (wavelet streams of library effects excepted: the format does not carry them)",
 "The unit tests check one field at a time with one value; the presence/absence combinations and the nesting are unbounded.",
 [IOJ, IOJP], [("writers", IOJ + " extract*"), ("readers", IOJ + " load*")], ["IOJson::writeFile", "IOJson::loadFile"])

prop("P08", "HJIF reading enforces the declared profile and level",
 "An HJIF file is accepted exactly when it respects the conformance rules of the profile and level it declares: version, date and timescale, the numbers of channels and bands, the permitted modalities, band and effect types, identifiers that are unique, references that exist, frequency limits in order, unit directions, actuator targets within the resolution, block lengths that are powers of two and known effect semantics. A file just over any one limit is refused, a file at the limit is accepted, and the answer does not depend on the rest of the content.",
 ["inputs", "configurations"], "every file and every profile and level it can declare",
 "Tests try a handful of documents; each limit is a boundary in a large product of counts, profiles and levels.",
 [IOJ, IOJP], [("conformance checks", IOJ + " check*")], ["IOJson::loadFile"])

prop("P09", "Malformed HJIF input is refused or ignored safely",
 "No HJIF file, however malformed, crashes the reader, corrupts memory or makes it run without end. A list item without a required property, or with one of the wrong type, is skipped and the rest of the file is read as if it were absent; an optional property with an invalid value is treated as absent; a file that is not JSON, or whose top-level properties are missing or have the wrong type, is refused. An integer that does not fit its field is never read as another number.",
 ["inputs", "fault_sequences"], "every byte sequence given as an HJIF file",
 "Tests contain a few malformed snippets; the space of missing, mistyped and out-of-range fields at every nesting level is unbounded.",
 [IOJ, IOJP], [("type checks", IOJP), ("item skipping", IOJ + " load*")], ["IOJson::loadFile"])

prop("P10", "Malformed or truncated HMPG input is handled safely",
 "No HMPG stream, however corrupted or truncated, crashes the reader, makes it read outside the data, allocate without bound or run without end. A stream whose units or packets claim more data than there is (every stream cut inside a unit, in particular) is refused, and the reader reports failure when the file cannot be read. What an accepted stream decodes to can be written as an HJIF file.",
 ["inputs", "fault_sequences"], "every byte sequence given as an HMPG stream",
 "The tests only decode what the encoder wrote.",
 [IOS, IOBP], [("bounds checks", IOS + " readMIHSUnit/readMIHSPacket"), ("bit reads", IOBP + " read*")], ["IOStream::readFile"])

prop("P11", "Bit-level fields decode to what was encoded",
 "A sequence of unsigned and signed integers, booleans, strings and ranged reals written to a bit buffer with any field widths is read back in the same order from the same bit positions: integers, booleans and strings exactly when they fit their field, and reals within one step of their field's resolution. No field disturbs its neighbours and reading consumes exactly the bits written.",
 ["inputs"], "every sequence of fields, widths, ranges and values",
 "Tests check single fields at a few widths; interactions between fields at arbitrary bit offsets are not covered.",
 [IOBP], [("bit packing", IOBP + " write*/read*NBits")], ["IOBinaryPrimitives"])

prop("P12", "Binary haptic files keep the experience",
 "Writing a haptic experience to a binary haptic file and reading it back, from the file or from memory, returns the same description, library, channels, bands, effects and nested effects in the same order and attached to the same parent, for everything the binary file has a field for: integers, texts and types exactly, reals within the resolution of their field, absent optional values absent or as the value the format defines for them. Writing what was read gives the same bytes, and writing does not change the experience.",
 ["inputs"], "every experience whose values fit the fields of a binary file (wavelet blocks contiguous from the start, power-of-two block lengths, the default timescale)",
 "The unit tests write and read one element at a time with chosen values; nested effects, absent options and combinations of elements are never exercised.",
 [IOB, IOBB, IOBP], [("file content", IOB + " read/write*"), ("bands", IOBB + " read/writeBand*")], ["IOBinary::writeFile", "IOBinary::loadFile", "IOBinary::loadMemory"])

prop("P13", "Wavelet block coding is lossless on quantised coefficients",
 "Coding a block of quantised wavelet coefficients into bits and decoding it returns exactly the same integer coefficients, the same number of bit planes, and the block maximum within its coded resolution. An all-zero block decodes to zeros. Coding one block does not depend on blocks coded before it.",
 ["inputs", "histories"], "every block of a power-of-two length from 16 up and every bit depth up to 15, in any sequence",
 "Tests code a few fixed blocks; the set-partitioning traversal is data dependent.",
 [S + "Spiht/src/Spiht_Enc.cpp", S + "Spiht/src/Spiht_Dec.cpp"], [("set partitioning", S + "Spiht/src/Spiht_Enc.cpp sorting/refinement"), ("mirror decoder", S + "Spiht/src/Spiht_Dec.cpp")], ["Spiht_Enc", "Spiht_Dec"])

prop("P14", "Arithmetic coding is the inverse of decoding",
 "Decoding an arithmetically coded sequence of symbols with the same contexts returns the same symbols, for every sequence of bits and contexts.",
 ["inputs"], "every sequence of symbols and contexts, of every length",
 "Carry propagation, renormalisation and termination depend on long specific symbol histories; tests use short fixed ones.",
 [S + "Spiht/src/ArithEnc.cpp", S + "Spiht/src/ArithDec.cpp"], [("range coder", S + "Spiht/src/ArithEnc.cpp"), ("decoder", S + "Spiht/src/ArithDec.cpp")], ["ArithEnc", "ArithDec"])

prop("P15", "The wavelet transform reconstructs its input",
 "The forward wavelet transform followed by the inverse returns the input to numerical precision, for every block length and every number of levels the block supports, and both are linear and leave their input unchanged.",
 ["inputs"], "every signal and every legal block length and level count",
 "Tests compare one fixed vector.",
 [T.replace("Types/src/", "Tools/src/Tools.cpp")], [("lifting", S + "Tools/src/Tools.cpp Wavelet/Tools DWT")], ["Wavelet::DWT", "Wavelet::inv_DWT"])

prop("P16", "Wavelet bands decode to the signal that was coded",
 "A signal split into blocks, transformed, coded losslessly and decoded gives back the signal at the time positions of its blocks, within the quantisation step, with silence where there is no block; the decoder touches no sample outside the signal.",
 ["inputs"], "every sampled signal, block length, sampling rate and bit depth",
 "Only a single short band is decoded in the tests.",
 [S + "WaveletDecoder/src/WaveletDecoder.cpp"], [("block placement", S + "WaveletDecoder/src/WaveletDecoder.cpp")], ["WaveletDecoder"])

prop("P17", "Arbitrary wavelet bits decode safely",
 "Decoding any bit sequence as a wavelet block of any legal length ends, returns exactly the requested number of coefficients, all finite, and never touches memory outside its buffers.",
 ["inputs", "fault_sequences"], "every bit sequence and block length",
 "Tests only decode what the encoder produced.",
 [S + "Spiht/src/Spiht_Dec.cpp", S + "Spiht/src/ArithDec.cpp"], [("decoder bounds", S + "Spiht/src/Spiht_Dec.cpp")], ["Spiht_Dec::decodeEffect"])

prop("P18", "OHM metadata files round trip and fail safely",
 "Writing an OHM metadata description and reading it back returns the same version, description, elements and channel descriptions, including every body-part mask and gain. A file that is missing, truncated or not OHM is refused without a crash or an out-of-bounds read.",
 ["inputs", "fault_sequences"], "every OHM description that fits its fields and every byte sequence given as an OHM file",
 "The tests use one OHM file.",
 [S + "Tools/src/OHMData.cpp"], [("parser", S + "Tools/src/OHMData.cpp loadFile/writeFile")], ["OHMData"])

prop("P19", "OHM metadata and haptic experiences correspond",
 "Importing OHM metadata into an experience yields one perception per element with its channels, and every channel's description, gain and body-part mask; exporting the experience gives back the same OHM metadata.",
 ["inputs"], "every OHM description and experience whose fields fit",
 "Tests map a single example each way.",
 [T + "Haptics.cpp"], [("mapping", T + "Haptics.cpp loadMetadataFromOHM/extractMetadataToOHM")], ["Haptics::loadMetadataFromOHM", "Haptics::extractMetadataToOHM"])

prop("P20", "Refactoring into a library and linearizing keep the content",
 "Refactoring (moving repeated effects into the effect library) and linearizing (replacing references by the library effects they name, nested ones included, and emptying the library) never change what an experience plays: each band holds effects with the same content at the same positions before and after. Refactoring keeps the library entries already there, gives each new entry an id of its own, stores a repeated effect once and never merges effects that differ in phase, base signal, semantic, keyframes or wavelet data. After linearizing no reference that the library resolves is left.",
 ["inputs"], "every experience with any pattern of repeated and near-repeated effects",
 "Tests refactor one small example; wrong merges need near-equal effects.",
 [T + "Perception.cpp", T + "Effect.cpp"], [("equivalence", T + "Effect.cpp isEquivalent"), ("refactor", T + "Perception.cpp refactorEffects/linearizeLibrary")], ["Haptics::refactor", "Haptics::linearize"])

prop("P21", "Malformed binary haptic files are handled safely",
 "No file given to the binary haptic file reader, however truncated or corrupted, crashes it, corrupts memory, exhausts the stack or makes it run without end. A file cut before its end is refused, as is a missing file, and reading from memory gives the same verdict and the same experience as reading the same bytes from a file.",
 ["inputs", "fault_sequences"], "every byte sequence given as a binary haptic file",
 "The unit tests read only files the writer has just produced.",
 [IOB, IOBB, IOBP], [("file content", IOB + " loadFile/loadMemory"), ("bands", IOBB + " readBand*")], ["IOBinary::loadFile", "IOBinary::loadMemory"])

prop("P22", "Synthesis follows the effects' defined signals",
 "The signal evaluated for a band is the sum of its effects at every sample, at the sampling rate, timescale and padding asked for: each transient keyframe plays two sine periods over 22 ms scaled by its amplitude, a vectorial wave is its base signal with a phase that runs continuously under frequencies interpolated linearly between keyframes and an amplitude interpolated linearly between keyframes, linear and cubic curves follow their interpolation through the keyframes, decoded wavelet samples play at the band's rate, and there is silence elsewhere. A channel's output is the sum of its bands limited to full scale, always finite, the same each time it is evaluated, and evaluating changes nothing.",
 ["inputs"], "every conformant experience, sampling rate and padding",
 "Tests evaluate a few points on a few effects.",
 [T + "Effect.cpp", T + "Band.cpp", T + "Channel.cpp"], [("evaluation", T + "Effect.cpp Evaluate*"), ("mixing", T + "Channel.cpp EvaluateChannel")], ["Band::EvaluationBand", "Channel::EvaluateChannel"])

prop("P23", "Edited bands, keyframes and lists stay ordered and consistent",
 "However effects are added to and removed from a band they stay in position order and none is lost, duplicated or altered; setting the amplitude or the frequency at a position of an effect keeps its keyframes in order and changes nothing else. Replacing or removing an item of a list of effects, keyframes, bands, channels or perceptions acts on exactly the index given and is refused outside the list; replacing only the metadata of a band, channel or perception takes every metadata value, present or absent, from the new one and keeps the content.",
 ["histories"], "every sequence of edits through the public interface",
 "Tests apply one or two edits.",
 [T + "Band.cpp", T + "Effect.cpp"], [("sorted insertion", T + "Band.cpp addEffect")], ["Band", "Effect", "Channel", "Perception"])

prop("P24", "Effects are placed in bands where they do not overlap",
 "When a channel is asked for a band available for a time span, the band returned is one of its bands of the requested type in which no effect overlaps that span, and none is returned only when every band of that type holds an overlapping effect (a transient lasts 22 ms, other effects until their last keyframe). Asking changes nothing, and effects placed in bands obtained this way never overlap.",
 ["histories", "inputs"], "every sequence of placements",
 "Tests place a few effects.",
 [T + "Channel.cpp", T + "Band.cpp"], [("band search", T + "Channel.cpp findBandAvailable"), ("overlap test", T + "Band.cpp isOverlapping")], ["Channel::findBandAvailable"])

prop("P28", "Playing an experience renders every channel in full",
 "Synthesizing an experience to audio gives one audio channel per haptic channel, in order of perceptions and channels, at the requested sampling rate, lasting until the end of its last effect, wavelet block or declared sample plus the padding before and after, for any timescale or none. Each audio channel is the evaluated signal of its haptic channel, wavelet bands decoded, times the channel's gain and ten to the power of the perception unit exponent.",
 ["inputs", "configurations"], "every experience, sampling rate and padding",
 "Tests never play a file; a wrong length or gain needs particular timescales and band mixes.",
 [S + "Synthesizer/src/Helper.cpp", T + "Band.cpp"], [("length", S + "Synthesizer/src/Helper.cpp getTimeLength"), ("rendering", S + "Synthesizer/src/Helper.cpp playFile")], ["Helper::getTimeLength", "Helper::playFile"])

prop("P25", "AHAP conversion keeps every event",
 "Converting an AHAP file yields one transient per transient event and one vectorial wave per continuous event, at the event's time: amplitudes follow the event's intensity times any intensity curve covering it, waves last as long as the event, and their frequency follows its sharpness plus any sharpness curve covering it. Events and curves may be listed in any order, and what the channel already held is kept. No event is lost or invented, and waves that overlap in time never share a band.",
 ["inputs"], "every well-formed AHAP pattern of events and parameter curves",
 "Tests convert two or three sample files.",
 [S + "Encoder/src/AhapEncoder.cpp"], [("event extraction", S + "Encoder/src/AhapEncoder.cpp"), ("placement", T + "Channel.cpp findBandAvailable")], ["AhapEncoder::encode"])

prop("P26", "IVS conversion keeps every basis effect",
 "Converting an IVS file yields one channel per timeline and, for each launch event, the basis effect it names at its time, with its overrides, waveform, period, magnitude and attack/fade envelope. Repeat events, nested or not, replay what they cover as often as they say and delay all that follows them by the time this takes. No launch is lost or invented, and effects that overlap never share a band.",
 ["inputs"], "every well-formed IVS document whose repeat events do not partly overlap",
 "Tests convert two or three sample files.",
 [S + "Encoder/src/IvsEncoder.cpp"], [("event conversion", S + "Encoder/src/IvsEncoder.cpp"), ("repeat expansion", S + "Encoder/include/IvsEncoder.h")], ["IvsEncoder::encode"])

prop("P27", "Malformed AHAP and IVS input is refused safely",
 "No AHAP or IVS file, however malformed, crashes the converter, corrupts memory or makes it run without end; a file that cannot be parsed is reported as a failure.",
 ["inputs", "fault_sequences"], "every byte sequence given as an AHAP or IVS file",
 "Tests try one or two broken files.",
 [S + "Encoder/src/AhapEncoder.cpp", S + "Encoder/src/IvsEncoder.cpp"], [("guards", S + "Encoder/src")], ["AhapEncoder::encode", "IvsEncoder::encode"])

prop("P29", "The tools write what the library produces or report failure",
 "Running the encoder, decoder or synthesizer on a file writes exactly what the library produces for that input under the given options (format, timescale, packet duration, refactoring, linearizing, PCM settings, sampling rate, padding, metadata), whatever the order of the options and their short or long names, and exits with success only then. An input that is missing, malformed or of an unknown kind, an element of a description that cannot be encoded, an option value that is not a number or is impossible, or an output that cannot be written in full ends in a failure exit code, never an abort, and an input that is refused leaves no output.",
 ["inputs", "configurations", "fault_sequences"], "every input file, combination of documented options and unwritable output",
 "No test runs the tools.",
 [S + "Encoder/src/main.cpp", S + "Decoder/src/main.cpp", S + "Synthesizer/src/main.cpp"], [("encoder", S + "Encoder/src/main.cpp main"), ("decoder", S + "Decoder/src/main.cpp main"), ("synthesizer", S + "Synthesizer/src/main.cpp main"), ("options", S + "Tools/src/InputParser.cpp")], ["Encoder", "Decoder", "Synthesizer"])

prop("P30", "WAV files round trip and fail safely",
 "Saving audio as a WAV file and loading it back returns the same number of channels and samples and the same sampling rate, with every sample within half a 16-bit step of the original limited to full scale and no channel mixed with another; loading a 16-bit file is exact and saving it again changes no sample. A file that cannot be opened or is not WAV, channels of unequal length and the absence of channels are reported as failures.",
 ["inputs", "fault_sequences"], "every finite audio content, number of channels and sampling rate",
 "The tests need a library absent here and compare a handful of samples.",
 [S + "Tools/src/WavParser.cpp"], [("reading", S + "Tools/src/WavParser.cpp loadFile"), ("writing", S + "Tools/src/WavParser.cpp saveFile")], ["WavParser::loadFile", "WavParser::saveFile"])

prop("P31", "PCM encoding keeps the signal",
 "The points taken from a PCM signal for its curve are in time order, hold the signal's own values, and include every local extremum and, when asked for, both ends, so that the signal only rises or only falls between two of them; the curve made of them has one keyframe per tick that has points, with the value of one of them. A WAV file encoded with the full bit budget, in blocks that last a whole number of ticks, and played at its own sampling rate gives back every channel within one percent of full scale, whatever the cutoff frequency below half the sampling rate, and each channel records its sampling rate and number of samples.",
 ["inputs", "configurations"], "every signal, cutoff frequency, and block length lasting a whole number of ticks",
 "The tests need libraries absent here and encode a few short signals.",
 [S + "Encoder/src/PcmEncoder.cpp", S + "Encoder/src/WaveletEncoder.cpp"], [("local extrema", S + "Encoder/src/PcmEncoder.cpp localExtrema"), ("curve", S + "Encoder/src/PcmEncoder.cpp convertToCurveBand"), ("residual", S + "Encoder/src/PcmEncoder.cpp encode")], ["PcmEncoder::encode", "PcmEncoder::localExtrema", "PcmEncoder::convertToCurveBand"])

prop("P32", "Whatever a reader accepts can be used",
 "An experience that any reader accepts, however unusual its values, can be written in every format, refactored, linearized, measured, evaluated at any time, played for a limited time and exported as OHM metadata without a crash, an access out of bounds or an endless run. Its length is finite; a binary file or HMPG stream written from it is accepted again, and so is the HJIF file written from an experience read from HJIF; a writer that cannot represent it reports failure instead of writing something unreadable.",
 ["inputs", "histories"], "every HJIF, binary or HMPG input a reader accepts, used in each of these ways",
 "Tests use hand-made experiences with ordinary values; the combinations of accepted but unusual values with later uses are never tried.",
 [IOS, IOB, IOJ, T + "Band.cpp", T + "Effect.cpp", S + "Synthesizer/src/Helper.cpp"], [("reader guards", IOJ + " semanticConformanceCheck*"), ("writer guards", IOS + " writeFile"), ("evaluation", T + "Effect.cpp Evaluate*")], ["IOJson::loadFile", "IOStream::writeFile", "IOBinary::writeFile", "Haptics::refactor", "Haptics::linearize", "Channel::Evaluate", "Helper::playFile"])

prop("P33", "Files keep to the published layout, codes and keywords",
 "A reader that knows nothing but the formats finds, in every HMPG stream, binary file and HJIF document written, each field where the format puts it: packet types, field order, widths, byte order, presence masks, scales and the numeric codes of modalities, devices, targets, curves, signals, band and effect types and semantic keywords; in HJIF the member names and keywords. A file written by one version of the software is therefore the same experience for every other reader of the format, even where a change to writer and reader alike would hide from this software.",
 ["inputs"], "every in-range experience, in each of the three formats",
 "Tests and round trips use this software's writer together with its own reader, so a code, width, order or keyword changed in both at once stays invisible.",
 [IOS, IOB, IOJ, S + "IOHaptics/include/IOBinaryFields.h", S + "Types/include/BodyPartTarget.h", S + "Types/include/EffectSemantic.h"],
 [("field widths", "IOBinaryFields.h"), ("stream layout", IOS + " write*"), ("binary layout", IOB + " write*"), ("keywords and codes", "Types/include *ToString")],
 ["IOStream::writeFile", "IOBinary::writeFile", "IOJson::writeFile"])

prop("P34", "A larger bit budget never loses detail",
 "Coding a signal into wavelet blocks with a larger bit budget never moves any wavelet coefficient of any block further from the original than a smaller budget does, and what a block is coded into depends on nothing but its own samples and the settings, not on its neighbours. No signal, however faint, makes a band take more bits than it can hold. A higher target bitrate never gives a smaller budget, and every budget made from a bitrate lies between one bit and what a block can hold.",
 ["inputs", "configurations"], "every signal up to full scale, block length, pair of bit budgets and pair of bitrates",
 "Tests code one or two signals with one budget and look at one number.",
 [S + "Encoder/src/WaveletEncoder.cpp", S + "Encoder/include/PcmEncoder.h"], [("bit allocation", S + "Encoder/src/WaveletEncoder.cpp encodeBlock"), ("quantiser", S + "Encoder/src/WaveletEncoder.cpp uniformQuant"), ("bitrate", S + "Encoder/include/PcmEncoder.h generateConfigParam")],
 ["WaveletEncoder::encodeSignal", "EncodingConfig::generateConfigParam"])
prop("P35", "Checksums and times in an HMPG stream are honoured",
 "An HMPG stream into which checksum units (16 or 32 bits, over the first unit or over a stated number of first units) are inserted decodes exactly as without them while they hold, whatever their value. Behind a checksum that does not hold, the dependent data packets before the next unit or packet that can be decoded on its own are skipped, and nothing else is lost or changed. A timing packet that states the current time, in ticks of the stream, changes nothing but the list of synchronisation points.",
 ["inputs", "fault_sequences"], "every stream, place and kind of checksum and timing packets, holding or not",
 "No test inserts a checksum or timing packet into a stream.",
 [S + "IOHaptics/src/IOStream.cpp"], [("verification", S + "IOHaptics/src/IOStream.cpp checkCRC"), ("skipping", S + "IOHaptics/src/IOStream.cpp readData"), ("timing", S + "IOHaptics/src/IOStream.cpp readTiming")],
 ["IOStream::readFile"])

prop("P36", "The psychohaptic model finds what stands out of a signal",
 "The peaks found in a spectrum are exactly its local maxima, each once and with its own height (a flat top in its middle), that reach the height asked and stand out by the prominence asked. The mask of a set of peaks is at every frequency the highest of their curves: the height of the peak less 5 dB, plus 5 dB per 1400 Hz of its frequency, less 30 dB times the square of the distance relative to that frequency. The signal-to-mask ratio of each band of a block is the energy of the band over that of the mask of the peaks of its spectrum (at most 45 dB under the highest value, standing out by 12 dB) together with a threshold that depends on nothing but the frequency; it is the same whatever was analysed before, and analysing changes nothing.",
 ["inputs", "histories"], "every spectrum, pair of limits, set of peaks, block length and rate, and every signal block",
 "The only test looks for the single peak of one spectrum.",
 [S + "PsychohapticModel/src/PsychohapticModel.cpp"], [("peaks", S + "PsychohapticModel/src/PsychohapticModel.cpp findPeaks"), ("mask", S + "PsychohapticModel/src/PsychohapticModel.cpp peakMask"), ("ratio", S + "PsychohapticModel/src/PsychohapticModel.cpp getSMR")],
 ["PsychohapticModel::findPeaks", "PsychohapticModel::peakMask", "PsychohapticModel::getSMR"])
