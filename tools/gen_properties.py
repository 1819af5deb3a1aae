#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': state} if state else {}),
                     **({'observe_at': observe} if observe else {}), hook_needed=None)))
L = "cloudini_lib/src/"; I = "cloudini_lib/include/cloudini_lib/"

prop("C01", "Decoding never reads outside the bytes it was given",
 "Whatever bytes are presented as a compressed cloud, a chunk, an encoded field, a header or a serialized (DDS/CDR) message, no decoder reads memory outside the byte range it was handed: truncated or corrupt input is answered with an exception, never with an out-of-bounds read. This includes every chunk, section, palette, run and bit-packed read, and the amount of input handed to the LZ4/ZSTD decompressors. It also holds for a stream that is valid for a while and ends in the middle of a value.",
 ["inputs"], "every byte string handed to DecodeHeader, PointcloudDecoder::decode, any FieldDecoder::decode, nanocdr and getDeserializedPointCloudMessage",
 "Tests feed well-formed streams and a handful of truncations; the claim is about every byte string and every truncation point.",
 [L+"cloudini.cpp", L+"v4_codec.cpp", L+"v5_codec.cpp", L+"codec_common.cpp", L+"field_decoder.cpp", I+"field_decoder.hpp", I+"encoding_utils.hpp", I+"contrib/span.hpp", I+"contrib/nanocdr.hpp", L+"ros_msg_utils.cpp"],
 [("decodeVarint bound", I+"encoding_utils.hpp"), ("Span::trim_front", I+"contrib/span.hpp"), ("chunk size validation", L+"cloudini.cpp"), ("section bounds", L+"v5_codec.cpp")],
 ["PointcloudDecoder::decode", "DecodeHeader"])

prop("C02", "Decoding never writes outside the output buffer it was given",
 "For every header (including one whose field offsets, types or sizes are inconsistent) and every compressed byte string, decoding writes only inside the output buffer passed by the caller and, for each point, only inside that point's own bytes; anything that would not fit is rejected with an exception. Fields marked as decode-but-do-not-store are consumed from the stream and never written. Decompression never writes past its scratch buffer.",
 ["inputs", "configurations"], "every EncodingInfo x every byte string x every output buffer size",
 "The test-suite only decodes streams produced by the matching encoder, with consistent headers and exactly sized outputs.",
 [L+"cloudini.cpp", L+"v4_codec.cpp", L+"v5_codec.cpp", L+"codec_common.cpp", L+"field_decoder.cpp", I+"field_decoder.hpp"],
 [("output size check per point", L+"v4_codec.cpp"), ("run length check", L+"v5_codec.cpp"), ("kDecodeButSkipStore", I+"basic_types.hpp")],
 ["PointcloudDecoder::decode"])

prop("C03", "Encoding never reads outside the cloud nor writes outside the output",
 "For every field layout and every cloud, encoding reads only bytes of the cloud it was given and writes only inside the caller's output buffer and its own scratch buffers. A layout in which a field does not fit in the point step, a cloud that is not a whole number of points, and an output smaller than the worst case are refused with an exception before any data is touched.",
 ["inputs", "configurations"], "every EncodingInfo x cloud x output buffer size",
 "Tests only encode well-formed layouts into generously sized outputs.",
 [L+"cloudini.cpp", L+"v4_codec.cpp", L+"v5_codec.cpp", L+"chunk_writer.cpp", I+"field_encoder.hpp", L+"field_encoder.cpp"],
 [("constructor/entry validation", L+"cloudini.cpp"), ("capacity check", L+"cloudini.cpp")],
 ["PointcloudEncoder::encode"])

prop("C04", "Worst-case size bounds really bound every encoder",
 "No value, however adversarial, makes a field encoder emit more bytes for one point than the declared worst case for that field and configuration, and the stage buffer, the maximum compressed size and the exact header size computed from those bounds cover everything that is written into them, including the extra bytes of every adaptive integer mode, chunk prefixes and compressor overhead. Consequently encoding a valid cloud never fails, or overruns, for lack of space.",
 ["inputs", "configurations"], "every field type, encoding option, resolution, version, adaptive mode, and value sequence",
 "Worst cases need adversarial values (sign flips at the extremes of 64-bit types, incompressible bits) that the tests never build.",
 [L+"codec_common.cpp", L+"cloudini.cpp", L+"v5_codec.cpp", I+"field_encoder.hpp", I+"encoding_utils.hpp"],
 [("MaxSerializedFieldSize", L+"codec_common.cpp"), ("MaxCompressedSize", L+"cloudini.cpp"), ("V5StageBufferSize", L+"v5_codec.cpp")],
 ["MaxCompressedSize", "PointcloudEncoder::encode"])

prop("C05", "Encoder and decoder choose the same codec for every field",
 "For every format version, encoding option, field type and presence of a resolution that the encoder accepts, the encoder and the decoder derive from the header the same ordered sequence of field codecs - same codec family, same value type, same offset, same resolution, same grouping of leading floats and the same split between per-point fields and adaptive integer sections. A field type that one side supports is supported by the other.",
 ["configurations"], "version x encoding option x field type x resolution presence x number and order of leading float fields",
 "The configuration space is a product of five dimensions; tests visit a few points of it.",
 [L+"codec_common.cpp", L+"v4_codec.cpp", L+"v5_codec.cpp"],
 [("CreateCompatibleEncoder/CreateCompatibleDecoder", L+"codec_common.cpp"), ("BuildV4*/buildV5Plan/BuildV5Decoders/getV5AdaptiveFields", L+"v5_codec.cpp")],
 ["PointcloudEncoder", "PointcloudDecoder"])

prop("C06", "Chunks and messages are independent: codec state is fully reset",
 "Every piece of state that a field encoder or decoder changes while processing values is put back to its initial value by its reset operation, reset is applied to every field codec before the first point of every chunk on both sides, and the adaptive integer state that may survive a chunk is limited to the chosen mode and scratch capacity. Hence encoding or decoding a chunk, or a second cloud with the same encoder or decoder object, never depends on the values of an earlier one.",
 ["histories", "inputs"], "every sequence of clouds handled by one encoder or decoder object, every number of chunks",
 "A forgotten member only shows for multi-chunk clouds or reused objects with particular values at the end of the previous chunk.",
 [I+"field_encoder.hpp", I+"field_decoder.hpp", L+"codec_common.cpp", L+"v4_codec.cpp", L+"v5_codec.cpp"],
 [("reset()", I+"field_encoder.hpp"), ("ResetEncoders/ResetDecoders", L+"codec_common.cpp"), ("prepareAdaptiveIntFieldForChunk", L+"v5_codec.cpp")],
 ["encode/decode of consecutive clouds"])

prop("C07", "Encoder and compression thread never race",
 "In every schedule of the encoding thread and the background compression thread, no member of the encoder is accessed by both threads at once (unless both only read): the flags and byte counter of the hand-over protocol are accessed with the encoder's mutex held or while the other thread provably does not use them, and the stage buffer, its size and the output position are handed over rather than shared: the encoding thread touches them only after waiting for the worker to be idle, and the worker only between taking a job and publishing its completion. Condition-variable waits re-check their condition.",
 ["schedules"], "every interleaving of encode() and the worker",
 "Races depend on interleavings the tests do not control.",
 [L+"cloudini.cpp", I+"cloudini.hpp"],
 [("mutex_ and the two condition variables", L+"cloudini.cpp")],
 ["PointcloudEncoder::encode"],
 [dict(name="has_data_to_compress_, compression_done_, should_exit_, worker_failed_, worker_exception_, compressed_size_", meaning="hand-over protocol state", where=I+"cloudini.hpp")])

prop("C08", "Background compression is always awaited, reported and joined",
 "encode() never returns or throws while the worker can still touch the caller's output; a failure inside the worker is recorded, wakes the waiting thread and is rethrown to the caller, and the encoder is usable afterwards. Every change that a waiting thread is waiting for is followed by a notification on the condition variable it waits on, and destruction always stops and joins the worker, so no schedule hangs or leaves a thread behind.",
 ["schedules", "fault_sequences"], "every interleaving and every point at which compression or encoding can fail",
 "Failures inside the worker and exceptions while a job is in flight are not produced by any test.",
 [L+"cloudini.cpp", I+"cloudini.hpp"],
 [("compressionWorker/waitForCompressionComplete/destructor", L+"cloudini.cpp")],
 ["PointcloudEncoder::encode", "~PointcloudEncoder"])

prop("C09", "Headers round-trip: what the writer emits, the reader recovers",
 "For both header encodings, the reader consumes exactly the items the writer emits, in the same order, with the same widths, keys and value encodings, and stores each into the same attribute, so that every attribute of a cloud description (dimensions, step, options, and each field's name, offset, type and exact resolution) survives a round trip. Numbers in the text header are written without loss and independently of the process locale.",
 ["inputs", "configurations"], "every EncodingInfo, both header encodings",
 "Tests compare a few hand-written headers whose resolutions happen to print exactly.",
 [L+"cloudini.cpp", I+"yaml_parser.hpp"],
 [("EncodeHeader/DecodeHeader", L+"cloudini.cpp"), ("EncodingInfoToYAML/EncodingInfoFromYAML", L+"cloudini.cpp")],
 ["DecodeHeader(EncodeHeader(info))"])

prop("C10", "Corrupt or incomplete data is reported, never passed off as a cloud",
 "Every status returned by the LZ4 and ZSTD libraries is tested before its value is used as a size, and decoding a cloud returns normally only after exactly the declared number of points has been produced and every chunk has supplied its points; leftover chunks, missing chunks, unknown compression options, versions, modes or types, and a second header inside the data all end in an exception. Encoding likewise reports every compressor failure.",
 ["inputs", "fault_sequences"], "every corrupted or truncated stream, every library failure",
 "Library failures and most corruptions are not exercised by tests.",
 [L+"codec_common.cpp", L+"cloudini.cpp", L+"v4_codec.cpp", L+"v5_codec.cpp", L+"chunk_writer.cpp"],
 [("CompressChunk/DecompressChunk", L+"codec_common.cpp"), ("chunk loop", L+"cloudini.cpp")],
 ["PointcloudDecoder::decode"])

prop("C11", "Decoding always terminates",
 "For every header and every input, decoding finishes after a number of steps bounded by the input length plus the number of declared points: each loop over the input consumes at least one byte per iteration or is counted by the number of points, fields or declared items, and no declared run length or count can drive a loop further than the cloud's own points.",
 ["inputs"], "every header and every byte string",
 "Non-termination needs specially crafted headers or run lengths.",
 [L+"cloudini.cpp", L+"v4_codec.cpp", L+"v5_codec.cpp", I+"encoding_utils.hpp", I+"field_decoder.hpp"],
 [("chunk loop and point loops", L+"cloudini.cpp")],
 ["PointcloudDecoder::decode"])

prop("C12", "The C/WASM interface never throws and never overruns the caller",
 "Every function exported with C linkage for the WASM/foreign callers catches every exception raised while parsing, encoding or decoding and reports failure through its return value (0 or an empty result), and it writes to the caller's memory only what fits the capacity the caller was told: the sizes used for the copy and for the size query derive from the same header that drives decoding.",
 ["inputs"], "every message or buffer passed through the exported functions",
 "The WASM target is not built or tested here at all.",
 [L+"wasm_functions.cpp", "cloudini_lib/include/cloudini_lib/wasm_functions.h"],
 [("cldn_* functions", L+"wasm_functions.cpp")],
 ["cldn_DecodeCompressedData", "cldn_DecodeCompressedMessage", "cldn_GetDecompressedSize"])

prop("C13", "DDS message writers and readers agree on the wire layout",
 "For the standard and the compressed point-cloud messages, the serializer emits and the parser consumes the same sequence of items with the same widths and alignment, each bound to the same attribute of the message, and the byte order announced in the message's encapsulation header is the one used for every multi-byte value written after it, including values patched in afterwards. Converting a message keeps the stamp, frame id, dimensions, fields, endianness and density flags.",
 ["inputs"], "every message, both byte orders",
 "Tests round-trip a few messages in the host byte order only.",
 [L+"ros_msg_utils.cpp", I+"ros_msg_utils.hpp", I+"contrib/nanocdr.hpp", I+"ros_message_definitions.hpp"],
 [("readPointCloud2MessageCommon/writePointCloudHeader", L+"ros_msg_utils.cpp")],
 ["convertPointCloud2ToCompressedCloud", "convertCompressedCloudToPointCloud2"])

prop("C14", "Copied or moved messages are complete and refer to their own data",
 "Copying or moving a point-cloud message object, by construction or assignment, transfers every attribute of the message, and afterwards the data view of the new object refers to the bytes it owns (or to the same external bytes when it owns none), never to storage owned by the other object. Self-assignment leaves the message intact.",
 ["histories"], "every sequence of copies, moves and assignments of messages with owned or external data",
 "A dangling view or a forgotten attribute only shows after the source is destroyed or modified.",
 [L+"ros_msg_utils.cpp", I+"ros_msg_utils.hpp"],
 [("RosPointCloud2 special members", I+"ros_msg_utils.hpp")],
 ["RosPointCloud2 copy/move"])

prop("C15", "Names, codes and sizes of types and options are consistent everywhere",
 "Every field type, encoding option and compression option has exactly one textual name, the text-to-value conversion is the exact inverse of the value-to-text conversion and rejects anything else, the byte size attributed to each type is the size of the value actually stored, and the translations from and to ROS, PCL, PCD-file and Python type codes map each type to its counterpart of the same width, signedness and kind.",
 ["configurations"], "every enumerator of the three enumerations, every table",
 "Tests use a handful of types; tables exist in five places and in two languages.",
 [L+"cloudini.cpp", I+"basic_types.hpp", L+"pcl_conversion.cpp", L+"ros_msg_utils.cpp", "cloudini_py/cloudini_decoder.py"],
 [("ToString/FromString/SizeOf", L+"cloudini.cpp"), ("type tables", L+"pcl_conversion.cpp")],
 ["ToString", "FieldTypeFromString", "SizeOf"])

prop("C16", "Cloud sizes are computed without wrap-around",
 "Every product of width, height, point step or a point count that is used to size a buffer, to bound a copy or to bound a loop is evaluated in 64-bit arithmetic from its first factor, so clouds larger than 4 GiB or headers with extreme dimensions are handled or rejected rather than silently truncated to 32 bits.",
 ["inputs", "configurations"], "every width, height and point step representable in a header",
 "Needs clouds above 4 GiB or extreme headers.",
 [L+"cloudini.cpp", L+"ros_msg_utils.cpp", L+"pcl_conversion.cpp", I+"pcl_conversion.hpp", L+"wasm_functions.cpp", I+"cloudini.hpp"],
 [("size computations", L+"cloudini.cpp")],
 ["PointcloudDecoder::decode", "convertCompressedCloudToPointCloud2"])

prop("C17", "The wire format of released versions is frozen",
 "Numeric codes of types, options, adaptive modes and markers, the magic string, the number of points per chunk and the version gates (chunk length prefixes from version 3, bit-packed lossless doubles from version 4, adaptive integer sections from version 5, versions 2 to the current one readable, everything else refused) keep their released values, and encoder and decoder apply the same gate. Data written by an older release therefore stays readable.",
 ["configurations", "histories"], "every format version and every code point of the format",
 "A symmetric change to both sides keeps every round-trip test green and still orphans all stored data.",
 [I+"basic_types.hpp", I+"cloudini.hpp", L+"codec_common.hpp", L+"v5_codec.cpp", L+"cloudini.cpp", L+"codec_common.cpp"],
 [("enumerations and constants", I+"basic_types.hpp"), ("version gates", L+"codec_common.cpp")],
 ["stored files of versions 2-5"])

prop("C18", "Each field decoder inverts its encoder step by step",
 "For every field codec, one decode step reads exactly the items (bytes, variable-length integers, bit groups) that the matching encode step writes on the corresponding branch, in the same order and width, and both sides update their prediction state in the same way from the value just transferred, starting from the same initial state. The not-a-number marker is written by the encoder exactly where the decoder tests for it.",
 ["inputs", "histories"], "every value sequence, every codec",
 "Round-trip tests sample smooth data; branch-specific disagreements (NaN runs, window reuse, repeated values) need particular sequences.",
 [I+"field_encoder.hpp", I+"field_decoder.hpp", L+"field_encoder.cpp", L+"field_decoder.cpp", I+"encoding_utils.hpp"],
 [("FieldEncoder*/FieldDecoder* pairs", I+"field_encoder.hpp")],
 ["decode(encode(x))"])

prop("C19", "Adaptive integer sections: writer and reader agree on every mode",
 "For each adaptive integer mode the bytes produced by the batch writer, by the streaming writer and those consumed by the reader form the same sequence of items (mode code, counts, values, run lengths, packed indexes) with the same widths and units, and the sizes used to choose a mode are computed with the same formula as the bytes written. Every point of the chunk, including the probed prefix, is emitted exactly once in order.",
 ["inputs", "histories"], "every mode, every chunk length around the probe boundary, every value sequence",
 "Mode changes happen only on particular value statistics and multi-chunk clouds.",
 [L+"v5_codec.cpp"],
 [("append*Section / stream writers / decodeV5AdaptiveIntSection", L+"v5_codec.cpp")],
 ["PointcloudEncoder::encode + PointcloudDecoder::decode"])

prop("C20", "File and bag conversion propagates every failure and all content",
 "Converting a recording checks the status of every open, read and write call and never ignores a failure; every message that is not a point cloud of the selected kind is copied through unchanged, point clouds keep channel, sequence number and both timestamps, and schemas and channels are carried over with all of their attributes.",
 ["inputs", "fault_sequences"], "every recording and every I/O failure",
 "The converter is not built or tested in this configuration.",
 ["cloudini_lib/tools/src/mcap_converter.cpp"],
 [("McapConverter", "cloudini_lib/tools/src/mcap_converter.cpp")],
 ["McapConverter::encodePointClouds", "McapConverter::decodePointClouds"])

prop("C21", "Preprocessing and conversion keep message metadata consistent",
 "Whenever the library changes, drops or merges points of a message, or builds a description from a message and back, the dimensions, row step, point step and the length of the data it publishes describe the same number of points, the fields keep their offsets and types, and a lossy resolution is only ever attached to floating-point fields while removal requests drop exactly the named fields.",
 ["inputs", "configurations"], "every message and every resolution profile",
 "Tests use a few fixed layouts and never compare the derived metadata.",
 [L+"ros_msg_utils.cpp", L+"pcl_conversion.cpp"],
 [("applyVizLossyPreprocessing/applyResolutionProfile/toEncodingInfo", L+"ros_msg_utils.cpp")],
 ["RosPointCloud2"])

prop("C22", "Quantization error stays within half the declared resolution",
 "Every finite value of a lossy field is reproduced within half of its declared resolution (up to floating-point rounding), and lossless fields are reproduced bit for bit.",
 ["inputs"], "every floating-point value and resolution",
 "Floating-point rounding over all values; tests sample random values.",
 [I+"field_encoder.hpp", I+"field_decoder.hpp", I+"intrinsics.hpp"],
 [("Float_Lossy / FloatN_Lossy arithmetic", I+"field_encoder.hpp")], ["decode(encode(x))"])

prop("C23", "Vectorised and scalar arithmetic produce the same stream",
 "The SIMD and the scalar implementation of the small vector type produce the same integers for every input, so streams do not depend on the instruction set.",
 ["inputs", "configurations"], "every float input, every supported architecture",
 "Only one architecture is compiled per build.",
 [I+"intrinsics.hpp"], [("Vector4f/Vector4i", I+"intrinsics.hpp")], ["encode"])

prop("C24", "Compression pays off and keeps its documented speed",
 "Encoded clouds are smaller than the raw cloud on realistic data and encoding keeps pace with the sensor rate documented by the project.",
 ["inputs"], "realistic sensor data", "A statistical and timing statement.",
 ["README.md"], [("two-stage codec", L+"cloudini.cpp")], ["benchmarks"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
