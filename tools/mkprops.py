"""writes properties.jsonl"""
import json
L = 'cloudini_lib/'
FE, FD, EU = L + 'src/field_encoder.cpp', L + 'include/cloudini_lib/field_decoder.hpp', L + 'include/cloudini_lib/encoding_utils.hpp'
FDC, FEH = L + 'src/field_decoder.cpp', L + 'include/cloudini_lib/field_encoder.hpp'
CL, V4, V5, CC = L + 'src/cloudini.cpp', L + 'src/v4_codec.cpp', L + 'src/v5_codec.cpp', L + 'src/codec_common.cpp'
ROS, CDR, PCLH, PCLC = L + 'src/ros_msg_utils.cpp', L + 'include/cloudini_lib/contrib/nanocdr.hpp', L + 'include/cloudini_lib/pcl_conversion.hpp', L + 'src/pcl_conversion.cpp'
out = []


def p(id, title, statement, over, q, why, files, mech):
    assert len(title) <= 80, title
    out.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})


p('C01', 'Variable-length integers decode to the value that was encoded',
  'Every 64-bit signed value, the extremes included, that is written as a variable-length integer is read back exactly, from exactly the bytes that were written, at most ten. Reading from arbitrary or truncated bytes either yields a value and a length within the input or is rejected with an exception; it never reads past the input.',
  ['inputs'], 'all 2^64 values; all byte strings of any length',
  'The tests read back a handful of values; 2^64 values and all malformed byte strings cannot be sampled (INT64_MIN used to fail).', [EU],
  [('encodeVarint64 / decodeVarint', EU)])
p('C02', 'Integer fields survive encoding and decoding exactly',
  'For every point cloud, encoder option, compression option and supported format version, each integer field of each decoded point equals the encoded one bit by bit, whatever the sequence of values in the cloud. Each point consumes exactly the bytes it produced.',
  ['inputs', 'histories'], 'all sequences of 8/16/32/64-bit values of any length, any field layout (offset, point step)',
  'The predictive coding makes each value depend on all earlier ones; tests use smooth or short sequences, never e.g. deltas that wrap around 64 bits.', [FEH, FE, FD, FDC, V5],
  [('delta + varint coding of integers', FEH), ('copy coding of bytes', FEH), ('integer decoders', FD)])
p('C03', 'Floating-point fields without a resolution are restored bit by bit',
  'Every float32 or float64 field that is not quantized (lossless mode, or no resolution given) is restored with the identical bit pattern, NaN payloads, signed zeros and infinities included, whatever values precede it and however the window of significant bits evolves.',
  ['inputs', 'histories'], 'all sequences of 32/64-bit patterns of any length, any layout',
  'The bit-window coding of doubles carries a state over the cloud; tests visit few window transitions and no adversarial patterns.', [FE, FD, FDC, FEH],
  [('XOR and Gorilla coding of doubles and floats', FE), ('their decoders', FD)])
p('C04', 'Quantized coordinates stay within half the resolution',
  'For every field coded with a resolution r, each decoded value differs from the original by at most r/2 plus the rounding error of the floating-point format, for all finite values up to 2^30 r in single and 2^50 r in double precision. The error does not grow along the cloud: it does not depend on the values of other points or fields.',
  ['inputs', 'histories'], 'all finite values within the stated range, all positive normal resolutions, all preceding histories',
  'Error accumulation of delta coding and rounding at half ticks show up only for special values and long histories; tests compare a few smooth clouds with a loose tolerance.', [FE, FEH, FD, FDC],
  [('quantization with delta coding, scalar and SIMD', FE), ('dequantization', FDC)])
p('C05', 'NaN values are preserved and never disturb other values',
  'A NaN in a quantized field decodes to NaN in that field, and a number decodes to a number. A NaN in one field or point never changes the decoded value of any other field or point.',
  ['inputs', 'histories'], 'all NaN payloads, at any point of any history, in any subset of the fields of a point',
  'NaN shares a reserved code with the deltas and touches the prediction state; tests place NaN in few positions and only with the quiet payload.', [FE, FD, FDC],
  [('NaN marker and state handling of the lossy coders', FE), ('their decoders', FDC)])
p('C06', 'Decoding arbitrary bytes is memory safe and terminates',
  'Decoding a header, a compressed cloud or a DDS message from arbitrary bytes (damaged, truncated or hostile) never reads outside the input, never writes outside the output given by the caller, and terminates. It either succeeds or throws an exception derived from std::exception.',
  ['inputs'], 'all byte strings and all headers; allocation limits aside',
  'Decoders index memory with lengths, offsets, counts and bit windows taken from the input; tests feed almost only valid data (several reads and writes out of bounds were found and repaired).', [FD, FDC, V4, V5, CL, CDR, ROS, CC],
  [('bounds checks of the field decoders', FD), ('adaptive section decoder', V5), ('chunk loop', CL), ('chunk of points', V4), ('CDR reader', CDR)])
p('C07', 'Encoding always fits in the advertised worst case',
  'The number of bytes an encoder produces never exceeds the worst case it advertises for that schema and number of points, whatever the content. With an output of that size encoding never fails for lack of space and never writes past its end.',
  ['inputs', 'configurations'], 'all contents, schemas, options and cloud sizes',
  'The worst case depends on the per-field maximum, on the chunk overhead, and on how an adaptive mode fares on later content; tests use compressible data.', [CC, CL, V4, V5],
  [('MaxCompressedSize / MaxSerializedPointSize', CC), ('stage buffers', V5), ('WriteStage1Chunk', CC)])
p('C08', 'A cloud is a sequence of sized chunks and partial data is rejected',
  'An encoded cloud is a sequence of chunks, each preceded by its exact size and holding the next 32768 points (the last one the rest), which together decode to all points in order. Data that ends early, holds extra chunks or bytes after the last one, or claims more than there is, is rejected instead of yielding a partly filled cloud.',
  ['inputs', 'configurations'], 'all clouds of any number of points, all truncations at any byte, all surplus data',
  'Boundary behaviour appears only for clouds beyond one chunk and at each possible cut; tests use clouds that fit in one chunk or a few sizes.', [CL, V4, CC],
  [('chunk loop of the decoder', CL), ('chunk loop of the encoder', V4), ('WriteStage1Chunk', CC)])
p('C09', 'Encoder and decoder agree on the coding of every field of every schema',
  'For every schema, encoding option and format version the decoder selects, for each field and in the same order, the counterpart of the coding that the encoder selected, also where several leading float fields are coded together. Hence any cloud, whatever its mix of field types and resolutions, decodes to its own points.',
  ['configurations', 'inputs'], 'all field types x resolution present or not x options x versions 3 to 5 x field orders',
  'The choice is made independently on both sides from types, resolutions, positions and versions; tests cover a few common layouts.', [CC, V4, V5, FEH, FD],
  [('CreateCompatibleEncoder / CreateCompatibleDecoder', CC), ('BuildV4Encoders / BuildV4Decoders', V4), ('BuildV5Decoders and the encoding plan', V5)])
p('C10', 'Headers round-trip in both representations',
  'Every header that an encoder writes, text or binary, is read back with the same version, dimensions, options, field names, offsets, types and exact resolutions, and reading consumes exactly the header. A truncated header is rejected.',
  ['inputs', 'configurations'], 'all dimensions (width below 2^24), offsets, types, positive normal resolutions, names of letters, digits, "_", ".", "/"',
  'Resolutions printed with few digits and sizes that look like the other representation break only particular values; tests use round ones.', [CL, L + 'include/cloudini_lib/yaml_parser.hpp'],
  [('EncodeHeader / DecodeHeader', CL), ('EncodingInfoToYAML / EncodingInfoFromYAML', CL)])
p('C11', 'Decoding writes only the bytes of the stored fields',
  'Decoding a cloud writes, in each point of the output, only the bytes that belong to fields that are stored; padding and everything outside the points keep their content. A field marked to be skipped is decoded without being stored, and leaves all other fields as they would be without the mark.',
  ['inputs', 'configurations'], 'all layouts with gaps, padding, any subset of skipped fields, any content',
  'Tests compare the stored fields only, with packed layouts; an overwrite of padding or of a neighbouring field goes unnoticed.', [FD, FDC, V5],
  [('stores of the field decoders', FD), ('stores of the adaptive sections', V5)])
p('C12', 'Adaptive integer sections of format 5 decode exactly in every mode',
  'Whatever mode the encoder of format 5 picks for an integer field (plain deltas, palette, runs, runs of deltas), and also when the content changes its character after the mode was picked, the field decodes to exactly the encoded values.',
  ['inputs', 'histories'], 'all sequences of values for all adaptive types, over several chunks; all section contents for the decoder',
  'The mode is chosen from a sample of the first chunk and used for the rest; tests rarely leave the assumptions of the mode.', [V5],
  [('encode/decode of the four modes', V5), ('mode selection', V5)])
p('C13', 'PointCloud2 messages keep their meaning when converted',
  'Reading a PointCloud2 message in CDR form yields its header, fields and data for either byte order, and converting it to a compressed message and back yields the original message except for what the codec loses, byte by byte outside of the data. A truncated message is rejected.',
  ['inputs', 'configurations'], 'all messages (names, fields, sizes, both endiannesses, alignment)',
  'Alignment and byte order depend on the length of every string before; tests use a few little-endian messages.', [ROS, CDR],
  [('CDR reader and writer', CDR), ('message conversion', ROS)])
p('C14', 'Chunks and clouds are coded independently of each other',
  'The encoding of a chunk does not depend on earlier chunks or clouds except for the mode of an adaptive section, and its decoding depends on nothing but its bytes and the header. Therefore reusing an encoder or decoder, after a success or an exception, gives the same result as a fresh one.',
  ['histories', 'inputs'], 'all sequences of clouds through one encoder or decoder; all chunk positions',
  'Leftover prediction state shows only when an object is used again after particular content; tests use fresh objects.', [V4, V5, FE, FD, CL],
  [('reset of the field coders at each chunk', V4), ('clearing of the buffers', CL)])
p('C15', 'PCL clouds and PCD files are converted faithfully',
  'Encoding a PCL cloud and decoding it gives the same points up to the resolution, the same dimensions and fields, also when the destination point type has more or fewer fields than the encoded one. The field types of a PCD file are those that its header states.',
  ['inputs', 'configurations'], 'all contents, sizes, field types; both point types',
  'Stride and offset differences between the stored and the destination type matter only for mixed types, which no test uses.', [PCLH, PCLC],
  [('PointcloudDecode with adapted offsets', PCLH), ('ReadEncodingInfoFromPCD', PCLC)])
p('C16', 'Preprocessing for visualization drops only redundant or invalid points',
  'The preprocessing keeps the bytes and the order of the remaining points; it removes a point only if a coordinate is not finite or an earlier kept point falls in the same cell of the resolution grid. Clouds without a geometry triple are left as they are.',
  ['inputs'], 'all contents, layouts, resolutions, ranges of coordinates',
  'Cells are packed into a finite key that can collide for far points; tests use clouds near the origin.', [ROS],
  [('applyVizLossyPreprocessing / packVoxelKey21', ROS)])
p('C17', 'The encoder with a worker thread produces the same bytes',
  'Encoding with a worker thread gives exactly the bytes of encoding without one, under every interleaving of the two threads, and never deadlocks.',
  ['schedules'], 'all interleavings of the encoding thread and the compression thread',
  'Tests see the interleavings of one machine.', [CL],
  [('compression worker, mutex and condition variables', CL)])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in out))
