"""What each check runs: contract entries (driver, entry, time budget in s), the native harness
that replays and searches failing inputs, and the text of its evidence."""
PROPS = {}


def P(id, **k): PROPS[id] = k


# the contracts of encodeVarint64/decodeVarint that callers are checked against (contracts_.py)
VARINT = [('d_varint', 'c01_' + e, 120) for e in 'roundtrip encode_frame arbitrary truncated size'.split()]
INTS = 'int8 uint8 int16 uint16 int32 uint32 int64 uint64'.split()
FLOATS = 'f32_lossy f32_xor f32_plain f32_legacy f64_lossy f64_xor'.split()
GROUPS = [('d_lossy', 'c04_v_group3', 300), ('d_lossy', 'c04_v_group4', 400)]

P('C01', entries=VARINT, native='n_C01',
  note='All 2^64 values and all byte strings: no bound (the loops run at most ten times, by a discharged obligation).')
P('C02', entries=[('d_field', 'c02_' + t, 300) for t in INTS],
  native='n_C02',
  note='Field by field, for all values, histories of any length (loop invariants inferred and discharged), offsets and strides; per field coder as the real factories build it.')
P('C03', entries=[('d_field', 'c03_f64_lossless', 600), ('d_field', 'c03_f64_plain', 600)] +
  [('d_field', 'c03_' + t, 300) for t in 'f64_lossless_res f32_xor f32_xor_res f32_plain'.split()],
  native='n_C03',
  note='As C02, for bit patterns of floats and doubles (XOR and bit-window coding).')
P('C04', entries=VARINT + [('d_lossy', 'c04_v_f32', 200), ('d_lossy', 'c04_v_f64', 200)] + GROUPS, native='n_C04',
  note='Every quantised float and double, single or in a leading group of three or four: the bound is discharged by forward error analysis over the expression the real code computes, for every value within the stated range and every history.')
P('C05', entries=VARINT + [('d_lossy', 'c05_v_f32', 200), ('d_lossy', 'c05_v_f64', 200)] + GROUPS, native='n_C05',
  note='NaN in, NaN out; a number stays a number within the bound of C04 whatever NaNs came before or beside it.')
P('C06', entries=VARINT + [('d_any', 'c06_v_' + t, 300) for t in INTS + FLOATS] + [('d_any', 'c06_v_' + t, 400) for t in 'f64_plain f64_lossless group3 group4'.split()] +
  [('d_v5', 'c12_' + e, 200) for e in 'read_delta read_rle read_delta_rle skip_delta skip_rle skip_delta_rle uvarint_any'.split()] + [('d_v5chunk', 'c12_decode_chunk', 200)],
  native='n_C06',
  note='Every field decoder in every state it can reach, and the sections of format 5 (plain, run, run of deltas) with any number of points, on arbitrary bytes: no access outside the input or the field, no overrun. Palette sections are only searched (native).')
P('C11', entries=VARINT + [('d_any', 'c11_v_' + t, 300) for t in INTS + FLOATS] + [('d_field', 'c11_f64_lossless', 600), ('d_field', 'c11_f64_plain', 600)] +
  [('d_v5', 'c12_skip_' + e, 200) for e in 'delta rle delta_rle'.split()],
  native='n_C11',
  note='Frame of every field decoder (only the bytes of the field) and skipped == stored in what is consumed.')
P('C14', entries=[('d_reset', 'c14_v_%s_group%d' % (d, n), 500) for n in (4, 3) for d in ('enc', 'dec')] +
  [('d_reset', 'c14_v_%s_%s' % (d, t), 200) for t in INTS + [f for f in FLOATS if f != 'f32_legacy'] for d in ('enc', 'dec')] + VARINT,
  thorough=[('d_reset', 'c14_f64_lossless', 800)], native='n_C14',
  note='Every field coder in lockstep with a new one, after any history (failures included) and reset(): same sizes, same bytes, same failures. (The bit-window coder of doubles: in the thorough tier.)')
P('C08', entries=[('d_chunk', 'c08_decode_bytes', 400), ('d_chunk', 'c08_decode_points', 400), ('d_chunk', 'c08_encode_points', 200)] +
  [('d_chunk', 'c08_' + e, 150) for e in 'framing encode_cloud write_chunk decode_chunk decode_legacy'.split()] + [('d_v5chunk', 'c12_decode_chunk', 200)],
  thorough=[('d_chunk', 'c08_encode_bytes', 700)], native='n_C08',
  note='The loops over chunks, points and field coders, for any number of each: which coder gets which point and which bytes, every chunk framed by its exact size, all points decoded or the data rejected. (Where each coder writes in the chunk: in the thorough tier.)')
V5SIZE = [('d_v5', 'c12_uvarint', 60)]
P('C07', entries=[('d_size', 'c07_' + e, 120) for e in 'point chunk stage_buffer cloud header'.split()] + [('d_chunk', 'c08_encode_cloud', 250)] + VARINT + V5SIZE +
  [('d_field', 'c02_' + t, 300) for t in INTS] + [('d_field', 'c03_' + t, 300) for t in 'f64_lossless_res f32_xor f32_xor_res f32_plain'.split()] + [('d_lossy', 'c04_v_f32', 200), ('d_lossy', 'c04_v_f64', 200)] + GROUPS,
  thorough=[('d_field', 'c03_f64_lossless', 600)], native='n_C07',
  note='Each field coder within its advertised maximum, the sums over fields, points and chunks of any number, the length of each value of a section of format 5, and the space left before each chunk is written. The sum over a section of format 5 is only searched (native).')
V5DEC = [('d_v5', 'c12_' + e, 200) for e in 'read_delta read_rle read_delta_rle skip_delta skip_rle skip_delta_rle uvarint_any'.split()]
V5ENC = [('d_v5', 'c12_' + e, 300) for e in 'write_delta write_rle write_delta_rle chunk_delta chunk_rle chunk_delta_rle'.split()]
V5PAL = [('d_v5', 'c12_' + e, 150) for e in 'uvarint bits bits_needed palette_table palette_table_grows palette_add palette'.split()]
PALB = ['palette sections: bit packing of up to 10 indexes of each width 1 to 16, the table with 16 slots and 3 values, sections of up to 5 points']
P('C12', entries=V5DEC + V5ENC + V5PAL + [('d_v5chunk', 'c12_decode_chunk', 200)] + VARINT, native='n_C12', bounded=PALB,
  note='Readers and writers (streaming and whole chunk) of the delta, run and run-of-deltas sections, for any number of values of each of the six types: what is written is what the reader accepts and yields.')
P('C09', entries=[('d_build', 'c09_' + e, 150) for e in 'build_v4 build_v5 group_count none'.split()] + VARINT + [('d_field', 'c02_' + t, 300) for t in INTS] +
  [('d_field', 'c03_' + t, 300) for t in 'f64_lossless_res f32_xor f32_xor_res f32_plain'.split()] + [('d_lossy', 'c04_v_f32', 200), ('d_lossy', 'c04_v_f64', 200)] + GROUPS,
  thorough=[('d_field', 'c03_f64_lossless', 600)], native='n_C09',
  bounded=['schemas of up to 5 fields for versions 3 and 4 and up to 4 for version 5 (every type, resolution, option and order)'],
  note='The coders that both factories build for every schema are counterparts, in the same order; each pair decodes what it encodes.')
